import model, sys, re
from model import *
P=model.load()
def calls(pat):
    for f in P.fns.values():
        for n in f.nodes:
            if is_call(n) and n.d is not None and n.d.k=='fn' and re.search(pat, n.d.qn or ''):
                print(loc(n), f.short, '|', text(n)[:160])
if __name__=='__main__': calls(sys.argv[1])
