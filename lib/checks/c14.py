"""C14: truncated or malformed input cannot make a program loop for ever.

For every loop that reads an input stream: assume the stream is exhausted (every read fails, every state test says so), drop the branches
that are impossible under that assumption, and require that no cycle through the loop is left, except one bounded by a counter."""
import re
from model import *
from common import *
from report import Check

STREAM = re.compile(r"\b(?:std::)?(?:basic_)?(?:i|if|io|f|istring|string)stream\b")
def is_in(n):
    n = strip(n, explicit=True)
    return n is not None and n.t is not None and STREAM.search(n.t) is not None and not n.t.rstrip().endswith("*") 

CHARREAD = {"getline", "get", "read", "ignore", "readsome", "peek"}

def same_stream(a, b):
    pa, pb = path(a), path(b)
    return pa is not None and pa == pb

def stream_of(n):
    """Stream a (possibly chained) extraction expression reads from."""
    n = strip(n, explicit=True)
    while n is not None and n.k in ("CXXOperatorCallExpr",) and n.x["op"] == ">>" and len(n.ch) == 3: n = strip(n.ch[1], explicit=True)
    if n is not None and n.k == "CallExpr" and n.d is not None and n.d.n == "getline": n = strip(args(n)[0], explicit=True)
    if n is not None and n.k == "CXXMemberCallExpr" and n.d.n in CHARREAD and obj(n) is not None and is_in(obj(n)): n = strip(obj(n), explicit=True)
    return n

def read_of(n):
    """(stream expression, [targets], numeric?) if n is a read of an input stream."""
    if n.k == "CXXOperatorCallExpr" and n.x["op"] == ">>" and len(n.ch) == 3 and is_in(n.ch[1]):
        tg = n.ch[2]
        t = (strip(tg).t or "")
        num = not re.search(r"string|char|ios_base|istream", t)
        return (stream_of(n), [tg], num)
    if n.k == "CallExpr" and n.d is not None and n.d.n == "getline" and args(n) and is_in(args(n)[0]): return (stream_of(n), [args(n)[1]], False)
    if n.k == "CXXMemberCallExpr" and n.d.n in CHARREAD and obj(n) is not None and is_in(obj(n)):
        return (strip(obj(n), explicit=True), args(n)[:1], n.d.n in ("getline", "get", "read") and n.d.n != "get")
    return None

def callee_reads(P, n):
    """Calls handing a stream to a function of the program: (stream expression)."""
    if n.k not in CALLS or not P.targets(n): return None
    for a in args(n):
        if is_in(a) and (n.d.pt is None or not any(p.startswith("const std::basic_i") for p in n.d.pt)): return strip(a, explicit=True)
    return None

YES, NO, ALIVE = True, False, None
def under_failure(c, streams, eof_ok):
    """Truth value of condition c once the streams are exhausted; None when it does not depend on the stream state."""
    c = strip(c, explicit=True)
    if c is None: return None
    mine = lambda e: any(same_stream(e, s) for s in streams) or any(is_under(strip(e, explicit=True), s) for s in [])
    if c.k == "UnaryOperator" and c.x["op"] == "!":
        v = under_failure(c.ch[0], streams, eof_ok)
        return None if v is None else not v
    if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"):
        a, b = under_failure(c.ch[0], streams, eof_ok), under_failure(c.ch[1], streams, eof_ok)
        if c.x["op"] == "&&":
            if a is False or b is False: return False
            return True if a and b else None
        if a is True or b is True: return True
        return False if a is False and b is False else None
    if c.k == "BinaryOperator" and c.x["op"] in ("==", "!=") :
        a, b = c.ch
        for x, y in ((a, b), (b, a)):
            v = under_failure(x, streams, eof_ok)
            k = const(y)
            if v is not None and k in (0, 1):
                r = (v == bool(k))
                return r if c.x["op"] == "==" else not r
            if strip(y, explicit=True).k in ("GNUNullExpr", "CXXNullPtrLiteralExpr") and v is not None:
                return (not v) if c.x["op"] == "==" else v
            m = strip(x, explicit=True)
            if m is not None and m.k == "CXXMemberCallExpr" and m.d.n in ("peek", "get") and obj(m) is not None and mine(obj(m)):
                # the value is EOF
                if k == -1: return c.x["op"] == "=="
                if k is not None: return c.x["op"] == "!="
        return None
    if c.k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr"):
        if c.k == "CXXMemberCallExpr" and c.d.n in ("operator bool", "operator void *"): return under_failure(obj(c), streams, eof_ok)
        if c.k == "CXXOperatorCallExpr" and c.x["op"] == "!":
            v = under_failure(c.ch[1], streams, eof_ok)
            return None if v is None else not v
        if c.k == "CXXMemberCallExpr" and obj(c) is not None and is_in(obj(c)):
            o = stream_of(obj(c)) if not mine(obj(c)) else strip(obj(c), explicit=True)
            if o is not None and mine(o):
                if c.d.n == "good": return False
                if c.d.n == "fail": return True
                if c.d.n == "eof": return True if eof_ok else None
                if c.d.n in ("get", "getline", "read") and is_in_type(c.d.rt): return False
            return None
        r = read_of(c)
        if r is not None and r[0] is not None and mine(r[0]): return False
        if c.k == "CallExpr" and c.d is not None and c.d.n in ("isspace", "isdigit", "isalpha", "isalnum", "std::isspace") and args(c):
            m = strip(args(c)[0], explicit=True)
            if m.k == "CXXMemberCallExpr" and m.d.n in ("peek", "get") and mine(obj(m)): return False
        return None
    if is_in(c) and mine(c): return False
    return None

def is_in_type(t): return bool(t) and STREAM.search(t) is not None

def loop_blocks(f, lp):
    """Blocks of the natural loop(s) whose terminator or body belongs to lp."""
    f.cfg()
    heads = []
    body = set()
    back = []
    dom = dominators(f)
    for b in f.blocks.values():
        for s in b.succ:
            if s is not None and s.id in dom.get(b.id, ()): back.append((b, s))
    for b, h in back:
        # natural loop of this back edge
        seen, st = {h.id, b.id}, [b]
        while st:
            x = st.pop()
            if x is h: continue
            for q in x.pred:
                if q.id not in seen: seen.add(q.id); st.append(q)
        yield b, h, seen

def counter_exit(f, blocks, b):
    """Branch block b leaves or stays depending on a counter stepped in the loop."""
    c = b.cond
    if c is None: return False
    vs = {m.d for m in walk(c) if m.k in ("DeclRefExpr",) and m.d.k in ("local", "parm")}
    if not any(m.k == "BinaryOperator" and m.x["op"] in ("<", ">", "<=", ">=", "!=", "==") or m.k == "DeclRefExpr" or m.k == "UnaryOperator" for m in walk(c)): return False
    for bl in blocks:
        for e in f.blocks[bl].el:
            if delta(e) and vdecl(e.ch[0]) in vs: return True
            if e.k == "BinaryOperator" and e.x["op"] == "=" and (strip(e.ch[0]).t or "").endswith("*") and vdecl(e.ch[0]) in vs \
               and any(m.k == "MemberExpr" for m in walk(e.ch[1])): return True       # list traversal
    for m in walk(c):
        if m.k == "UnaryOperator" and m.x["op"] in ("++", "--"): return True
    return False

def opened_ok(f, s, at):
    """The stream was tested after opening, before the loop: a failed open cannot reach it."""
    p = path(s)
    if p is None: return True
    if p[0] in f.params or p[0] == "this": return True
    if not re.search(r"fstream", strip(s, explicit=True).t or ""): return True      # not a file: good until the data end
    d = p[0]
    opens = [n for n in f.nodes if n.k == "CXXMemberCallExpr" and n.d.n == "open" and path(obj(n)) == p]
    opens += [n for n in f.nodes if n.k == "VarDecl" and n.d is d and n.ch and any(args(m) and m.k in CTORS for m in walk(n.ch[0]))]
    tests = set()
    for n in f.nodes:
        if n.k not in ("IfStmt", "WhileStmt", "ForStmt", "ConditionalOperator"): continue
        c = cond_of(n) or n.ch[0]
        if c is None: continue
        for m in walk(c):
            if under_failure(m, [s], False) is not None or m.k == "CXXMemberCallExpr" and m.d.n == "is_open" and path(obj(m)) == p:
                q = f.pos(m)
                if q: tests.add(q[0])
    pa = f.pos(at)
    if pa is None: return True
    for o in opens:
        q = f.pos(o) or f.pos(o.p)
        if q is None or q[0] in tests: continue
        seen, st = set(), [f.cfg()[q[0]]]
        while st:
            x = st.pop()
            for nx in x.succ:
                if nx is None or nx.id in seen or nx.id in tests: continue
                seen.add(nx.id); st.append(nx)
        if pa[0] in seen or pa[0] == q[0]: return False
    return True

def check():
    P = load()
    C = Check("C14", "for every loop reading an input stream: under the assumption that the stream is exhausted no cycle of the loop remains "
              "feasible except one bounded by a counter or a list traversal")
    seen_loops = set()
    for f in P.fns.values():
        if not f.file.startswith("code/latte"): continue
        rd = [n for n in f.nodes if n.k in CALLS and (read_of(n) is not None or callee_reads(P, n) is not None)]
        if not rd: continue
        f.cfg()
        for b, h, blocks in loop_blocks(f, None):
            ins = [n for n in rd if f.pos(n) and f.pos(n)[0] in blocks]
            if not ins: continue
            streams, eofonly = [], True
            for n in ins:
                r = read_of(n)
                s = r[0] if r else callee_reads(P, n)
                if s is None: continue
                if not any(same_stream(s, x) for x in streams): streams.append(s)
            if not streams: continue
            numeric = any((read_of(n) or (None, None, callee_numeric(P, n)))[2] for n in ins)
            direct = [n for n in ins if read_of(n) is not None]
            anchor = direct[0] if direct else ins[0]
            eof_ok = not numeric and all(opened_ok(f, s, anchor) for s in streams)
            # feasible edges inside the loop once every stream of it is exhausted
            def succs(x):
                v = None
                if any(ends_here(P, e, streams) for e in x.el): return
                if x.cond is not None and len(x.succ) == 2: v = under_failure(x.cond, streams, eof_ok)
                for i, s in enumerate(x.succ):
                    if s is None or (x.noret and s is f.exit): continue
                    if v is True and i == 1 or v is False and i == 0: continue
                    if x.noret: continue
                    yield s
            # reach a read first: the cycle must contain a read to be driven by the stream
            cyc, seen, st = False, set(), [h]
            while st:
                x = st.pop()
                for s in succs(x):
                    if s.id not in blocks: continue
                    if s is h: cyc = True
                    if s.id not in seen: seen.add(s.id); st.append(s)
            src = f.blocks[h.id]
            lpn = b.term or h.term
            where = lpn if lpn is not None else anchor
            lab = text(cond_of(where) if where.k in LOOPS and cond_of(where) is not None else where)[:50]
            if not cyc: C.ok("stream_loops", where, "ends when the stream is exhausted"); continue
            # blocks on the surviving cycles
            live = {x for x in seen | {h.id}}
            dom = dominators(f)
            bounded = False
            for x in live:
                bx = f.blocks[x]
                if bx.cond is not None and len(bx.succ) == 2 and any(s is not None and s.id not in blocks for s in bx.succ) and x in dom.get(b.id, ()) | {b.id}:
                    if counter_exit(f, blocks, bx): bounded = True; break
            if bounded: C.ok("counted_loops", where, "bounded by a counter"); continue
            # exits that do not depend on what the stream delivers (results of parsing functions)
            unknown = False
            for x in live:
                bx = f.blocks[x]
                if bx.cond is None or not any(s is not None and (s.id not in blocks or s.noret) for s in bx.succ): continue
                if any(m.k in CALLS and P.targets(m) and callee_reads(P, m) is not None and fails_visibly(P, m) for m in walk(bx.cond)): unknown = True
            if unknown: C.ok("parser_loops", where, "ends when the parsing function reports failure"); continue
            C.bad("stream_loops", "hang:%s:%s" % (f.short, lab), where,
                  "when the input ends early or is malformed this loop never ends: none of its exits tests the state of the stream it reads")
    C.floor("stream_loops", 25); C.floor("counted_loops", 80)
    return C.finish(P)

_dies = {}
def dies_on_failure(P, t, ix):
    """Function t never returns when the stream passed as parameter ix is exhausted."""
    key = (t.key, ix)
    if key in _dies: return _dies[key]
    _dies[key] = False
    s = [m for m in t.nodes if m.k == "DeclRefExpr" and m.d is t.params[ix]][:1]
    if s:
        def edge(b, i, nx):
            v = under_failure(b.cond, s, True) if b.cond is not None and len(b.succ) == 2 else None
            return not (v is True and i == 1 or v is False and i == 0)
        _dies[key] = not returns(P, t, noreturn(P), edge, lambda e: ends_here(P, e, s))
    return _dies[key]

def ends_here(P, e, streams):
    if call_ends(P, e, noreturn(P)): return True
    if e.k in CALLS:
        for t in P.targets(e):
            for i, a in enumerate(args(e)):
                if i < len(t.params) and is_in(a) and any(same_stream(a, s) for s in streams) and dies_on_failure(P, t, i): return True
    return False

def callee_numeric(P, n):
    return any((read_of(m) or (0, 0, False))[2] for t in P.targets(n) for m in t.nodes if m.k in CALLS)

def fails_visibly(P, m):
    """The called parser returns a null / false value on some path."""
    for t in P.targets(m):
        for r in t.nodes:
            if r.k == "ReturnStmt" and r.ch and (const(r.ch[0]) == 0 or strip(r.ch[0], explicit=True).k in ("GNUNullExpr", "CXXNullPtrLiteralExpr")): return True
    return False
