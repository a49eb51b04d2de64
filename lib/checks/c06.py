"""C06  Missing, unreadable or incomplete input and failing helpers stop the run.

Typestate of every input stream that is opened on a file: a read leaves it unverified, a test of its state whose failing side
cannot continue the computation verifies it; it must be verified when the function that owns it is left.  Every helper
program's exit status and every rename is tested in the same way."""
import re
from common import *
from effects import effects
from report import Check

RULE = ("typestate on the CFG of every function that opens a file for reading or receives an input stream (unverified after open/read, "
        "verified by a state test whose failing edge never continues), with callee summaries for stream parameters; result tests of every "
        "system/popen/rename/fopen call; commands checked for parts whose status the shell discards")

STREAM = ("ifstream", "istream", "fstream")
STATE = {"fail", "good", "is_open", "operator bool", "operator!", "eof", "bad", "operator void *"}

def is_stream_type(t):
    t = t or ""
    return ("basic_ifstream" in t or "basic_istream" in t or "basic_fstream" in t or "basic_iostream" in t) and "vector" not in t

def test_of(n):
    """(stream expression, kind, truth that means good) for a condition that tests a stream"""
    n = strip(n)
    if n is None: return None
    if n.k == "UnaryOperator" and n.x["op"] == "!":
        r = test_of(n.ch[0])
        return (r[0], r[1], not r[2]) if r else None
    if n.k == "CXXOperatorCallExpr" and n.x["op"] == "!" and len(n.ch) == 2 and is_stream_type(strip(n.ch[1]).t): return (n.ch[1], "state", False)
    if n.k == "CXXMemberCallExpr" and n.d is not None and n.d.n in STATE:
        o = obj(n)
        if o is None: return None
        if n.d.n in ("operator bool", "operator void *"): return (o, "state", True)
        if n.d.n in ("good",): return (o, "state", True)
        if n.d.n == "is_open": return (o, "open", True)
        if n.d.n == "fail": return (o, "state", False)
        if n.d.n == "operator!": return (o, "state", False)
        return (o, n.d.n, False)
    if n.k == "BinaryOperator" and n.x["op"] in ("&&", "||"): return test_of(n.ch[1])     # the block that evaluates the last operand
    if n.k == "BinaryOperator" and n.x["op"] in ("==", "!="):
        a, b = n.ch
        if const(a) is not None: a, b = b, a
        if const(b) in (0, 1):
            r = test_of(a)
            if r: return (r[0], r[1], r[2] == (const(b) == 1) if n.x["op"] == "==" else r[2] != (const(b) == 1))
    if n.k == "CXXOperatorCallExpr" and n.x["op"] == ">>" and is_stream_type(n.t): return (n, "state", True)
    return None

class A:
    def __init__(self, P):
        self.P, self.E = P, effects(P)
        self.N = noreturn(P)
        self.summ = {}

    def stream_of(self, f, n, depth=0):
        """Variable (local, parameter, member) a stream expression denotes"""
        n = strip(n)
        if n is None or depth > 60: return None
        if n.k == "DeclRefExpr": return n.d if is_stream_type(n.d.t) else None
        if n.k == "MemberExpr": return n.d if is_stream_type(n.d.t) else None
        if n.k == "CXXOperatorCallExpr" and n.x["op"] in (">>", "<<"): return self.stream_of(f, n.ch[1], depth + 1)
        if n.k == "CXXOperatorCallExpr" and n.x["op"] == "!": return self.stream_of(f, n.ch[1], depth + 1)
        if n.k == "UnaryOperator": return self.stream_of(f, n.ch[0], depth + 1)
        if n.k == "CXXMemberCallExpr":
            o = obj(n)
            return self.stream_of(f, o, depth + 1) if o is not None else None
        if n.k == "CallExpr":
            for a in args(n):
                s = self.stream_of(f, a, depth + 1)
                if s is not None: return s
        return None

    # -- events: list of (stream decl, 'open' | 'read' | ('call', keys, ix) | 'reset')
    def events(self, f, e):
        out = []
        if e.k in ("DeclStmt", "VarDecl"):
            for v in (e.ch if e.k == "DeclStmt" else [e]):
                if v.k == "VarDecl" and is_stream_type(v.d.t) and not v.d.t.endswith(("&", "*")):
                    init = v.ch[0] if v.ch else None
                    A_ = [a for a in (strip(init).ch if init is not None and strip(init).k in CTORS else [])]
                    if A_ and any(a.k != "CXXDefaultArgExpr" for a in A_): out.append((v.d, "open"))
            return out
        if e.k == "CXXMemberCallExpr" and e.d is not None:
            o = obj(e)
            s = self.stream_of(f, o) if o is not None else None
            if s is not None:
                if e.d.n == "open": out.append((s, "open"))
                elif e.d.n == "get" and self.skipping(f, e): pass
                elif e.d.n in ("get", "getline", "read", "ignore", "putback", "unget"): out.append((s, "read"))
                elif e.d.n in ("clear",): out.append((s, "reset"))
                elif e.d.n == "operator>>": out.append((s, "read"))
                elif e.d.n == "rdbuf": out.append((s, "stolen"))
                return out
        if e.k == "CXXOperatorCallExpr" and e.x["op"] == ">>" and len(e.ch) == 3:
            s = self.stream_of(f, e.ch[1])
            if s is not None and is_stream_type(strip(e.ch[1]).t or "") or s is not None:
                T = self.P.targets(e)
                if T: out.append((s, ("call", tuple(t.key for t in T), 0)))
                else:
                    rhs = strip(e.ch[2])
                    name = rhs.d.n if rhs.k == "DeclRefExpr" else ""
                    if name in ("ws", "dec", "hex", "skipws", "noskipws"): return out
                    out.append((s, "read"))
            return out
        if e.k in CALLS or e.k in CTORS:
            G = args(e)
            T = self.P.targets(e)
            for i, a in enumerate(G):
                if strip(a) is None or not is_stream_type(strip(a).t): continue
                s = self.stream_of(f, a)
                if s is None: continue
                if T: out.append((s, ("call", tuple(t.key for t in T), i)))
                elif e.d is not None and e.d.n in ("getline", "operator>>", "read_xml"): out.append((s, "read"))
        return out

    def fails_on(self, f, s):
        """Control entering block s never reaches the normal exit, except by reporting failure."""
        seen, st = set(), [s]
        while st:
            b = st.pop()
            if b is None or b.id in seen: continue
            seen.add(b.id)
            if b is f.exit: return False
            if b.noret: continue
            stop = False
            for e in b.el:
                if self.success_exit(e): return False
                if call_ends(self.P, e, self.N): stop = True; break
                if e.k == "ReturnStmt":
                    if self.failure_return(f, e): stop = True; break
            if stop: continue
            if b.el and b.el[-1].k == "CXXThrowExpr": continue
            st.extend(b.succ)
        return True

    def success_exit(self, e):
        return e.k in CALLS and callee_qn(e) in ("exit", "_exit", "std::exit") and const(args(e)[0]) == 0

    def failure_return(self, f, r):
        """return statement that reports failure: non-zero from main, a status constant that every caller tests"""
        if not r.ch: return False
        v = const(r.ch[0])
        x = strip(r.ch[0], explicit=True)
        isnull = x.k in ("GNUNullExpr", "CXXNullPtrLiteralExpr") or v == 0 and (f.d.rt or "").endswith("*")
        if f.d.n == "main": return v is not None and v != 0
        if v is None and not isnull: return False
        cs = self.P.callers().get(f.key, ())
        if not cs: return False
        for c in cs:
            p, ch = c.p, c
            while p is not None and p.k in TRANSPARENT: ch, p = p, p.p
            if p is None: return False
            d = None
            if p.k in ("IfStmt", "WhileStmt", "UnaryOperator", "BinaryOperator", "ConditionalOperator", "DoStmt", "ForStmt"):
                if p.k == "BinaryOperator" and p.x["op"] == "=":
                    if self.in_cond(p) or p.p is not None and p.p.k in ("ParenExpr", "BinaryOperator", "UnaryOperator"): continue
                    d = vdecl(p.ch[0])
                else: continue
            elif p.k == "VarDecl": d = p.d
            else: return False
            if d is None or not any(m.k == "DeclRefExpr" and m.d is d and self.in_cond(m) for m in c.fn.nodes): return False
        return True

    def loop_cond(self, n):
        """n is (part of) the condition of a loop: A in while (A && B)"""
        while n.p is not None and n.p.k in TRANSPARENT | {"BinaryOperator"} and (n.p.k != "BinaryOperator" or n.p.x["op"] == "&&"): n = n.p
        return n.p is not None and n.p.k in LOOPS and cond_of(n.p) is n

    def skipping(self, f, e):
        """in.get(c) with a character that is used nowhere: skips one character"""
        A_ = args(e)
        if not A_ : return not self.used(e)
        d = vdecl(A_[0])
        return len(A_) == 1 and d is not None and d.k == "local" and "char" in d.t and not any(
            m.k == "DeclRefExpr" and m.d is d and m.p is not None and not (m.p is e) for m in f.nodes)

    def used(self, e):
        p = e.p
        while p is not None and p.k in TRANSPARENT: p = p.p
        return p is not None and p.k not in ("CompoundStmt", "ForStmt", "WhileStmt", "IfStmt", "DoStmt")

    def tested(self, f):
        """Every caller uses the result of f in a condition."""
        cs = self.P.callers().get(f.key, ())
        return bool(cs) and all(any(a.k in ("IfStmt", "WhileStmt", "DoStmt", "ForStmt") for a in self.anc(c)) for c in cs)

    def anc(self, c):
        n = c
        while n.p is not None and not (n.p.k.endswith("Stmt")): n = n.p
        return [n.p] if n.p is not None and n.p.k in ("IfStmt", "WhileStmt", "DoStmt", "ForStmt") and cond_of(n.p) is n else []

    def in_cond(self, m):
        n = m
        while n.p is not None:
            if n.p.k in ("IfStmt", "WhileStmt", "DoStmt", "ForStmt", "ConditionalOperator", "SwitchStmt"):
                return cond_of(n.p) is n or n.p.k == "ConditionalOperator" and n is n.p.ch[0]
            if n.p.k.endswith("Stmt"): return False
            n = n.p
        return False

    # states of a stream: frozenset over {'-' not opened/untouched, 'U' unverified, 'C' verified, 'E' read until it ended, 'F' known bad}
    def flow(self, f, sd, entry):
        """(state at normal exit, witness node) of stream variable sd in f when it enters with the given states"""
        f.cfg()
        def step(e, st):
            for s, ev in self.events(f, e):
                if s is not sd: continue
                if ev in ("open", "read", "reset", "stolen"):
                    if ev == "read" and st == frozenset("-"): pass
                    st = frozenset("O") if ev == "open" else frozenset("U") if ev != "stolen" else st
                elif isinstance(ev, tuple):
                    out = frozenset()
                    for k in ev[1]:
                        out |= self.summary(k, ev[2], st)
                    st = out
            if e.k == "ReturnStmt" and (st & frozenset("FU")) and self.failure_return(f, e): st = (st - frozenset("FU")) | frozenset("C")
            return st
        def xfer(b, st):
            for e in b.el:
                st = step(e, st)
                if self.success_exit(e) and st & frozenset("F"): self.zero_exit.add((f.key, e.i, sd))
                if e.k == "CXXThrowExpr" or call_ends(self.P, e, self.N): return frozenset(["dead"])
            return st
        def edge(b, i, s, st):
            if st == frozenset(["dead"]): return None if s.term is None or s.term.k != "CXXTryStmt" else st
            if b.noret: return None
            if b.cond is None or len(b.succ) != 2: return st
            t = test_of(b.cond)
            if t is None:
                return st
            if self.stream_of(f, t[0]) is not sd: return st
            good = (i == 0) == t[2]
            loop = b.term is not None and (b.term.k in LOOPS or b.term.k == "BinaryOperator" and self.loop_cond(b.term))
            if t[1] == "eof" or t[1] == "bad":
                return st
            if good:
                if t[1] == "open": return frozenset("C" if x == "O" else x for x in st if x != "F")
                return frozenset("C")
            if loop and st <= frozenset("UCE"): return frozenset("E")
            r = frozenset("-") & st
            if st - r: r |= frozenset("F")
            return r
        def join(x, y):
            r = x | y
            return r - {"dead"} if len(r) > 1 else r
        IN = forward(f, entry, xfer, join, edge)
        return IN.get(f.exit.id, frozenset())

    def summary(self, key, ix, st):
        """exit states of a stream parameter"""
        f = self.P.fns[key]
        if not f.rawcfg: return frozenset("U")
        k = (key, ix, st)
        if k in self.summ: return self.summ[k]
        self.summ[k] = st                     # recursion
        if ix >= len(f.params): return frozenset("U")
        p = f.params[ix]
        r = self.flow(f, p, st)
        for _ in range(3):
            if r == self.summ[k]: break
            self.summ[k] = r
            r = self.flow(f, p, st)
        self.summ[k] = r
        return r

    def harmless(self, f):
        """The function only looks: it changes nothing but local variables (and messages), and returns nothing."""
        for n in f.nodes:                      # copies what it reads into a file
            if n.k == "CXXOperatorCallExpr" and n.x["op"] == "<<" and len(n.ch) == 3:
                r = n.ch[1]
                while strip(r) is not None and strip(r).k == "CXXOperatorCallExpr": r = strip(r).ch[1]
                d = vdecl(r)
                if d is not None and d.k == "local" and "basic_ofstream" in d.t and strip(n.ch[2]).k not in ("StringLiteral", "CharacterLiteral", "IntegerLiteral") \
                        and not (strip(n.ch[2]).k == "DeclRefExpr" and strip(n.ch[2]).d.k == "fn"): return False
        return f.d.rt == "void" and not any(not self.console(l) for l in self.E.sum.get(f.key, ()))

    def console(self, l):
        d = l[0]
        return isinstance(d, Decl) and d.k == "global" and d.n in ("cout", "cerr", "clog", "cin", "errno")

# programs of the source tree that are not installed: test drivers and demonstrations of the integration code
DEMO = ("integration/blockInt.cpp", "integration/burstInt.cpp", "integration/integrateDemo.cpp", "integration/integrateTest.cpp",
        "integration/multiplyTest.cpp", "integration/versusMode.cpp", "valuation/countLinearFormsFromPolynomialDriver.cpp")

# files that need not exist
OPTIONAL = {("OptimalCheck", "numOfUnimodularCones"): "the file of statistics is only written by some methods; the number is only reported as progress"}

def in_scope(f):
    return "/test/" not in f.file and "/experiments/" not in f.file and not (f.d.n == "main" and f.file.endswith(DEMO))

def check():
    P = load()
    ck = Check("C06", RULE)
    S = A(P)
    S.zero_exit = set()
    for f in P.fns.values():
        if not f.rawcfg or not in_scope(f): continue
        for n in f.nodes:
            if n.k != "VarDecl" or n.d.k != "local" or not is_stream_type(n.d.t) or n.d.t.endswith(("*", "&")): continue
            if not any(s is n.d and ev not in ("open", "reset", "stolen") for m in f.nodes for s, ev in S.events(f, m)):
                ck.ok("probe", n, "only asks whether the file exists; nothing is read from it")
                continue
            st = S.flow(f, n.d, frozenset("-"))
            bad = st & frozenset("UFO")
            if st & frozenset("O") and not st & frozenset("UF"):
                # opened on some path and left without reading or testing
                bad = frozenset()
            if not bad: ck.ok("stream", n, "state at the end of the function: %s" % "".join(sorted(st)))
            elif any(f.short == g and '"%s"' % w in text(n) for g, w in OPTIONAL): ck.ok("stream", n, next(t for (g, w), t in OPTIONAL.items() if g == f.short))
            elif S.harmless(f): ck.ok("stream", n, "only inspects the file; the reader that follows verifies it")
            else:
                why = "may be used without having been opened or after a failed read" if "U" in bad else "is known to have failed on a path that goes on"
                ck.bad("stream", "stream:%s:%s" % (f.short, n.d.n), n, "the input stream %s %s: no test of its state that stops the run lies between its last read and the end of %s" % (n.d.n, why, f.short))
    for (k, i, sd) in sorted(S.zero_exit, key=str):
        f = P.fns[k]
        ck.bad("stream", "exit0:%s:%s" % (f.short, sd.n), f.nodes[i], "the run ends as if it had succeeded although %s could not be read" % sd.n)
    helpers(P, ck, S)
    ck.floor("stream", 45)
    ck.floor("status", 10)
    ck.floor("command", 15)
    return ck.finish(P)

# calls whose result says whether they worked: name -> what success looks like
STATUS = {"system": "zero", "std::system": "zero", "rename": "zero", "std::rename": "zero", "mkdir": "zero", "pclose": "zero", "chdir": "zero",
          "link": "zero", "symlink": "zero", "gethostname": "zero",
          "fopen": "nonnull", "popen": "nonnull", "opendir": "nonnull", "fdopen": "nonnull", "mkdtemp": "nonnull",
          "fscanf": "count", "scanf": "count", "std::fscanf": "count"}

def status_test(n, isres):
    """(kind of comparison, True when the true edge is the success edge) if condition n tests a result recognised by isres"""
    n = strip(n)
    if n is None: return None
    if n.k == "BinaryOperator" and n.x["op"] in ("&&", "||"): return status_test(n.ch[1], isres)
    if n.k == "UnaryOperator" and n.x["op"] == "!":
        r = status_test(n.ch[0], isres)
        return (r[0], not r[1]) if r else None
    if n.k == "BinaryOperator" and n.x["op"] in ("==", "!=", "<", "<=", ">", ">="):
        a, b, op = n.ch[0], n.ch[1], n.x["op"]
        if not isres(a) and isres(b): a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not isres(a): return None
        v = const(b)
        if v is None and strip(b, explicit=True).k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): v = 0
        if v is None: return None
        return ((op, v), True)
    if isres(n): return (("!=", 0), True)
    return None

def meaning(kind, op, v):
    """Given success kind and the comparison that holds on an edge: 'good', 'bad' or None (not decided)"""
    if kind == "zero":
        if op == "==" and v == 0: return "good"
        if op == "!=" and v == 0: return "bad"
        if op == "==" and v != 0: return "bad"
        if op == "<" and v == 0: return "bad"
        if op == ">" and v == 0: return "bad"
    if kind == "nonnull":
        if op == "!=" and v == 0: return "good"
        if op == "==" and v == 0: return "bad"
    if kind == "count":
        if op in ("==", ">=") and v >= 1 or op == ">" and v >= 0: return "good"
        if op in ("!=", "<") and v >= 1 or op == "<=" and v >= 0: return "bad"
    return None

NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}

class Status:
    def __init__(self, P, S, ck):
        self.P, self.S, self.ck = P, S, ck
        self.wrap = {}                 # function key -> kind of the status it hands to its caller

    def kind(self, n):
        if n.k not in CALLS: return None
        q = callee_qn(n)
        if q in STATUS: return STATUS[q]
        for t in self.P.targets(n):
            if t.key in self.wrap: return self.wrap[t.key]
        return None

    def holder(self, f, call):
        """variable the result is stored in"""
        ch, p = call, call.p
        while p is not None and p.k in TRANSPARENT: ch, p = p, p.p
        if p is None: return None
        if p.k == "VarDecl": return p.d
        if p.k == "BinaryOperator" and p.x["op"] == "=" and p.ch[1] is ch:
            return assigned_var(p) or vdecl(p.ch[0]) or ("lv", text(p.ch[0]))
        return None

    def run(self, f, call, kind):
        v = self.holder(f, call)
        def isres(e):
            e = strip(e)
            if e is None: return False
            if e is call or strip(e, explicit=True) is call: return True
            if e.k == "BinaryOperator" and e.x["op"] == "=" and strip(e.ch[1], explicit=True) is call: return True
            if isinstance(v, tuple): return text(e) == v[1]
            return v is not None and vdecl(e) is v
        self.handed = False
        self.bad_at = None
        def xfer(b, st):
            for e in b.el:
                if e is call: st = frozenset("P")
                if e.k == "ReturnStmt" and e.ch and ("P" in st or "B" in st):
                    if isres(e.ch[0]): self.handed = True; st = frozenset("C")
                    elif self.S.failure_return(f, e) or vdecl(e.ch[0]) is not None and self.S.tested(f): st = frozenset("C") if "P" not in st else st
                if self.S.success_exit(e) and "B" in st: self.bad_at = e
                if e.k == "CXXThrowExpr" or call_ends(self.P, e, self.S.N): return frozenset(["dead"])
            return st
        def edge(b, i, s, st):
            if st == frozenset(["dead"]): return None if s.term is None or s.term.k != "CXXTryStmt" else st
            if b.noret: return None
            if b.cond is None or len(b.succ) != 2 or not st & frozenset("PB"): return st
            t = status_test(b.cond, isres)
            if t is None: return st
            op, c = t[0]
            if (i == 0) != t[1]: op = NEG[op]
            m = meaning(kind, op, c)
            if m == "good": return frozenset("C")
            if m == "bad": return frozenset("B")
            return st
        def join(x, y):
            r = x | y
            return r - {"dead"} if len(r) > 1 else r
        IN = forward(f, frozenset("-"), xfer, join, edge)
        return IN.get(f.exit.id, frozenset())

def helpers(P, ck, S):
    W = Status(P, S, ck)
    done = set()
    while True:
        todo = [(f, n) for f in P.fns.values() if f.rawcfg and in_scope(f) for n in f.nodes if (f.key, n.i) not in done and W.kind(n)]
        if not todo: break
        for f, n in todo:
            done.add((f.key, n.i))
            kind = W.kind(n)
            q = callee_qn(n) or n.d.n
            if q == "fopen" and args(n) and len(args(n)) > 1 and not any(m.k == "StringLiteral" and "r" in str(m.x.get("s", "")) for m in walk(args(n)[1])): continue     # opened for writing
            f.cfg()
            st = W.run(f, n, kind)
            if W.bad_at is not None:
                ck.bad("status", "exit0:%s:%s" % (f.short, q), W.bad_at, "the run ends as if it had succeeded although %s failed" % q)
            elif "P" in st or "B" in st:
                ck.bad("status", "status:%s:%s" % (f.short, q), n, ("the result of %s is not tested on a path to the end of %s" if "P" in st else "%s may fail and %s goes on all the same") % (q, f.short))
            else:
                ck.ok("status", n, "tested; on failure the run stops" if not W.handed else "handed to the callers, which are examined in turn")
                if W.handed: W.wrap[f.key] = kind
    commands(P, ck, W)

SHELL = re.compile(r";|\|\||\||&(?!1)(?![0-9])")
def commands(P, ck, W):
    """The text of a command must not contain constructs after which the shell forgets a failure (a; b, a | b, a || b, a &)."""
    for f in P.fns.values():
        if not in_scope(f): continue
        for n in f.nodes:
            if n.k not in CALLS or not args(n): continue
            q = callee_qn(n) or ""
            if q not in ("system", "std::system", "popen", "system_with_error_check"): continue
            vs = {m.d for m in walk(args(n)[0]) if m.k == "DeclRefExpr" and m.d.k in ("local", "parm")}
            roots = [args(n)[0]]
            for m in f.nodes:
                if m.k == "VarDecl" and m.d in vs: roots.append(m)
                elif m.k in ("BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator") and m.x.get("op") in ("=", "+=", "<<"):
                    l = m.ch[0] if m.k != "CXXOperatorCallExpr" else m.ch[1]
                    while strip(l) is not None and strip(l).k == "CXXOperatorCallExpr" and strip(l).x.get("op") == "<<": l = strip(l).ch[1]
                    if vdecl(l) in vs: roots.append(m)
                elif m.k in CALLS and (callee_qn(m) or "").split("::")[-1] in ("strcpy", "strcat", "sprintf", "snprintf", "append", "assign"):
                    if any(x.k == "DeclRefExpr" and x.d in vs for x in walk(m)): roots.append(m)
            hit = None
            for r in roots:
                for m in walk(r):
                    if m.k == "StringLiteral":
                        t = str(m.x.get("s", ""))
                        if SHELL.search(t.replace("2>&1", "").replace(">&", ">")): hit = (m, t)
            if hit: ck.bad("command", "command:%s:%s" % (f.short, hit[1][:30]), hit[0], "the command contains %r: the shell does not report the failure of its first part" % hit[1])
            else: ck.ok("command", n)
