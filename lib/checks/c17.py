"""C17  Failures reported by the libraries stop the computation that asked.

Typestate of every status a library hands back (the dd_ErrorType of a cddlib call, the result code of an SQLite call, the
divisibility flag of NTL's divide): after the call the status may be any of its values; comparisons refine the set on their
edges; the status may not still include a failure value when control leaves the function as if nothing had happened, nor when
the same variable receives the status of another call."""
from common import *
from report import Check
import c06

RULE = ("typestate on the CFG of every function that calls cddlib, SQLite or NTL's divide: the set of values the reported status may "
        "still have, refined by comparisons with constants, may not contain a failure when control leaves the function normally or when the "
        "status variable is overwritten untested; functions a status is handed to are summarised in the same way")

# calls that return their status: name -> values that mean the request was served
RETURNED = {"sqlite3_open": (0,), "sqlite3_open_v2": (0,), "sqlite3_prepare_v2": (0,), "sqlite3_prepare": (0,), "sqlite3_step": (100, 101),
            "sqlite3_exec": (0,), "sqlite3_reset": (0,), "sqlite3_bind_text": (0,), "sqlite3_bind_int": (0,), "sqlite3_get_table": (0,),
            "sqlite3_busy_timeout": (0,), "NTL::divide": "true"}
OTHER = "other"                # any value that is not a success value, not yet looked at
BAD = "bad"                    # a failure the program has noticed

def in_scope(f):
    return c06.in_scope(f)

class T:
    def __init__(self, P, ck):
        self.P, self.ck = P, ck
        self.S = c06.A(P)
        self.S.zero_exit = set()
        self.noerr = 17
        self.sums = {}
        self.derived = {}
        self.other = {}
        self.wraps = {}

    def good(self, n):
        """values of the status of call n that mean success; how the status is reported"""
        q = callee_qn(n) or ""
        if q in RETURNED: return RETURNED[q], "ret"
        for t in self.P.targets(n):
            if t.key in self.wraps: return self.wraps[t.key], "ret"
        if n.d is not None:
            for t in n.d.pt or []:
                if "dd_ErrorType" in (t or "") and t.rstrip().endswith(("*", "&")) and "const" not in t: return (self.noerr,), "out"
        return None, None

    def outvar(self, n):
        for a, t in zip(args(n), n.d.pt or []):
            x = strip(a)
            if x is not None and "dd_ErrorType" in (t or "") and t.rstrip().endswith("&"):
                v = vdecl(x)
                return ("ptr", v) if v is not None and v.k == "parm" and (v.t or "").rstrip().endswith("&") else v or ("lv", text(x))
            if x is not None and x.k == "UnaryOperator" and x.x["op"] == "&" and "dd_ErrorType" in (strip(x.ch[0]).t or ""):
                v = vdecl(x.ch[0])
                if v is not None and v.k == "parm" and (v.t or "").rstrip().endswith("&"): return ("ptr", v)
                return v or ("lv", text(x.ch[0]))
            if x is not None and "dd_ErrorType" in (x.t or "") and (x.t or "").endswith("*"): return ("ptr", vdecl(x))
        return None

    def vals(self, g):
        return frozenset([1, OTHER]) if g == "true" else frozenset(g) | {OTHER}

    def analyse(self, f, call, g, how):
        """Finding text or None"""
        f.cfg()
        v = self.outvar(call) if how == "out" else c06.Status(self.P, self.S, self.ck).holder(f, call)
        if how == "out" and isinstance(v, tuple) and v[0] == "ptr":
            return None if self.handed_on(f, v[1]) else "the status goes to a pointer the function keeps to itself"
        return self.run(f, call, v, g, how)

    def handed_on(self, f, d):
        """a parameter of type dd_ErrorType *: the callers own the status (their calls are examined as calls with an error report)"""
        return d in f.params

    def isres(self, v, call):
        def r(e):
            e = strip(e)
            if e is None: return False
            x = strip(e, explicit=True)
            if call is not None and x is call: return "call"
            if e.k == "BinaryOperator" and e.x["op"] == "=" and call is not None and strip(e.ch[1], explicit=True) is call: return True
            if isinstance(v, tuple): return text(e) == v[1]
            return v is not None and vdecl(x) is v
        return r

    def refine(self, st, g, op, c):
        keep = set()
        for x in st:
            if x == "clean": keep.add(x); continue
            if x in (OTHER, BAD):
                if g == "true":
                    # flag: OTHER stands for 0
                    if c == 0 and op in ("!=", ">") or c == 1 and op in ("==", ">="): continue
                    keep.add(BAD)
                elif op == "==" and c in g: continue
                else: keep.add(BAD)
            else:
                t = {"==": x == c, "!=": x != c, "<": x < c, "<=": x <= c, ">": x > c, ">=": x >= c}[op]
                if t: keep.add(x)
        return frozenset(keep)

    def run(self, f, call, v, g, how="ret", entry=frozenset(["clean"])):
        isres = self.isres(v, call if how == "ret" else None)
        msg = []
        def overwrites(e):
            if e is call: return True
            if isinstance(v, Decl):
                if assigned_var(e) is v and e.k != "VarDecl": return not any(m is call for m in walk(e))
                if e.k in CALLS and how_out(e) is v: return True
            return False
        def how_out(e):
            gg, how = self.good(e)
            return self.outvar(e) if how == "out" else None
        def checker(e):
            """call of a program function the status is passed to: which of the values survive"""
            if e.k not in CALLS and e.k not in CTORS: return None
            T = self.P.targets(e)
            if not T: return None
            for i, a in enumerate(args(e)):
                if isres(a) and T and all(i < len(t.params) for t in T): return (T, i)
            return None
        quot = vdecl(args(call)[0]) if g == "true" and len(args(call)) == 3 else None
        self.handed = False
        def xfer(b, st):
            for e in b.el:
                if overwrites(e) and e is not call:
                    if OTHER in st: msg.append((e, "is overwritten before it has been tested"))
                    elif BAD in st and not (e.k in CALLS and callee_qn(e) == callee_qn(call) or e.k == "BinaryOperator" and any(callee_qn(m) == callee_qn(call) for m in walk(e) if m.k in CALLS)):
                        msg.append((e, "is overwritten although it reports a failure"))
                    st = frozenset(["clean"])
                if e is call:
                    if OTHER in st: msg.append((e, "is overwritten by the next call before it has been tested"))
                    st = self.vals(g)
                if quot is not None and e.k == "DeclRefExpr" and e.d is quot and st & {OTHER, BAD} and not inside(e, call):
                    msg.append((e, "may say that there is no quotient, which is used"))
                c = checker(e)
                if c is not None:
                    out = frozenset()
                    for t in c[0]: out |= self.summary(t, c[1], st, g)
                    st = out
                    if not st: return frozenset(["dead"])
                if e.k == "ReturnStmt" and e.ch and st & {OTHER, BAD}:
                    if isres(e.ch[0]): self.handed = True; st = frozenset(["clean"])
                    elif self.computed(f, e, isres, g): st = frozenset(["clean"])
                    elif BAD in st and OTHER not in st and self.reports(f, e): st = frozenset(["clean"])
                if st & {OTHER, BAD} and self.S.success_exit(e): msg.append((e, "reports a failure and the run ends as if it had succeeded"))
                if e.k == "CXXThrowExpr" or call_ends(self.P, e, self.S.N): return frozenset(["dead"])
            return st
        def edge(b, i, s, st):
            if st == frozenset(["dead"]): return None if s.term is None or s.term.k != "CXXTryStmt" else frozenset(["clean"])
            if b.noret: return None
            if not st or st == frozenset(["clean"]): return st
            if b.term is not None and b.term.k == "SwitchStmt":
                c = cond_of(b.term)
                if c is None or not isres(c): return st
                cases = {const(l.ch[0]) for l in walk(b.term) if l.k == "CaseStmt"}
                lab = s.label
                if lab is not None and lab.k == "CaseStmt": return self.refine(st, g, "==", const(lab.ch[0])) or None
                r = st
                for k in cases: r = self.refine(r, g, "!=", k)
                return r or None
            if b.cond is None or len(b.succ) != 2: return st
            t = c06.status_test(b.cond, isres)
            if t is None: return st
            op, c = t[0]
            if (i == 0) != t[1]: op = c06.NEG[op]
            r = self.refine(st, g, op, c)
            return r or None
        def join(x, y):
            r = x | y
            return r - {"dead"} if len(r) > 1 else r
        IN = forward(f, entry, xfer, join, edge)
        end = IN.get(f.exit.id, frozenset())
        if msg: return msg[0]
        if self.handed: return "handed"
        if g == "true": return None
        if OTHER in end: return (call, "is not tested on a path to the end of the function")
        if BAD in end: return (call, "reports a failure and the function goes on to its normal end")
        return None

    def computed(self, f, r, isres, g):
        """return status == ok ? a : b  (or the comparison itself): the failing value is known"""
        x = strip(r.ch[0], explicit=True)
        arms = (1, 0)
        if x.k == "ConditionalOperator":
            arms = (const(x.ch[1]), const(x.ch[2]))
            x = strip(x.ch[0])
        if None in arms or arms[0] == arms[1]: return False
        t = c06.status_test(x, isres)
        if t is None or isres(x): return False
        (op, c), pos = t
        def taken(yes):
            return self.refine(frozenset([OTHER]), g, op if yes else c06.NEG[op], c)
        yes, no = bool(taken(pos)), bool(taken(not pos))
        if yes == no: return False
        v = arms[0] if yes else arms[1]
        if f.d.n == "main": return v != 0
        self.derived.setdefault(f.key, set()).add((v, r.i))
        self.other.setdefault(f.key, set()).add(arms[1] if yes else arms[0])
        return True

    def reports(self, f, r):
        """The return statement tells the callers that the function failed: its constant is not returned by any other statement."""
        v = const(r.ch[0])
        x = strip(r.ch[0], explicit=True)
        if v is None and x.k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): v = 0
        if f.d.n == "main": return v is not None and v != 0
        if v is None: return False
        self.derived.setdefault(f.key, set()).add((v, r.i))
        return True

    def callers_of_failing(self):
        """Functions that report a library failure by a constant: their callers have a status to test as well."""
        done = set()
        while True:
            todo = [k for k in self.derived if k not in done]
            if not todo: return
            for k in todo:
                done.add(k)
                f = self.P.fns[k]
                bad = {v for v, i in self.derived[k]}
                ids = {i for v, i in self.derived[k]}
                rets = [n for n in f.nodes if n.k == "ReturnStmt" and n.ch and n.i not in ids]
                g = tuple(sorted({const(n.ch[0]) for n in rets if const(n.ch[0]) is not None}))
                g = tuple(sorted(set(g) | self.other.get(k, set())))
                if set(g) & bad or not rets and not g:
                    n = f.nodes[min(ids)]
                    self.ck.bad("status", "same:%s" % f.short, n, "%s returns the same value whether or not the library reported a failure" % f.short)
                    continue
                if any(const(n.ch[0]) is None for n in rets): g = tuple(x for x in range(-2, 3) if x not in bad) + g
                for c in self.P.callers().get(k, ()):
                    if not in_scope(c.fn): continue
                    v = c06.Status(self.P, self.S, self.ck).holder(c.fn, c)
                    c.fn.cfg()
                    r = self.run(c.fn, c, v, g)
                    if r is None or r == "handed": self.ck.ok("status", c, "failure of %s is tested" % f.short)
                    else: self.ck.bad("status", "status:%s:%s" % (c.fn.short, f.short), r[0], "the status of %s (line %s) %s" % (f.short, c.line, r[1]))

    def summary(self, t, i, st, g):
        """Values of parameter i with which program function t may return"""
        k = (t.key, i, st, g)
        if k in self.sums: return self.sums[k]
        self.sums[k] = st
        if not t.rawcfg: return st
        p = t.params[i]
        isres = self.isres(p, None)
        t.cfg()
        def xfer(b, s):
            for e in b.el:
                if e.k == "CXXThrowExpr" or call_ends(self.P, e, self.S.N): return frozenset(["dead"])
            return s
        def edge(b, j, s, x):
            if x == frozenset(["dead"]) or b.noret: return None
            if b.cond is None or len(b.succ) != 2: return x
            q = c06.status_test(b.cond, isres)
            if q is None: return x
            op, c = q[0]
            if (j == 0) != q[1]: op = c06.NEG[op]
            return self.refine(x, g, op, c) or None
        def join(x, y): return (x | y) - {"dead"} if len(x | y) > 1 else x | y
        IN = forward(t, st, xfer, join, edge)
        r = IN.get(t.exit.id, frozenset()) - {"dead"}
        # a test inside the callee is a test; a value it lets pass unexamined stays unexamined
        self.sums[k] = r
        return r

def inside(n, c):
    while n is not None:
        if n is c: return True
        n = n.p
    return False

def exact(n):
    """divide(q, a, GCD(.., a, ..)): the divisor divides by construction"""
    G = args(n)
    if len(G) != 3: return False
    d = strip(G[2], explicit=True)
    if d is not None and d.k in CTORS and d.ch: d = strip(d.ch[0], explicit=True)
    return d is not None and d.k in CALLS and d.d is not None and d.d.n == "GCD" and any(text(a) == text(G[1]) for a in args(d))

def check():
    P = load()
    ck = Check("C17", RULE)
    A = T(P, ck)
    n_out = n_ret = 0
    for f in P.fns.values():
        for n in f.nodes:
            if n.k == "DeclRefExpr" and n.d is not None and n.d.n == "dd_NoError" and const(n) is not None: A.noerr = const(n)
    done = set()
    while True:
        todo = [(f, n) for f in P.fns.values() if f.rawcfg and in_scope(f) for n in f.nodes if n.k in CALLS and (f.key, n.i) not in done and A.good(n)[0] is not None]
        if not todo: break
        for f, n in todo:
            done.add((f.key, n.i))
            g, how = A.good(n)
            q = callee_qn(n) or n.d.n
            kind = "cddlib" if how == "out" else "sqlite" if q.startswith("sqlite") else "divisibility" if g == "true" else "status"
            if q == "NTL::divide" and len(args(n)) == 2: continue            # a question, no quotient
            if q == "NTL::divide" and exact(n): ck.ok(kind, n, "the divisor is a GCD with the dividend"); continue
            r = A.analyse(f, n, g, how)
            if r == "handed": A.wraps[f.key] = g
            if r is None: ck.ok(kind, n, "tested; a failure does not reach the normal end")
            elif r == "handed": ck.ok(kind, n, "handed to the callers")
            elif isinstance(r, str): ck.bad(kind, "%s:%s:%s" % (kind, f.short, q), n, r)
            else: ck.bad(kind, "%s:%s:%s" % (kind, f.short, q), r[0], "the status of %s (line %s) %s" % (q, n.line, r[1]))
    A.callers_of_failing()
    ck.floor("cddlib", 9)
    ck.floor("sqlite", 3)
    ck.floor("divisibility", 1)
    return ck.finish(P)
