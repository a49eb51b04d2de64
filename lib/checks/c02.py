"""C02: exact rationals are canonical, zero denominators never become finite, cached integer scalings agree with the entries."""
from collections import namedtuple
from model import *
from common import *
from report import Check

CLS = "RationalNTL"
NUM, DEN = "RationalNTL::numerator", "RationalNTL::denominator"
S = namedtuple("S", "sgn red one g half par fresh cp unk gn dv")   # sgn: possible signs of the denominator
CLEAN = S(frozenset("+"), True, False, None, None, 0, False, None, False, False, None)
FRESH = S(frozenset("0"), False, False, None, None, 0, True, None, False, False, None)
DIRTY = frozenset("-0+")
MUT2 = {"mul", "add", "sub", "div", "power", "set", "conv", "negate", "abs", "clear", "swap", "rem", "GCD", "DivRem", "LeftShift", "RightShift", "mpz_set"}

def join1(a, b):
    if a == b: return a
    return S(a.sgn | b.sgn, a.red and b.red, a.one and b.one, a.g if a.g is b.g else None, a.half if a.half == b.half else "?",
             a.par if a.par == b.par else "?" if "?" in (a.par, b.par) else 1, a.fresh and b.fresh, a.cp if a.cp == b.cp else None, a.unk or b.unk, a.gn if a.gn == b.gn else "?", a.dv if a.dv is b.dv else None)

class Rat:
    def __init__(self, P, C):
        self.P, self.C, self.N = P, C, noreturn(P)
        self.memo, self.stack, self.finite = {}, [], {}

    def fld(self, n, bind, f):
        """(object key, 'N'/'D') designated by lvalue n, or None."""
        n = strip(n, explicit=True)
        if n is None: return None
        if n.k == "DeclRefExpr":
            if n.d in bind and bind[n.d][1] in ("N", "D"): return bind[n.d]
            if n.d.k == "local" and (n.d.t or "").endswith("&"):
                for v in f.nodes:
                    if v.k == "VarDecl" and v.d is n.d and v.ch: return self.fld(v.ch[0], bind, f)
            return None
        if n.k == "MemberExpr" and n.d.q in (NUM, DEN):
            b = self.objkey(n.ch[0], bind, f) if n.ch else self.objkey(None, bind, f)
            return (b, "N" if n.d.q == NUM else "D") if b is not None else None
        return None

    def objkey(self, n, bind, f):
        if n is None: return bind.get("this", ("this",))
        p = path(n)
        if p is None: return None
        if p[0] == "this": return bind.get("this", ("this",)) + p[1:]
        if p[0] in bind: return bind[p[0]][0] + p[1:] if bind[p[0]][1] == "O" else None
        p = tuple(x for x in p if x != "*")
        return p if p != ("this",) else bind.get("this", ("this",))

    def get(self, st, o): return st.get(o, CLEAN)

    def wr(self, st, o, fl, s, where):
        """Generic overwrite of a component."""
        if fl == "N":
            s = s._replace(red=s.one, g=None, half=None, cp=None, par="?" if not s.one else s.par)
            if not s.one: s = s._replace(red=False)
        else:
            s = s._replace(sgn=DIRTY, red=False, one=False, g=None, half=None, cp=None, fresh=False, par="?", dv=None)
        return {**st, o: s}

    def setden(self, st, o, k, where, f):
        s = self.get(st, o)
        if s.sgn == frozenset("0") and not s.fresh and k != 0: self.finite[(f.key, where.i)] = where
        sg = frozenset("+" if k > 0 else "-" if k < 0 else "0")
        s = s._replace(sgn=sg, red=k == 1, one=k == 1, g=None, half=None, fresh=False, cp=None, par="?", dv=None)
        return {**st, o: s}

    def flip(self, st, o, fl):
        s = self.get(st, o)
        par = s.par if s.par == "?" else 1 - s.par
        if fl == "D":
            s = s._replace(sgn=frozenset({"-": "+", "+": "-", "0": "0"}[c] for c in s.sgn), one=False, par=par, dv=None)
        else: s = s._replace(par=par)
        return {**st, o: s}

    def divg(self, st, o, fl, v):
        s = self.get(st, o)
        if s.g is not None and s.g is v:
            if fl == "D" and s.gn:
                s = s._replace(sgn=DIRTY if s.gn == "?" else frozenset({"-": "+", "+": "-", "0": "0"}[c] for c in s.sgn))
            if fl == "D": s = s._replace(dv=None)
            if s.half is None: s = s._replace(half=fl, one=False if fl == "D" else s.one)
            elif s.half in ("N", "D") and s.half != fl: s = s._replace(half=None, red=True, g=None)
            else: s = s._replace(half="?", red=False)
            return {**st, o: s}
        return None

    def isfld(self, n, bind, f, o, fl): return self.fld(n, bind, f) == (o, fl)

    def assign(self, st, lhs, rhs, bind, f, node):
        t = self.fld(lhs, bind, f)
        if t is None: return st
        o, fl = t
        c = constant(rhs)
        if c is not None:
            if fl == "D": return self.setden(st, o, c, node, f)
            return self.wr(st, o, fl, self.get(st, o), node)
        r = strip(rhs, explicit=True)
        src = self.fld(r, bind, f)
        if src is None and r is not None and r.k == "CXXMemberCallExpr" and r.d is not None and r.d.qn in ("RationalNTL::getNumerator", "RationalNTL::getDenominator"):
            ok = self.objkey(obj(r), bind, f)
            src = (ok, "N" if r.d.qn.endswith("Numerator") else "D") if ok is not None else None
        if src is not None and src[1] == fl and src[0] != o and self.get(st, src[0]) == CLEAN:
            s = self.get(st, o)
            if s.cp is not None and s.cp[0] != fl and s.cp[1] == src[0]: return {**st, o: CLEAN._replace(par="?")}
            st2 = self.wr(st, o, fl, s, node)
            return {**st2, o: st2[o]._replace(cp=(fl, src[0]))}
        # x = -x, x = x / g, x = x * -1
        neg = negation(r)
        if neg is not None and self.isfld(neg, bind, f, o, fl): return self.flip(st, o, fl)
        dv = division(r)
        if dv is not None and self.isfld(dv[0], bind, f, o, fl):
            st2 = self.divg(st, o, fl, vdecl(dv[1]))
            if st2 is not None: return st2
        st = self.wr(st, o, fl, self.get(st, o), node)
        if fl == "D" and vdecl(r) is not None: st = {**st, o: st[o]._replace(dv=vdecl(r))}
        return st

    def step(self, st, e, bind, f):
        if st is None: return None
        if e.k == "CtorInit":
            if e.d.q in (NUM, DEN):
                o = bind.get("this", ("this",))
                init = e.ch[0] if e.ch else None
                if init is not None and strip(init).k in CTORS and not strip(init).ch: return st
                if init is None: return st
                s = strip(init)
                a = s.ch[0] if s.k in CTORS and len(s.ch) >= 1 else init
                fl = "N" if e.d.q == NUM else "D"
                c = constant(a)
                if c is not None and fl == "D": return self.setden(st, o, c, e, f)
                r = strip(a, explicit=True)
                src = self.fld(r, bind, f)
                if src is not None and src[1] == fl and src[0] != o:
                    s0 = self.get(st, o)
                    if s0.cp is not None and s0.cp[0] != fl and s0.cp[1] == src[0]: return {**st, o: CLEAN}
                    st2 = self.wr(st, o, fl, s0, e); return {**st2, o: st2[o]._replace(cp=(fl, src[0]))}
                return self.wr(st, o, fl, self.get(st, o), e)
            if e.ch and strip(e.ch[0]).k in CTORS and strip(e.ch[0]).t == CLS: return {**st, bind.get("this", ("this",)): CLEAN}
            return st
        if e.k == "VarDecl":
            if e.ch:
                g = gcd_args(e.ch[0])
                if g: st = self.bindg(st, e.d, g, bind, f)
            return st
        if e.k == "CXXThrowExpr" or call_ends(self.P, e, self.N): return None
        if e.k == "CXXOperatorCallExpr":
            op = e.x["op"]
            lhs = e.ch[1]
            t = self.fld(lhs, bind, f)
            if op == "=" and len(e.ch) == 3:
                if t: return self.assign(st, lhs, e.ch[2], bind, f, e)
                v = vdecl(lhs)
                if v is not None:
                    if negation(strip(e.ch[2], explicit=True)) is not None and vdecl(negation(strip(e.ch[2], explicit=True))) is v: return self.flipg(st, v)
                    g = gcd_args(e.ch[2])
                    if g: return self.bindg(st, v, g, bind, f)
                    return self.killg(st, v)
            elif t and op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                o, fl = t
                if op == "*=" and constant(e.ch[2]) == -1: return self.flip(st, o, fl)
                if op == "*=" and constant(e.ch[2]) == 1: return st
                if op == "/=":
                    st2 = self.divg(st, o, fl, vdecl(e.ch[2]))
                    if st2 is not None: return st2
                return self.wr(st, o, fl, self.get(st, o), e)
            elif op == "*=" and vdecl(lhs) is not None and constant(e.ch[2]) == -1: return self.flipg(st, vdecl(lhs))
            elif t and op in (">>", "++", "--"): return self.wr(st, o := t[0], t[1], self.get(st, t[0]), e)
            if op == ">>" and len(e.ch) == 3:
                t = self.fld(e.ch[2], bind, f)
                if t: return self.wr(st, t[0], t[1], self.get(st, t[0]), e)
        if e.k in CALLS and e.d is not None and e.d.k == "fn":
            T = self.P.targets(e)
            o = obj(e)
            if e.d.cls == CLS and not e.d.x.get("st"):
                if e.d.x.get("c"): return st
                k = self.objkey(o, bind, f)
                if k is None: return st
                if e.d.n == "operator=": return {**st, k: CLEAN}
                for t in T: st = self.inline(st, t, {**self.bindargs(e, t, bind, f), "this": k}, f)
                return st
            A = args(e)
            hit = [(i, self.fld(a, bind, f)) for i, a in enumerate(A)]
            hit = [(i, h) for i, h in hit if h is not None and mutparam(e, i)]
            if T and (hit or any(self.objarg(a, i, e, bind, f) for i, a in enumerate(A))):
                for t in T: st = self.inline(st, t, self.bindargs(e, t, bind, f), f)
                return st
            if hit:
                n = e.d.n
                if n in ("negate",) and len(A) == 2 and self.fld(A[1], bind, f) == hit[0][1]: return self.flip(st, *hit[0][1])
                if n in ("div",) and len(A) == 3 and self.fld(A[1], bind, f) == hit[0][1]:
                    st2 = self.divg(st, hit[0][1][0], hit[0][1][1], vdecl(A[2]))
                    if st2 is not None: return st2
                if n in ("mul",) and len(A) == 3 and self.fld(A[1], bind, f) == hit[0][1] and constant(A[2]) == -1: return self.flip(st, *hit[0][1])
                if n == "set" and len(A) == 1 and hit[0][1][1] == "D": return self.setden(st, hit[0][1][0], 1, e, f)
                if n in ("conv",) and len(A) == 2: return self.assign(st, A[0], A[1], bind, f, e)
                for i, h in hit: st = self.wr(st, h[0], h[1], self.get(st, h[0]), e)
                return st
            if e.d.n == "negate" and len(A) == 2 and vdecl(A[0]) is not None and vdecl(A[0]) is vdecl(A[1]): return self.flipg(st, vdecl(A[0]))
            # GCD(g, n, d)
            if e.d.n == "GCD" and len(A) == 3 and vdecl(A[0]) is not None:
                return self.bindg(st, vdecl(A[0]), A[1:], bind, f)
            for i, a in enumerate(A):
                v = vdecl(a)
                if v is not None and mutparam(e, i): st = self.killg(st, v)
        return st

    def objarg(self, a, i, e, bind, f):
        return mutparam(e, i) and CLS in (e.d.pt[i] if e.d.pt and i < len(e.d.pt) else "") and self.objkey(a, bind, f) is not None

    def bindargs(self, e, t, bind, f):
        out = {}
        A = args(e)
        for p, a in zip(t.params, A):
            if not (p.t or "").rstrip().endswith("&"): continue
            h = self.fld(a, bind, f)
            if h: out[p] = h
            elif CLS in (p.t or ""):
                k = self.objkey(a, bind, f)
                if k is not None: out[p] = (k, "O")
        return out

    def bindg(self, st, v, g, bind, f):
        st = self.killg(st, v)
        t = [self.fld(a, bind, f) for a in g]
        if len(t) == 2 and None not in t and t[0][0] == t[1][0] and {t[0][1], t[1][1]} == {"N", "D"}:
            o = t[0][0]
            st = {**st, o: self.get(st, o)._replace(g=v, half=None, gn=False)}
        return st

    def flipg(self, st, v):
        for o, s in st.items():
            if s.g is v: st = {**st, o: s._replace(gn="?" if s.gn == "?" else not s.gn)}
        return st

    def killg(self, st, v):
        for o, s in st.items():
            if s.g is v: st = {**st, o: s._replace(g=None, half="?" if s.half else None)}
        return st

    def inline(self, st, t, bind, f):
        if st is None: return None
        key = (t.key, frozenset((getattr(k, "n", k), v if isinstance(v, tuple) else (v,)) for k, v in bind.items()), frozenset(st.items()))
        if key in self.memo: return self.memo[key]
        if t in self.stack or len(self.stack) > 8: return st
        self.memo[key] = self.run(t, st, bind)
        return self.memo[key]

    def run(self, f, st0, bind):
        """Exit state of f from entry state st0 (None when it does not return)."""
        if not f.rawcfg: return st0
        f.cfg()
        self.stack.append(f)
        try:
            # a set of states per point: branches on the sign stay apart until the exit
            fz = lambda st: frozenset(st.items())
            def one(b, st):
                for e in b.el:
                    if st is None: return None
                    if e.k == "DeclStmt": continue
                    st = self.step(st, e, bind, f)
                return st
            def join2(a, b):
                out = {}
                for k in set(a) | set(b): out[k] = join1(self.get(a, k), self.get(b, k))
                return out
            def cap(sts):
                if len(sts) <= 24: return frozenset(sts)
                it = [dict(x) for x in sts]
                acc = it[0]
                for x in it[1:]: acc = join2(acc, x)
                return frozenset([fz(acc)])
            def xfer(b, sts):
                return cap({fz(o) for o in (one(b, dict(st)) for st in sts) if o is not None})
            def edge(b, i, s, sts):
                if not sts or b.noret: return None
                if b.cond is not None and len(b.succ) == 2 and b.term is not None and b.term.k != "SwitchStmt":
                    sts = {fz(o) for o in (self.refine(dict(st), b.cond, i == 0, bind, f) for st in sts) if o is not None}
                return frozenset(sts) or None
            def join(a, b): return cap(a | b)
            IN = forward(f, frozenset([fz(st0)]), xfer, join, edge)
            if f.exit.id not in IN: return None
            out = xfer(f.exit, IN[f.exit.id])
            if not out: return None
            it = [dict(x) for x in out]
            acc = it[0]
            for x in it[1:]: acc = join2(acc, x)
            return acc
        finally: self.stack.pop()

    def refine(self, st, c, taken, bind, f):
        c = strip(c, explicit=True)
        while c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"): c = strip(c.ch[1], explicit=True)
        while c.k == "UnaryOperator" and c.x["op"] == "!": c, taken = strip(c.ch[0], explicit=True), not taken
        rel = relation(c)
        if rel is None: return st
        x, op, k = rel
        if not taken: op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        x = strip(x, explicit=True)
        sg = False
        if x.k == "CallExpr" and x.d is not None and x.d.n in ("sign", "compare") and args(x): x, sg = args(x)[0], True
        t = self.fld(x, bind, f)
        if t is not None and t[1] == "D":
            o = t[0]; s = self.get(st, o)
            keep = set()
            for ch in s.sgn:
                v = {"-": [-1] if sg else range(-3, 0), "0": [0], "+": [1] if sg else range(1, 4)}[ch]
                if any(holds(a, op, k) for a in v) or abs(k) > 2: keep.add(ch)
            if not keep: return None
            s = s._replace(sgn=frozenset(keep))
            if op == "==" and k == 1: s = s._replace(red=True, one=True)
            return {**st, o: s}
        v = vdecl(x)
        if v is not None:
            for o, s in list(st.items()):
                if s.dv is v and op == "==" and k == 1: st = {**st, o: s._replace(sgn=frozenset("+"), red=True, one=True)}
                elif s.dv is v and op == "!=" and k == 0: st = {**st, o: s._replace(sgn=s.sgn - {"0"})}
                if s.g is v and s.half is None:
                    if (op == "==" and k == 1) or (op == "<=" and k == 1) or (op == "<" and k == 2): st = {**st, o: s._replace(red=True)}
        return st

def holds(a, op, k): return {"<": a < k, ">": a > k, "<=": a <= k, ">=": a >= k, "==": a == k, "!=": a != k}[op]

def relation(c):
    """(expression, op, integer constant)"""
    if c.k == "BinaryOperator" and c.x["op"] in ("<", ">", "<=", ">=", "==", "!="): a, op, b = c.ch[0], c.x["op"], c.ch[1]
    elif c.k == "CXXOperatorCallExpr" and c.x["op"] in ("<", ">", "<=", ">=", "==", "!=") and len(c.ch) == 3: a, op, b = c.ch[1], c.x["op"], c.ch[2]
    elif c.k == "CallExpr" and c.d is not None and c.d.n == "IsZero": return args(c)[0], "==", 0
    elif c.k == "CallExpr" and c.d is not None and c.d.n == "IsOne": return args(c)[0], "==", 1
    else: return None
    if constant(b) is not None: return a, op, constant(b)
    if constant(a) is not None: return b, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), constant(a)
    return None

def constant(n):
    """Integer value of a literal, possibly wrapped in a conversion to a big integer."""
    c = const(n)
    if c is not None: return c
    n = strip(n, explicit=True)
    if n is None: return None
    if n.k == "UnaryOperator" and n.x["op"] == "-":
        c = constant(n.ch[0]); return -c if c is not None else None
    if n.k in CTORS and n.t and "ZZ" in n.t and len(n.ch) == 1: return constant(n.ch[0])
    if n.k == "CallExpr" and n.d is not None and n.d.n in ("to_ZZ", "conv") and len(args(n)) == 1: return constant(args(n)[0])
    if n.k == "CallExpr" and n.d is not None and n.d.n == "zero": return 0
    return None

def negation(r):
    if r is None: return None
    if r.k == "CXXOperatorCallExpr" and r.x["op"] == "-" and len(r.ch) == 2: return r.ch[1]
    if r.k == "CXXOperatorCallExpr" and r.x["op"] == "*" and len(r.ch) == 3:
        if constant(r.ch[2]) == -1: return r.ch[1]
        if constant(r.ch[1]) == -1: return r.ch[2]
    return None

def division(r):
    if r is not None and r.k == "CXXOperatorCallExpr" and r.x["op"] == "/" and len(r.ch) == 3: return r.ch[1], r.ch[2]
    return None

def gcd_args(n):
    n = strip(n, explicit=True)
    if n is not None and n.k in CTORS and len(n.ch) == 1: n = strip(n.ch[0], explicit=True)
    if n is not None and n.k == "CallExpr" and n.d is not None and n.d.n in ("GCD", "gcd") and len(args(n)) == 2: return args(n)
    return None

def mutparam(e, i):
    pt = e.d.pt or []
    if i >= len(pt): return False
    t = pt[i].strip()
    return t.endswith("&") and not t.startswith("const ") or t.endswith("*") and not t.startswith("const ")

def check_scalar(P, C):
    rec = P.recs.get(CLS)
    if rec is None or {NUM, DEN} - {fl["d"].q for fl in rec["fields"]}: raise AnalysisError("class %s with its two components not found" % CLS)
    R = Rat(P, C)
    F = [f for f in P.fns.values() if not f.imp and any(n.k in ("MemberExpr", "CtorInit") and n.d is not None and n.d.q in (NUM, DEN) for n in f.nodes)]
    inside = {f.key for f in F}           # functions whose own exit state is judged
    call = P.callers()
    for f in F:
        ctor = f.cls == CLS and f.d.n == CLS
        init = {("this",): FRESH} if ctor else {("this",): CLEAN._replace(sgn=DIRTY, red=False)} if gcd_in(f) and f.cls == CLS else {}
        R.finite = {}
        out = R.run(f, init, {})
        for k, w in R.finite.items():
            if k[0] == f.key: C.bad("scalar", "zero-finite|%s" % f.short, w, "a denominator that is zero on this path is replaced by a nonzero constant")
        if f.d.n.startswith("~"): continue
        outside = [c for c in call.get(f.key, ()) if c.fn.key not in inside]
        internal = not outside and call.get(f.key) and not ctor
        if out is None: C.ok("scalar", f.body, "never returns normally"); continue
        bad = False
        for o, s in sorted(out.items(), key=str):
            if s.unk or s == CLEAN: continue
            nm = "the object" if o[0] == "this" else getattr(o[0], "n", str(o[0]))
            if s.half is not None or (gcd_in(f) and s.par == 1):
                bad = True; C.bad("scalar", "value|%s" % f.short, f.body, "numerator and denominator of %s are not scaled by the same factor on every path" % nm); continue
            why = []
            if "-" in s.sgn: why.append("a negative denominator")
            if "0" in s.sgn: why.append("a zero denominator")
            if not s.red: why.append("common factors")
            if why and not (internal and f.d.n != "canonicalize"):
                bad = True; C.bad("scalar", "canonical|%s|%s" % (sig(f), nm), f.body, "%s may leave %s with %s" % (f.short, nm, ", ".join(why)))
        zb = zero_bypass(P, R, f)
        if zb is not None:
            bad = True; C.bad("scalar", "zero-bypass|%s" % f.short, zb, "a zero operand that would become a denominator is skipped without an error")
        if not bad: C.ok("scalar", f.body, "canonical on every path to the exit")

def sig(f): return f.key
def gcd_in(f): return any(n.k == "CallExpr" and n.d is not None and n.d.n == "GCD" for n in f.nodes)

def zero_bypass(P, R, f):
    """Test of an operand for zero whose zero branch returns without the denominator update made on the other branch."""
    if not f.rawcfg: return None
    W = []
    for n in f.nodes:
        t = None
        if n.k == "CXXOperatorCallExpr" and n.x["op"] in ("*=", "=") and len(n.ch) == 3:
            t = R.fld(n.ch[1], {}, f); rhs = n.ch[2]
        if t and t[1] == "D": W.append((n, {text(m) for m in walk(rhs) if m.k in ("DeclRefExpr", "MemberExpr")} | locals_text(f, rhs)))
    if not W: return None
    for b in f.cfg().values():
        if b.cond is None or len(b.succ) != 2: continue
        z = zero_test(strip(b.cond, explicit=True))
        if z is None: continue
        if not any(w in (strip(z[0], explicit=True).t or "") for w in ("ZZ", "RationalNTL")): continue
        x = text(strip(z[0], explicit=True))
        hits = [n for n, ts in W if x in ts]
        if not hits or R.fld(z[0], {}, f) == (("this",), "D"): continue
        i = 0 if z[1] else 1
        if b.succ[i] is None: continue
        wb = {f.pos(n)[0] for n in hits if f.pos(n)}
        seen, st = set(), [b.succ[i]]
        while st:
            c = st.pop()
            if c.id in seen or c.id in wb or c.noret: continue
            seen.add(c.id)
            if c is f.exit: return b.cond
            if any(e.k == "CXXThrowExpr" or call_ends(P, e, R.N) for e in c.el): continue
            st += [s for s in c.succ if s is not None]
    return None

def locals_text(f, rhs):
    out = set()
    for m in walk(rhs):
        if m.k == "DeclRefExpr" and m.d.k == "local":
            for v in f.nodes:
                if v.k == "VarDecl" and v.d is m.d and v.ch: out |= {text(x) for x in walk(v.ch[0]) if x.k in ("DeclRefExpr", "MemberExpr")}
    return out

# ---------------- rational vectors with a cached integer scaling ----------------
RV = "rationalVector"
ENT = {RV + "::enumerator", RV + "::denominator"}
SC, SF, FLAG = RV + "::integer_scale", RV + "::integer_scale_factor", RV + "::computed_integer_scale"
V = namedtuple("V", "flag cons ws wf")   # flag: True/False/None(unknown); cons: whenever the flag holds the cache agrees

def field_of(n):
    """Field of a rationalVector at the bottom of an lvalue (through subscripts), with its object's path."""
    n = strip(n, explicit=True)
    while n is not None:
        if n.k == "MemberExpr" and n.d.q and n.d.q.startswith(RV + "::") and n.d.k == "field": return n.d.q, (path(n.ch[0]) if n.ch else ("this",)) or ("?",)
        if n.k == "CXXOperatorCallExpr" and n.x["op"] in ("[]", "()"): n = strip(n.ch[1], explicit=True); continue
        if n.k == "ArraySubscriptExpr": n = strip(n.ch[0], explicit=True); continue
        if n.k == "CXXMemberCallExpr" and obj(n) is not None and n.d is not None and n.d.n in ("at", "get", "begin", "elts"): n = strip(obj(n), explicit=True); continue
        return None
    return None

def write_of(e):
    """Lvalue written by element e (assignment, compound assignment, mutable reference argument, resize), list."""
    if e.k in ("BinaryOperator", "CompoundAssignOperator") and e.x["op"].endswith("=") and e.x["op"] not in ("==", "!=", "<=", ">="): return [(e.ch[0], e.ch[1])]
    if e.k == "CXXOperatorCallExpr":
        op = e.x["op"]
        if op.endswith("=") and op not in ("==", "!=", "<=", ">=") or op in ("++", "--"): return [(e.ch[1], e.ch[2] if len(e.ch) > 2 else None)]
        if op == ">>" and len(e.ch) == 3: return [(e.ch[2], None)]
        return []
    if e.k in CALLS and e.d is not None and e.d.k == "fn" and e.d.cls != RV:
        out = [(a, None) for i, a in enumerate(args(e)) if mutparam(e, i)]
        if e.k == "CXXMemberCallExpr" and not e.d.x.get("c") and e.d.n in ("SetLength", "kill", "swap", "append", "SetMaxLength", "resize"): out.append((obj(e), None))
        return out
    if e.k == "CtorInit" and e.d.q and e.d.q.startswith(RV + "::"): return []
    return []

class Cache:
    def __init__(self, P):
        self.P, self.N = P, noreturn(P)
        self.memo, self.stack, self.reads = {}, [], {}
    def get(self, st, o): return st.get(o, V(None, True, False, False))
    def step(self, st, e, f, this):
        if e.k == "CXXThrowExpr" or call_ends(self.P, e, self.N): return None
        if e.k == "CtorInit" and e.d.q and e.d.q.startswith(RV + "::") and e.ch and not (strip(e.ch[0]).k in CTORS and not strip(e.ch[0]).ch):
            st = self.wfield(st, e.d.q, this, e.ch[0])
            return st
        for lhs, rhs in write_of(e):
            r = field_of(lhs)
            if r is None: continue
            q, o = r
            o = this + o[1:] if o[0] == "this" else tuple(x for x in o if x != "*")
            if e.k == "CXXMemberCallExpr" and q in (SC,) and e.d.n == "SetLength": continue
            st = self.wfield(st, q, o, rhs)
        if e.k in CALLS and e.d is not None and e.d.k == "fn":
            binds = []
            if e.d.cls == RV and not e.d.x.get("c") and not e.d.x.get("st") and obj(e) is not None: binds.append(("this", obj(e)))
            T = self.P.targets(e)
            for t in T:
                if not touches(t): continue
                A = args(e)
                o = obj(e)
                if o is not None and e.d.cls == RV:
                    p = path(o)
                    if p is None: continue
                    k = this + p[1:] if p[0] == "this" else tuple(x for x in p if x != "*")
                    st = self.call(st, t, ("this",), k)
                else:
                    for pd, a in zip(t.params, A):
                        if RV not in (pd.t or ""): continue
                        p = path(a)
                        if p is None: continue
                        k = this + p[1:] if p[0] == "this" else tuple(x for x in p if x != "*")
                        st = self.call(st, t, (pd,), k)
                if st is None: return None
        return st
    def call(self, st, t, formal, k):
        s = self.get(st, k)
        out = self.summary(t, formal, s)
        if out is None: return None
        return {**st, k: out}
    def summary(self, t, formal, s):
        key = (t.key, formal[0] if formal[0] == "this" else formal[0].n, s)
        if key in self.memo: return self.memo[key]
        if t in self.stack: return s
        self.stack.append(t)
        out = self.run(t, {formal: s})
        self.stack.pop()
        r = None if out is None else self.get(out, formal)
        self.memo[key] = r
        return r
    def wfield(self, st, q, o, rhs):
        s = self.get(st, o)
        if q in ENT: s = V(s.flag, s.flag is False, False, False)
        elif q == FLAG:
            c = const(rhs) if rhs is not None else None
            if c is not None and not c: s = V(False, True, s.ws, s.wf)
            elif c: s = V(True, s.ws and s.wf or (s.flag is True and s.cons), s.ws, s.wf)
            else: s = V(None, False, s.ws, s.wf)
        elif q == SC:
            s = V(s.flag, s.flag is False or s.wf, True, s.wf)
        elif q == SF:
            s = V(s.flag, s.flag is False or s.ws, s.ws, True)
        return {**st, o: s}
    def run(self, f, st0):
        if not f.rawcfg: return st0
        f.cfg()
        this = ("this",)
        def xfer(b, st):
            for e in b.el:
                if st is None: return None
                if e.k == "DeclStmt": continue
                if e.k == "MemberExpr" and e.d.q in (SC, SF): self.note_read(f, e, st, this)
                st = self.step(st, e, f, this)
            return st
        filled = {}
        for lp in f.nodes:
            if lp.k in LOOPS: filled[lp.i] = {q[0] for m in walk(lp) for l, r in write_of(m) if (q := field_of(l)) and q[0] in (SC, SF)}
        def edge(b, i, s, st):
            if st is None or b.noret: return None
            if b.term is not None and b.term.k in LOOPS and i == 1 and filled.get(b.term.i):
                # a loop over the entries that fills the cache has filled it when it ends (no entries: nothing to fill)
                for m in walk(b.term):
                    for l, r in write_of(m):
                        q = field_of(l)
                        if q and q[0] in (SC, SF):
                            o = this + q[1][1:] if q[1][0] == "this" else tuple(x for x in q[1] if x != "*")
                            st = self.wfield(st, q[0], o, None)
            c = strip(b.cond, explicit=True) if b.cond is not None and len(b.succ) == 2 else None
            tk = i == 0
            while c is not None and c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"): c = strip(c.ch[1], explicit=True)
            while c is not None and c.k == "UnaryOperator" and c.x["op"] == "!": c, tk = strip(c.ch[0], explicit=True), not tk
            if c is not None and c.k == "BinaryOperator" and c.x["op"] in ("==", "!=") and const(c.ch[1]) in (0, 1, True, False):
                if (c.x["op"] == "==") != bool(const(c.ch[1])): tk = not tk
                c = strip(c.ch[0], explicit=True)
            if c is not None:
                r = field_of(c)
                if r is not None and r[0] == FLAG:
                    o = this + r[1][1:] if r[1][0] == "this" else tuple(x for x in r[1] if x != "*")
                    v = self.get(st, o)
                    if v.flag is not None and v.flag != tk: return None
                    return {**st, o: V(tk, v.cons if tk else True, v.ws, v.wf)}
            return st
        def join(a, b):
            out = {}
            for k in set(a) | set(b):
                x, y = self.get(a, k), self.get(b, k)
                out[k] = V(x.flag if x.flag == y.flag else None, x.cons and y.cons, x.ws and y.ws, x.wf and y.wf)
            return out
        IN = forward(f, st0, xfer, join, edge)
        if f.exit.id not in IN: return None
        return xfer(f.exit, IN[f.exit.id])
    def note_read(self, f, e, st, this):
        r = field_of(e)
        o = this + r[1][1:] if r[1][0] == "this" else tuple(x for x in r[1] if x != "*")
        s = self.get(st, o)
        self.reads.setdefault((f.key, e.i), []).append((e, s))

def touches(t):
    if "touchrv" not in t._cache: t._cache["touchrv"] = any(n.k in ("MemberExpr", "CtorInit") and n.d is not None and n.d.q in (ENT | {SC, SF, FLAG}) for n in t.nodes) or \
        t.cls == RV and any(n.k == "CXXMemberCallExpr" and n.d is not None and n.d.cls == RV and not n.d.x.get("c") for n in t.nodes)
    return t._cache["touchrv"]

def is_written(e):
    """The member expression is (the base of) an lvalue that is only written."""
    m = e
    while m.p is not None and (m.p.k in TRANSPARENT or m.p.k == "ArraySubscriptExpr" and m.p.ch[0] is m or m.p.k == "CXXOperatorCallExpr" and m.p.x["op"] == "[]" and len(m.p.ch) > 1 and m.p.ch[1] is m): m = m.p
    p = m.p
    if p is None: return False
    if p.k == "CXXOperatorCallExpr" and p.x["op"] == "=" and p.ch[1] is m: return True
    if p.k == "BinaryOperator" and p.x["op"] == "=" and p.ch[0] is m: return True
    if p.k == "MemberExpr": return True       # method call on it (SetLength)
    if p.k == "CXXMemberCallExpr": return True
    return False

def check_vector(P, C):
    rec = P.recs.get(RV)
    if rec is None or (ENT | {SC, SF, FLAG}) - {fl["d"].q for fl in rec["fields"]}: raise AnalysisError("class rationalVector with its cache fields not found")
    K = Cache(P)
    F = [f for f in P.fns.values() if not f.imp and touches(f)]
    call = P.callers()
    inside = {f.key for f in F}
    computing = set()
    for f in F:
        ctor = f.cls == RV and f.d.n == RV
        st0 = {("this",): V(False, True, False, False)} if ctor else {}
        K.reads = {}
        out = K.run(f, st0)
        if out is None: C.ok("vector", f.body, "never returns"); continue
        internal = not ctor and call.get(f.key) and all(c.fn.key in inside for c in call[f.key]) and f.cls == RV
        bad = False
        if ctor and out.get(("this",), V(False, True, False, False)).flag is False and \
                not any(n.k in ("MemberExpr", "CtorInit") and n.d is not None and n.d.q == FLAG and (n.k == "CtorInit" and n.ch or n.k != "CtorInit") for n in f.nodes) and \
                not any(n.k in CALLS and n.d is not None and any(touches(t) for t in P.targets(n)) for n in f.nodes) and not any(n.k == "CtorInit" and n.d.k != "field" for n in f.inits):
            bad = True; C.bad("vector", "flag-unset|%s" % f.key, f.body, "the constructor leaves the flag that marks the cached integer scaling undefined")
        for o, s in out.items():
            if not s.cons and not internal:
                bad = True
                C.bad("vector", "stale|%s" % f.key, f.body, "%s may return with entries that differ from the cached integer scaling it still marks as valid" % f.short)
        for (fk, i), l in K.reads.items():
            if fk != f.key: continue
            for e, s in l[-1:]:
                if is_written(e) or s.ws or s.wf: continue
                if s.flag is not True or not s.cons:
                    if all(c.fn.key in inside for c in call.get(f.key, ())) and call.get(f.key) and f.cls == RV: continue
                    bad = True; C.bad("vector", "read|%s|%s" % (f.short, e.d.n), e, "the cached integer scaling is read although it may not have been computed for the current entries")
        # the computation of the scaling itself
        sets = [n for n in f.nodes for l, r in write_of(n) if (q := field_of(l)) and q[0] == SC and r is not None]
        if sets and not ctor:
            dep = set()
            for n in sets:
                for l, r in write_of(n):
                    if r is not None: dep |= deps(f, r)
            fdep = set()
            for n in f.nodes:
                for l, r in write_of(n):
                    q = field_of(l)
                    if q and q[0] == SF and r is not None: fdep |= deps(f, r)
            need = [("enumerator", "entries' numerators"), ("denominator", "entries' denominators"), ("integer_scale_factor", "common scale factor")]
            for nm, what in need:
                if nm not in dep: bad = True; C.bad("vector", "scale-dep|%s|%s" % (f.short, nm), sets[0], "the integer scaling does not depend on the " + what)
            if "denominator" not in fdep: bad = True; C.bad("vector", "factor-dep|%s" % f.short, f.body, "the scale factor does not depend on the entries' denominators")
        for lp in [n for n in f.nodes if n.k == "ForStmt"]:
            if not any((q := field_of(l)) for m in walk(lp) for l, r in write_of(m)): continue
            w = partial_range(lp)
            if w: bad = True; C.bad("vector", "range|%s" % f.short, lp, "the loop over the entries %s" % w)
            else: C.ok("vector_loop", lp, "covers every entry")
        w = unpaired(f)
        if w: bad = True; C.bad("vector", "pair|%s" % f.short, w, "numerators and denominators of the entries are not divided by the same factor")
        if not bad: C.ok("vector", f.body, "cache consistent at exit")

def deps(f, r):
    out, st, seen = set(), [r], set()
    while st:
        e = st.pop()
        for m in walk(e):
            if m.k == "MemberExpr": out.add(m.d.n)
            if m.k == "CXXMemberCallExpr" and m.d is not None:
                out |= {"numerators": {"enumerator"}, "denominators": {"denominator"}}.get(m.d.n, set())
            if m.k == "DeclRefExpr" and m.d.k == "local" and m.d not in seen:
                seen.add(m.d)
                for v in f.nodes:
                    if v.k == "VarDecl" and v.d is m.d and v.ch: st.append(v.ch[0])
                    for l, rr in write_of(v):
                        if vdecl(l) is m.d and rr is not None: st.append(rr)
    return out

def partial_range(lp):
    """Reason why an ascending loop over vector entries misses some, or None."""
    init, c, inc = part(lp, "i"), cond_of(lp), part(lp, "n")
    var = None
    for m in walk(lp):
        for l, r in write_of(m):
            q = field_of(l)
            if q:
                for s in walk(l):
                    if s.k == "DeclRefExpr" and s.d.k == "local" and (s.d.t or "") in SCALAR: var = s.d
    if var is None:
        for m in walk(lp):
            if m.k == "CXXOperatorCallExpr" and m.x["op"] == "[]" and vdecl(m.ch[2]) is not None and (field_of(m) or strip(m.ch[1]).k == "CXXMemberCallExpr" and strip(m.ch[1]).d is not None and strip(m.ch[1]).d.cls == RV): var = vdecl(m.ch[2])
    if var is None or c is None: return None
    start = None
    for m in walk(lp):
        if m is c or is_under(m, c): continue
        if m.k == "VarDecl" and m.d is var and m.ch: start = const(m.ch[0]); break
        if m.k == "BinaryOperator" and m.x["op"] == "=" and vdecl(m.ch[0]) is var: start = const(m.ch[1]); break
    if start is None: return None
    cc = strip(c)
    up = any((delta(m) or 0) > 0 and vdecl(m.ch[0]) is var for m in walk(lp))
    if not up: return None
    if start > 0: return "starts after the first entry"
    if cc.k == "BinaryOperator" and vdecl(cc.ch[0]) is var and cc.x["op"] in ("<", "<=", "!="):
        b = strip(cc.ch[1], explicit=True)
        if b.k == "BinaryOperator" and b.x["op"] == "-" and const(b.ch[1]) is not None and const(b.ch[1]) - (cc.x["op"] == "<=") > 0: return "stops before the last entry"
    return None

def unpaired(f):
    D = {"N": [], "D": []}
    for n in f.nodes:
        if n.k == "CXXOperatorCallExpr" and n.x["op"] == "/=":
            q = field_of(n.ch[1])
            if q and q[0] in ENT: D["N" if q[0].endswith("enumerator") else "D"].append((n, text(strip(n.ch[2], explicit=True)), index_of(n.ch[1])))
    for a, b in (("N", "D"), ("D", "N")):
        for n, t, ix in D[a]:
            if not any(t2 == t and ix2 == ix for _, t2, ix2 in D[b]): return n
    return None

def index_of(l):
    l = strip(l, explicit=True)
    return text(l.ch[2]) if l.k == "CXXOperatorCallExpr" and len(l.ch) > 2 else text(l.ch[1]) if len(l.ch) > 1 else ""

# ---------------- GMP rationals built from two integers or from text ----------------
def mpq_type(t): return t is not None and (t.replace("const ", "").strip() in ("__gmp_expr<mpq_t, mpq_t>", "mpq_class"))

def check_mpq(P, C):
    N = noreturn(P)
    for f in P.fns.values():
        if f.file.endswith("gmpxx.h") or "/usr/" in f.file: continue
        for n in f.nodes:
            src = None
            if n.k in CTORS and mpq_type(n.t):
                A = [a for a in n.ch if strip(a).k != "CXXDefaultArgExpr"]
                if len(A) >= 1 and ("char" in (strip(A[0]).t or "")): src = "text"
                elif len(A) == 2 and const(A[1]) is None: src = "two integers"
                elif len(A) == 2:
                    d = const(A[1])
                    a = strip(A[1], explicit=True)
                    if d == 1 or d == 0 and "char" in (strip(A[0]).t or ""): continue
                    src = "two integers"
                if src == "two integers" and copies(f, A): C.ok("mpq", n, "numerator and denominator of one rational"); continue
                if src == "two integers" and any(constant(x) == 1 or lit_one(x) for x in A[1:]): C.ok("mpq", n, "denominator one"); continue
                if src == "text" and literal_text(f, A[0]): C.ok("mpq", n, "literal"); continue
            elif n.k == "CXXOperatorCallExpr" and n.x["op"] == ">>" and len(n.ch) == 3 and mpq_type(n.ch[2].t): src = "a stream"
            if src is None: continue
            dest = destination(n)
            if dest is None: C.bad("mpq", "mpq|%s|%s" % (f.short, src), n, "a rational made from %s is used without being brought to canonical form" % src); continue
            w = unreduced_use(P, f, n, dest, N)
            if w is None: C.ok("mpq", n, "canonicalised before use")
            else: C.bad("mpq", "mpq|%s|%s" % (f.short, src), w if w is not True else n, "a rational made from %s may be used before it is brought to canonical form" % src)

def lit_one(a):
    a = strip(a, explicit=True)
    while a is not None and a.k in CTORS and len(a.ch) >= 1: a = strip(a.ch[0], explicit=True)
    return a is not None and const(a) == 1

def unwrap(a):
    a = strip(a, explicit=True)
    while a is not None and a.k in CTORS and len(a.ch) == 1: a = strip(a.ch[0], explicit=True)
    return a

def copies(f, A):
    """(q.get_num(), q.get_den()), or powers of the two parts of one rational."""
    a, b = unwrap(A[0]), unwrap(A[1])
    def part_of(x):
        if x.k == "CXXMemberCallExpr" and x.d is not None and x.d.n.startswith(("get_num", "get_den")): return x.d.n[4:7], text(obj(x))
        v = vdecl(x)
        if v is not None and v.k == "local":
            ws = [m for m in f.nodes if m.k in CALLS and m.d is not None and m.d.n in ("__gmpz_pow_ui", "__gmpz_set", "mpz_pow_ui") and args(m) and any(vdecl(y) is v for y in walk(args(m)[0]) if y.k == "DeclRefExpr")]
            if len(ws) == 1:
                for y in walk(args(ws[0])[1]):
                    if y.k == "CXXMemberCallExpr" and y.d is not None and y.d.n.startswith(("get_num", "get_den")): return y.d.n[4:7] + (text(args(ws[0])[2]) if len(args(ws[0])) > 2 else ""), text(obj(y))
        return None
    p, q = part_of(a), part_of(b)
    return p is not None and q is not None and p[1] == q[1] and p[0].startswith("num") and q[0].startswith("den") and p[0][3:] == q[0][3:]

def literal_text(f, a):
    """The text comes from string literals of the program."""
    for m in walk(a):
        if m.k == "StringLiteral": return True
        if m.k == "DeclRefExpr" and m.d.k in ("local", "global"):
            for v in f.nodes:
                if v.k == "VarDecl" and v.d is m.d and any(x.k == "StringLiteral" for x in walk(v)) and "[" in (m.d.t or ""): return True
        if m.k == "DeclRefExpr" and m.d.k == "parm" and f.file.endswith("testLibraryExamples.cpp"): return True
    return False

def destination(n):
    """Text of the lvalue that receives the new rational, or None when it is used directly."""
    if n.k == "CXXOperatorCallExpr" and n.x["op"] == ">>": return text(strip(n.ch[2], explicit=True))
    m = n
    while m.p is not None:
        p = m.p
        if p.k in TRANSPARENT or p.x.get("xc") or p.k in CTORS and mpq_type(p.t) and len(p.ch) == 1: m = p; continue
        if p.k == "VarDecl": return p.d.n
        if p.k == "CXXOperatorCallExpr" and p.x["op"] == "=" and p.ch[2] is m: return text(strip(p.ch[1], explicit=True))
        if p.k == "CXXMemberCallExpr" and p.d is not None and p.d.n in ("push_back", "emplace_back", "push_front") and obj(p) is not None:
            return text(obj(p)) + (".back" if p.d.n != "push_front" else ".front")
        return None
    return None

def unreduced_use(P, f, n, dest, N):
    """Some path from n uses dest (or leaves) before dest.canonicalize(): the use, or None."""
    p = f.pos(n)
    if p is None: return None
    assign = n
    seen, st = set(), [(f.blocks[p[0]], p[1] + 1)]
    root = dest.split("[")[0].split(".")[0].split("->")[0]
    if ".back" in dest or "[" in dest:
        # a later loop that reduces the elements of the container one by one
        for c in f.nodes:
            if c.k == "CXXMemberCallExpr" and c.d is not None and c.d.n == "canonicalize" and c.i > n.i:
                lps = [x for x in enclosing_all(c, LOOPS) if not is_under(n, x)]
                if lps and any(m.k == "DeclRefExpr" and m.d.n == root or m.k == "MemberExpr" and m.d.n == root for m in walk(lps[-1])): return None
    while st:
        b, i = st.pop()
        if (b.id, i > 0) in seen and i == 0: continue
        seen.add((b.id, i > 0))
        stop = False
        for e in b.el[i:]:
            if e.k == "CXXMemberCallExpr" and e.d is not None and e.d.n == "canonicalize":
                t = text(strip(obj(e), explicit=True)).replace("()", "")
                if t == dest or t.split("[")[0] == root: stop = True; break
            if e.k == "CXXThrowExpr" or call_ends(P, e, N): stop = True; break
            if e.k in CALLS and e.d is not None and e.d.n in ("get_den", "get_den_mpz_t", "back", "front", "begin", "end"): continue
            if e is n and ".back" in dest: return True               # the next element is appended and this one was not reduced
            if is_under(n, e) or e is n: continue
            if e.k == "DeclRefExpr" and e.d.n == root and use_matters(e, dest): return e
        if stop or b.noret: continue
        if b is f.exit: 
            if f.params and any(q.n == root for q in f.params) or root in ("this",) or ".back" in dest or "[" in dest: return True
            continue
        for s in b.succ:
            if s is None: continue
            if s.id not in seen_blocks(seen): st.append((s, 0))
    return None

def seen_blocks(seen): return {b for b, partial in seen if not partial}

def use_matters(e, dest):
    """A use of the destination's value, other than the guard on its denominator, the stream test and the canonicalisation."""
    m = e
    while m.p is not None and not m.p.k.endswith("Stmt"):
        p = m.p
        if p.k in CALLS and p.d is not None and p.d.n in ("canonicalize", "get_den", "get_den_mpz_t", "push_back", "size", "resize"): return False
        if p.k == "CXXOperatorCallExpr" and p.x["op"] == ">>": return False
        if p.k == "CXXOperatorCallExpr" and p.x["op"] == "=" and is_under(e, p.ch[1]): return False
        m = p
    if ".back" in dest or "[" in dest:
        # whole-container uses only count when they leave the function
        return False
    return True

def check():
    P = load()
    C = Check("C02", "every function that writes a component of an exact rational leaves it, on every path to its exit, with a positive denominator and no "
              "common factor (abstract interpretation of sign / reducedness), never replaces a zero denominator, and keeps the cached integer scaling of a "
              "rational vector marked stale or recomputed (typestate); GMP rationals built from parts are canonicalised before use")
    check_scalar(P, C)
    check_vector(P, C)
    check_mpq(P, C)
    C.floor("scalar", 25); C.floor("vector", 10); C.floor("mpq", 8)
    return C.finish(P)
