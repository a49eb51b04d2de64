"""Interprocedural side-effect summaries: which memory (relative to this / parameters / globals) a function may write.

A location is a tuple: root followed by at most two fields. Root: 'this', ('p', ix), a global Decl, or a local Decl.
Writes through pointers, references, subscripts and container accessors are attributed to the owning location."""
from collections import defaultdict
from model import *

MAXF = 3
PURE_EXT = {"operator<<"}

def shorten(p):
    out = [p[0]]
    for c in p[1:]:
        if isinstance(c, str): continue
        if len(out) <= MAXF: out.append(c)
    return tuple(out)

def mutable_param_type(t):
    if t is None: return False
    if t.endswith("&&"): return True
    if t.endswith("&"): return not t.startswith("const ")
    if t.endswith("*") or t.endswith("* const"): return not t.startswith("const ")
    if t.endswith("]"): return not t.startswith("const ")
    return False

class Effects:
    def __init__(self, P):
        self.P = P
        self.alias = {}
        self.direct = {}
        self.sum = {}
        for f in P.fns.values():
            self.direct[f.key] = self._direct(f)
        self._solve()

    # -- access paths --
    def roots(self, f, n, depth=0):
        """Locations an lvalue / pointer expression may denote (or point to)."""
        n = strip(n, explicit=True)
        if n is None or depth > 30: return set()
        k = n.k
        if k == "DeclRefExpr":
            d = n.d
            if d.k == "parm":
                if d in f.params: return {(("p", f.params.index(d)),)}
                return {(d,)}
            if d.k == "local":
                a = self._aliases(f).get(d)
                return {(d,)} | (a or set())
            if d.k == "global": return {(d,)}
            if d.k == "field": return {("this", d)}
            return set()
        if k == "CXXThisExpr": return {("this",)}
        if k == "MemberExpr":
            if n.d.k == "global": return {(n.d,)}
            if n.d.k != "field": return self.roots(f, n.ch[0], depth + 1) if n.ch else {("this",)}
            b = self.roots(f, n.ch[0], depth + 1) if n.ch else {("this",)}
            return {shorten(x + (n.d,)) for x in b}
        if k == "ArraySubscriptExpr": return self.roots(f, n.ch[0], depth + 1)
        if k == "UnaryOperator": return self.roots(f, n.ch[0], depth + 1)
        if k == "ConditionalOperator":
            return self.roots(f, n.ch[1], depth + 1) | self.roots(f, n.ch[2], depth + 1)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.x["op"] == ",": return self.roots(f, n.ch[1], depth + 1)
            if n.x["op"] in ("+", "-") or n.x["op"].endswith("="): return self.roots(f, n.ch[0], depth + 1)
            return set()
        if k == "CXXOperatorCallExpr":
            if n.x["op"] in ("[]", "()", "*", "->", "=", "+=", "-=", "*=", "/=", "<<", ">>", "++", "--") and len(n.ch) > 1:
                if n.x["op"] in ("*", "<<", ">>") and len(n.ch) == 3 and not self._ref_ret(n): return set()
                return self.roots(f, n.ch[1], depth + 1)
            return set()
        if k == "CXXMemberCallExpr":
            # accessor returning a pointer / reference into the object
            if (n.t or "").endswith("*") or n.x.get("lv") or self._ref_ret(n):
                o = obj(n)
                return self.roots(f, o, depth + 1) if o is not None else set()
            return set()
        if k == "CallExpr":
            if self._ref_ret(n):
                r = set()
                for a in args(n): r |= self.roots(f, a, depth + 1)
                return r
            return set()
        return set()

    def _ref_ret(self, n):
        return n.d is not None and n.d.rt is not None and (n.d.rt.endswith("&") or n.d.rt.endswith("*") or "iterator" in n.d.rt)

    def _aliases(self, f):
        """Pointer / reference locals and the locations they may stand for (flow-insensitive)."""
        if f.key in self.alias: return self.alias[f.key]
        A = defaultdict(set)
        self.alias[f.key] = A
        src = []
        for n in f.nodes:
            if n.k == "VarDecl" and n.ch and n.d.k == "local":
                t = n.d.t
                if t.endswith("*") or t.endswith("&") or "iterator" in t: src.append((n.d, n.ch[0]))
            elif n.k == "BinaryOperator" and n.x["op"] == "=" and (n.t or "").endswith("*"):
                d = vdecl(n.ch[0])
                if d is not None and d.k == "local": src.append((d, n.ch[1]))
        for _ in range(4):
            ch = False
            for d, e in src:
                r = {x for x in self.roots(f, e) if x != (d,)}
                r = {x for x in r if not (isinstance(x[0], Decl) and x[0].k == "local" and len(x) == 1 and x[0] is d)}
                if not r <= A[d]:
                    A[d] |= r; ch = True
            if not ch: break
        return A

    # -- direct writes --
    def _direct(self, f):
        """[(node, target expr, mode, rhs exprs)]  mode: 'set' (old value discarded) / 'upd'"""
        out = []
        for n in f.nodes:
            k = n.k
            if k == "BinaryOperator" and n.x["op"] == "=": out.append((n, n.ch[0], "set"))
            elif k == "CompoundAssignOperator": out.append((n, n.ch[0], "upd"))
            elif k == "UnaryOperator" and n.x["op"] in ("++", "--"): out.append((n, n.ch[0], "upd"))
            elif k == "CXXOperatorCallExpr":
                op = n.x["op"]
                if op == "=": out.append((n, n.ch[1], "set"))
                elif op in ("+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", "++", "--"): out.append((n, n.ch[1], "upd"))
        return out

    def call_effects(self, f, n):
        """[(expr, extra fields, mode)] the expressions whose referents the call may write."""
        out = []
        if n.d is None or n.d.k != "fn":
            return out
        T = self.P.targets(n)
        A = args(n)
        if T:
            for t in T:
                for l in self.sum.get(t.key, ()):
                    if l[0] == "this":
                        o = obj(n)
                        if o is not None: out.append((o, l[1:]))
                        elif n.k == "CXXMemberCallExpr": out.append((None, l[1:]))
                    elif isinstance(l[0], tuple):
                        ix = l[0][1]
                        if ix < len(A): out.append((A[ix], l[1:]))
                    elif isinstance(l[0], Decl): out.append((l[0], l[1:]))
            return out
        pt = n.d.pt or []
        for i, a in enumerate(A):
            t = pt[i] if i < len(pt) else None
            if t is None: continue
            if mutable_param_type(t): out.append((a, ()))
        if n.k == "CXXMemberCallExpr" and not n.d.x.get("const") and not n.d.x.get("c"):
            o = obj(n)
            if o is not None and n.d.cls is not None: out.append((o, ()))
        return out

    def _solve(self):
        P = self.P
        callers = P.callers()
        self.dl = {}
        for f in P.fns.values():
            S = set()
            for n, t, m in self.direct[f.key]:
                v = vdecl(t)
                if v is not None and v.k == "local" and not v.t.endswith("&"): continue     # the variable itself, not what it points to
                S |= {x for x in self._nonlocal(f, self.roots(f, t), t)}
            for i in f.inits:
                if i.d is not None: S.add(("this", i.d))
            self.dl[f.key] = S
            self.sum[f.key] = set(S)
        wl = list(P.fns.values())
        inq = {f.key for f in wl}
        while wl:
            f = wl.pop(); inq.discard(f.key)
            S = set(self.dl[f.key])
            for n in f.nodes:
                if (n.k in CALLS or n.k in CTORS):
                    for e, ext in self.call_effects(f, n):
                        if isinstance(e, Decl): S.add(shorten((e,) + ext)); continue
                        rs = self.roots(f, e) if e is not None else {("this",)}
                        S |= self._nonlocal(f, {shorten(x + ext) for x in rs}, e)
            if not S <= self.sum[f.key]:
                self.sum[f.key] |= S
                for c in callers.get(f.key, ()):
                    if c.fn.key not in inq: inq.add(c.fn.key); wl.append(c.fn)

    def _nonlocal(self, f, rs, e):
        out = set()
        for r in rs:
            if isinstance(r[0], Decl) and r[0].k == "local": continue
            if isinstance(r[0], tuple) and r[0][0] == "p":
                pd = f.params[r[0][1]]
                t = pd.t
                if not (t.endswith("&") or t.endswith("*") or t.endswith("]")): continue
                # plain assignment to the pointer parameter itself
                se = strip(e) if e is not None else None
                if len(r) == 1 and se is not None and se.k == "DeclRefExpr" and t.endswith("*") and self._is_lhs(se): continue
            if isinstance(r[0], Decl) and r[0].k == "parm": continue
            out.add(r)
        return out

    def _is_lhs(self, n):
        p = n.p
        while p is not None and p.k in TRANSPARENT: p = p.p
        return p is not None and ((p.k in ("BinaryOperator",) and p.x["op"] == "=" and is_under(n, p.ch[0])) or
                                  (p.k == "CompoundAssignOperator") or (p.k == "UnaryOperator" and p.x["op"] in ("++", "--")))

    def fields_written(self, key):
        return {l[1] for l in self.sum.get(key, ()) if l[0] == "this" and len(l) > 1}

_eff = None
def effects(P):
    global _eff
    if _eff is None: _eff = Effects(P)
    return _eff
