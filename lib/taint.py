"""Whole-program, flow-insensitive value-origin analysis: which origin labels can reach which expression.

Graph nodes: Decl objects (locals, parameters, globals, fields - field based), ('ret', fn key).
A label is any hashable; propagation is plain reachability from labelled sources."""
from collections import defaultdict
from model import *

class Origins:
    def __init__(self, prog, source=None, sanitize=None, external=None, type_filter=None, ssa=False):
        """source(node) -> iterable of labels generated by the expression (added to what flows);
        sanitize(call) -> iterable of labels replacing the value of a call (None: not a sanitizer);
        type_filter(type) -> False stops flow into declarations of that type."""
        self.P = prog
        self.source, self.sanitize, self.type_filter = source, sanitize, type_filter
        self.external = external
        self.ssa = ssa                     # scalar locals are split by reaching definition
        self.edges = defaultdict(set)      # src graph node -> dst graph nodes
        self.seed = defaultdict(set)       # graph node -> labels
        self.witness = {}
        for f in prog.fns.values():
            self._fn(f)
        for g in prog.globals.values():
            if g["init"] is not None: self.flow(g["init"], g["d"])
        self._solve()

    # expression -> (graph nodes, labels)
    def ev(self, n):
        nodes, labels = set(), set()
        self._ev(n, nodes, labels, 0)
        return nodes, labels

    def _ev(self, n, N, L, depth):
        if n is None or depth > 60: return
        if self.source:
            s = self.source(n)
            if s is not None:
                s = set(s)
                if "STOP" in s:
                    L |= s - {"STOP"}; return
                L |= s
        k = n.k
        if k == "DeclRefExpr" or k == "MemberExpr":
            if self.ssa and k == "DeclRefExpr" and n.fn is not None and n.d.k in ("local", "parm") and n.d in self._plain(n.fn):
                for x in self._reach(n.fn)(n):
                    if x == "param": N.add(n.d)
                    elif x is not None: N.add(("def", x.fn.key, x.i))
                return
            if n.d.k in ("local", "parm", "global", "field"): N.add(n.d)
            if k == "MemberExpr" and n.ch and n.d.k == "field":
                b = strip(n.ch[0])
                # an aggregate variable carries what was put into it as a whole
                self._ev(b, N, L, depth + 1)
            return
        if k in CALLS or k in CTORS:
            if self.sanitize:
                s = self.sanitize(n)
                if s is not None:
                    L |= set(s); return
            T = self.P.targets(n)
            if T and k not in CTORS:
                for t in T: N.add(("ret", t.key))
                return
            op = n.x.get("op")
            if op == ">>" and len(n.ch) == 3 and "stream" in (n.t or ""):
                self._ev(n.ch[1], N, L, depth + 1); return
            if k == "CXXMemberCallExpr":
                o = obj(n)
                if o is not None: self._ev(o, N, L, depth + 1)
            elif k == "CallExpr" and n.d is None and n.ch:
                pass
            for a in (n.ch[1:] if k in CALLS else n.ch): self._ev(a, N, L, depth + 1)
            return
        if k in ("UnaryExprOrTypeTraitExpr", "CXXThisExpr", "LambdaExpr"): return
        if k == "ConditionalOperator":
            for c in n.ch[1:]: self._ev(c, N, L, depth + 1)
            return
        if k in ("BinaryOperator",) and n.x["op"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            return
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"] == ",":
            self._ev(n.ch[1], N, L, depth + 1); return
        for c in n.ch: self._ev(c, N, L, depth + 1)

    def flow(self, src, dst, extra=()):
        if dst is None: return
        if self.type_filter and not isinstance(dst, tuple) and not self.type_filter(dst): return
        N, L = self.ev(src)
        for s in N: self.edges[s].add(dst)
        L |= set(extra)
        if L:
            for l in L:
                if l not in self.seed[dst]:
                    self.seed[dst].add(l); self.witness.setdefault((dst, l), src)

    def lv(self, n):
        """Graph nodes written when lvalue/pointer expression n is written through."""
        n = strip(n, explicit=True)
        if n is None: return []
        if n.k == "DeclRefExpr":
            return [n.d] if n.d.k in ("local", "parm", "global") else []
        if n.k == "MemberExpr":
            out = [n.d] if n.d.k == "field" or n.d.k == "global" else []
            return out
        if n.k == "ArraySubscriptExpr": return self.lv(n.ch[0])
        if n.k == "UnaryOperator" and n.x["op"] in ("*", "&", "++", "--"): return self.lv(n.ch[0])
        if n.k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.x["op"] in ("+", "-"): return self.lv(n.ch[0])
            if "=" in n.x["op"] and n.x["op"] not in ("==", "!=", "<=", ">="): return self.lv(n.ch[0])
        if n.k == "CXXOperatorCallExpr":
            if n.x["op"] in ("[]", "*", "->", "()", "<<", ">>", "=", "+=") and len(n.ch) > 1: return self.lv(n.ch[1])
        if n.k == "CXXMemberCallExpr":
            o = obj(n)
            if o is not None: return self.lv(o)
        if n.k == "ConditionalOperator": return self.lv(n.ch[1]) + self.lv(n.ch[2])
        return []

    def _mutable(self, t):
        if t.endswith("&") or t.endswith("&&"): return not t.startswith("const ")
        if t.endswith("*"): return not t.startswith("const ")
        return False

    def _plain(self, f):
        import common
        return common.plain_locals(f)
    def _reach(self, f):
        import common
        return common.reaching(f)

    def _fn(self, f):
        for n in f.nodes:
            k = n.k
            if self.ssa and k in ("VarDecl", "BinaryOperator", "CompoundAssignOperator", "UnaryOperator"):
                import common
                v = common.assigned_var(n)
                if v is not None and v in self._plain(f):
                    dst = ("def", f.key, n.i)
                    for c in (n.ch[:1] if k != "BinaryOperator" else n.ch[1:]) if k != "CompoundAssignOperator" else n.ch:
                        self.flow(c, dst)
                    continue
            if k == "VarDecl" and n.ch: self.flow(n.ch[0], n.d)
            elif k == "CtorInit" and n.d is not None and n.ch: self.flow(n.ch[0], n.d)
            elif k == "BinaryOperator" and n.x["op"] == "=":
                for t in self.lv(n.ch[0]): self.flow(n.ch[1], t)
            elif k == "CompoundAssignOperator":
                for t in self.lv(n.ch[0]): self.flow(n.ch[1], t)
            elif k == "ReturnStmt" and n.ch:
                self.flow(n.ch[0], ("ret", f.key))
            elif k == "CXXForRangeStmt":
                for c in n.ch:
                    pass
            elif k in CALLS or k in CTORS:
                self._call(f, n)

    def _call(self, f, n):
        if self.sanitize and self.sanitize(n) is not None: return
        T = self.P.targets(n)
        A = args(n)
        o = obj(n) if n.k in CALLS else None
        if T:
            for t in T:
                for i, a in enumerate(A):
                    if i < len(t.params):
                        p = t.params[i]
                        self.flow(a, p)
                        if self._mutable(p.t):
                            for v in self.lv(a): self.edges[p].add(v)
            return
        # external callee
        if self.external:
            r = self.external(self, f, n, A, o)
            if r: return
        op = n.x.get("op")
        if n.k == "CXXOperatorCallExpr":
            if op == ">>" and len(n.ch) == 3:
                for v in self.lv(n.ch[2]): self.flow(n.ch[1], v)
                return
            if op == "<<" and len(n.ch) == 3:
                for v in self.lv(n.ch[1]): self.flow(n.ch[2], v)
                return
            if op in ("=", "+=", "-=", "*=", "/=", "%=") and len(n.ch) == 3:
                for v in self.lv(n.ch[1]): self.flow(n.ch[2], v)
                return
            if n.d is not None and n.d.k == "fn" and n.d.pt: pass
        if n.k in CTORS: return
        if n.k == "CXXMemberCallExpr" and o is not None and n.d is not None and not n.d.x.get("c"):
            for v in self.lv(o):
                for a in A: self.flow(a, v)
        # mutable reference / pointer arguments of external functions receive every other argument
        pts = n.d.pt if n.d is not None and n.d.pt else []
        for i, a in enumerate(A):
            t = pts[i] if i < len(pts) else (a.t or "")
            if self._mutable(t):
                for v in self.lv(a):
                    for j, b in enumerate(A):
                        if j != i: self.flow(b, v)
                    if o is not None: self.flow(o, v)

    def _solve(self):
        self.lab = defaultdict(set)
        self.via = {}
        wl = []
        for d, ls in self.seed.items():
            self.lab[d] |= ls; wl.append(d)
        while wl:
            s = wl.pop()
            for d in self.edges.get(s, ()):
                if self.type_filter and not isinstance(d, tuple) and not self.type_filter(d): continue
                new = self.lab[s] - self.lab[d]
                if new:
                    self.lab[d] |= new
                    for l in new: self.via.setdefault((d, l), s)
                    wl.append(d)

    def labels(self, n):
        N, L = self.ev(n)
        for x in N: L |= self.lab.get(x, set())
        return L

    def explain(self, n, label):
        """A chain of declarations from the source of label to expression n."""
        N, L = self.ev(n)
        out = []
        cur = next((x for x in N if label in self.lab.get(x, ())), None)
        while cur is not None and len(out) < 12:
            out.append(cur[1] if isinstance(cur, tuple) else cur.n)
            w = self.witness.get((cur, label))
            if w is not None:
                out.append("<- %s at %s" % (text(w)[:60], loc(w) if w.fn else "global")); break
            cur = self.via.get((cur, label))
        return " <- ".join(out)
