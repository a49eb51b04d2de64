"""C03  In-place operations are right when operands are the same object.

For every member function that changes its object and receives, by reference, an operand that may be that object or one of
its parts, no path may write a part of the object and afterwards read, through the operand, a part that the write may have
changed.  Free functions with an output parameter are analysed the same way; for those that are not safe, every call in the
program must pass output and operand that are visibly different objects."""
import re
from common import *
from effects import effects
from report import Check, main

RULE = ("alias analysis on the CFG of every member function that writes its object and takes a by-reference operand which may "
        "be the object itself or one of its parts (and of every free function with output parameters): a write to a region "
        "followed by a read of an overlapping region through the operand is a violation unless the overlap is excluded by an "
        "address test; element-wise updates at one running index are safe for whole-object overlap")

REPO_CLASSES_MIN = 3

def base_type(t):
    """Class named by a parameter/field type without const, reference."""
    t = (t or "").strip()
    t = re.sub(r"\bconst\b", "", t).strip()
    t = re.sub(r"\s*&+$", "", t).strip()
    return re.sub(r"\s+", " ", t)

def canon_ty(t):
    t = base_type(t)
    t = re.sub(r"\b(struct|class|std::|NTL::)", "", t).strip()
    return {"vec_ZZ": "Vec<ZZ>", "mat_ZZ": "Mat<ZZ>", "vec_RR": "Vec<RR>"}.get(t, t)

def elem_types(t):
    """Types that may be stored inside a value of this (container) type."""
    t = canon_ty(t)
    out = []
    m = re.match(r"(?:\w+::)*\w+<(.*)>$", t)
    if m:
        depth, cur, parts = 0, "", []
        for c in m.group(1):
            if c == "<": depth += 1
            if c == ">": depth -= 1
            if c == "," and depth == 0: parts.append(cur.strip()); cur = ""
            else: cur += c
        parts.append(cur.strip())
        out += parts
    m = re.match(r"(.*?)\s*(\*|\[\d*\])$", t)
    if m: out.append(m.group(1))
    if t.startswith("Mat<"): out.append("Vec<" + t[4:])
    if t == "mpq_class" : out.append("mpz_class")
    return [canon_ty(x) for x in out]

class Types:
    def __init__(self, P):
        self.P = P
        self.rec = {canon_ty(n): r for n, r in P.recs.items()}
    def related(self, a, b):
        if a == b: return True
        P = self.P
        ra, rb = self.rec.get(a), self.rec.get(b)
        if ra is None or rb is None: return False
        return rb["n"] in P.bases(ra["n"]) or ra["n"] in P.bases(rb["n"])
    def parts(self, cls, want, depth=0):
        """Access paths (tuples of field decls) inside an object of class cls at which a value of type want may live."""
        out = []
        r = self.rec.get(cls)
        if r is None or depth > 2: return out
        for c in [r["n"]] + self.P.bases(r["n"]):
            rr = self.P.recs.get(c)
            if rr is None: continue
            for fl in rr["fields"]:
                st, seen = [canon_ty(fl["t"])], set()
                hit = False
                while st:
                    t = st.pop()
                    if t in seen: continue
                    seen.add(t)
                    if self.related(t, want): hit = True
                    st.extend(elem_types(t))
                if hit: out.append((fl["d"],))
                if fl["t"].rstrip().endswith(("*", "* const")): continue       # a separate object, not a part
                for t in seen:
                    if t in self.rec and t != cls and not t.endswith("*"):
                        for p in self.parts(t, want, depth + 1): out.append((fl["d"],) + p)
        return out

def fld(l): return tuple(c for c in l if isinstance(c, Decl) and c.k == "field")

def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]

class Analysis:
    def __init__(self, P, ck):
        self.P, self.ck, self.E, self.T = P, ck, effects(P), Types(P)
        self.rsum = None

    # -- which fields of this / of a parameter does a function read?  {(root, field tuple)}, transitively
    def reads(self, t):
        if self.rsum is None: self.solve_reads()
        return self.rsum.get(t.key, {(None, ())})

    def solve_reads(self):
        P = self.P
        self.rsum = {f.key: set() for f in P.fns.values() if f.rawcfg}
        base, calls = {}, {}
        for f in P.fns.values():
            if not f.rawcfg: continue
            S, C = set(), []
            for n in f.nodes:
                if (n.k in CALLS or n.k in CTORS) and self.P.targets(n):
                    A = args(n)
                    def lookup(e): return [(r[0], fld(r[1:])) for r in self.E.roots(f, e) if r[0] == "this" or isinstance(r[0], tuple)]
                    o = obj(n)
                    m = {("p", i): lookup(a) for i, a in enumerate(A)}
                    m["this"] = lookup(o) if o is not None else [("this", ())] if n.k == "CXXMemberCallExpr" else []
                    C.append(([t.key for t in P.targets(n)], m))
                else:
                    S |= {(r, p[:3]) for r, p in self.read_events(f, n)}
            base[f.key], calls[f.key] = S, C
        callers = P.callers()
        wl = [f for f in P.fns.values() if f.rawcfg]
        inq = {f.key for f in wl}
        while wl:
            f = wl.pop(); inq.discard(f.key)
            S = set(base[f.key])
            for ts, m in calls[f.key]:
                for t in ts:
                    for root, p in self.rsum.get(t, ()):
                        for r, q in m.get(root, ()): S.add((r, (q + p)[:3]))
            if S != self.rsum[f.key]:
                self.rsum[f.key] = S
                for c in callers.get(f.key, ()):
                    if c.fn.key in self.rsum and c.fn.key not in inq: inq.add(c.fn.key); wl.append(c.fn)

    def is_path_part(self, n):
        """n is the base of a longer access path"""
        p, c = n.p, n
        while p is not None and p.k in TRANSPARENT: c, p = p, p.p
        if p is None: return False
        if p.k == "MemberExpr":
            if p.d.k == "field": return True
            return False
        if p.k == "ArraySubscriptExpr" and p.ch[0] is c: return True
        if p.k == "UnaryOperator" and p.x["op"] in ("*", "&"): return True
        if p.k == "CXXOperatorCallExpr" and p.x["op"] in ("[]", "()", "->", "*") and len(p.ch) > 1 and p.ch[1] is c and (p.x["op"] != "*" or len(p.ch) == 2): return True
        return False

    def read_events(self, f, n):
        """[(root, fields)] regions of this / parameters read when node n itself is evaluated."""
        out = []
        k = n.k
        if k in CALLS or k in CTORS:
            T = self.P.targets(n)
            A = args(n)
            if T:
                for t in T:
                    for root, p in self.reads(t):
                        e = None
                        if root == "this":
                            e = obj(n)
                            if e is None:
                                if n.k == "CXXMemberCallExpr": out.append(("this", p))
                                continue
                        elif isinstance(root, tuple) and root[0] == "p" and root[1] < len(A): e = A[root[1]]
                        if e is None: continue
                        for r in self.E.roots(f, e):
                            if r[0] == "this" or isinstance(r[0], tuple): out.append((r[0], fld(r[1:]) + p))
            else:
                E = list(A)
                o = obj(n)
                if o is not None and not (n.k == "CXXOperatorCallExpr" and n.x["op"] in ("[]", "()", "->", "*", "=")): E.append(o)
                if n.k == "CXXOperatorCallExpr" and n.x["op"] in ("[]", "()", "->") : E = E[1:] if o is None else A
                if n.k == "CXXOperatorCallExpr" and n.x["op"] == "=": E = A
                pt = (n.d.pt if n.d is not None else None) or []
                for i, e in enumerate(E):
                    es = strip(e)
                    if es is None: continue
                    if i < len(A) and i < len(pt) and mutable(pt[i]) and i == 0 and n.k == "CallExpr": continue    # output argument first (NTL, gmp)
                    if es.k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr", "UnaryOperator", "CXXThisExpr"):
                        for r in self.E.roots(f, e):
                            if r[0] == "this" or isinstance(r[0], tuple): out.append((r[0], fld(r[1:])))
        elif k == "ImplicitCastExpr" and n.x.get("ck") == "LValueToRValue":
            for r in self.E.roots(f, n.ch[0]):
                if r[0] == "this" or isinstance(r[0], tuple): out.append((r[0], fld(r[1:])))
        elif k in ("CompoundAssignOperator",) or k == "UnaryOperator" and n.x["op"] in ("++", "--"):
            for r in self.E.roots(f, n.ch[0]):
                if r[0] == "this" or isinstance(r[0], tuple): out.append((r[0], fld(r[1:])))
        return out

    def writes(self, f, n):
        """[(root, fields, exact lvalue expr or None)]"""
        out = []
        for (m, t, mode) in self.direct(f).get(n.i, ()):
            for r in self.E.roots(f, t):
                if r[0] == "this" or isinstance(r[0], tuple): out.append((r[0], fld(r[1:]), t))
        if n.k == "CXXDeleteExpr" and n.ch:
            for r in self.E.roots(f, n.ch[0]):
                if r[0] == "this" or isinstance(r[0], tuple): out.append((r[0], fld(r[1:]), None))
        if n.k in CALLS or n.k in CTORS:
            if not (n.k == "CXXOperatorCallExpr" and n.x["op"] in ("[]", "()", "->", "*") and not self.P.targets(n)):
              if not self.const_like(n):
                for e, ext in self.E.call_effects(f, n):
                    if isinstance(e, Decl): continue
                    for r in (self.E.roots(f, e) if e is not None else {("this",)}):
                        if r[0] == "this" or isinstance(r[0], tuple): out.append((r[0], fld(r[1:]) + fld(ext), e))
        return out

    def const_like(self, n):
        """accessors without effect on the elements"""
        return n.d is not None and n.d.n in ("begin", "end", "size", "length", "empty", "rbegin", "rend", "rep", "elts", "c_str", "get_num_mpz_t",
                                             "get_den_mpz_t", "NumRows", "NumCols", "front", "back", "at", "get", "operator[]", "operator()", "find") and not self.P.targets(n)

    def direct(self, f):
        if "c03d" not in f._cache:
            d = {}
            for n, t, m in self.E.direct[f.key]:
                v = vdecl(t)
                if v is not None and v.k == "local" and not v.t.endswith("&"): continue
                if v is not None and v.k == "parm" and not v.t.endswith("&"): continue
                d.setdefault(n.i, []).append((n, t, m))
            f._cache["c03d"] = d
        return f._cache["c03d"]

    def index_of(self, e):
        """index expression of the last subscript in an lvalue, or None"""
        e = strip(e, explicit=True)
        if e is None: return None
        if e.k == "ArraySubscriptExpr": return e.ch[1]
        if e.k == "CXXOperatorCallExpr" and e.x["op"] in ("[]", "()") and len(e.ch) > 2: return e.ch[2]
        if e.k == "MemberExpr" and e.ch: return self.index_of(e.ch[0])
        return None

    def hazards(self, f, res, opn, aliases):
        """res: root written; opn: ('p', i) operand root; aliases: field tuples inside res at which the operand may live.
        Returns [(write node, read node, alias)]"""
        f.cfg()
        P = self.P
        od = f.params[opn[1]]
        vals = {}
        def guard(b, i):
            """alias position excluded on edge i of block b"""
            c = strip(b.cond) if b.cond is not None else None
            neg = False
            while c is not None and c.k == "UnaryOperator" and c.x["op"] == "!": neg = not neg; c = strip(c.ch[0])
            if c is None or c.k not in ("BinaryOperator",) or c.x["op"] not in ("==", "!="): return None
            eq_edge = 0 if (c.x["op"] == "==") != neg else 1
            if i == eq_edge: return None
            l, r = strip(c.ch[0], explicit=True), strip(c.ch[1], explicit=True)
            def addr(x):
                if x.k == "CXXThisExpr": return ("this", ())
                if x.k == "UnaryOperator" and x.x["op"] == "&":
                    rs = self.E.roots(f, x.ch[0])
                    if len(rs) == 1:
                        q = next(iter(rs)); return (q[0], fld(q[1:]))
                d = vdecl(x)
                if d is not None and d.k == "parm" and d in f.params: return (("p", f.params.index(d)), ())
                return None
            a, b2 = addr(l), addr(r)
            if a is None or b2 is None: return None
            for x, y in ((a, b2), (b2, a)):
                if x[0] == opn and x[1] == () and y[0] == res: return y[1]
            return None
        ev = {}
        def events(e):
            if e.i not in ev:
                rd, wr = [], []
                for root, p in self.read_events(f, e):
                    if root == opn: rd.append((p, e))
                for root, p, ex in self.writes(f, e):
                    if root == res: wr.append((p, ex))
                    elif root == opn and not od.t.startswith("const "): pass
                ev[e.i] = (rd, wr)
            return ev[e.i]
        def selfcopy(e, p):
            """this.p = operand.p (no change when operand is the whole object)"""
            if e.k in ("BinaryOperator",) and e.x["op"] == "=": rhs = e.ch[1]
            elif e.k == "CXXOperatorCallExpr" and e.x["op"] == "=": rhs = e.ch[2]
            elif e.k in CALLS and e.d is not None and e.d.n in ("resize", "SetLength", "reserve", "setlength", "SetDims") and args(e):
                # made as long as the operand: no change when it is the operand
                ps = set()
                for a in args(e)[:1]:
                    for m in walk(a): ps |= {(r, q) for r, q in self.read_events(f, m)}
                return bool(ps) and all(q == (opn, p) for q in ps)
            else: return False
            s = strip(rhs)
            if s.k == "CXXMemberCallExpr":
                # accessor returning one field
                ps = set()
                for root, q in self.read_events(f, s):
                    ps.add((root, q))
                return ps == {(opn, p)}
            if s.k not in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr", "UnaryOperator"): return False
            rs = {(r[0], fld(r[1:])) for r in self.E.roots(f, rhs)}
            li, ri = self.index_of(e.ch[0] if e.k == "BinaryOperator" else e.ch[1]), self.index_of(rhs)
            if (li is None) != (ri is None) or li is not None and text(li) != text(ri): return False
            return len(rs) == 1 and next(iter(rs))[0] == opn and p[:len(next(iter(rs))[1])] == next(iter(rs))[1]
        found = {}
        def idxkey(x):
            ix = self.index_of(x) if x is not None else None
            return text(ix) if ix is not None else None
        def idxvars(x):
            ix = self.index_of(x) if x is not None else None
            return frozenset(m.d for m in walk(ix) if m.k == "DeclRefExpr" and m.d.k in ("local", "parm")) if ix is not None else frozenset()
        def step(e, st, report):
            excl, W = st
            rd, wr = events(e)
            for p, at in rd:
                rx = None
                if report:
                    for a in aliases:
                        if a in excl: continue
                        reg = a + p
                        for (w, wn, key, stale, sc) in W:
                            if not overlap(reg, w): continue
                            if sc and a == (): continue
                            if a and w == a and self.pointer_only(f.nodes[wn], w): continue
                            if a == () and self.lazy_init(f, f.nodes[wn], w): continue
                            if a == () and key is not None:
                                keys = {idxkey(x) for x in self.operand_lvalues(f, at, opn)}
                                if stale and keys == {key}: continue
                            found.setdefault((wn, at.i, a), (f.nodes[wn], at, a))
            # index variables that change make earlier element writes stale
            d = assigned_var(e)
            if d is None and e.k == "CXXOperatorCallExpr" and e.x["op"] in ("++", "--"): d = vdecl(e.ch[1])
            if e.k == "DeclStmt":
                ds = {c.d for c in e.ch if c.k == "VarDecl"}
            else: ds = {d} if d is not None else set()
            if ds:
                W = frozenset((w, wn, key, True if key is not None and (ds & self.keyvars.get((f.key, wn), frozenset())) else stale, sc) for (w, wn, key, stale, sc) in W)
            if wr:
                add = set()
                for p, ex in wr:
                    self.keyvars[(f.key, e.i)] = idxvars(ex) if ex is not None else frozenset()
                    add.add((p, e.i, idxkey(ex) if ex is not None else None, False, selfcopy(e, p)))
                W = W | frozenset(add)
            return (excl, W)
        self.keyvars = getattr(self, "keyvars", {})
        def xfer(b, st):
            for e in b.el: st = step(e, st, False)
            return st
        def edge(b, i, s, st):
            g = guard(b, i)
            if g is None: return st
            return (st[0] | frozenset([g]), st[1])
        def join(x, y): return (x[0] & y[0], x[1] | y[1])
        IN = forward(f, (frozenset(), frozenset()), xfer, join, edge)
        for b in f.blocks.values():
            if b.id not in IN: continue
            st = IN[b.id]
            for e in b.el: st = step(e, st, True)
        return list(found.values())

    def pointer_only(self, e, w):
        """e assigns the pointer field itself: what it pointed to stays as it is"""
        t = e.ch[0] if e.k == "BinaryOperator" and e.x["op"] == "=" else None
        t = strip(t) if t is not None else None
        return t is not None and t.k == "MemberExpr" and t.d is w[-1] and (t.t or "").endswith("*")

    def lazy_init(self, f, e, w):
        """e sets a pointer that was null to a new object: no object becomes an empty one"""
        if not self.pointer_only(e, w) or strip(e.ch[1], explicit=True).k != "CXXNewExpr": return False
        dom = dominators(f)
        pe = f.pos(e)
        for b in f.blocks.values():
            c = strip(b.cond) if b.cond is not None else None
            if c is None or len(b.succ) != 2: continue
            zt = zero_test(c)
            x, edge = (zt[0], 0 if zt[1] else 1) if zt else (c, 1)
            x = strip(x)
            while x.k == "UnaryOperator" and x.x["op"] == "!": x, edge = strip(x.ch[0]), 1 - edge
            if x.k != "MemberExpr" or x.d is not w[-1] or not any(r[0] in ("this", None) or isinstance(r[0], tuple) for r in self.E.roots(f, x)): continue
            t, o = b.succ[edge], b.succ[1 - edge]
            if t is not None and pe is not None and t.id in dom.get(pe[0], ()) and len(t.pred) == 1: return True
        return False

    def operand_lvalues(self, f, at, opn):
        """lvalue expressions of the operand below node at"""
        out = []
        for m in walk(at):
            if m.k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr") and any(r[0] == opn for r in self.E.roots(f, m)):
                if not any(m is not o and is_under(m, o) for o in out): out.append(m)
        return out

def mutable(t): return t is not None and (t.endswith("&") and not t.startswith("const ") or t.endswith("*") and not t.startswith("const "))

def candidates(P, A):
    for f in P.fns.values():
        if f.imp or not f.rawcfg: continue
        cls = f.cls
        if cls is None or f.d.x.get("st"): continue
        if f.d.x.get("c"): continue
        if f.d.x.get("const"): continue
        if f.d.n == cls.split("::")[-1].split("<")[0] or f.d.n.startswith("~"): continue
        for i, p in enumerate(f.params):
            if not p.t.endswith("&") or p.t.endswith("&&"): continue
            ty, own = canon_ty(p.t), canon_ty(cls)
            if ty in SCALAR or ty.endswith("*") or ty.endswith("]"): continue
            al = []
            if A.T.related(ty, own): al.append(())
            al += A.T.parts(own, ty)
            if al: yield f, i, p, al

def exposed(P, A):
    """Fields an outsider can get a reference or pointer to: public ones and those a member function returns a reference into."""
    X = set()
    for r in P.recs.values():
        for fl in r["fields"]:
            if not fl["d"].x.get("pr"): X.add(fl["d"])
    for f in P.fns.values():
        if f.cls is None or not (f.d.rt or "").rstrip().endswith(("&", "*", "* const")): continue
        for n in f.nodes:
            if n.k == "ReturnStmt" and n.ch:
                for r in A.E.roots(f, n.ch[0]):
                    if r[0] == "this" and len(r) > 1: X.add(r[1])
    return X

def same_object(a, b):
    """b visibly denotes the object of expression a or a part of it: same text of the access path as a prefix."""
    pa, pb = path(a), path(b)
    if pa is None or pb is None or not isinstance(pa[0], (Decl, str)): return False
    ta, tb = text(strip(a, explicit=True)), text(strip(b, explicit=True))
    if isinstance(a.d, Decl) and False: return False
    norm = lambda t: t.replace("->", ".").replace("(*this).", "").replace("this.", "").replace("*this", "this").lstrip("*&")
    ta, tb = norm(ta), norm(tb)
    return pb[:len(pa)] == pa and (tb == ta or tb.startswith(ta + ".") or tb.startswith(ta + "["))

def check():
    P = load()
    ck = Check("C03", RULE)
    A = Analysis(P, ck)
    X = exposed(P, A)
    callers = P.callers()
    for f, i, p, al in candidates(P, A):
        h = A.hazards(f, "this", ("p", i), al)
        if not h:
            ck.ok("member", f.body, "no read of %s after a write of an overlapping part" % p.n); continue
        # a part nobody outside the class can refer to: the calls decide
        inner = [x for x in h if x[2] and not any(d in X for d in x[2][:1])]
        for w, r, a in h:
            pos = "the object itself" if a == () else "this->" + ".".join(d.n for d in a)
            msg = "%s is read here after `%s` (line %d) may have changed it: the operand may be %s" % (p.n, text(w)[:80], w.line, pos)
            if (w, r, a) in inner: continue
            ck.bad("member", "alias:%s:%s" % (f.short, p.n), r, msg)
        if inner:
            hit = False
            for c in callers.get(f.key, ()):
                A_ = args(c)
                if i >= len(A_): continue
                ar, o = A_[i], obj(c)
                if o is None and c.k == "CXXMemberCallExpr": overl = any(r[0] == "this" for r in A.E.roots(c.fn, ar))
                else: overl = o is not None and same_object(o, ar)
                if overl:
                    hit = True
                    ck.bad("member", "alias:%s:%s:call in %s" % (f.short, p.n, c.fn.short), c,
                           "passes a part of the object as an operand that %s reads after changing it" % f.short)
            if not hit: ck.ok("member", f.body, "no caller can or does pass a part of the object as %s" % p.n)
    free_functions(P, A, ck, callers)
    ck.floor("member", 55); ck.floor("pair", 45); ck.floor("call", 35)
    return ck.finish(P)

def free_functions(P, A, ck, callers):
    """Output parameter and operand of a free function: unsafe pairs need visibly different arguments at every call."""
    for f in P.fns.values():
        if f.imp or not f.rawcfg or f.cls is not None and not f.d.x.get("st"): continue
        for i, o in enumerate(f.params):
            if not o.t.endswith("&") or o.t.startswith("const ") or o.t.endswith("&&"): continue
            ot = canon_ty(o.t)
            if ot in SCALAR or "stream" in ot: continue
            for j, p in enumerate(f.params):
                if i == j or not p.t.endswith("&"): continue
                ty = canon_ty(p.t)
                if ty in SCALAR or ty.endswith("*"): continue
                al = []
                if A.T.related(ty, ot): al.append(())
                elif ty in elem_types(ot): al.append(())
                al += A.T.parts(ot, ty)
                if not al: continue
                h = A.hazards(f, ("p", i), ("p", j), al)
                ck.count("pair")
                if not h: continue
                for c in callers.get(f.key, ()):
                    G = args(c)
                    if i >= len(G) or j >= len(G): continue
                    if same_object(G[i], G[j]) or same_object(G[j], G[i]):
                        w, r, a = h[0]
                        ck.bad("call", "alias:%s:call in %s" % (f.short, c.fn.short), c,
                               "%s and %s overlap here, but %s reads %s (line %d) after `%s` (line %d)" % (text(G[i])[:40], text(G[j])[:40], f.short, p.n, r.line, text(w)[:60], w.line))
                    else: ck.ok("call", c, "different objects for %s and %s" % (o.n, p.n))
