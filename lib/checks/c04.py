"""C04: copies are complete and independent, disposal is complete.

R1 coverage: every routine that copies a record (copy constructor, copy assignment, function that fills a fresh record from the fields of
   another one) writes, on every path from the creation of the copy to its end, every field from the same field of the source.
R2 depth: a pointer field that the record's disposal releases receives fresh storage in a copy, never the source's pointer.
R3 disposal: a field that a routine of the record fills with fresh storage is released by its destructor / disposal function on every path.
R4 accidental copies: a record that owns storage is nowhere copied member by member (implicit copy constructor or assignment, by-value containers).
R5 sharing: outside copies, an owned pointer taken from another object is given up by that object.
R6 nodes shared by copies are never written in place."""
from common import *
from report import Check
from effects import effects

RULE = ("field-coverage and ownership analysis over record layouts: must-write dataflow of every copying routine, depth of every owned pointer, "
        "release of every owned field on every path of every disposal routine, absence of implicit copies of owning records, hand-over of owned pointers")

ALLOC = {"malloc", "calloc", "realloc", "strdup"}
FREE = {"free"}

def in_scope(f):
    return "/test/" not in f.file and "/experiments/" not in f.file and not f.imp

def base_type(t):
    t = (t or "").replace("const ", "").replace("struct ", "").replace("class ", "").strip()
    while t.endswith(("*", "&", " ", "const")):
        t = t[:-5].strip() if t.endswith("const") else t[:-1].strip()
    return t

def asg(n):
    """(lhs, rhs) of a plain assignment or initialisation."""
    if n.k == "BinaryOperator" and n.x["op"] == "=": return n.ch[0], n.ch[1]
    if n.k == "CXXOperatorCallExpr" and n.x["op"] == "=" and len(n.ch) == 3: return n.ch[1], n.ch[2]
    return None

class Own:
    def __init__(self, P):
        self.P = P
        self.fns = [f for f in P.fns.values() if in_scope(f)]
        self.release = {}        # record -> {field path (tuple of field Decls): [(fn, node)]}
        self.disposers = {}      # record -> [fn]
        self._ret = {}
        self.find_disposers()

    def rec(self, t):
        t = base_type(t)
        return t if t in self.P.recs else None

    # -- aliases: locals of f derived from a field path of root
    def roots(self, f, x, seen=()):
        """Access paths (root, fields...) a pointer expression may denote, looking through local pointers."""
        p = path(x)
        if p is None: return set()
        p = tuple(q for q in p if q not in ("*", "[]"))
        r = p[0]
        out = {p}
        if isinstance(r, Decl) and r.k == "local" and r not in seen and len(p) == 1:
            for n in f.nodes:
                v = None
                a = asg(n)
                if a and vdecl(a[0]) is r: v = a[1]
                elif n.k == "VarDecl" and n.d is r and n.ch: v = n.ch[0]
                if v is not None:
                    for q in self.roots(f, strip(v, explicit=True), seen + (r,)): out.add(q)
        return out

    def released_here(self, f, n):
        """Expressions whose storage node n releases."""
        if n.k == "CXXDeleteExpr": return [n.ch[0]]
        if n.k in CALLS and n.d is not None:
            if n.d.n in FREE and args(n): return [args(n)[0]]
            out = []
            for t in self.P.targets(n):
                for i, p in enumerate(t.params):
                    if self.disposes_param(t, i) and i < len(args(n)): out.append(args(n)[i])
            if n.d.n in ("clear", "destroyMonomials", "destroyLinForms", "destroyForms"): pass
            return out
        return []

    def disposes_param(self, t, i, depth=0):
        k = ("dp", t.key, i)
        if k in self._ret: return self._ret[k]
        self._ret[k] = False
        r = False
        p = t.params[i] if i < len(t.params) else None
        if p is not None and (p.t or "").endswith("*"):
            for n in t.nodes:
                if n.k == "CXXDeleteExpr" or n.k == "CallExpr" and n.d is not None and n.d.n in FREE:
                    x = n.ch[0] if n.k == "CXXDeleteExpr" else args(n)[0]
                    if any(q == (p,) for q in self.roots(t, x)): r = True
                elif n.k in CALLS and depth < 4:
                    for u in self.P.targets(n):
                        for j in range(len(u.params)):
                            if j < len(args(n)) and any(q == (p,) for q in self.roots(t, args(n)[j])) and self.disposes_param(u, j, depth + 1): r = True
        self._ret[k] = r
        return r

    def find_disposers(self):
        for f in self.fns:
            if f.d.x.get("dtor"):
                self.disposers.setdefault(f.d.cls, []).append((f, "this"))
            else:
                for i, p in enumerate(f.params):
                    R = self.rec(p.t)
                    if R and (p.t or "").endswith("*") and any(n.k == "CXXDeleteExpr" and path(n.ch[0]) == (p,) for n in f.nodes):
                        self.disposers.setdefault(R, []).append((f, p))
        for R, L in self.disposers.items():
            S = self.release.setdefault(R, {})
            for f, root in L:
                for n in f.nodes:
                    for x in self.released_here(f, n):
                        for q in self.roots(f, x):
                            if q[0] is root or q[0] == root:
                                if len(q) > 1: S.setdefault(q[1:], []).append((f, n))
                    # a member function that releases this->field
                    if n.k == "CXXMemberCallExpr" and root == "this" and path(obj(n)) == ("this",):
                        for t in self.P.targets(n):
                            for m in t.nodes:
                                for x in self.released_here(t, m):
                                    for q in self.roots(t, x):
                                        if q[0] == "this" and len(q) > 1: S.setdefault(q[1:], []).append((f, n))

    def owned(self, R):
        """Direct pointer fields the disposal of R releases."""
        return {q[0] for q in self.release.get(R, {}) if len(q) == 1}

    def owning(self, R, seen=()):
        """Record R (or a part held by value) releases storage when it is disposed of."""
        if R in seen or R not in self.P.recs: return False
        if self.release.get(R): return True
        return any(not F.get("ptr") and self.owning(base_type(F["t"]) if not F["t"].endswith("*") else None, seen + (R,)) for F in self.P.recs[R]["fields"]) or \
            any(self.owning(b, seen + (R,)) for b in self.P.recs[R]["bases"] if isinstance(b, str))

    def keeps_owned(self, t, i, depth=0):
        """t stores the pointer it gets as parameter i in a field that the holder's disposal releases."""
        k = ("ko", t.key, i)
        if k in self._ret: return self._ret[k]
        self._ret[k] = False
        p = t.params[i] if i < len(t.params) else None
        r = False
        if p is not None and "*" in (p.t or ""):
            is_p = lambda x: strip(x, explicit=True) is not None and path(x) == (p,)
            for n in t.nodes:
                a = asg(n)
                if a and path(a[0]) and isinstance(path(a[0])[-1], Decl) and path(a[0])[-1] in self.all_owned and is_p(a[1]) and base_type(path(a[0])[-1].t) != path(a[0])[-1].cls: r = True
                elif n.k == "CtorInit" and n.d is not None and n.d in self.all_owned and n.ch and is_p(n.ch[0]) and base_type(n.d.t) != n.d.cls: r = True
                elif (n.k in CALLS or n.k in CTORS) and depth < 5:
                    for u in self.P.targets(n):
                        for j, x in enumerate(args(n)):
                            if j < len(u.params) and is_p(x) and self.keeps_owned(u, j, depth + 1): r = True
        if depth == 0 or r: self._ret[k] = r
        else: self._ret.pop(k, None)
        return r

    # -- does a function keep (return or store) the pointer it gets as parameter i
    def keeps(self, t, i, depth=0):
        k = ("k", t.key, i)
        if k in self._ret: return self._ret[k]
        self._ret[k] = False
        p = t.params[i] if i < len(t.params) else None
        r = False
        if p is not None and "*" in (p.t or ""):
            is_p = lambda x: any(q == (p,) for q in self.roots(t, strip(x, explicit=True)))
            for n in t.nodes:
                a = asg(n)
                if a and not vdecl(a[0]) and is_p(a[1]): r = True
                elif n.k == "CtorInit" and n.d is not None and n.d.k == "field" and n.ch and is_p(n.ch[0]): r = True
                elif n.k == "ReturnStmt" and n.ch and is_p(n.ch[0]): r = True
                elif (n.k in CALLS or n.k in CTORS) and depth < 4:
                    for u in self.P.targets(n):
                        for j, x in enumerate(args(n)):
                            if j < len(u.params) and is_p(x) and self.keeps(u, j, depth + 1): r = True
        self._ret[k] = r
        return r

    def aliases_of(self, f, x, depth=0):
        """Field paths whose pointer the value of x is, or contains without copying."""
        x = strip(x, explicit=True)
        if x is None: return set()
        if x.k == "ConditionalOperator": return self.aliases_of(f, x.ch[1], depth) | self.aliases_of(f, x.ch[2], depth)
        out = set()
        if x.k == "CXXNewExpr":
            for c in x.ch:
                c = strip(c)
                if c is not None and c.k in CTORS:
                    for u in self.P.targets(c):
                        for j, a in enumerate(args(c)):
                            if self.keeps(u, j): out |= self.aliases_of(f, a, depth + 1)
            return out
        if x.k in CALLS and x.k != "CXXOperatorCallExpr":
            for u in self.P.targets(x):
                for j, a in enumerate(args(x)):
                    if j < len(u.params) and self.keeps(u, j): out |= self.aliases_of(f, a, depth + 1)
            return out
        if depth > 6: return out
        for q in self.roots(f, x):
            if len(q) > 1: out.add(q)
        return out

def last_operand(c):
    """The operand a block that branches on it really evaluates last."""
    c = strip(c)
    while c is not None and c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"): c = strip(c.ch[1])
    return c

def ownership_flags(P, O, ck):
    """A destructor releases field F only when a flag of the same object says that it owns it."""
    O.flags = {}
    for R, L in O.disposers.items():
        for f, root in L:
            if root != "this": continue
            for q, S in O.release[R].items():
                for g, n in S:
                    if g is not f: continue
                    for i in enclosing_all(n, ("IfStmt",)):
                        for m in walk(cond_of(i)):
                            if m.k == "MemberExpr" and m.d.k == "field" and m.d.cls == R and m.d is not q[0] and not m.d.t.endswith("*"):
                                O.flags.setdefault(q[0], set()).add(m.d)
    for F, G in O.flags.items():
        for f in O.fns:
            if f.d.cls != F.cls: continue
            made = [n for n in f.nodes if asg(n) and path(asg(n)[0]) == ("this", F) and owned_value(O, f, asg(n)[1])]
            for g in G:
                sets = [n for n in f.nodes if asg(n) and path(asg(n)[0]) == ("this", g) and const(asg(n)[1]) not in (None, 0)]
                for n in made:
                    if any(follows(f, n, s) for s in sets): ck.ok("flag", n, "%s set when %s receives storage of its own" % (g.n, F.n))
                    else: ck.bad("flag", "flag:%s:%s" % (f.short, F.n), n, "%s receives storage of its own here, but %s, which tells the destructor to release it, is not set" % (F.n, g.n))

def owned_value(O, f, v):
    x = strip(v, explicit=True)
    if x is None: return False
    if fresh(x): return True
    d = vdecl(x)
    return d is not None and d.k == "local" and any((asg(m) and vdecl(asg(m)[0]) is d and fresh(asg(m)[1])) or m.k == "VarDecl" and m.d is d and m.ch and fresh(m.ch[0]) for m in f.nodes)

def follows(f, n, s):
    """s is evaluated on every path that evaluates n (before or after it)."""
    f.cfg()
    a, b = f.pos(n), f.pos(s)
    if a is None or b is None: return False
    if a[0] == b[0] or dominates(f, s, n): return True
    seen, st = set(), [f.blocks[a[0]]]
    while st:
        x = st.pop()
        for y in x.succ:
            if y is None or y.id == b[0] or y.id in seen: continue
            if y is f.exit: return False
            seen.add(y.id)
            if not y.noret: st.append(y)
    return True

def fresh(x):
    x = strip(x, explicit=True)
    return x is not None and (x.k == "CXXNewExpr" or x.k in CALLS and x.k != "CXXOperatorCallExpr")

def direct_fields(P, R):
    """Fields of R including those of bases: list of (name, field record)."""
    out = []
    for b in P.bases(R): out += [(F["d"], F) for F in P.recs[b]["fields"]] if b in P.recs and b != R else []
    return out + [(F["d"], F) for F in P.recs[R]["fields"]]

class Copier:
    """A routine that makes dst (a variable or *this) a copy of src."""
    def __init__(self, f, R, dst, how): self.f, self.R, self.dst, self.how = f, R, dst, how

def same_field_reads(O, f, x, F, seen=()):
    """Does the expression x (looking through locals) read field F of some object?"""
    for m in walk(x):
        if m.k == "MemberExpr" and m.d is F: return True
        if m.k == "DeclRefExpr" and m.d.k == "local" and m.d not in seen:
            for n in f.nodes:
                v = None
                a = asg(n)
                if a and vdecl(a[0]) is m.d: v = a[1]
                elif n.k == "VarDecl" and n.d is m.d and n.ch: v = n.ch[0]
                if v is not None and same_field_reads(O, f, v, F, seen + (m.d,)): return True
    return False

def ctor_map(P, O, c):
    """field -> argument expression / None (initialised by itself) for a construction c of a record."""
    out = {}
    for u in P.targets(c):
        A = args(c)
        for n in u.inits:
            if n.d is None or n.d.k != "field" or not n.ch: continue
            src = None
            for m in walk(n.ch[0]):
                if m.k == "DeclRefExpr" and m.d in u.params:
                    i = u.params.index(m.d)
                    if i < len(A): src = A[i]
            out[n.d] = src
    return out

def new_of(x):
    """Construction node of a new-expression / fresh local object."""
    x = strip(x, explicit=True)
    if x is None: return None
    if x.k == "CXXNewExpr":
        for c in x.ch:
            c = strip(c)
            if c is not None and c.k in CTORS: return c
    return None

def creations(O, f):
    """(destination Decl or None, creation node, record, ctor call or None) of every fresh record in f that a pointer variable receives."""
    out = []
    for n in f.nodes:
        v = d = None
        a = asg(n)
        if a and n.k == "BinaryOperator": v, d = a[1], a[0]
        elif n.k == "VarDecl" and n.ch: v, d = n.ch[0], n
        if v is None: continue
        x = strip(v, explicit=True)
        if x is None or not fresh(x): continue
        R = O.rec(x.t)
        if R is None or not (x.t or "").endswith("*"): continue
        if x.k == "CXXNewExpr" or args(x) == [] and x.k == "CallExpr":
            dd = n.d if n.k == "VarDecl" else vdecl(d)
            out.append((dd, n, R, new_of(x) if x.k == "CXXNewExpr" else None, d if dd is None else None))
    return out

def copiers(P, O):
    L = []
    for f in O.fns:
        d = f.d
        if d.x.get("ctor") == "copy" and d.cls in P.recs: L.append(Copier(f, d.cls, "this", "copy constructor"))
        elif d.n == "operator=" and d.cls in P.recs and len(f.params) == 1 and base_type(f.params[0].t) == d.cls: L.append(Copier(f, d.cls, "this", "copy assignment"))
        elif d.x.get("ctor"): continue
        else:
            for (dd, n, R, c, lv) in creations(O, f):
                if dd is None:
                    # *rest_p = new listVector(l->first, ...): everything must come from the construction
                    if c is None: continue
                    M = ctor_map(P, O, c)
                    hits = {F for F, a in M.items() if a is not None and same_field_reads(O, f, a, F)}
                    if len(hits) >= 2 or hits and "copy" in d.n.lower():
                        L.append(Copier(f, R, ("new", n, c), "construction from the fields of another %s" % R))
                    continue
                hits = set()
                if c is not None:
                    hits |= {F for F, a in ctor_map(P, O, c).items() if a is not None and same_field_reads(O, f, a, F)}
                for m in f.nodes:
                    a = asg(m)
                    if not a: continue
                    q = path(a[0])
                    if q and len(q) >= 2 and q[0] is dd and isinstance(q[1], Decl) and same_field_reads(O, f, a[1], q[1]): hits.add(q[1])
                if len(hits) >= 3 or hits and "copy" in d.n.lower():
                    L.append(Copier(f, R, dd, "copies %d fields of another %s" % (len(hits), R)))
    return L

def check_copier(P, O, ck, c):
    f, R = c.f, c.R
    rname = R
    flds = [(F, x) for F, x in direct_fields(P, R)]
    link = lambda F, x: x.get("ptr") and base_type(x["t"]) == R
    need = {F for F, x in flds if not link(F, x)}
    own = O.owned(R)
    def depth_ok(F, v, where):
        if F not in own: return
        al = O.aliases_of(f, v)
        bad = [q for q in al if F in q[1:] or any(isinstance(z, Decl) and z in O.all_owned for z in q[1:])]
        if bad: ck.bad("depth", "shallow:%s:%s" % (f.short, F.n), where, "the copy of %s receives the source's own %s pointer, which disposing of either releases" % (rname, F.n))
        else: ck.ok("depth", where, "%s of the copy is fresh storage" % F.n)
    if isinstance(c.dst, tuple):
        M = ctor_map(P, O, c.dst[2])
        for F in sorted(need, key=lambda F: F.n):
            a = M.get(F)
            if a is not None and same_field_reads(O, f, a, F):
                ck.ok("field", c.dst[1], "%s copied" % F.n); depth_ok(F, a, c.dst[1])
            else: ck.bad("field", "field:%s:%s" % (f.short, F.n), c.dst[1], "the copy of a %s made here does not take over the component %s" % (rname, F.n))
        return
    root = c.dst
    f.cfg()
    elem = set()      # fields copied element by element
    for m in f.nodes:
        a = asg(m)
        if a:
            q = path(a[0])
            if q and len(q) > 2 and (q[0] is root or q[0] == root) and isinstance(q[1], Decl) and same_field_reads(O, f, a[1], q[1]): elem.add(q[1])
    made = {n for dd, n, r, k, lv in creations(O, f) if dd is root} if root != "this" else set()
    cm = {n: k for dd, n, r, k, lv in creations(O, f) if dd is root} if root != "this" else {}
    first = {}
    def covers(e):
        """Fields of the copy that element e takes over."""
        out = set()
        if e.k == "CtorInit" and root == "this":
            if e.d is not None and e.d.k == "field" and e.ch and same_field_reads(O, f, e.ch[0], e.d): out.add((e.d, e.ch[0]))
            elif e.d is not None and e.d.k != "field" and e.ch:      # base class copied
                b = strip(e.ch[0])
                if b is not None and b.k in CTORS and b.d is not None and b.d.x.get("ctor") == "copy":
                    for F, x in flds:
                        if F.cls == b.d.cls or F.cls in P.bases(b.d.cls): out.add((F, None))
        a = asg(e)
        if a:
            q = path(a[0])
            if q and (q[0] is root or q[0] == root):
                if len(q) >= 2 and isinstance(q[1], Decl):
                    if same_field_reads(O, f, a[1], q[1]) or fresh(a[1]) and q[1] in elem and len(q) == 2: out.add((q[1], a[1] if len(q) == 2 else None))
                elif q[1:] in ((), ("*",)) and root != "this" or q[1:] == ("*",):
                    y = strip(a[1], explicit=True)
                    if y is not None and O.rec(y.t) == R and not (y.t or "").endswith("*"):
                        for F, x in flds: out.add((F, None))
        if e.k in CALLS:   # a helper that sets fields of the copy
            for t in P.targets(e):
                if t.d.cls and obj(e) is not None and path(obj(e)) in ((root,), ("this",) if root == "this" else (root,)):
                    for l in O.E.sum.get(t.key, ()):
                        for F, x in flds:
                            if F in l and any(same_field_reads(O, f, a2, F) or O.rec(a2.t) == R for a2 in args(e)): out.add((F, None))
        return out
    TOP = frozenset(F for F, x in flds)
    def xfer(b, st):
        for e in b.el:
            if e in made:
                if st != TOP and not (need <= st): pend.append((e, st))
                st = frozenset()
                k = cm.get(e)
                if k is not None: st = frozenset(F for F, a in ctor_map(P, O, k).items() if a is not None and same_field_reads(O, f, a, F))
            st = st | frozenset(F for F, v in covers(e))
        return st
    def edge(b, i, s, st):
        if b.noret: return None
        if b.cond is not None and len(b.succ) == 2:
            cnd = last_operand(b.cond)
            # self-assignment
            if root == "this" and cnd.k == "BinaryOperator" and cnd.x["op"] in ("==", "!=") and any(strip(x).k == "CXXThisExpr" for x in cnd.ch):
                return TOP if (i == 0) == (cnd.x["op"] == "==") else st
            # guarded by the component itself being there
            fs = {m.d for m in walk(cnd) if m.k == "MemberExpr" and m.d in need}
            zt = zero_test(cnd)
            z = zt[1] if zt else False
            if len(fs) == 1 and (zt or path(cnd) is not None) and i == (0 if z else 1): return st | fs
        return st
    pend = []
    init = frozenset() if root == "this" else TOP
    IN = forward(f, init, xfer, lambda a, b: a & b, edge)
    pend = []
    for b in f.blocks.values():
        if b.id in IN: xfer(b, IN[b.id])
    end = IN.get(f.exit.id)
    miss = set()
    if end is not None: miss |= need - end
    for e, st in pend: miss |= need - st
    anchor = next((n for n in f.nodes if n in made), f.nodes[0])
    for F in sorted(need, key=lambda F: F.n):
        if F in miss: ck.bad("field", "field:%s:%s" % (f.short, F.n), anchor, "%s (%s) does not take over the component %s on every path" % (f.short, c.how, F.n))
        else: ck.ok("field", "%s (%s)" % (f.short, f.file), "%s taken over on every path" % F.n)
    seen = set()
    for e in f.nodes:
        for F, v in covers(e):
            if v is not None and (e.i, F) not in seen:
                seen.add((e.i, F)); depth_ok(F, v, e)

def check_disposal(P, O, ck):
    for R, L in sorted(O.disposers.items()):
        rec = P.recs.get(R)
        if rec is None or "/test/" in rec["file"] or "/experiments/" in rec["file"]: continue
        # fields that get fresh storage from a routine of the record or from a copier
        got = {}
        for f in O.fns:
            mine = f.d.cls == R
            for n in f.nodes:
                a = asg(n)
                F = v = None
                if a and n.k == "BinaryOperator":
                    q = path(a[0])
                    if q and isinstance(q[-1], Decl) and q[-1].k == "field" and (q[-1].cls == R) and (mine and q[0] == "this" and len(q) == 2 or (f, R) in O.copier_fns):
                        F, v = q[-1], a[1]
                elif n.k == "CtorInit" and mine and n.d is not None and n.d.k == "field" and n.ch: F, v = n.d, n.ch[0]
                if F is None or not F.t.endswith("*"): continue
                x = strip(v, explicit=True)
                if x is None: continue
                if x.k == "CXXNewExpr" or x.k in CALLS and x.d is not None and (x.d.n in ALLOC or "copy" in x.d.n.lower()): got.setdefault(F, n)
        for f, root in L:
            f.cfg()
            need = {F for F in got} | O.owned(R)
            need = {F for F in need if not (base_type(F.t) == R)}
            if not need: continue
            if root != "this" and len(need) < 1: continue
            has_dtor = rec.get("udt")
            if root != "this" and has_dtor: continue       # delete runs the destructor
            rel = {}
            for q, S in O.release[R].items():
                for g, n in S:
                    if g is f: rel.setdefault(n, set()).add(q[0])
            def xfer(b, st):
                for e in b.el:
                    if e in rel: st = st | frozenset(rel[e])
                return st
            # the loop that releases an element list counts as releasing the field it walks
            loopw = {}
            for n, fs in rel.items():
                for lp in enclosing_all(n, LOOPS): loopw.setdefault(lp, set()).update(fs)
            def edge(b, i, s, st):
                if b.noret: return None
                if b.cond is not None and len(b.succ) == 2:
                    cnd = last_operand(b.cond)
                    fs = {m.d for m in walk(cnd) if m.k == "MemberExpr" and m.d in need}
                    zt = zero_test(cnd)
                    if len(fs) == 1 and i == (0 if zt and zt[1] else 1): st = st | frozenset(fs)
                    fl = path(cnd)
                    if root == "this" and fl and len(fl) == 2 and fl[0] == "this" and i == 1:
                        st = st | frozenset(F for F in need if fl[1] in O.flags.get(F, ()))
                    if b.term is not None and b.term.k in LOOPS and i == 1 and b.term in loopw: st = st | frozenset(loopw[b.term])
                return st
            IN = forward(f, frozenset(), xfer, lambda a, b: a & b, edge)
            end = IN.get(f.exit.id, frozenset())
            for F in sorted(need, key=lambda F: F.n):
                if F in end: ck.ok("release", "%s (%s)" % (f.short, f.file), "%s released on every path" % F.n)
                else: ck.bad("release", "release:%s:%s" % (f.short, F.n), got.get(F, f.nodes[0] if f.nodes else f.short),
                             "%s does not release %s::%s on every path%s" % (f.short, R, F.n, " although it is given storage of its own here" if F in got else ""))

def implicit_copies(P, O, ck):
    for f in O.fns:
        for n in f.nodes:
            d = n.d
            if d is None: continue
            if n.k in CTORS and d.x.get("ctor") == "copy" or n.k in CALLS and d.n == "operator=" and d.cls and len(args(n)) == 1:
                R = d.cls
                if R not in P.recs: continue
                if d.x.get("imp") or d.x.get("dft"):
                    if O.owning(R): ck.bad("implicit", "implicit:%s:%s" % (f.short, R), n, "%s owns storage, yet is copied member by member here: both copies release the same storage" % R)
                    else: ck.ok("implicit", n, "member-wise copy of a record that owns nothing")
                elif d.n == "operator=" and False: pass
        for n in f.nodes:
            if n.k == "VarDecl" and n.d.t.startswith("std::"):
                contained(P, O, ck, n.d.t, n, f.short)
    for R, r in P.recs.items():
        if "/test/" in r["file"] or "/experiments/" in r["file"]: continue
        for F in r["fields"]:
            if F["t"].startswith("std::"): contained(P, O, ck, F["t"], "%s:%d (%s)" % (r["file"], r["line"], F["d"].q), R)

def contained(P, O, ck, t, where, who):
    import re
    for m in re.finditer(r"(?:vector|list|deque|map|set|pair)<(?:const )?([A-Za-z_][\w:]*(?:<[^<>]*>)?)\s*[,>]", t):
        R = m.group(1)
        if R not in P.recs: continue
        rec = P.recs[R]
        if O.owning(R) and not rec.get("ucc"):
            ck.bad("container", "container:%s:%s" % (who, R), where, "a standard container of %s copies its elements member by member although they own storage" % R)
        else: ck.ok("container", where, "%s can be held by value" % R)

def sharing(P, O, ck):
    """An owned pointer field that receives a pointer out of another object."""
    for f in O.fns:
        if any(c.f is f for c in O.copiers): pass
        f.cfg() if f.rawcfg else None
        for n in f.nodes:
            a = asg(n)
            if not a or n.k != "BinaryOperator": continue
            l = strip(a[0])
            if l is None or l.k != "MemberExpr" or l.d.k != "field" or l.d.cls not in P.recs or l.d not in O.owned(l.d.cls): continue
            if base_type(l.d.t) == l.d.cls: continue
            lp = path(l)
            src = {q for q in O.aliases_of(f, a[1]) if any(isinstance(z, Decl) and z in O.all_owned for z in q[1:])}
            lpn = tuple(q for q in lp if q not in ("*", "[]")) if lp else None
            src = {q for q in src if q != lpn and not (lpn and q[:len(lpn)] == lpn)}
            if not src:
                ck.ok("store", n, "fresh storage, or handed over by the caller"); continue
            if l.d in O.flags and not any(asg(m) and path(asg(m)[0]) and path(asg(m)[0])[-1] in O.flags[l.d] and const(asg(m)[1]) != 0 for m in f.nodes):
                ck.ok("store", n, "only borrowed: the ownership flag stays off"); continue
            for q in src:
                if given_up(P, O, f, n, q): ck.ok("store", n, "the source gives the pointer up")
                else:
                    ck.bad("store", "share:%s:%s" % (f.short, l.d.n), n, "%s keeps a pointer that %s still owns: disposing of both releases it twice" % (text(l), ".".join(z if isinstance(z, str) else z.n for z in q)))

def handing_over(P, O, ck):
    """A pointer handed to a routine that keeps it as its own is not released, reused or owned by anybody else."""
    for f in O.fns:
        for n in f.nodes:
            if not (n.k in CALLS or n.k in CTORS): continue
            for u in P.targets(n):
                if not in_scope(u): continue
                for j, x in enumerate(args(n)):
                    if j >= len(u.params) or not O.keeps_owned(u, j): continue
                    y = strip(x, explicit=True)
                    if y is None or fresh(y) or const(y) == 0: ck.ok("handover", n, "fresh storage"); continue
                    d = vdecl(y)
                    why = None
                    if d is not None and d.k == "local":
                        if "[" in d.t: why = "a local array"
                        elif any(path(z) == (d,) for m in f.nodes if m is not n for z in O.released_here(f, m)): why = "released here again"
                    elif d is None or d.k == "global":
                        al = {q for q in O.aliases_of(f, y) if any(isinstance(z, Decl) and z in O.all_owned for z in q[1:])}
                        if al and not all(given_up(P, O, f, n, q) for q in al): why = "still owned by the object it is taken from"
                    if why: ck.bad("handover", "handover:%s:%s" % (f.short, u.short), n, "%s keeps the pointer %s as its own, but it is %s" % (u.short, text(y)[:40], why))
                    else: ck.ok("handover", n, "handed over")

def copy_functions(P, O, ck):
    """A function that returns a copy returns and stores nothing of its argument."""
    for f in O.fns:
        if "copy" not in f.d.n.lower() or f.d.x.get("ctor") or not O.rec(f.d.rt) or not (f.d.rt or "").endswith("*"): continue
        src = [p for p in f.params if O.rec(p.t) == O.rec(f.d.rt) and "*" in p.t]
        if not src: continue
        R = O.rec(f.d.rt)
        for n in f.nodes:
            v = None
            a = asg(n)
            if a and n.k == "BinaryOperator" and not vdecl(a[0]): v = a[1]
            elif n.k == "ReturnStmt" and n.ch: v = n.ch[0]
            if v is None or not (v.t or "").endswith("*"): continue
            al = {q for q in O.aliases_of(f, v) | O.roots(f, strip(v, explicit=True)) if q[0] in src}
            if a and O.rec(v.t) is None: continue
            if al: ck.bad("depth", "tail:%s" % f.short, n, "the copy made by %s contains a piece of its argument" % f.short)
            else: ck.ok("depth", n, "nothing of the argument")

def given_up(P, O, f, n, q):
    """After n, on every path the source path q is overwritten, or its owner is a local that nothing releases as a whole."""
    f.cfg()
    base = q[:-1]
    def kills(e):
        a = asg(e)
        if a and e is not n:
            p = path(a[0])
            if p and tuple(z for z in p if z not in ("*", "[]")) == q: return True
        if e.k == "CXXDeleteExpr":
            p = path(e.ch[0])
            if p and tuple(z for z in p if z not in ("*", "[]")) == base: return True
            R = O.rec(strip(e.ch[0]).t)        # a holder of the pointer is deleted without releasing it
            if R and R == q[-1].cls and not any(g == (q[-1],) and r.d.x.get("dtor") for g in O.release.get(R, {}) for r, m in O.release[R][g]): return True
        if e.k in CALLS and e.d is not None and e.d.n == "swap" and any((path(x) or ()) == q for x in args(e)): return True
        return False
    start = n
    d = vdecl(strip(asg(n)[1], explicit=True)) if asg(n) else None
    if d is not None and d.k == "local":      # the pointer was read earlier into a local
        D = [m for m in f.nodes if (asg(m) and vdecl(asg(m)[0]) is d) or m.k == "VarDecl" and m.d is d and m.ch]
        if len(D) == 1: start = D[0]
    pos = f.pos(start)
    if pos is None: return False
    b0, i0 = f.blocks.get(pos[0]), pos[1]
    if b0 is None: return True
    seen, st, ok = set(), [(b0, i0 + 1)], True
    while st:
        b, i = st.pop()
        hit = False
        for e in b.el[i:]:
            if kills(e): hit = True; break
        if hit: continue
        if b.noret: continue
        for s in b.succ:
            if s is None: continue
            if s is f.exit: ok = False; break
            if s.id not in seen: seen.add(s.id); st.append((s, 0))
        if not ok: break
    if ok: return True
    # dummy list head: a local that is created here and neither released as a list nor handed on afterwards
    if len(q) == 2 and isinstance(q[0], Decl) and q[0].k == "local":
        if any(dd is q[0] for dd, m, R, k, lv in creations(O, f)) or any(asg(m) and vdecl(asg(m)[0]) is q[0] and fresh(asg(m)[1]) or m.k == "VarDecl" and m.d is q[0] and m.ch and fresh(m.ch[0]) for m in f.nodes):
            rel = False
            for m in f.nodes:
                if m.k in CALLS:
                    for x in O.released_here(f, m):
                        if path(x) == (q[0],): rel = True
                if m.k == "ReturnStmt" and m.ch and path(m.ch[0]) == (q[0],): rel = True
            if not rel: return True
    return False

def shared_nodes(P, O, ck):
    """Records reached through reference-counted pointers that copying shares are written only while they are being built."""
    import re
    for R, r in P.recs.items():
        if "/test/" in r["file"]: continue
        for F in r["fields"]:
            m = re.search(r"shared_ptr<(?:const )?(\w+)>", F["t"])
            if not m or m.group(1) not in P.recs: continue
            O.shared.add(m.group(1))
    for N in sorted(O.shared):
        F = {x["d"] for x in P.recs[N]["fields"]}
        for f in O.fns:
            for n in f.nodes:
                if n.k != "MemberExpr" or n.d not in F: continue
                b = strip(n.ch[0]) if n.ch else None
                if (b is None or b.k == "CXXThisExpr") and f.d.cls == N and (f.d.x.get("ctor") or f.d.x.get("dtor")): continue
                w = written(P, O, n)
                if w and not (path(b) and len(path(b)) == 1 and isinstance(path(b)[0], Decl) and path(b)[0].k == "local" and any(dd is path(b)[0] for dd, *_ in creations(O, f))):
                    ck.bad("shared", "inplace:%s:%s" % (f.short, n.d.n), n, "a node that copies share is changed in place: every copy changes with it")
                else: ck.ok("shared", n, "only read")

def written(P, O, n):
    """MemberExpr n is the target of a write (assignment, mutating operator or member function, non-const reference argument)."""
    c, p = n, n.p
    while p is not None and (p.k == "ParenExpr" or p.k == "MemberExpr" or p.k == "ArraySubscriptExpr" or p.k == "ImplicitCastExpr" and p.x.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ArrayToPointerDecay")):
        if p.k == "ImplicitCastExpr" and (p.t or "").startswith("const "): return False
        c, p = p, p.p
    if p is None: return False
    if p.k in ("BinaryOperator", "CompoundAssignOperator") and p.x["op"].endswith("=") and p.x["op"] not in ("==", "!=", "<=", ">="): return p.ch[0] is c
    if p.k == "UnaryOperator" and p.x["op"] in ("++", "--", "&"): return True
    if p.k in CALLS and p.d is not None and p.d.k == "fn":
        if p.k == "CXXMemberCallExpr" and c is p.ch[0]: return c is not n and not p.d.x.get("c") and not p.d.x.get("st")
        if p.k == "CXXOperatorCallExpr":
            i = next((j for j, x in enumerate(p.ch) if x is c), -1)
            if p.d.cls and not p.d.x.get("st"):
                if i == 1: return not p.d.x.get("c")
                i -= 1
            i -= 1
        else: i = next((j for j, x in enumerate(args(p)) if x is c), -1)
        T = p.d.pt or []
        if 0 <= i < len(T):
            t = T[i]
            return t.endswith("&") and not t.startswith("const ")
        return False
    if p.k == "CXXMemberCallExpr" or p.k == "MemberExpr": return False
    return False

def check():
    P = load()
    ck = Check("C04", RULE)
    O = Own(P)
    O.E = effects(P)
    O.shared = set()
    O.all_owned = {q[0] for R in O.release for q in O.release[R] if len(q) == 1}
    O.copiers = copiers(P, O)
    O.copier_fns = {(c.f, c.R) for c in O.copiers}
    for c in O.copiers: check_copier(P, O, ck, c)
    ownership_flags(P, O, ck)
    check_disposal(P, O, ck)
    implicit_copies(P, O, ck)
    sharing(P, O, ck)
    handing_over(P, O, ck)
    copy_functions(P, O, ck)
    shared_nodes(P, O, ck)
    for k, n in (("field", 24), ("depth", 16), ("release", 28), ("store", 100), ("implicit", 40), ("handover", 7), ("shared", 20)): ck.floor(k, n)
    return ck.finish(P)
