"""C12: memory is not used after it has been released.

A symbolic store per function: every pointer variable, member and array slot holds a symbol (incoming value, allocation, call result, merge
of several values at a join); a release marks the symbol, also through any other variable or member that holds the same symbol.  Functions
have summaries: which of the values reachable from their parameters, the object or globals they release, which slots they leave
dangling, which members they read and write.  Destructors are functions of the deleted object.

(U) a marked symbol is not dereferenced, handed to a function, returned or released again; an object one of whose members is marked is not
    handed to a function that reads this member.
(D) a method other than a destructor does not return with a marked symbol in a member of its object.
(L) the address of a local variable or of (the characters of) a temporary does not leave the function or the expression.
(C) an object whose destructor releases a member is copied only by a copy constructor or assignment that does not share the member.
(M) what new[] created is released by delete[], what new created by delete, what malloc created by free.
(S) what a member of one object holds and is released together with the object is not also stored in the same member of another object,
    unless on every path the first object gets another value there, gives the member up or is itself released.
A use does not count after a release it cannot follow: the two stand under conditions that exclude each other and do not change in between."""
import os, re
from collections import defaultdict
from model import *
import common, report

DEPTH = 5
NULL = ("0",)
T = ("T",)
LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
MALLOC = {"malloc", "calloc", "realloc", "strdup"}

def isptr(t): return bool(t) and bool(re.search(r'\*\s*(const)?\s*$', t)) and "(*)" not in t
def isref(t): return bool(t) and t.rstrip().endswith("&")
def root(s):
    while s[0] in ("L", "E", "M"): s = s[1]
    return s
def depth(s):
    n = 0
    while s[0] in ("L", "E", "M"): s, n = s[1], n + 1
    return n
def subs(s):
    while True:
        yield s
        if s[0] in ("L", "E", "M"): s = s[1]
        else: return
def mentions(s, pred):
    while True:
        if pred(s): return True
        if s[0] in ("L", "E", "M", "O"): s = s[1]
        else: return False
def isptr_base(s):
    """The symbol is the value of a pointer (else an object: a container)."""
    return s[0] not in ("A", "M") or s[0] == "A" and (s[1].t or "").endswith("]") or s[0] == "M" and (getattr(s[2], "t", "") or "").endswith("]")
def distinct(a, b):
    """Symbols that cannot name the same object."""
    if a == b: return False
    new = lambda s: s[0] == "A" or s[0] == "N" and s[1].k == "CXXNewExpr"
    if new(a): return new(b) or b[0] in ("T", "P", "M")
    if new(b): return a[0] in ("T", "P", "M")
    if a[0] == "M" and b[0] == "M": return a[2] != b[2] or distinct(a[1], b[1])
    return False
def rename(s, pred):
    """Old version of every symbol pred selects."""
    if pred(s): return ("O", s)
    if s[0] in ("L", "E", "M"):
        b = rename(s[1], pred)
        return s if b is s[1] else (s[0], b) + s[2:]
    return s

def atoms(c, pol, out):
    """Conditions (text, constant or None, polarity, node) that hold when c evaluates to pol."""
    c = strip(c, explicit=True)
    while c.k == "UnaryOperator" and c.x["op"] == "!": c, pol = strip(c.ch[0], explicit=True), not pol
    if c.k == "BinaryOperator" and c.x["op"] == ("&&" if pol else "||"):
        atoms(c.ch[0], pol, out); atoms(c.ch[1], pol, out)
        return
    if c.k == "BinaryOperator" and c.x["op"] in ("==", "!="):
        if c.x["op"] == "!=": pol = not pol
        a, b = c.ch
        if const(a) is not None: a, b = b, a
        v = const(b)
        if v is not None: out.append((text(a), v, pol, c))
        else: out.append((text(c).replace("!=", "=="), None, pol, c))
        return
    out.append((text(c), None, pol, c))

def contradict(G, H):
    """A guard of G and one of H that cannot both hold."""
    for t, v, p, n in G:
        for u, w, q, m in H:
            if t == u and (v == w and p != q or v is not None and w is not None and v != w and p and q): return n, m
            if t == u and (v is None and w == 0 and p == q or w is None and v == 0 and p == q): return n, m
    return None

def leaf(n):
    """Variable or member an lvalue or pointer argument designates."""
    n = strip(n, explicit=True)
    while n.k in ("ArraySubscriptExpr", "UnaryOperator") and n.ch: n = strip(n.ch[0], explicit=True)
    return n.d if n.k in ("DeclRefExpr", "MemberExpr") else None

def changes(n, ds):
    if n.k == "BinaryOperator" and n.x["op"] == "=" or n.k in ("CompoundAssignOperator",) or n.k == "UnaryOperator" and n.x["op"] in ("++", "--", "&"):
        return leaf(n.ch[0]) in ds
    if n.k in CALLS or n.k in CTORS:
        pt = n.d.pt or [] if n.d is not None else []
        return any(leaf(a) in ds for i, a in enumerate(args(n)) if i < len(pt) and (isref(pt[i]) or isptr(pt[i])) and not pt[i].startswith("const "))
    return False

class State:
    __slots__ = ("c", "r")
    def __init__(self, c=None, r=None): self.c, self.r = c or {}, r or {}
    def copy(self): return State(dict(self.c), dict(self.r))
    def __eq__(self, o): return self.c == o.c and self.r == o.r
    def __ne__(self, o): return not self == o

def skey(k):
    if isinstance(k, Decl): return "%s@%s:%s" % (k.n, k.line, k.uid)
    if isinstance(k, Node): return "#%d" % k.i
    if isinstance(k, tuple): return "(%s)" % ",".join(skey(x) for x in k)
    return str(k)

def default(k):
    if isinstance(k, Decl): return ("P", k)
    if k[1] == "[]": return ("E", k[0], k[2])
    return ("L", k[0], k[1])

class Analysis:
    def __init__(self, P):
        self.P = P
        self.N = common.noreturn(P)
        self._fields()
        self.used = {}                 # key -> paths of members whose value is used
        self.keep = {}                 # key -> {(path of an object, member): path of the value stored there} at the end of the function
        self.sum = {}                  # key -> (frozenset of released paths, frozenset of dangling slots)
        self.findings = {}
        self.owners = frozenset()
        self.stats = defaultdict(int)

    # ---- which members and globals a function may write / read through ----
    def _fields(self):
        P = self.P
        W, WT = defaultdict(set), defaultdict(set)     # members written in any object, in the object itself
        calls, own, other = defaultdict(set), defaultdict(set), defaultdict(set)
        for f in P.fns.values():
            for n in f.nodes:
                if n.k in CALLS or n.k in CTORS:
                    for t in P.targets(n):
                        calls[f.key].add(t.key)
                        if n.k in CTORS: continue
                        o = obj(n)
                        (own if n.k == "CXXMemberCallExpr" and (o is None or strip(o, explicit=True).k == "CXXThisExpr") else other)[f.key].add(t.key)
                    if n.k == "CXXOperatorCallExpr" and n.x["op"] == "=" and not P.targets(n):
                        for d in self.recfields(n.t): W[f.key].add(d)
                if n.k == "CXXDeleteExpr":
                    for t in self.dtors(n): calls[f.key].add(t.key)
                tgt = None
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"].endswith("=") and n.x["op"] not in ("==", "!=", "<=", ">="): tgt = n.ch[0]
                elif n.k == "UnaryOperator" and n.x["op"] in ("++", "--", "&"): tgt = n.ch[0]
                if tgt is not None:
                    tgt = strip(tgt, explicit=True)
                    if tgt.k == "ArraySubscriptExpr": continue
                    if tgt.k in ("MemberExpr", "DeclRefExpr") and tgt.d.k in ("field", "global") and isptr(tgt.t):
                        this = tgt.d.k == "field" and (tgt.k == "DeclRefExpr" or not tgt.ch or strip(tgt.ch[0], explicit=True).k == "CXXThisExpr")
                        (WT if this else W)[f.key].add(tgt.d)
            for i in f.inits:
                if i.d is not None: WT[f.key].add(i.d)
        ch = True
        while ch:
            ch = False
            for k, cs in calls.items():
                a, b = W[k], WT[k]; n0 = len(a) + len(b)
                for c in cs:
                    a |= W.get(c, set())
                    if c in other[k]: a |= WT.get(c, set())
                    if c in own[k]: b |= WT.get(c, set())
                if len(a) + len(b) != n0: ch = True
        self.wf, self.wt, self.calls = W, WT, calls

    def rec(self, t):
        t = re.sub(r'\s*[&*]+\s*(const)?$', '', re.sub(r'\b(const|struct|class) ', '', t or "")).strip()
        return t if t in self.P.recs else None
    def recfields(self, t):
        r = self.rec(t)
        if not r: return ()
        if not hasattr(self, "_fd"):
            self._fd = defaultdict(set)
            for f in self.P.fns.values():
                for n in f.nodes:
                    if n.k in ("MemberExpr", "DeclRefExpr") and n.d.k == "field" and n.d.cls: self._fd[n.d.cls].add(n.d)
        return self._fd.get(r, ())
    def dtors(self, n):
        a = strip(n.ch[0], explicit=False)
        t = re.sub(r'\s*\*\s*(const)?$', '', re.sub(r'\b(const|struct|class) ', '', (a.t or ""))).strip()
        return self.dtor_of(t)
    def dtor_of(self, t):
        if not hasattr(self, "_dt"):
            self._dt = {}
            for f in self.P.fns.values():
                if f.cls and f.name.startswith("~"): self._dt[f.cls] = f
        out = []
        for c in [t] + list(self.P.subclasses(t)):
            if c in self._dt: out.append(self._dt[c])
        for c in self.P.bases(t):
            if c in self._dt: out.append(self._dt[c])
        return out

    # ---- evaluation ----
    def key(self, n, st):
        """Store slot of an lvalue of pointer type."""
        n = strip(n, explicit=True)
        if n is None: return None
        if n.k == "DeclRefExpr":
            if n.d.k in ("local", "parm", "global"):
                if isref(n.d.t):
                    if n.d.k == "parm" and isptr(n.d.t.rstrip()[:-1]): return st.c.get(("ref", n.d), n.d)
                    return st.c.get(("ref", n.d))
                return n.d
            if n.d.k == "field": return (T, n.d)
            return None
        if n.k == "MemberExpr":
            if n.d.k == "global": return n.d
            if n.d.k != "field": return None
            b = self.objsym(n.ch[0], st, n.x.get("ar")) if n.ch else T
            return (b, n.d) if b is not None else None
        if n.k == "ArraySubscriptExpr":
            b = self.val(n.ch[0], st)
            ix = strip(n.ch[1], explicit=True)
            c = const(ix)
            k = c if c is not None else vdecl(ix)
            if b is None or k is None or not (isinstance(k, int) or k in common.plain_locals(n.fn)): return None
            return (b, "[]", k)
        if n.k == "UnaryOperator" and n.x["op"] == "*":
            b = self.val(n.ch[0], st)
            return (b, "[]", 0) if b is not None else None
        if n.k == "CXXOperatorCallExpr" and n.x["op"] == "[]" and isptr(n.t) and not self.P.targets(n):
            b = self.objsym(obj(n), st)
            ix = strip(args(n)[0], explicit=True) if args(n) else None
            k = const(ix) if ix is not None and const(ix) is not None else vdecl(ix) if ix is not None else None
            if b is None or k is None or not (isinstance(k, int) or k in common.plain_locals(n.fn)): return None
            return (b, "[]", k)
        return None

    def objsym(self, n, st, arrow=False):
        """Identity of the object an expression denotes (arrow: points to)."""
        if arrow: return self.val(n, st)
        n = strip(n, explicit=True)
        if n is None: return None
        if n.k == "DeclRefExpr":
            if n.d.k == "field": return T if n.d is None else ("M", T, n.d)
            if isref(n.d.t) and ("obj", n.d) in st.c: return st.c[("obj", n.d)]
            return ("A", n.d) if n.d.k in ("local", "parm", "global") else None
        if n.k == "MemberExpr" and n.d.k == "field":
            b = self.objsym(n.ch[0], st, n.x.get("ar")) if n.ch else T
            if b is None: return None
            if isref(n.d.t): return ("L", b, n.d)
            return ("M", b, n.d) if depth(b) < DEPTH else None
        if n.k == "UnaryOperator" and n.x["op"] == "*": return self.val(n.ch[0], st)
        if n.k == "ArraySubscriptExpr":
            k = self.key(n, st)
            if k is None: return None
            if depth(k[0]) >= DEPTH: return None
            return ("E", k[0], k[2])
        return None

    def val(self, n, st):
        """Symbol of a pointer-valued expression, None when unknown."""
        n = strip(n, explicit=True)
        if n is None: return None
        k = n.k
        if k in ("GNUNullExpr", "CXXNullPtrLiteralExpr") or const(n) == 0: return NULL
        if k == "CXXThisExpr": return T
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") or k == "UnaryOperator" and n.x["op"] == "*":
            if n.d is not None and (n.t or "").endswith("]") and n.d.k in ("local", "parm", "global", "field") and k in ("DeclRefExpr", "MemberExpr"):
                return self.objsym(n, st)                      # an array decays to its address
            q = self.key(n, st)
            if q is None: return None
            v = st.c.get(q)
            if v is None:
                v = default(q)
                if depth(v) > DEPTH: return ("N", n)
            return v
        if k == "CXXNewExpr": return ("N", n)
        if k == "CXXMemberCallExpr" and n.d is not None and n.d.n in ("c_str", "data") and not self.P.targets(n):
            o = strip(obj(n), explicit=True) if obj(n) is not None else None
            if o is not None and (o.k in CALLS or o.k in CTORS or o.k == "CXXFunctionalCastExpr") and not o.x.get("lv") and not isref(o.d.rt if o.d is not None and o.d.k == "fn" and o.d.rt else ""): return ("X", n)
            s = self.objsym(o, st) if o is not None else None
            if s is not None and s[0] == "A": return ("M", s, "characters")
            return ("N", n)
        if k == "CXXOperatorCallExpr" and n.x["op"] == "[]":
            q = self.key(n, st)
            if q is not None:
                v = st.c.get(q)
                return v if v is not None else default(q)
        if k in CALLS: return ("N", n)
        if k == "UnaryOperator" and n.x["op"] == "&": return self.objsym(n.ch[0], st)
        if k == "BinaryOperator" and n.x["op"] == "=": return self.val(n.ch[1], st)
        if k == "BinaryOperator" and n.x["op"] == ",": return self.val(n.ch[1], st)
        if k == "ConditionalOperator":
            a, b = self.val(n.ch[1], st), self.val(n.ch[2], st)
            if a == b or b == NULL: return a
            if a == NULL: return b
            return None
        return None

    # ---- transfer ----
    def refresh(self, st, pred):
        """A symbol is about to name a new value: rename the old one."""
        if not any(mentions(v, pred) for v in st.c.values()) and not any(mentions(s, pred) for s in st.r) and \
           not any(not isinstance(k, Decl) and isinstance(k[0], tuple) and mentions(k[0], pred) for k in st.c): return
        c = {}
        for k, v in st.c.items():
            if not isinstance(k, Decl) and isinstance(k[0], tuple): k = (rename(k[0], pred),) + k[1:]
            c[k] = rename(v, pred) if isinstance(v, tuple) and v and isinstance(v[0], str) else v
        st.c = c
        st.r = {rename(s, pred): w for s, w in st.r.items()}
        live = set(v for v in st.c.values() if isinstance(v, tuple))
        def alive(s):
            r0 = root(s)
            if r0[0] in ("P", "T", "A"): return True
            if s in live: return True
            return r0 in live or any(mentions(v, lambda x: x == r0) for v in live)
        st.r = {s: w for s, w in st.r.items() if alive(s)}
        st.c = {k: v for k, v in st.c.items() if isinstance(k, Decl) or not isinstance(k[0], tuple) or alive(k[0])}

    def set(self, st, k, v, n):
        if k is None: return
        if self.rep and v is not None and (isinstance(k, Decl) or isinstance(k[1], Decl)): self.stores.append((k, v))
        if self.rep and v is not None and v != NULL and not isinstance(k, Decl) and k[1] in self.owners: self.share(st, k, v, n)
        if v is None: v = ("N", n)
        st.c[k] = v
        if v[0] == "X": st.r[v] = n                   # the temporary ends with the full expression

    def share(self, st, k, v, n):
        """A store into a slot that owns its content, of what is the content of another such slot."""
        o = [q for q, w in st.c.items() if w == v and q != k and not isinstance(q, Decl) and isinstance(q[0], tuple) and q[1] in self.owners]
        if v[0] == "L" and v[2] in self.owners and (v[1], v[2]) != k and (v[1], v[2]) not in st.c: o.append((v[1], v[2]))
        self.shared.append((n, k, o))

    def takes(self, f, n, D):
        """The element may end the sharing: it stores to one of the members or releases objects that have them."""
        if n.k in ("BinaryOperator",) and n.x["op"] == "=":
            m = strip(n.ch[0], explicit=True)
            return m.k in ("MemberExpr", "DeclRefExpr") and m.d in D
        if n.k == "CXXDeleteExpr":
            t = self.rec(strip(n.ch[0], explicit=False).t)
            return t is not None and any(d.cls == t for d in D)
        if n.k in CALLS or n.k in CTORS:
            for t in self.P.targets(n):
                if any(d in self.wf.get(t.key, ()) or d in self.wt.get(t.key, ()) for d in D): return True
        return False

    def stays(self, f, n, D):
        """Some path from the element to the end of the function leaves the sharing in place."""
        q = f.pos(n)
        if q is None: return False
        b = f.blocks[q[0]]
        if any(self.takes(f, e, D) for e in b.el[q[1]+1:]): return False
        seen, wl = set(), [s for s in b.succ if s is not None]
        while wl:
            x = wl.pop()
            if x in seen: continue
            seen.add(x)
            if x is f.exit: return True
            c = x
            if c.noret or any(self.takes(f, e, D) for e in c.el): continue
            wl += [s for s in c.succ if s is not None]
        return False

    def dead(self, s, st):
        """(released symbol, release node) when s or something it lies in has been released."""
        while s is not None:
            if s in st.r: return s, st.r[s]
            if s[0] in ("M", "E"): s = s[1]            # inside a released object; L is a value read earlier
            else: return None
        return None

    def use(self, f, n, s, st, what):
        if s is None or s == NULL: return
        if self.rep: self.stats["uses of pointers"] += 1
        for y in self.parts(s, f, n):
            p = self.express(f, y)
            if p is not None and 2 <= len(p) <= 4: self.uses.add(p)
        d = self.dead(s, st)
        if d is not None and self.rep and not self.excluded(f, d[1], n):
            k = ("U", n.i)
            if k not in self.local: self.local[k] = (n, what, d[1])

    def guards(self, f, bid):
        """Conditions that hold whenever the block is entered (branches all paths to it take)."""
        G = f._cache.setdefault("c12guards", {})
        if bid not in G:
            out = []
            for i in dominators(f).get(bid, ()):
                d = f.blocks[i]
                if len(d.pred) == 1: self.edge(f, d.pred[0].id, i, out)
            G[bid] = out
        return G[bid]

    def joined(self, f, bid, G):
        """Every way into some block that all paths to bid pass excludes G."""
        dom = dominators(f)
        C = f._cache.setdefault("c12joins", {})
        if not G: return False
        for i in dom.get(bid, ()):
            d = f.blocks[i]
            if not 2 <= len(d.pred) <= 6 or any(i in dom.get(x.id, ()) or x.id not in dom for x in d.pred): continue
            for x in d.pred:
                H = C.get((x.id, i))
                if H is None:
                    H = C[(x.id, i)] = list(self.guards(f, x.id))
                    self.edge(f, x.id, i, H)
                if not self.clash(f, G, H): break
            else: return True
        return False

    def edge(self, f, p, b, out):
        p = f.blocks[p]
        b = f.blocks[b]
        if p.cond is None or len(p.succ) < 2 or p.term is None or p.term.k in ("SwitchStmt", "CXXTryStmt") or p.succ[0] is p.succ[1]: return
        c = strip(p.cond, explicit=True)
        while c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"): c = strip(c.ch[1], explicit=True)     # the operand this block evaluates
        if b in p.succ[:2] and b not in p.succ[2:]: atoms(c, p.succ[0] is b, out)

    def excluded(self, f, w, n):
        """The release w cannot have happened when n is reached: they are under conditions that exclude each other."""
        p, q = f.pos(w), f.pos(n)
        if p is None or q is None: return False
        G, H = self.guards(f, p[0]), self.guards(f, q[0])
        return self.clash(f, G, H) or self.joined(f, p[0], H) or self.joined(f, q[0], G)

    def clash(self, f, G, H):
        """Guards that cannot both hold; what they test does not change after the test."""
        for g in G:
            for h in H:
                c = contradict([g], [h])
                if c is not None and self.stable(f, c[0]) and self.stable(f, c[1]): return True
        return False

    def stable(self, f, c):
        """Nothing the condition mentions is changed after its evaluation."""
        S = f._cache.setdefault("c12stable", {})
        if c.i not in S:
            q, seen = f.pos(c), set()
            if q is None: S[c.i] = False; return False
            wl = [s for s in f.blocks[q[0]].succ if s is not None]
            while wl:
                b = wl.pop()
                if b.id in seen: continue
                seen.add(b.id)
                wl += [s for s in b.succ if s is not None]
            ds = {m.d for m in walk(c) if m.k in ("DeclRefExpr", "MemberExpr") and m.d is not None and m.d.k in ("local", "parm", "global", "field")}
            S[c.i] = not any(b in seen and changes(e, ds) for b in seen for e in f.blocks[b].el)
        return S[c.i]

    def parts(self, s, f, n):
        """s and, for merged values, the values that reach it from before the loop or from the branches; for a member of a merged object
        the member of these objects."""
        out = [s]
        q = f.pos(n)
        bid = q[0] if q is not None else -1
        wrap = ()
        x = s
        while x[0] in ("L", "M"): wrap, x = ((x[0],) + x[2:],) + wrap, x[1]
        if x[0] != "F": return out
        seen, wl = {x}, [x]
        while wl:
            x = wl.pop()
            v, ps = self.phi.get(x, ((), ()))
            for y, p in zip(v, ps):
                if y in seen or not (y[0] == "F" or not mentions(y, lambda z: z[0] in ("F", "O"))): continue
                if self.clashes(f, bid, p, x[2]): continue
                seen.add(y); wl.append(y)
                if y[0] in ("N", "K", "0") and wrap: continue
                z = y
                for w in wrap: z = (w[0], z) + w[1:]
                if depth(z) <= DEPTH: out.append(z)
        return out

    def clashes(self, f, bid, p, j):
        C = f._cache.setdefault("c12clash", {})
        k = (bid, p, j)
        if k not in C:
            G = self.guards(f, bid) if bid >= 0 else []
            H = list(self.guards(f, p))
            self.edge(f, p, j, H)
            C[k] = self.clash(f, G, H) or self.joined(f, p, G)
        return C[k]

    def release(self, f, n, s, st, dtor=()):
        if s is None or s == NULL: return
        for y in self.parts(s, f, n):
            p = self.express(f, y)
            if p is not None and 2 <= len(p) <= 4: self.uses.add(p)
        d = self.dead(s, st)
        if self.rep:
            self.stats["releases"] += 1
            if d is not None and not self.excluded(f, d[1], n): self.local.setdefault(("U", n.i), (n, "released again", d[1]))
        for t in dtor:
            if t.key == f.key: continue
            for p in self.sum.get(t.key, ((), ()))[0]:
                if p[0] == T: self.release_path(f, n, s, p[1:], st)
        st.r[s] = n
        self.gone(f, s, n)

    def gone(self, f, s, n):
        """The entry values a released merge may stand for are released as the caller sees it."""
        for y in self.parts(s, f, n):
            p = self.express(f, y) if y != s else None
            if p is not None and len(p) <= 4: self.freed.add(p)

    def release_path(self, f, n, b, fields, st):
        v = b
        for d in fields:
            if v is None: return
            if isinstance(d, tuple) and d[0] == "M": v = ("M", v, d[1]); continue
            k = (v, "[]", 0) if d == "[]" else (v, d)
            self.slots.append(k)
            w = st.c.get(k)
            v = w if w is not None else default(k)
            if depth(v) > DEPTH: return
        if v == NULL: return
        d = self.dead(v, st)
        if d is not None and self.rep and not self.excluded(f, d[1], n): self.local.setdefault(("U", n.i), (n, "released again", d[1]))
        st.r[v] = n
        self.gone(f, v, n)

    def call(self, f, n, st):
        q = callee_qn(n) or ""
        A = args(n)
        if q.split("::")[-1] in ("free", "dd_FreeMatrix", "dd_FreePolyhedra", "dd_FreeLPData", "dd_FreeLPSolution", "mpz_clear_") and A and not self.P.targets(n):
            if q.split("::")[-1] == "free" and self.rep: self.deletes.append((f, n, self.val(A[0], st)))
            self.release(f, n, self.val(A[0], st), st); return
        if n.d is None or n.d.k != "fn": return
        TG = self.P.targets(n)
        o = obj(n)
        osym = None
        if n.k == "CXXMemberCallExpr" and o is not None:
            osym = self.val(o, st) if isptr(strip(o).t) else self.objsym(o, st)
        elif n.k == "CXXMemberCallExpr": osym = T
        elif n.k == "CXXOperatorCallExpr" and o is not None: osym = self.objsym(o, st)
        elif n.k in CTORS:
            m = n.p
            while m is not None and m.k in TRANSPARENT: m = m.p
            if m is not None and m.k == "CXXNewExpr" and not m.x.get("arr"):
                osym = ("N", m)
                self.refresh(st, lambda s: s == osym)
            elif m is not None and m.k == "VarDecl" and not isref(m.d.t): osym = ("A", m.d)
        pt = n.d.pt or []
        asym = []
        for i, a in enumerate(A):
            t = pt[i] if i < len(pt) else ""
            s = None
            if isptr(strip(a, explicit=True).t or "") or isptr(t): s = self.val(a, st)
            elif isref(t) : s = self.objsym(a, st)
            asym.append(s)
            if s is not None: self.use(f, n, s, st, "handed to %s" % q)
        if osym is not None and n.k not in CTORS: self.use(f, n, osym, st, "used by %s" % q)
        # a string whose characters are in use changes
        for x, s in [(o, osym)] + [(a, y) for a, y in zip(A, asym)]:
            if s is None or s[0] != "A" or x is None: continue
            i = -1 if x is o else [y is x for y in A].index(True)
            if i < 0 and (n.d.x.get("c") or n.d.n in ("begin", "end", "operator[]", "at", "data")): continue
            if i >= 0 and (i >= len(pt) or not isref(pt[i]) or pt[i].startswith("const ")): continue
            v = ("M", s, "characters")
            if v in st.c.values(): st.r[v] = n
        # elements of containers that may have changed
        gone = []
        if not TG and osym is not None and not (n.d.x.get("c") or n.d.n in ("begin", "end", "operator[]", "at", "data", "size", "empty", "front", "back")): gone.append(osym)
        for i, s in enumerate(asym):
            if s is not None and i < len(pt) and isref(pt[i]) and not pt[i].startswith("const "): gone.append(s)
        if gone or TG:
            self.refresh(st, lambda s: s[0] == "E" and not isptr_base(s[1]) and (s[1] in gone or bool(TG) and root(s[1])[0] != "A"))
            for k in list(st.c):
                if not isinstance(k, Decl) and k[1] == "[]" and not isptr_base(k[0]) and (k[0] in gone or TG and root(k[0])[0] != "A"): del st.c[k]
        rel, dang, wr, wt = set(), set(), set(), set()
        for t in TG:
            a, b = self.sum.get(t.key, ((), ()))
            rel |= set(a); dang |= set(b); wr |= self.wf.get(t.key, set())
            if n.k not in CTORS: wt |= self.wt.get(t.key, set())
        def base(p):
            if p == T: return osym
            if isinstance(p, tuple) and p[0] == "p": return asym[p[1]] if p[1] < len(asym) else None
            if isinstance(p, Decl): return st.c.get(p, ("P", p)) if isptr(p.t) else ("A", p)
            return None
        def at(p):
            b = base(p[0])
            for d in p[1:]:
                if b is None or b == NULL or depth(b) >= DEPTH: return None
                if isinstance(d, tuple): b = ("M", b, d[1]); continue
                b = st.c.get((b, d), default((b, d)))
            return b
        # values the callee dereferences, hands on or releases
        for p in sorted(set().union(*[self.used.get(t.key, set()) for t in TG]), key=str) if TG else ():
            v = at(p)
            if v is None or v == NULL: continue
            for y in self.parts(v, f, n):
                x = self.express(f, y)
                if x is not None and 2 <= len(x) <= 4: self.uses.add(x)
            if self.rep:
                d = self.dead(v, st)
                if d is not None and not self.excluded(f, d[1], n):
                    self.local.setdefault(("U", n.i), (n, "%s, which %s uses, is used" % (".".join(z.n if isinstance(z, Decl) else z[1].n for z in p[1:]) or "it", q), d[1]))
        self.slots = []
        for p in sorted(rel, key=str):
            b = base(p[0])
            if b is not None and b != NULL: self.release_path(f, n, b, p[1:], st)
        # what the callee stores into its arguments and its result
        new = {}
        if len(TG) == 1:
            for (p, d), v in sorted(self.keep.get(TG[0].key, {}).items(), key=str):
                b = ("N", n) if p == ("ret",) else at(p)
                if b is None or b == NULL or depth(b) >= DEPTH: continue
                w = at(v)
                if w is not None: new[(b, d)] = w
        # members the callee may have replaced
        def hit(b, d): return d in wr or d in wt and not (osym is not None and distinct(b, osym))
        if wr or wt:
            self.refresh(st, lambda s: s[0] == "K" and s[1] is n)
            for k in wr | wt:
                if k.k == "global" and isptr(k.t): st.c[k] = ("K", n, skey(k))
            for k in list(st.c):
                if isinstance(k, Decl): continue
                if isinstance(k[0], tuple) and hit(k[0], k[1]): st.c[k] = self.fresh(n, k)
            for k in self.slots:
                if hit(k[0], k[1]) and k not in st.c: st.c[k] = self.fresh(n, k)
            held = set()
            for k, v in st.c.items():
                if not isinstance(k, Decl) and isinstance(k[0], tuple): held |= set(subs(k[0]))
                if isinstance(v, tuple) and v and isinstance(v[0], str): held |= set(subs(v))
            for v in held:
                if v[0] == "L" and hit(v[1], v[2]) and (v[1], v[2]) not in st.c: st.c[(v[1], v[2])] = self.fresh(n, (v[1], v[2]))
            for v in list(st.r):
                if any(x[0] == "L" and hit(x[1], x[2]) and x not in held and (x[1], x[2]) not in st.c for x in subs(v)): del st.r[v]
        st.c.update(new)
        for p in sorted(dang, key=str):
            if len(p) == 1:
                k = p[0]
                st.r.setdefault(st.c.get(k, default(k)), n)
                continue
            b = base(p[0])
            for d in p[1:-1]:
                if b is None: break
                if isinstance(d, tuple): b = ("M", b, d[1]); continue
                k = (b, d); b = st.c.get(k, default(k))
            if b is None or depth(b) >= DEPTH: continue
            k = (b, p[-1])
            v = st.c.get(k, default(k))
            st.r.setdefault(v, n)
        # pointer variables handed over by reference or address
        for i, a in enumerate(A):
            t = pt[i] if i < len(pt) else ""
            if isref(t) and isptr(t.rstrip()[:-1]) and "const &" not in t or t.rstrip().endswith("**"):
                e = strip(a, explicit=True)
                if t.rstrip().endswith("**"):
                    if not (e.k == "UnaryOperator" and e.x["op"] == "&"): continue
                    e = e.ch[0]
                elif TG and not any(self.assigns(t2, i) for t2 in TG): continue
                k = self.key(e, st)
                if k is not None: st.c[k] = ("K", n, "arg%d" % i)

    def assigns(self, f, i, seen=()):
        """The function may change the pointer variable its parameter i refers to."""
        if i >= len(f.params) or (f.key, i) in seen: return i >= len(f.params)
        C = self.__dict__.setdefault("_assigns", {})
        if (f.key, i) in C: return C[(f.key, i)]
        d, seen, r = f.params[i], seen + ((f.key, i),), False
        for n in f.nodes:
            if n.k != "DeclRefExpr" or n.d is not d: continue
            m, c = n.p, n
            while m is not None and m.k == "ParenExpr": m, c = m.p, m
            if m is None: r = True
            elif m.k in TRANSPARENT and m.k == "ImplicitCastExpr": continue             # read
            elif m.k in CALLS or m.k in CTORS:
                A, T2 = args(m), self.P.targets(m)
                js = [j for j, a in enumerate(A) if a is c]
                if not T2 or any(self.assigns(t, j, seen) for t in T2 for j in js): r = True
            elif m.k in ("MemberExpr", "ArraySubscriptExpr"): continue
            else: r = True
        if len(seen) == 1: C[(f.key, i)] = r
        return r

    def fresh(self, n, k):
        """Symbol of a slot a call may have changed."""
        r0 = root(k[0])
        while r0[0] == "O": r0 = root(r0[1])
        return ("K", n, "") if r0[0] in ("K",) else ("K", n, skey(k))

    def step(self, f, e, st):
        k = e.k
        if k == "DeclStmt":
            for c in e.ch:
                if c.k == "VarDecl": self.declare(f, c, st)
            return
        if k == "VarDecl": self.declare(f, e, st); return
        if k == "CXXNewExpr" and (e.x.get("arr") or not any(c.k in CTORS for c in walk(e))) or k in CALLS:
            self.refresh(st, lambda s: s[0] == "N" and s[1] is e)
        if k in CALLS or k in CTORS: self.call(f, e, st)
        elif k == "CXXDeleteExpr":
            v = self.val(e.ch[0], st)
            self.release(f, e, v, st, self.dtors(e))
            if self.rep: self.deletes.append((f, e, v))
        elif k == "BinaryOperator" and e.x["op"] == "=":
            if isptr(e.t):
                v = self.val(e.ch[1], st)
                if v is None: self.refresh(st, lambda s: s[0] == "N" and s[1] is e)
                self.set(st, self.key(e.ch[0], st), v, e)
            d = vdecl(e.ch[0])
            if d is not None and d.k in ("local", "parm") and not isptr(d.t): self.reindex(st, d)
        elif k in ("CompoundAssignOperator",) or k == "UnaryOperator" and e.x["op"] in ("++", "--"):
            d = vdecl(e.ch[0])
            if isptr(e.t):
                self.refresh(st, lambda s: s[0] == "N" and s[1] is e)
                self.set(st, self.key(e.ch[0], st), None, e)
            elif d is not None: self.reindex(st, d)
        elif k == "MemberExpr" and e.x.get("ar"):
            if e.ch and e.d.k == "field": self.use(f, e, self.val(e.ch[0], st), st, "dereferenced")
        elif k == "MemberExpr" and e.d.k == "field" and e.ch:
            b = self.objsym(e.ch[0], st)
            if b is not None and b[0] != "M": self.use(f, e, b, st, "dereferenced")
        elif k == "ArraySubscriptExpr": self.use(f, e, self.val(e.ch[0], st), st, "dereferenced")
        elif k == "UnaryOperator" and e.x["op"] == "*": self.use(f, e, self.val(e.ch[0], st), st, "dereferenced")
        elif k == "ReturnStmt" and e.ch:
            v = None
            if isptr(f.d.rt or ""):
                v = self.val(e.ch[0], st)
                self.use(f, e, v, st, "returned")
            elif isref(f.d.rt or ""): v = self.objsym(e.ch[0], st)
            if self.rep and (isptr(f.d.rt or "") or isref(f.d.rt or "")):
                self.stats["returned addresses"] += 1
                if v is not None and self.own(f, v):
                    self.local.setdefault(("L", e.i), (e, "the address of a local object leaves the function", e))

    def own(self, f, s):
        """The symbol is (inside) an object that ends with the function or with the expression."""
        while s[0] in ("M", "E"): s = s[1]
        if s[0] == "X": return True
        return s[0] == "A" and (s[1].k == "local" and not s[1].x.get("st") or s[1].k == "parm" and s[1] in f.params) and not isref(s[1].t)

    def reindex(self, st, d):
        self.refresh(st, lambda s: s[0] == "E" and s[2] is d)
        for k in list(st.c):
            if not isinstance(k, Decl) and isinstance(k[0], tuple) and k[1] == "[]" and k[2] is d: del st.c[k]

    def declare(self, f, c, st):
        d = c.d
        if isptr(d.t):
            v = self.val(c.ch[0], st) if c.ch else NULL
            if d.x.get("st"): v = ("P", d)
            if v is None: self.refresh(st, lambda s: s[0] == "N" and s[1] is c)
            self.set(st, d, v, c)
        elif isref(d.t):
            if c.ch:
                t = d.t.rstrip()[:-1].strip()
                if isptr(t):
                    k = self.key(c.ch[0], st)
                    if k is not None: st.c[("ref", d)] = k
                    else: st.c.pop(("ref", d), None)
                else:
                    o = self.objsym(c.ch[0], st)
                    if o is not None: st.c[("obj", d)] = o
                    else: st.c[("obj", d)] = ("A", d)
        else:
            self.reindex(st, d)
            pred = lambda s: s == ("A", d)
            for k in list(st.c):
                if not isinstance(k, Decl) and isinstance(k[0], tuple) and mentions(k[0], pred): del st.c[k]
            for s in list(st.r):
                if mentions(s, pred): del st.r[s]

    # ---- joins ----
    def merge(self, f, b, S, prev, ps):
        """Join of the states that reach block b: slots that disagree get a merge symbol of this block, equal tuples the same one.
        A slot that had a merge symbol before keeps having one (termination)."""
        if len(S) == 1: return State(S[0].c)
        out = State()
        names = {}
        ks = set()
        for x in S: ks |= set(x.c)
        for k in sorted(ks, key=skey):
            if isinstance(k, tuple) and k[0] in ("ref", "obj"):
                out.c[k] = next(x.c[k] for x in S if k in x.c); continue
            dk = default(k)
            v = tuple(x.c.get(k, dk) for x in S)
            p = prev.c.get(k) if prev is not None else None
            if p is not None and not (p[0] == "F" and p[1] == f.key and p[2] == b.id): p = None
            if p is None and all(y == v[0] for y in v): out.c[k] = v[0]; continue
            out.c[k] = F = names.setdefault((v, p), ("F", f.key, b.id, skey(k)))
            self.phi[F] = (v, ps)
        return out

    def run(self, f, report_=False):
        self.rep = report_
        f.cfg()
        if report_: self.local = {}
        self.deletes, self.stores, self.shared = [], [], []
        self.phi, self.uses, self.freed = {}, set(), set()
        self.slots = []
        init = State()
        for i in f.inits:
            if i.d is not None and i.ch and isptr(i.d.t):
                v = self.val(i.ch[0], init)
                init.c[(T, i.d)] = v if v is not None else ("N", i)
        IN = {f.entry.id: init}
        order = self.order(f)
        def flow(o, b, s):
            x = o.copy()
            self.refresh(x, lambda y: y[0] == "F" and y[1] == f.key and y[2] == s.id)
            return x
        def sweep(arrive):
            wl, cnt = [f.entry.id], 0
            done = set()
            while wl:
                wl.sort(key=lambda i: order.get(i, 0))
                b = f.blocks[wl.pop(0)]
                cnt += 1
                if cnt > 300 * len(f.blocks) + 500: raise AnalysisError("store analysis does not converge in " + f.key)
                done.add(b.id)
                throws = []
                o = self.through(f, b, IN[b.id], throws)
                for s in b.succ:
                    if s is None or (b.noret and s is f.exit): continue
                    if s.term is not None and s.term.k == "CXXTryStmt" and s is not (b.succ[0] if b.succ else None) and self.handler(f, s, b):
                        X = [x for n, x in throws if is_under(n, s.term.ch[0]) and self.may_throw(n)]
                        if not X: continue
                        x = self.union(X)
                    elif o is None: continue
                    else: x = o
                    ch = arrive(b, s, flow(x, b, s))
                    if (ch or s.id not in done) and s.id not in wl: wl.append(s.id)
            self.stats["blocks"] += cnt
        rep, self.rep = self.rep, False
        EDGE = {}
        def arrive(b, s, x):                                   # phase 1: what the slots hold
            EDGE.setdefault(s.id, {})[b.id] = State(x.c)
            j = self.merge(f, s, [EDGE[s.id][i] for i in sorted(EDGE[s.id])], IN.get(s.id), sorted(EDGE[s.id]))
            if s.id in IN and j.c == IN[s.id].c: return False
            IN[s.id] = j
            return True
        sweep(arrive)
        def arrive(b, s, x):                                   # phase 2: what has been released
            st = IN[s.id]
            new = dict(x.r)
            for k, v in st.c.items():
                if v[0] == "F" and v[1] == f.key and v[2] == s.id and not (isinstance(k, tuple) and k[0] in ("ref", "obj")):
                    w = self.dead(x.c.get(k, default(k)), x)
                    if w is not None: new.setdefault(v, w[1])
            ch = False
            for y, w in new.items():
                if y not in st.r: st.r[y] = w; ch = True
            return ch
        sweep(arrive)
        self.rep = rep
        self.IN = IN
        if report_:
            for i in sorted(IN): self.through(f, f.blocks[i], IN[i])
        return IN

    def handler(self, f, s, b):
        """s dispatches the handlers of a try statement and b lies in its body (the edge is exceptional)."""
        return any(is_under(e, s.term.ch[0]) for e in b.el)

    def may_throw(self, n):
        """The evaluation of n may raise an exception of the program (or of a library other than the standard one)."""
        if n.k == "CXXThrowExpr": return True
        if n.k not in CALLS and n.k not in CTORS: return False
        if not hasattr(self, "_throw"):
            self._throw = set()
            def ext(m):
                q = callee_qn(m) or "?"
                return not re.match(r'(std::|operator|__|str|mem|free|malloc|print|f?printf|NTL::)', q) and not (m.d is not None and m.d.k == "fn" and (m.d.cls or "").startswith(("std::", "NTL::", "basic_", "__gnu")))
            up = defaultdict(set)
            for f in self.P.fns.values():
                for m in f.nodes:
                    if m.k in CALLS or m.k in CTORS:
                        TG = self.P.targets(m)
                        for t in TG: up[t.key].add(f.key)
                        if not TG and m.k in CALLS and ext(m): self._throw.add(f.key)
                    elif m.k == "CXXThrowExpr": self._throw.add(f.key)
            wl = list(self._throw)
            while wl:
                for c in up.get(wl.pop(), ()):
                    if c not in self._throw: self._throw.add(c); wl.append(c)
            self._ext = ext
        TG = self.P.targets(n)
        if TG: return any(t.key in self._throw for t in TG)
        return n.k in CALLS and self._ext(n)

    def union(self, X):
        """Several points of one block: slots that differ are unknown, everything released stays released."""
        out = State()
        for k in set().union(*[set(x.c) for x in X]):
            if isinstance(k, tuple) and k[0] in ("ref", "obj"): out.c[k] = next(x.c[k] for x in X if k in x.c); continue
            v = [x.c.get(k, default(k)) for x in X]
            out.c[k] = v[-1]
        for x in X:
            for s, w in x.r.items(): out.r.setdefault(s, w)
        return out

    def through(self, f, b, st, throws=None):
        st = st.copy()
        for e in b.el:
            if throws is not None and (e.k in CALLS or e.k in CTORS or e.k == "CXXThrowExpr"): throws.append((e, st.copy()))
            if common.call_ends(self.P, e, self.N): 
                self.step(f, e, st)
                return None
            self.step(f, e, st)
        return st

    def order(self, f):
        seen, out = set(), []
        def go(b):
            st = [(b, iter([s for s in b.succ if s is not None]))]
            seen.add(b.id)
            while st:
                x, it = st[-1]
                for s in it:
                    if s.id not in seen and s.id in f.blocks:
                        seen.add(s.id); st.append((s, iter([y for y in s.succ if y is not None]))); break
                else:
                    out.append(x.id); st.pop()
        go(f.entry)
        return {b: i for i, b in enumerate(reversed(out))}

    def express(self, f, s):
        """Path of a symbol from a parameter, the object or a global, else None."""
        if s == T: return (T,)
        if s[0] == "P":
            if s[1].k == "parm": return (("p", f.params.index(s[1])),) if s[1] in f.params else None
            return (s[1],) if s[1].k == "global" else None
        if s[0] == "A":
            if s[1].k == "parm" and isref(s[1].t): return (("p", f.params.index(s[1])),) if s[1] in f.params else None
            return (s[1],) if s[1].k == "global" else None
        if s[0] == "L":
            b = self.express(f, s[1])
            return b + (s[2],) if b is not None else None
        if s[0] == "M":
            b = self.express(f, s[1])
            return b + (("M", s[2]),) if b is not None else None
        return None

    def ends(self, f, IN):
        """States in which the function returns."""
        rep, self.rep = self.rep, False
        out = [IN[f.exit.id]]
        if len(f.exit.pred) > 1:
            for b in f.exit.pred:
                if b.id in IN and not b.noret:
                    x = self.through(f, b, IN[b.id])
                    if x is not None: out.append(x)
        self.rep = rep
        return out

    def named(self, f, s, st):
        """Paths of an object: of its symbol, or of the member that holds it."""
        p = self.express(f, s)
        if p is not None: return [p]
        out = []
        def go(s, tail, n):
            for k, v in st.c.items():
                if v != s or isinstance(k, Decl) or not isinstance(k[0], tuple) or not isinstance(k[1], Decl): continue
                if self.dead(k[0], st) is not None: continue
                p = self.express(f, k[0])
                if p is not None: out.append(p + (k[1],) + tail)
                elif n: go(k[0], (k[1],) + tail, n - 1)
        go(s, (), 2)
        return out

    def summarize(self, f):
        IN = self.run(f)
        st = IN.get(f.exit.id)
        if st is None: return (frozenset(), frozenset())
        rel, dang = set(self.freed), set()
        self.used[f.key] = frozenset(self.uses)
        self.kept(f, st)
        for s in st.r:
            p = self.express(f, s)
            if p is not None and p != (T,): rel.add(p)
            if p == (T,): rel.add(p)
        for st in self.ends(f, IN):
            keys = set(k for k in st.c if not isinstance(k, Decl) and isinstance(k[0], tuple) and isinstance(k[1], Decl))
            keys |= {(s[1], s[2]) for s in st.r if s[0] == "L"}
            for k in keys:
                v = st.c.get(k, default(k))
                if v in st.r and self.dead(k[0], st) is None:
                    for p in self.named(f, k[0], st):
                        if len(p) <= 4: dang.add(p + (k[1],))
            for k, v in st.c.items():
                if isinstance(k, Decl) and k.k == "global" and v in st.r: dang.add((k,))
        return (frozenset(rel), frozenset(dang))

    def kept(self, f, st):
        K = {}
        for k, v in st.c.items():
            if isinstance(k, Decl) or not isinstance(k[0], tuple) or not isinstance(k[1], Decl) or not isinstance(v, tuple): continue
            b, w = self.express(f, k[0]), self.express(f, v)
            if b is not None and len(b) <= 3 and w is not None and len(w) <= 3 and v != default(k): K[(b, k[1])] = w
        R = defaultdict(set)
        for m in f.nodes:
            if m.k != "ReturnStmt" or not m.ch or not isptr(f.d.rt or ""): continue
            q = f.pos(m)
            if q is None or q[0] not in self.IN: continue
            x = State(dict(self.IN[q[0]].c))
            rep, self.rep = self.rep, False
            for e in f.blocks[q[0]].el[:q[1]]: self.step(f, e, x)
            self.rep = rep
            v = self.val(m.ch[0], x)
            if v is None or v[0] not in ("N", "F"): continue
            for k, y in x.c.items():
                if not isinstance(k, Decl) and isinstance(k[0], tuple) and k[0] == v and isinstance(k[1], Decl):
                    w = self.express(f, y) if isinstance(y, tuple) else None
                    R[k[1]].add(w if w is not None and len(w) <= 3 else None)
        for d, ws in R.items():
            if len(ws) == 1 and None not in ws: K[(("ret",), d)] = next(iter(ws))
        self.keep[f.key] = K

    def solve(self):
        P = self.P
        interesting = set()
        for f in P.fns.values():
            if f.file and "/test/" not in f.file: interesting.add(f.key)
            for n in f.nodes:
                if n.k == "BinaryOperator" and n.x["op"] == "=" and isptr(n.t) and strip(n.ch[0], explicit=True).k == "MemberExpr": interesting.add(f.key); break
                if n.k == "CXXDeleteExpr" or n.k in CALLS and (callee_qn(n) or "").split("::")[-1] == "free": interesting.add(f.key); break
        up = defaultdict(set)
        for k, cs in self.calls.items():
            for c in cs: up[c].add(k)
            if any(i.d is not None and i.ch and isptr(i.d.t) for i in f.inits): interesting.add(f.key)
        wl = sorted(interesting)
        kept0, cnt = {}, defaultdict(int)
        n = 0
        while wl:
            k = wl.pop(0)
            f = P.fns[k]
            if not f.rawcfg: continue
            n += 1
            if n > 20000: raise AnalysisError("release summaries do not converge")
            s = self.summarize(f)
            o = self.sum.get(k, (frozenset(), frozenset()))
            s = (s[0] | o[0], s[1] | o[1])
            kp = (self.keep.get(k), self.used.get(k))
            if s != o or kp != kept0.get(k):
                if s == o and cnt[k] > 6: continue
                cnt[k] += 1
                kept0[k] = kp
                self.sum[k] = s
                for c in up.get(k, ()):
                    if c not in wl: wl.append(c)
        rel = set(interesting)
        for k, s in self.sum.items():
            if s[0] or s[1]: rel |= up.get(k, set())
        # destructors are reached by delete, not by calls only
        self.relevant = {k for k in rel if P.fns[k].rawcfg}

def container_of(t, cls):
    return re.search(r'(vector|list|deque|map|pair|set|queue|stack)<.*\b' + re.escape(cls) + r'(?!\w)(?! ?[*<])', t or "")

def check():
    P = load()
    A = Analysis(P)
    A.solve()
    R = report.Check("C12", __doc__.split("\n\n")[0] + " Rules: " + __doc__.split("\n\n")[-1])
    dall = defaultdict(set)                    # class -> paths its destructor releases
    for f in P.fns.values():
        if f.name.startswith("~") and f.cls: dall[f.cls] |= {p[1:] for p in A.sum.get(f.key, ((), ()))[0] if p[0] == T and len(p) >= 2}
    dtor = {}                                  # class -> members its destructor releases
    for f in P.fns.values():
        if f.name.startswith("~") and f.cls:
            for p in A.sum.get(f.key, ((), ()))[0]:
                if p[0] == T and len(p) >= 2: dtor.setdefault(f.cls, set()).add(p[1:] if isinstance(p[1], tuple) else p[1:2])
    own = {d for S in dtor.values() for p in S for d in p[-1:] if isinstance(d, Decl) and isptr(d.t)}
    for r, _ in A.sum.values():
        own |= {p[-1] for p in r if len(p) > 1 and isinstance(p[-1], Decl) and p[:-1] in r and isptr(p[-1].t)}
    A.owners = frozenset(own)
    kinds = defaultdict(set)                   # member or global -> how the objects stored there were created
    dels = []
    todo = sorted(set(A.relevant) | {f.key for f in P.fns.values() if f.rawcfg and (isptr(f.d.rt or "") or isref(f.d.rt or ""))} |
                  {f.key for f in P.fns.values() if f.rawcfg and any(n.k == "CXXMemberCallExpr" and n.d is not None and n.d.n in ("c_str", "data") for n in f.nodes)})
    creates = {f.key for f in P.fns.values() if f.rawcfg and any(n.k == "CXXNewExpr" or n.k in CALLS and callee_qn(n) in MALLOC for n in f.nodes)}
    def how(v):
        if v is None or v[0] != "N": return None
        n = v[1]
        if n.k == "CXXNewExpr": return "new[]" if n.x.get("arr") else "new"
        if n.k in CALLS and (callee_qn(n) or "").split("::")[-1] in MALLOC: return "malloc"
        return None
    for k in sorted(set(todo) | creates):
        f = P.fns[k]
        if "/test/" in f.file: continue
        IN = A.run(f, True)
        R.count("functions")
        for (kind, _), (n, what, w) in sorted(A.local.items(), key=lambda x: (x[1][0].line, x[1][0].i)):
            if kind == "U":
                R.bad("uses after release", "use:%s:%s" % (f.short, text(n)[:60]), n, "%s: %s after the release at %s (%s)" % (text(n)[:60], what, loc(w), text(w)[:60]))
            else:
                R.bad("returned addresses", "local:%s" % f.short, n, "%s: %s" % (text(n)[:60], what))
        for key, v in A.stores:
            h = how(v)
            if h and isinstance(key[1] if isinstance(key, tuple) else key, Decl): kinds[key[1] if isinstance(key, tuple) else key].add(h)
        for n, k2, o in A.shared:
            R.count("stores of owned objects")
            for q in o:
                if q[1] is not k2[1] or A.rec(q[1].t) == q[1].cls: continue         # taken off a list, or a link of one
                if A.stays(f, n, {q[1]}):
                    R.bad("stores of owned objects", "share:%s:%s" % (f.short, text(n)[:60]), n, "%s: %s of one object is also %s of another when %s ends; both release it" % (text(n)[:60], k2[1].n, q[1].n, f.short))
        for g, n, v in A.deletes: dels.append((n, v))
        # (D), (L) at the end of the function
        st = IN.get(f.exit.id)
        if st is None: continue
        for key, v in sorted(st.c.items(), key=lambda x: skey(x[0])):
            if isinstance(key, Decl):
                if key.k == "global" and A.own(f, v): R.bad("returned addresses", "local:%s:%s" % (f.short, key.n), f.nodes[0], "%s holds the address of a local object when %s ends" % (key.n, f.short))
                continue
            if not isinstance(key[0], tuple) or not isinstance(key[1], Decl): continue
            b = A.express(f, key[0])
            if b is not None and A.own(f, v) and not (b[0] != T and isinstance(b[0], tuple) and False):
                R.bad("returned addresses", "local:%s:%s" % (f.short, key[1].n), f.nodes[0], "%s holds the address of a local object when %s ends" % (key[1].n, f.short))
    for k, (r, d) in sorted(A.sum.items()):
        f = P.fns[k]
        if not f.cls or f.name.startswith("~"): continue
        for p in d:
            if p[0] != T: continue
            if p[1:] in dtor.get(f.cls, ()) or any(p[1:] in dall.get(c, ()) for c in [f.cls] + list(P.bases(f.cls))):
                if not all(c.fn.name.startswith("~") for c in P.callers().get(k, ())) or not P.callers().get(k):
                    R.bad("members left by methods", "dangling:%s:%s" % (f.short, p[-1].n), f.nodes[0], "%s returns with the released %s still in the object, whose destructor releases it again" % (f.short, p[-1].n))
                    continue
        R.ok("members left by methods", f.nodes[0] if f.nodes else None)
    for kd, n in A.stats.items():
        if kd in ("uses of pointers", "releases", "returned addresses"): R.count(kd, n)
    # (C)
    for c in sorted(dtor):
        R.ok("objects that release members", c, ", ".join("%s" % x[-1].n for x in sorted(dtor[c], key=str) if isinstance(x[-1], Decl)))
    for f in P.fns.values():
        for n in f.nodes:
            if n.d is not None and n.d.k == "fn" and n.d.cls in dtor and (n.d.x.get("ctor") in ("copy", "move") or n.d.n == "operator="):
                R.count("copies of such objects")
                if (n.d.x.get("imp") or n.d.x.get("dft")) and not n.d.x.get("del") and not n.x.get("el"):
                    R.bad("copies of such objects", "copy:%s:%s" % (f.short, n.d.cls), n, "%s is copied member by member; both copies release %s" % (n.d.cls, ", ".join(x[-1].n for x in sorted(dtor[n.d.cls], key=str) if isinstance(x[-1], Decl))))
            t = n.d.t if n.k == "VarDecl" else None
            if t:
                for c in dtor:
                    if container_of(t, c): R.bad("copies of such objects", "container:%s:%s" % (f.short, n.d.n), n, "a container copies its elements of type %s, which has no copy constructor of its own" % c)
        if f.d.x.get("ctor") == "copy" and f.cls in dtor and f.rawcfg or f.cls in dtor and f.name == "operator=" and f.rawcfg:
            st = A.run(f, False).get(f.exit.id)
            for q in dtor[f.cls]:
                if st is None or len(q) != 1: continue
                v = st.c.get((T, q[0]), default((T, q[0])))
                shared = v[0] == "L" and root(v)[0] in ("A", "P") and v[2] is q[0]
                if shared: R.bad("copies of such objects", "share:%s:%s" % (f.short, q[0].n), f.nodes[0], "the copy shares %s with the original; both destructors release it" % q[0].n)
                else: R.ok("copies of such objects", f.nodes[0] if f.nodes else None)
    for r, rec in P.recs.items():
        for fd in rec["fields"]:
            for c in dtor:
                if container_of(fd.get("t") if isinstance(fd, dict) else None, c):
                    R.bad("copies of such objects", "container:%s" % r, r, "a container copies its elements of type %s" % c)
    # (M)
    for n, v in dels:
        h = how(v)
        H = {h} if h else None
        if H is None and v is not None:
            d = v[2] if v[0] == "L" else v[1] if v[0] == "P" and v[1].k == "global" else None
            if d is not None and d in kinds: H = kinds[d]
        want = "new[]" if n.x.get("arr") else "new" if n.k == "CXXDeleteExpr" else "malloc"
        if H is None: continue
        if want in H: R.ok("matching release", n)
        else: R.bad("matching release", "match:%s:%s" % (n.fn.short, text(n)[:60]), n, "%s releases what was created by %s" % (text(n)[:60], ", ".join(sorted(H))))
    for kd, n in (("functions", 800), ("releases", 180), ("uses of pointers", 14000), ("returned addresses", 130), ("members left by methods", 420),
                  ("objects that release members", 17), ("copies of such objects", 9), ("matching release", 110), ("stores of owned objects", 170)):
        R.floor(kd, n)
    if os.environ.get("C12_DEBUG"):
        for k, (r, d) in sorted(A.sum.items()):
            f = P.fns[k]
            if r or d: print("SUM", f.qn, [[x.n if isinstance(x, Decl) else x for x in p] for p in r], "DANG", [[x.n if isinstance(x, Decl) else x for x in p] for p in d])
    return R.finish(P)

if __name__ == "__main__": check()
