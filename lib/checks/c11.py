"""C11  Nothing is read before it has been given a value.

Typestate of every object the program creates (local variable, new, malloc, member, base): the set of scalar components that have
no value yet.  Constructors and functions that receive the object are summarised; a component without a value may not be read, and
an object may not be published (returned, stored in another object, handed to a container) while it has one that somebody reads.
Scalar local variables: definite assignment on the CFG, with the constants held by other local variables as path conditions."""
from common import *
from report import Check
import c06

RULE = ("typestate 'components without a value' for every created object, with summaries of constructors, methods and functions that "
        "receive it; definite assignment of scalar locals by property simulation over the CFG; local arrays need a reaching write")

WRITES_ARG = {"memset", "memcpy", "memmove", "strcpy", "strncpy", "sprintf", "snprintf", "fgets", "sscanf", "fscanf", "scanf", "fread", "read", "get", "getline"}
READS_STR = {"strcmp", "strncmp", "strlen", "strcat", "atoi", "atol", "atof", "strchr", "strstr", "operator<<", "printf", "fprintf"}

def base_type(t):
    t = (t or "").strip()
    for w in ("const ", "struct ", "class "): t = t.replace(w, "")
    return t.rstrip("*& ").strip()

def elem(t):
    i = (t or "").find("[")
    return t[:i].strip() if i >= 0 else None

class Init:
    def __init__(self, P):
        self.P = P
        self.N = noreturn(P)
        self.sums, self.ctors, self.cenv = {}, {}, {}
        self.readers = self.find_reads()

    def find_reads(self):
        """fields somebody reads (outside constructors that copy)"""
        R = set()
        for f in self.P.fns.values():
            if not c06.in_scope(f) or f.d.x.get("ctor") in ("copy", "move") or f.d.n == "operator=" and f.d.x.get("imp"): continue
            for n in f.nodes:
                if n.k == "MemberExpr" and n.d is not None and n.d.k == "field" and self.is_read(n): R.add(n.d)
        return R

    # ---- layout ----
    def rec(self, t): 
        b = base_type(t)
        return b if b in self.P.recs else None

    def leaves(self, R, seen=()):
        """Every scalar component of record R as a path of fields"""
        r = self.P.recs.get(R)
        if r is None or R in seen: return set()
        out = set()
        for x in r["fields"]:
            if x["d"] is None or x.get("st"): continue
            if x.get("scalar"): out.add((x["d"],))
            else:
                t = x["t"]
                R2 = self.rec(t)
                if R2 and not t.rstrip().endswith(("*", "&")):
                    c = self.default_ctor(R2)
                    sub = self.after_ctor(c) if c else self.leaves(R2, seen + (R,))
                    out |= {(x["d"],) + l for l in sub}
        for b in r["bases"]: out |= self.leaves(b, seen + (R,))
        return out

    def default_ctor(self, R):
        if not hasattr(self, "_dc"):
            self._dc = {}
            for f in self.P.fns.values():
                if f.d.x.get("ctor") is not None and not f.params: self._dc[f.d.cls] = f
        return self._dc.get(R)

    def after_ctor(self, c):
        """components without a value when constructor c returns"""
        if c.key in self.ctors: return self.ctors[c.key]
        self.ctors[c.key] = frozenset()
        R = c.d.cls
        if c.d.x.get("ctor") in ("copy", "move"): return frozenset()
        r = self.P.recs.get(R)
        if r is None: return frozenset()
        U = set()
        done = {}
        basedone = {}
        for n in c.inits:
            if n.d is not None and n.d.k == "field": done[n.d] = n
            elif n.ch:
                x = strip(n.ch[0])
                if x is not None and x.k in CTORS: basedone[base_type(x.t)] = x
        if R in basedone:                                       # delegating constructor
            U = set(self.of_construct(basedone[R], R))
        else:
            for x in r["fields"]:
                d = x["d"]
                if d is None: continue
                if x.get("scalar"):
                    i = done.get(d)
                    if i is None or i.ch and self.no_value(i.ch[0]): U.add((d,))
                else:
                    R2 = self.rec(x["t"])
                    if R2 and not x["t"].rstrip().endswith(("*", "&")):
                        i = done.get(d)
                        k = strip(i.ch[0]) if i is not None and i.ch else None
                        if k is not None and k.k in CTORS: U |= {(d,) + l for l in self.of_construct(k, R2)}
                        elif k is None: U |= {(d,) + l for l in self.leaves_default(R2)}
            for b in r["bases"]:
                k = basedone.get(b)
                U |= set(self.of_construct(k, b)) if k is not None else set(self.leaves_default(b))
        if c.rawcfg:
            ini = {}
            for n in c.inits:
                if n.d is not None and n.d.k == "field" and n.ch and const(n.ch[0]) is not None and abs(const(n.ch[0])) <= 8: ini[(n.d,)] = const(n.ch[0])
            ex, reads = self.summary(c, "this", frozenset(U), R, ini)
            U = frozenset().union(*[u for u, e, p in ex]) if ex else frozenset()
            E = None
            for u, e, p in ([z for z in ex if z[0]] or ex): E = dict(e) if E is None else {k: v for k, v in E.items() if dict(e).get(k) == v}
            self.cenv[c.key] = E or {}
        self.ctors[c.key] = frozenset(U)
        return self.ctors[c.key]

    def no_value(self, x):
        return False

    def leaves_default(self, R):
        c = self.default_ctor(R)
        return self.after_ctor(c) if c else frozenset(self.leaves(R))

    def env_of(self, n, R):
        """constants of components right after the construction at n"""
        v = n.ch[0] if n.k == "VarDecl" and n.ch else n.ch[1] if n.k == "BinaryOperator" else None
        k = None
        for m in (walk(v) if v is not None else ()):
            if m.k in CTORS and base_type(m.t) == R: k = m; break
        if k is None: return {}
        return self.env_after(k, R)

    def env_after(self, k, R):
        T = self.P.targets(k)
        if len(T) != 1: return {}
        c = T[0]
        self.after_ctor(c)
        out = dict(self.cenv.get(c.key, {}))
        for n in c.inits:
            x = strip(n.ch[0]) if n.ch else None
            if x is None or x.k not in CTORS: continue
            if n.d is not None and n.d.k == "field":
                R2 = self.rec(n.d.t)
                if R2:
                    for l, v in self.env_after(x, R2).items():
                        if not any(q in self.wrote(c) for q in ((n.d,) + l,)): out.setdefault((n.d,) + l, v)
            else:
                for l, v in self.env_after(x, base_type(x.t)).items(): out.setdefault(l, v)
        return out

    def wrote(self, c):
        return {path(m.ch[0])[1:] for m in c.nodes if m.k == "BinaryOperator" and m.x["op"] == "=" and path(m.ch[0])}

    def of_construct(self, k, R):
        """components without a value after the construct expression k"""
        T = self.P.targets(k)
        if T: return frozenset().union(*[self.after_ctor(t) for t in T])
        if k.x.get("zero") or k.k == "CXXScalarValueInitExpr": return frozenset()
        r = self.P.recs.get(R)
        if r is None: return frozenset()
        if args(k): return frozenset()                          # implicit copy
        return frozenset(self.leaves(R))

    # ---- events ----
    def up(self, n):
        c, p = n, n.p
        while p is not None and p.k == "ParenExpr": c, p = p, p.p
        return c, p

    def is_read(self, n):
        c, p = self.up(n)
        if p is None: return False
        if p.x.get("ck") == "LValueToRValue": return True
        if p.k == "CompoundAssignOperator" and p.ch[0] is c: return True
        if p.k == "UnaryOperator" and p.x["op"] in ("++", "--"): return True
        if p.k == "ArraySubscriptExpr" and p.ch[0] is c or p.x.get("ck") == "ArrayToPointerDecay":
            if p.x.get("ck") == "ArrayToPointerDecay":
                q = p.p
                if q is not None and q.k == "ArraySubscriptExpr" and q.ch and strip(q.ch[0]) is strip(c): return self.is_read(q)
                while q is not None and q.k in TRANSPARENT: q = q.p
                if q is not None and q.k in CALLS:
                    nm = q.d.n if q.d is not None else ""
                    if nm in READS_STR: return True
                    if nm in ("strcpy", "strcat", "strncpy", "memcpy"): return not any(m is n for m in walk(args(q)[0]))
                return False
            return self.is_read(p)
        return False

    def match(self, H, q):
        """remainder of path q below a handle, or None"""
        if q is None: return None
        for h in H:
            if q[:len(h)] == h:
                r = tuple(x for x in q[len(h):] if x not in ("*",))
                return r
        return None

    # ---- the flow: {components without a value -> (handles, known constants)} ----
    def key_of(self, f, H, x, plain):
        """key of a scalar in the environment: a plain local variable or a component of the object"""
        x = strip(x)
        if x is None: return None
        if x.k == "DeclRefExpr" and x.d in plain: return x.d
        if x.k in ("MemberExpr", "DeclRefExpr") and x.d is not None and x.d.k == "field":
            r = self.match(H, path(x))
            if r: return r
        return None

    def known(self, f, H, env, x, plain):
        c = const(x)
        if c is not None: return c
        x = strip(x)
        if x is None: return None
        if x.k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): return 0
        if x.k == "CXXNewExpr": return 1
        if x.k in CALLS and (x.t or "").endswith("*"):
            T = self.P.targets(x)
            return 1 if T and all(self.nonnull(t) for t in T) else None
        k = self.key_of(f, H, x, plain)
        if k is not None: return env.get(k)
        if x.k == "UnaryOperator" and x.x["op"] == "-":
            v = self.known(f, H, env, x.ch[0], plain)
            return None if v is None else -v
        return None

    def nonnull(self, t):
        """every result of t is a fresh object"""
        R = [n for n in t.nodes if n.k == "ReturnStmt" and n.ch]
        if not R: return False
        for r in R:
            x = strip(r.ch[0], explicit=True)
            if x.k == "CXXNewExpr": continue
            d = vdecl(x)
            if d is None or d not in plain_pointers(t): return False
            V = [n.ch[0] for n in t.nodes if n.k == "VarDecl" and n.d is d and n.ch] + [n.ch[1] for n in t.nodes if n.k == "BinaryOperator" and n.x["op"] == "=" and vdecl(n.ch[0]) is d]
            if not V or any(strip(v, explicit=True).k != "CXXNewExpr" for v in V): return False
        return True

    def decide(self, f, H, env, c, plain):
        """(truth of c or None, refinement when true, refinement when false)"""
        c = strip(c)
        if c is None: return (None, {}, {})
        if c.k == "UnaryOperator" and c.x["op"] == "!":
            t, a, b = self.decide(f, H, env, c.ch[0], plain)
            return (None if t is None else not t, b, a)
        if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"):
            l, r = self.decide(f, H, env, c.ch[0], plain), self.decide(f, H, env, c.ch[1], plain)
            if c.x["op"] == "&&":
                t = False if l[0] is False or r[0] is False else True if l[0] and r[0] else None
                return (t, {**l[1], **r[1]}, {})
            t = True if l[0] or r[0] else False if l[0] is False and r[0] is False else None
            return (t, {}, {**l[2], **r[2]})
        if c.k == "BinaryOperator" and c.x["op"] in c06.NEG:
            op = c.x["op"]
            a, b = self.known(f, H, env, c.ch[0], plain), self.known(f, H, env, c.ch[1], plain)
            if a is not None and b is not None:
                return ({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op], {}, {})
            k = v = None
            if b is not None: k, v = self.key_of(f, H, c.ch[0], plain), b
            elif a is not None: k, v = self.key_of(f, H, c.ch[1], plain), a
            if k is not None and op == "==": return (None, {k: v}, {})
            if k is not None and op == "!=": return (None, {}, {k: v})
            return (None, {}, {})
        v = self.known(f, H, env, c, plain)
        if v is not None: return (bool(v), {}, {})
        k = self.key_of(f, H, c, plain)
        if k is not None: return (None, {k: 1} if (c.t or "") == "bool" else {}, {k: 0})
        return (None, {}, {})

    def run(self, f, start, handle, U0, R, findings, entry=None, env0=None):
        """start: creation node (or None when the object exists on entry). Returns {U: (H, env)} at the normal exit."""
        f.cfg()
        plain = plain_locals(f) | plain_pointers(f)
        def below(U, r):
            return frozenset(l[len(r):] for l in U if l[:len(r)] == r)
        def minus(U, r):
            r = tuple(x for x in r if x != "[]")
            return frozenset(l for l in U if l[:len(r)] != r)
        def forget(env, r):
            return {k: v for k, v in env.items() if not (isinstance(k, tuple) and k[:len(r)] == r)}
        def escape(e, U, what):
            for l in sorted(U, key=str):
                if l[-1] in self.readers and not self.quiet: findings.append((e, l, what))
        def step(e, H, U, env):
            """list of (H, U, env)"""
            if e is start:
                return [(frozenset([handle]), U0, {**{k: v for k, v in env.items() if not isinstance(k, tuple)}, **(env0 or {})})]
            d = assigned_var(e)
            if d is not None and d in plain:
                env = dict(env)
                v = None
                if e.k == "VarDecl": v = self.known(f, H, env, e.ch[0], plain) if e.ch else None
                elif delta(e) is not None: v = env[d] + delta(e) if d in env else None
                elif e.k == "BinaryOperator": v = self.known(f, H, env, e.ch[1], plain)
                if v is not None and abs(v) <= 8: env[d] = v
                else: env.pop(d, None)
            if not H: return [(H, U, env)]
            # reads
            if U and e.k == "MemberExpr" and e.d is not None and e.d.k == "field":
                r = self.match(H, path(e))
                if r is not None and r in U and self.is_read(e):
                    findings.append((e, r, "read"))
                    U = U - {r}
            if e.k in ("BinaryOperator",) and e.x["op"] == "=" or e.k == "VarDecl" or e.k == "CXXOperatorCallExpr" and e.x["op"] == "=":
                lv = (e.d,) if e.k == "VarDecl" else path(e.ch[0] if e.k == "BinaryOperator" else e.ch[1])
                rv = e.ch[0] if e.k == "VarDecl" and e.ch else (e.ch[1] if e.k == "BinaryOperator" else e.ch[2]) if e.k != "VarDecl" else None
                rp = path(rv) if rv is not None else None
                ptr = rv is not None and ((strip(rv).t or "").endswith("*") or strip(rv).k == "UnaryOperator" and strip(rv).x["op"] == "&" or e.k == "VarDecl" and (e.d.t or "").endswith("&"))
                if lv is not None:
                    if rp is not None and rp in H and ptr:
                        return [(frozenset(h for h in H if h[:len(lv)] != lv) | {lv}, U, env)]
                    r = self.match(H, lv)
                    if r is not None and len(r) >= 1 and e.k != "VarDecl":
                        rr = tuple(x for x in r if x != "[]")
                        env = forget(env, rr)
                        v = self.known(f, H, env, rv, plain)
                        if v is not None and rr == r and abs(v) <= 8: env = {**env, r: v}
                        return [(H, minus(U, r), env)]
                    if e.k != "CXXOperatorCallExpr":
                        return [(frozenset(h for h in H if h[:len(lv)] != lv), U, env)]
            if e.k in ("CompoundAssignOperator",) or e.k == "UnaryOperator" and e.x["op"] in ("++", "--"):
                r = self.match(H, path(e.ch[0]))
                if r: env = forget(env, r)
            if e.k == "ReturnStmt" and e.ch:
                x = strip(e.ch[0], explicit=True)
                if x is not None and x.k in CTORS and x.ch: x = strip(x.ch[0], explicit=True)
                q = path(x) if x is not None else None
                if q is not None and q in H and U:
                    D = self.returned.setdefault(f.key, {})
                    D[R] = U | D.get(R, frozenset())
                    return [(frozenset(), U, env)]
            if e.k == "CXXDeleteExpr" and path(e.ch[0]) in H:
                for t in self.dtors(R):
                    findings.extend(self.summary(t, "this", U, R, env)[1])
                return [(frozenset(), U, env)]
            out = [(H, U, env)]
            if e.k in CALLS or e.k in CTORS:
                G = [(i, a) for i, a in enumerate(args(e))]
                o = obj(e)
                if o is None and e.k == "CXXMemberCallExpr":
                    m = strip(e.ch[0])
                    if m.k == "MemberExpr" and not m.ch: o = "implicit"
                if o is not None: G.append(("this", o))
                T = self.P.targets(e)
                for i, a in G:
                    if a == "implicit": q = ("this",)
                    else:
                        q = path(a)
                        x = strip(a, explicit=True)
                        if x is not None and x.k == "UnaryOperator" and x.x["op"] == "*": q = q[:-1] if q and q[-1] == "*" else q
                    r = self.match(H, q)
                    if r is None: continue
                    r = tuple(z for z in r if z != "[]")
                    nxt = []
                    for (H1, U1, env1) in out:
                        sub = below(U1, r)
                        envr = {k[len(r):]: v for k, v in env1.items() if isinstance(k, tuple) and k[:len(r)] == r}
                        if r and (not sub or sub == frozenset([()])):
                            # a scalar component by reference or address, an array, or an object without gaps
                            if a != "implicit" and self.is_read_value(a) : nxt.append((H1, U1, env1)); continue
                            if not self.const_param(e, i): U1, env1 = minus(U1, r) if () in sub else U1, forget(env1, r)
                            nxt.append((H1, U1, env1)); continue
                        RR = R if not r else self.rec(r[-1].t)
                        tt = self.pick(T, e, i, RR)
                        if not tt:
                            nm = e.d.n if e.d is not None else ""
                            if nm in ("push_back", "insert", "push_front", "push", "emplace_back") and not r: escape(e, sub, "handed to a container")
                            if nm in WRITES_ARG: U1 = minus(U1, r) if r else frozenset()
                            nxt.append((H1, U1, env1)); continue
                        if not sub and not envr: nxt.append((H1, U1, env1)); continue
                        rest = frozenset(l for l in U1 if l[:len(r)] != r)
                        base = forget(env1, r)
                        for t in tt:
                            ex, rd = self.summary(t, i, sub, RR, envr)
                            findings.extend(rd)
                            for U2, env2, pub in ex:
                                nxt.append((H1 | {("elsewhere",)} if pub and not r else H1, rest | frozenset(r + l for l in U2), {**base, **{r + k: v for k, v in env2}}))
                    out = nxt
            if e.k == "UnaryOperator" and e.x["op"] == "&":
                r = self.match(H, path(e.ch[0]))
                if r: out = [(h, minus(u, r), forget(v, r)) for h, u, v in out]
            if e.k == "MemberExpr" and e.d is not None and e.d.k == "field" and U:
                c, p = self.up(e)
                r = self.match(H, path(e))
                if r and r in U and p is not None and (p.k == "VarDecl" and (p.d.t or "").rstrip().endswith("&") or p.x.get("ck") == "ArrayToPointerDecay" and not self.is_read(e) and not (p.p is not None and p.p.k == "ArraySubscriptExpr")):
                    out = [(h, minus(u, r), forget(v, r)) for h, u, v in out]
            return out
        def merge(S, H, U, env):
            if U in S:
                H0, e0 = S[U]
                S[U] = (H0 & H if H0 and H else H0 | H, {k: v for k, v in e0.items() if env.get(k) == v})
            else: S[U] = (H, env)
        def xfer(b, S):
            for e in b.el:
                N = {}
                for U, (H, env) in S.items():
                    for h, u, v in step(e, H, U, env): merge(N, h, u, v)
                S = N
                if len(S) > 12:
                    N = {}
                    A = frozenset().union(*S)
                    for U, (H, env) in S.items(): merge(N, H, A, env)
                    S = N
                if e.k == "CXXThrowExpr" or call_ends(self.P, e, self.N): return {}
            return S
        def edge(b, i, s, S):
            if b.noret or not S: return None
            c = b.cond
            if c is not None and len(b.succ) == 2:
                if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||") : c = c.ch[1] if b.term is None or b.term.k != "BinaryOperator" else c.ch[1]
                N = {}
                for U, (H, env) in S.items():
                    z = zero_test(c)
                    q = path(z[0]) if z is not None else path(c) if strip(c) is not None and (strip(c).t or "").endswith("*") else None
                    if q is not None and q in H:
                        isnull = (i == 0) == z[1] if z is not None else i == 1
                        merge(N, H, frozenset() if isnull else U, env)
                        continue
                    t, a, n = self.decide(f, H, env, c, plain)
                    if t is not None and t != (i == 0): continue
                    merge(N, H, U, {**env, **(a if i == 0 else n)})
                return N or None
            if b.term is not None and b.term.k == "SwitchStmt":
                c = cond_of(b.term)
                N = {}
                lab = s.label
                for U, (H, env) in S.items():
                    v = self.known(f, H, env, c, plain) if c is not None else None
                    k = self.key_of(f, H, c, plain) if c is not None else None
                    if lab is not None and lab.k == "CaseStmt":
                        cv = const(lab.ch[0])
                        if v is not None and cv is not None and v != cv: continue
                        if k is not None and cv is not None and abs(cv) <= 8: env = {**env, k: cv}
                    elif v is not None and any(const(l.ch[0]) == v for l in walk(b.term) if l.k == "CaseStmt"): continue
                    merge(N, H, U, env)
                return N or None
            return S
        def join(x, y):
            if x == y: return x
            N = dict(x)
            for U, (H, env) in y.items(): merge(N, H, U, env)
            # the state before the object exists gives way
            return N
        init = entry if entry is not None else {frozenset(): (frozenset(), {})}
        IN = forward(f, init, xfer, join, edge)
        return IN.get(f.exit.id, {})

    def dtors(self, R):
        if not hasattr(self, "_dt"):
            self._dt = {}
            for t in self.P.fns.values():
                if t.d.x.get("dtor"): self._dt.setdefault(t.d.cls, []).append(t)
        return self._dt.get(R, [])

    def is_read_value(self, a):
        return (a.x.get("ck") == "LValueToRValue")

    def const_param(self, e, i):
        if i == "this" or e.d is None or not e.d.pt: return False
        pt = e.d.pt[i] if i < len(e.d.pt) else ""
        return "const" in pt and "&" in pt

    def pick(self, T, e, i, R):
        if i == "this" and R and len(T) > 1:
            for c in [R] + self.P.bases(R):
                h = [t for t in T if t.d.cls == c]
                if h: return h
        return T

    returned = {}
    quiet = False

    def summary(self, t, i, U, R, env=None):
        """([(components without a value, constants of components)] when t returns, reads of such components inside t)"""
        env = env or {}
        fe = tuple(sorted(((k, v) for k, v in env.items() if isinstance(k, tuple)), key=str))
        if not t.rawcfg or t.d.x.get("imp"): return ([(U, fe, False)], [])
        k = (t.key, i, U, R, fe)
        if k in self.sums: return self.sums[k]
        self.sums[k] = ([(frozenset(), (), False)], [])
        if i == "this": h = ("this",)
        else:
            if i >= len(t.params): return ([(frozenset(), (), False)], [])
            h = (t.params[i],)
        rd = []
        q, self.quiet = self.quiet, True
        H0 = {h}
        for n in t.inits:                                       # a member that refers to the object
            if i != "this" and n.d is not None and n.d.k == "field" and n.ch and (n.d.t or "").rstrip().endswith(("&", "*")):
                x = strip(n.ch[0], explicit=True)
                if x is not None and x.k == "UnaryOperator" and x.x["op"] == "&": x = strip(x.ch[0])
                if x is not None and path(x) == h: H0.add(("this", n.d))
        S = self.run(t, None, h, None, R, rd, entry={U: (frozenset(H0), dict(fe))})
        self.quiet = q
        res = ([(u, tuple(sorted(((k, v) for k, v in e.items() if isinstance(k, tuple)), key=str)), any(x[0] != h[0] and not (len(x) == 1 and isinstance(x[0], Decl) and x[0].k in ("local", "parm")) for x in H)) for u, (H, e) in S.items()], rd)
        self.sums[k] = res
        return res

def plain_pointers(f):
    """pointer variables of f that are only read and directly assigned"""
    if "plainp" in f._cache: return f._cache["plainp"]
    cand = {n.d for n in f.nodes if n.k == "VarDecl" and n.d.k == "local" and (n.d.t or "").endswith("*") and not n.d.x.get("st")}
    for n in f.nodes:
        if n.k == "DeclRefExpr" and n.d in cand:
            c, p = n, n.p
            while p is not None and p.k == "ParenExpr": c, p = p, p.p
            if p is None or not (p.x.get("ck") == "LValueToRValue" or p.k == "BinaryOperator" and p.x["op"] == "=" and p.ch[0] is c): cand = cand - {n.d}
        if n.k == "LambdaExpr": cand = set()
    f._cache["plainp"] = cand
    return cand

def alloc(x):
    """(kind, node) when expression x makes a fresh object"""
    x = strip(x, explicit=True)
    if x is None: return None
    if x.k == "CXXNewExpr": return x
    if x.k == "CallExpr" and callee_qn(x) in ("malloc", "std::malloc", "realloc"): return x
    return None

def creations(I, f):
    """(node at which the object gets its handle, handle path, record, components without a value)"""
    P = I.P
    for n in f.nodes:
        if n.k == "VarDecl" and n.d.k == "local" and not n.d.x.get("st"):
            R = I.rec(n.d.t)
            if R and not (n.d.t or "").rstrip().endswith(("*", "&", "]")):
                if not n.ch: yield (n, (n.d,), R, frozenset(I.leaves(R))); continue
                x = strip(n.ch[0])
                if x is not None and x.k in CTORS: yield (n, (n.d,), R, I.of_construct(x, R))
                continue
        v = lv = None
        if n.k == "VarDecl" and n.ch: v, lv = n.ch[0], (n.d,)
        elif n.k == "BinaryOperator" and n.x["op"] == "=": v, lv = n.ch[1], path(n.ch[0])
        if v is None or lv is None: continue
        x = alloc(v)
        if x is None:
            y = strip(v, explicit=True)
            if y is not None and y.k in CALLS:
                for t in P.targets(y):
                    for R, U in I.returned.get(t.key, {}).items():
                        if base_type(y.t) == R: yield (n, lv, R, U)
            continue
        if x.k == "CXXNewExpr":
            if x.x.get("arr"): continue
            R = I.rec(x.x["at"])
            if R is None or x.x["at"].rstrip().endswith("*"): continue
            k = [strip(c) for c in x.ch if strip(c) is not None and strip(c).k in CTORS]
            if k: yield (n, lv, R, I.of_construct(k[0], R))
            elif not x.ch: yield (n, lv, R, frozenset(I.leaves(R)))
        else:
            R = I.rec(strip(v).t if strip(v) is not None else "")
            e = strip(v)
            t = v.t or ""
            R = I.rec(t)
            if R: yield (n, lv, R, frozenset(I.leaves(R)))

# Node_Controller keeps a pool of tree nodes: the node it makes waits in the pool, and whoever takes one says what it is.  Judged at the
# takers: the kind of the node is what every method of the tree looks at first (children and results of a T_Node are never looked at).
POOL = {"Node_Controller::Get_PolyTree_Node": ("PolyTree_Node", "Node_Type"), "Node_Controller::Get_T_Node": ("T_Node", "Node_Type")}
POOL_OWNER = "Node_Controller"
# the k-th element of a list of k elements is linked when the k+1-st is made; the loop that follows the links stops at the k-th
LAST_LINK = {("Residue", "denom.next"), ("ResidueFunction", "denom.next")}

def look(I, f, n, h, U, R):
    F = []
    S = I.run(f, n, h, U, R, F, env0=I.env_of(n, R))
    for u, (H, env) in S.items():
        if not u: continue
        out = [x for x in H if not (len(x) == 1 and isinstance(x[0], Decl) and x[0].k in ("local", "parm"))]
        if out:
            for l in sorted(u, key=str):
                if l[-1] in I.readers: F.append((n, l, "published"))
        elif len(h) == 1 and isinstance(h[0], Decl) and not (h[0].t or "").endswith("*"):
            for t in I.dtors(R): F.extend(I.summary(t, "this", u, R, env)[1])
    return F

def objects(P, ck, I):
    done = set()
    for f in P.fns.values():
        if f.short in POOL:
            R, fld = POOL[f.short]
            I.returned[f.key] = {R: frozenset(l for l in I.leaves(R) if l[-1].n == fld)}
    for rnd in range(6):
        new = 0
        for f in P.fns.values():
            if not f.rawcfg or not c06.in_scope(f) or f.d.x.get("imp"): continue
            for (n, h, R, U) in list(creations(I, f)):
                key = (f.key, n.i, R, U)
                if key in done: continue
                done.add(key); new += 1
                if not U: ck.ok("object", n, "every component has a value when the object exists"); continue
                F = look(I, f, n, h, U, R)
                if len(F) and len(U) > 1:                       # one component at a time: the constants that tell its states apart stay apart
                    F = [x for l in sorted({x[1] for x in F}, key=str) if l in U for x in look(I, f, n, h, frozenset([l]), R)]
                if not F: ck.ok("object", n, "%s gets its values before they are read" % R)
                seen = set()
                for (e, l, what) in F:
                    fld = ".".join(x.n for x in l)
                    if (fld, what) in seen: continue
                    seen.add((fld, what))
                    if f.d.cls == POOL_OWNER and R in {r for r, x in POOL.values()} and what == "published": ck.ok("object", n, "waits in the pool"); continue
                    if (f.short, "%s.%s" % (R, fld)) in LAST_LINK: ck.ok("object", n, "the links are followed as often as elements were linked"); continue
                    ck.bad("object", "%s:%s:%s:%s" % (what.split()[0], f.short, R, fld), e, "%s of the %s created at %s:%s %s" % (fld, R, f.file, n.line, {"read": "is read before it has a value", "published": "has no value when the object is stored"}.get(what, "has no value when the object is " + what)))
        if not new: break

# ---- scalar locals ----
def scalars(I, f):
    """scalar and pointer locals of f that are declared without a value"""
    out = set()
    for n in f.nodes:
        if n.k == "VarDecl" and n.d.k == "local" and not n.ch and not n.d.x.get("st"):
            t = n.d.t or ""
            if "[" in t or t.rstrip().endswith("&") or base_type(t) in I.P.recs and not t.rstrip().endswith("*") or t.startswith("std::"): continue
            if n.p is not None and n.p.k in ("CXXCatchStmt", "CXXForRangeStmt"): continue
            out.add(n.d)
    return out

# correlations between data, not between values of locals: (function, variable) -> why it always has a value
CORRELATED = {("PolyTree_Node::Print", "char"): "a node with children is one of + * / ^", ("PolyTree_Node::Print_Rational_Functions_to_File", "char"): "a node with children is one of + * / ^",
              ("makeRandomMonomial", "int"): "the degree left over is negative only after a step of the loop",
              ("insertTerm", "BurstTerm"): "the first term is smaller than the new one here, so the loop takes at least one step"}

UNEVALUATED = {"UnaryExprOrTypeTraitExpr", "CXXTypeidExpr", "DecltypeExpr"}

def local_events(f, V):
    """{node id: [(variable, 'read' | 'write', occurrence)]} - the node is the occurrence for reads and escapes, the assignment for writes"""
    ev = {}
    for n in f.nodes:
        if n.k == "VarDecl" and n.d in V: ev.setdefault(n.i, []).append((n.d, "unset", n)); continue
        if n.k == "LambdaExpr":
            for m in n.x.get("cap", []) or []: pass
        if n.k != "DeclRefExpr" or n.d not in V: continue
        if any(a.k in UNEVALUATED for a in up_chain(n)): continue
        c, p = n, n.p
        while p is not None and p.k == "ParenExpr": c, p = p, p.p
        if p is None: continue
        if p.x.get("ck") == "LValueToRValue": ev.setdefault(n.i, []).append((n.d, "read", n))
        elif p.k == "CompoundAssignOperator" and p.ch[0] is c or p.k == "UnaryOperator" and p.x["op"] in ("++", "--"):
            ev.setdefault(p.i, []).extend([(n.d, "read", n), (n.d, "write", n)])
        elif p.k == "BinaryOperator" and p.x["op"] == "=" and p.ch[0] is c: ev.setdefault(p.i, []).append((n.d, "write", n))
        elif p.x.get("ck") == "ToVoid": pass
        else:
            q = p
            while q is not None and q.k in TRANSPARENT: c, q = q, q.p
            kind = "write"
            if q is not None and (q.k in CALLS or q.k in CTORS) and q.d is not None and q.d.pt and p.k != "UnaryOperator":
                for i, a in enumerate(args(q)):
                    if strip(a) is n and i < len(q.d.pt) and "const" in q.d.pt[i] and "&" in q.d.pt[i]: kind = "read"
            ev.setdefault(n.i, []).append((n.d, kind, n))
    return ev

def up_chain(n):
    while n.p is not None:
        n = n.p
        yield n

def locals_(P, ck, I):
    fl = Flags(P)
    for f in P.fns.values():
        if not f.rawcfg or not c06.in_scope(f) or f.d.x.get("imp"): continue
        V = scalars(I, f)
        if not V: continue
        f.cfg()
        ev = local_events(f, V)
        reads = {}
        for l in ev.values():
            for d, k, n in l:
                if k == "read": reads.setdefault(d, []).append(n)
        def xfer(b, S):
            for e in b.el:
                for d, k, n in ev.get(e.i, ()):
                    if k == "unset": S = S | {d}
                    elif k == "write": S = S - {d}
                if e.k == "DeclStmt":
                    for c in e.ch:
                        if c.k == "VarDecl" and c.d in V and not c.ch: S = S | {c.d}
            return S
        IN = forward(f, frozenset(), xfer, lambda a, b: a | b, lambda b, i, s, S: None if b.noret else S)
        cand = {}
        for b in f.blocks.values():
            if b.id not in IN: continue
            S = IN[b.id]
            for e in b.el:
                for d, k, n in ev.get(e.i, ()):
                    if k == "read" and d in S: cand.setdefault(d, []).append(n)
                    if k == "unset": S = S | {d}
                    elif k == "write": S = S - {d}
                if e.k == "DeclStmt":
                    for c in e.ch:
                        if c.k == "VarDecl" and c.d in V and not c.ch: S = S | {c.d}
        for d in sorted(reads, key=lambda d: d.n):
            if d not in cand: ck.ok("local", reads[d][0], "%s has a value on every path" % d.n); continue
            F = simulate(I, f, d, ev, fl) and simulate(I, f, d, ev, fl, 6) and simulate(I, f, d, ev, fl, 16, slice_(I, f, d, ev, fl))
            if not F: ck.ok("local", reads[d][0], "%s has a value on every path that can be taken" % d.n); continue
            if any(f.short.split("<")[0] == g or f.short.endswith("::" + g) for g, v in CORRELATED if v == (d.t or "").split("<")[0]): ck.ok("local", reads[d][0], "%s has a value because of the data" % d.n); continue
            ck.bad("local", "%s:%s" % (f.short, d.n), F[0], "%s is read at %s:%s on a path on which it was never given a value" % (d.n, f.file, F[0].line))

class Flags:
    """Which first characters the yes/no strings of the program can have: every strcpy into them, followed through parameters."""
    def __init__(self, P):
        self.P, self.memo, self.cp, self.wp = P, {}, {}, {}
        for f in P.fns.values():
            for n in f.nodes:
                if n.k in CALLS:
                    if n.d is not None and n.d.n in ("strcpy", "strncpy", "sprintf", "snprintf", "strcat", "memcpy", "fgets", "sscanf"):
                        A = args(n)
                        d = self.arr(A[0]) if n.d.n != "sscanf" else None
                        if d is not None: self.cp.setdefault(d, []).append(n)
                    for i, x in enumerate(args(n)):
                        for t in P.targets(n):
                            if i < len(t.params): self.cp.setdefault(("arg", t.params[i]), []).append(x)
                            d = self.arr(x)
                            if d is not None and i < len(t.params): self.cp.setdefault(("to", d), []).append((t, i))
                        if not P.targets(n) and self.arr(x) is not None and n.d is not None and n.d.n not in ("strcpy", "strncpy", "strcmp", "strncmp", "strlen", "printf", "fprintf", "sprintf", "strcat", "atoi", "fopen"):
                            if not (i < len(n.d.pt or []) and "const" in n.d.pt[i]) and not n.k == "CXXOperatorCallExpr": self.cp.setdefault(self.arr(x), []).append(n)
                if n.k == "BinaryOperator" and n.x["op"] == "=":
                    l = strip(n.ch[0])
                    d = self.arr(l.ch[0]) if l is not None and l.k == "ArraySubscriptExpr" else vdecl(l)
                    if d is not None: self.cp.setdefault(d, []).append(n)
                if n.k == "VarDecl" and n.ch and strip(n.ch[0]) is not None and strip(n.ch[0]).k == "StringLiteral": self.cp.setdefault(n.d, []).append(n)

    def arr(self, x):
        x = strip(x, explicit=True)
        return x.d if x is not None and x.k in ("DeclRefExpr", "MemberExpr") and x.d is not None and ((x.d.t or "").startswith("char") or (x.d.t or "").startswith("const char")) and ("*" in x.d.t or "[" in x.d.t) else None

    def dom(self, d, seen=()):
        if d in self.memo: return self.memo[d]
        if d in seen: return frozenset()
        out = set()
        for n in self.cp.get(d, []):
            v = self.lit(n)
            if v is None: return None
            out.add(v)
        for t, i in self.cp.get(("to", d), []):
            if t.params[i] not in seen and self.cp.get(t.params[i]):
                r = self.dom_writes(t.params[i], seen + (d,))
                if r is None: return None
                out |= r
        if d.k == "parm":
            A = self.cp.get(("arg", d))
            if not A: return None
            for x in A:
                y = strip(x, explicit=True)
                if y is not None and y.k == "StringLiteral": out.add(ord((y.x["s"] or "\0")[0])); continue
                e = self.arr(x)
                r = self.dom(e, seen + (d,)) if e is not None else None
                if r is None: return None
                out |= r
        elif "[" not in (d.t or ""): return None
        if not seen: self.memo[d] = frozenset(out)
        return frozenset(out)

    def dom_writes(self, d, seen):
        out = set()
        for n in self.cp.get(d, []):
            v = self.lit(n)
            if v is None: return None
            out.add(v)
        return out

    def lit(self, n):
        """first character the write n puts into the string, or None"""
        if n.k == "CallExpr" and n.d.n in ("strcpy", "strncpy"):
            y = strip(args(n)[1], explicit=True)
            return ord((y.x["s"] or "\0")[0]) if y is not None and y.k == "StringLiteral" else None
        if n.k == "VarDecl": return ord((strip(n.ch[0]).x["s"] or "\0")[0])
        return None

def first_char(fl, x):
    """the string whose first character x reads"""
    x = strip(x, explicit=True)
    if x is None or x.k != "ArraySubscriptExpr" or const(x.ch[1]) != 0: return None
    return fl.arr(x.ch[0])

class Sets:
    """path conditions as value sets of plain locals and of the first characters of flag strings"""
    def __init__(self, I, f, fl):
        self.I, self.f, self.fl = I, f, fl
        self.plain = plain_locals(f) | plain_pointers(f)

    def key(self, x):
        x = strip(x, explicit=True)
        if x is None: return None
        if x.k == "DeclRefExpr" and x.d in self.plain: return x.d
        d = first_char(self.fl, x)
        return ("c", d) if d is not None else None

    def start(self):
        env = {}
        for p in self.f.params:
            if p in self.plain:
                A = self.fl.cp.get(("arg", p), [])
                V = [const(a) for a in A]
                if A and all(v is not None for v in V) and len(set(V)) <= 8 and not self.f.d.x.get("virtual"): env[p] = frozenset(V)
        return env

    def get(self, env, k):
        if k in env: return env[k]
        if isinstance(k, tuple): return self.fl.dom(k[1])
        return None

    def vals(self, env, x):
        c = const(x)
        if c is not None: return frozenset([c])
        x = strip(x, explicit=True)
        if x is None: return None
        if x.k in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): return frozenset([0])
        if x.k == "CXXNewExpr": return frozenset([1])
        if x.k in CALLS and (x.t or "").endswith("*"):
            T = self.I.P.targets(x)
            return frozenset([1]) if T and all(self.I.nonnull(t) for t in T) else None
        k = self.key(x)
        if k is not None: return self.get(env, k)
        if x.k == "BinaryOperator" and (x.x["op"] in c06.NEG or x.x["op"] in ("&&", "||")) or x.k == "UnaryOperator" and x.x["op"] == "!":
            t = self.decide(env, x)[0]
            return frozenset([0, 1]) if t is None else frozenset([int(t)])
        return None

    def decide(self, env, c):
        c = strip(c, explicit=True)
        if c is None: return (None, {}, {})
        if c.k == "UnaryOperator" and c.x["op"] == "!":
            t, a, b = self.decide(env, c.ch[0])
            return (None if t is None else not t, b, a)
        if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"):
            l = self.decide(env, c.ch[0])
            both = {**env, **(l[1] if c.x["op"] == "&&" else l[2])}
            r = self.decide(both, c.ch[1])
            if c.x["op"] == "&&":
                t = False if l[0] is False or r[0] is False else True if l[0] and r[0] else None
                return (t, {**l[1], **r[1]}, r[2] if l[0] else {})
            t = True if l[0] or r[0] else False if l[0] is False and r[0] is False else None
            return (t, r[1] if l[0] is False else {}, {**l[2], **r[2]})
        if c.k == "BinaryOperator" and c.x["op"] in c06.NEG:
            op = c.x["op"]
            F = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[op]
            A, B = self.vals(env, c.ch[0]), self.vals(env, c.ch[1])
            t, pos, neg = None, {}, {}
            if A is not None and B is not None:
                R = {F(a, b) for a in A for b in B}
                if len(R) == 1: t = R.pop()
            for k, mine, other, sw in ((self.key(c.ch[0]), A, B, False), (self.key(c.ch[1]), B, A, True)):
                if k is None or other is None or len(other) != 1: continue
                o = next(iter(other))
                G = (lambda v: F(o, v)) if sw else (lambda v: F(v, o))
                if mine is not None:
                    pos[k] = frozenset(v for v in mine if G(v))
                    neg[k] = frozenset(v for v in mine if not G(v))
                elif op == "==": pos[k] = frozenset([o])
                elif op == "!=": neg[k] = frozenset([o])
            return (t, pos, neg)
        V = self.vals(env, c)
        k = self.key(c)
        if V is not None:
            R = {bool(v) for v in V}
            t = R.pop() if len(R) == 1 else None
            if k is not None: return (t, {k: frozenset(v for v in V if v)}, {k: frozenset(v for v in V if not v)})
            return (t, {}, {})
        if k is not None: return (None, {k: frozenset([1])} if (c.t or "") == "bool" else {}, {k: frozenset([0])})
        return (None, {}, {})

def slice_(I, f, d, ev, fl):
    """the values that the conditions around the reads and writes of d look at"""
    D = Sets(I, f, fl)
    K = set()
    for l in ev.values():
        for v, k, n in l:
            if v is not d: continue
            for a in up_chain(n):
                c = cond_of(a) if a.k in ("IfStmt", "WhileStmt", "DoStmt", "SwitchStmt", "ForStmt", "ConditionalOperator") else None
                for m in (walk(c) if c is not None else ()):
                    x = D.key(m)
                    if x is not None: K.add(x)
    return K

def simulate(I, f, d, ev, fl, wide=1, keep=None):
    """reads of d before it has a value, on paths consistent with the values held by the other locals"""
    D = Sets(I, f, fl)
    plain = D.plain
    F = []
    def union(x, y):
        N = {}
        for k in set(x) & set(y):
            v = x[k] | y[k]
            if len(v) <= 8: N[k] = v
        return N
    def covers(x, y): return all(k in y and y[k] <= v for k, v in x.items())
    def merge(S, u, env):
        if keep is not None: env = {k: v for k, v in env.items() if k in keep}
        L = S.get(u, ())
        if any(covers(x, env) for x in L): return
        L = tuple(x for x in L if not covers(env, x))
        for x in L:                                             # two that differ in one value are the same as their union
            if x.keys() == env.keys() and sum(x[k] != env[k] for k in x) == 1:
                S[u] = tuple(y for y in L if y is not x)
                merge(S, u, union(x, env))
                return
        L = L + (env,)
        if len(L) > wide:
            x = L[0]
            for y in L[1:]: x = union(x, y)
            L = (x,)
        S[u] = L
    def each(S):
        for u, L in S.items():
            for env in L: yield u, env
    def written(e):
        if e.k == "CallExpr" and e.d is not None and e.d.n in ("strcpy", "strncpy"):
            x = fl.arr(args(e)[0])
            if x is not None: return [(x, fl.lit(e))]
        if e.k in CALLS and I.P.targets(e):
            out = []
            for i, x in enumerate(args(e)):
                y = fl.arr(x)
                if y is not None and any(i < len(t.params) and fl.cp.get(t.params[i]) or i < len(t.params) and any(fl.cp.get(u.params[j]) for u, j in fl.cp.get(("to", t.params[i]), [])) for t in I.P.targets(e)): out.append((y, None))
            return out
        return []
    def xfer(b, S, rec=None):
        for e in b.el:
            N = {}
            W = written(e)
            for u, env in each(S):
                v = assigned_var(e)
                if v is not None and v in plain:
                    x = None
                    if e.k == "VarDecl": x = D.vals(env, e.ch[0]) if e.ch else None
                    elif delta(e) is not None: x = frozenset(y + delta(e) for y in env[v]) if v in env else None
                    elif e.k == "BinaryOperator": x = D.vals(env, e.ch[1])
                    env = {k: y for k, y in env.items() if k != v}
                    if x is not None: env[v] = x
                for y, c in W:
                    env = {k: z for k, z in env.items() if k != ("c", y)}
                    if c is not None: env[("c", y)] = frozenset([c])
                for w, k, n in ev.get(e.i, ()):
                    if w is not d: continue
                    if k == "read" and u and rec is not None: rec.append(n)
                    if k == "unset": u = True
                    if k == "write": u = False
                if e.k == "DeclStmt" and any(c.k == "VarDecl" and c.d is d and not c.ch for c in e.ch): u = True
                merge(N, u, env)
            S = N
            if e.k == "CXXThrowExpr" or call_ends(I.P, e, I.N): return {}
        return S
    def edge(b, i, s, S):
        if b.noret or not S: return None
        N = {}
        c = b.cond
        if c is not None and len(b.succ) == 2:
            for u, env in each(S):
                t, x, y = D.decide(env, c)
                if t is not None and t != (i == 0): continue
                merge(N, u, {**env, **(x if i == 0 else y)})
            return N or None
        if b.term is not None and b.term.k == "SwitchStmt":
            c = cond_of(b.term)
            for u, env in each(S):
                v = D.vals(env, c) if c is not None else None
                k = D.key(c) if c is not None else None
                if s.label is not None and s.label.k == "CaseStmt":
                    cv = const(s.label.ch[0])
                    if v is not None and cv is not None and cv not in v: continue
                    if k is not None and cv is not None: env = {**env, k: frozenset([cv])}
                else:
                    C = {const(l.ch[0]) for l in walk(b.term) if l.k == "CaseStmt"}
                    if v is not None and v <= C: continue
                    if v is not None and k is not None: env = {**env, k: v - C}
                merge(N, u, env)
            return N or None
        return S
    def join(x, y):
        N = dict(x)
        for u, env in each(y): merge(N, u, env)
        return N
    IN = forward(f, {False: (D.start(),)}, xfer, join, edge)
    for b in f.blocks.values():
        if b.id in IN: xfer(b, IN[b.id], F)
    return F

# ---- arrays ----
def fresh_array(I, x):
    """x makes an array of scalars without values"""
    x = strip(x, explicit=True)
    if x is None: return False
    if x.k == "CXXNewExpr" and x.x.get("arr") and not any(strip(c) is not None and strip(c).k in ("InitListExpr", "ImplicitValueInitExpr", "ParenListExpr") or strip(c) is not None and strip(c).k in CTORS for c in x.ch):
        t = x.x.get("at") or ""
        return base_type(t) not in I.P.recs or t.rstrip().endswith("*")
    return False

def arrays(P, ck, I):
    """an element of a local array is read only after a write to the array can have happened"""
    for f in P.fns.values():
        if not f.rawcfg or not c06.in_scope(f) or f.d.x.get("imp"): continue
        V = set()
        for n in f.nodes:
            if n.k == "VarDecl" and n.d.k == "local" and not n.d.x.get("st"):
                t = n.d.t or ""
                if "[" in t and not n.ch and (base_type(elem(t)) not in I.P.recs or elem(t).endswith("*")) and not t.startswith("std::"): V.add(n.d)
                if t.rstrip().endswith("*"): V.add(n.d)
        if not V: continue
        f.cfg()
        ev, fresh = {}, {}
        for n in f.nodes:
            if n.k == "VarDecl" and n.d in V and "[" in (n.d.t or ""): ev.setdefault(n.i, []).append((n.d, "unset", n))
            v = n.ch[0] if n.k == "VarDecl" and n.ch else n.ch[1] if n.k == "BinaryOperator" and n.x["op"] == "=" else None
            lv = n.d if n.k == "VarDecl" else vdecl(n.ch[0]) if v is not None else None
            if v is not None and lv in V and fresh_array(I, v): ev.setdefault(n.i, []).append((lv, "unset", n)); continue
            if n.k != "DeclRefExpr" or n.d not in V: continue
            if any(a.k in UNEVALUATED for a in up_chain(n)): continue
            c, p = n, n.p
            while p is not None and (p.k == "ParenExpr" or p.x.get("ck") in ("ArrayToPointerDecay", "LValueToRValue")): c, p = p, p.p
            if p is None: continue
            if p.k == "CXXDeleteExpr" or p.x.get("ck") in ("ToVoid", "PointerToBoolean"): continue
            if p.k == "BinaryOperator" and p.x["op"] in ("==", "!="): continue
            if p.k == "ArraySubscriptExpr" and p.ch[0] is c and I.is_read(p): ev.setdefault(p.i, []).append((n.d, "read", n)); continue
            q = p
            while q is not None and q.k in TRANSPARENT: q = q.p
            if q is not None and q.k in CALLS and q.d is not None and q.d.n in READS_STR:
                ev.setdefault(q.i, []).append((n.d, "read", n)); continue
            if p.k == "BinaryOperator" and p.x["op"] == "=" and p.ch[0] is c:
                if not fresh_array(I, p.ch[1]): ev.setdefault(p.i, []).append((n.d, "write", n))
                continue
            ev.setdefault(n.i, []).append((n.d, "write", n))
        if not any(k == "unset" for l in ev.values() for d, k, n in l): continue
        def xfer(b, S, rec=None):
            for e in b.el:
                for d, k, n in sorted(ev.get(e.i, ()), key=lambda z: ("read", "write", "unset").index(z[1])):
                    if k == "read" and rec is not None: rec.append((d, n, d in S))
                    if k == "write": S = S - {d}
                    if k == "unset": S = S | {d}
                if e.k == "DeclStmt":
                    for c in e.ch:
                        if c.k == "VarDecl" and any(k == "unset" for _, k, _ in ev.get(c.i, ())): S = S | {c.d}
            return S
        IN = forward(f, frozenset(), xfer, lambda a, b: a & b, lambda b, i, s, S: None if b.noret else S)
        seen = {}
        for b in f.blocks.values():
            if b.id not in IN: continue
            rec = []
            xfer(b, IN[b.id], rec)
            for d, n, bad in rec:
                if bad or d not in seen: seen[d] = (n, bad) if d not in seen or bad else seen[d]
        for d, (n, bad) in seen.items():
            if bad: ck.bad("array", "array:%s:%s" % (f.short, d.n), n, "elements of %s are read at %s:%s although nothing was stored in it" % (d.n, f.file, n.line))
            else: ck.ok("array", n, "%s is filled before it is read" % d.n)

def check():
    P = load()
    ck = Check("C11", RULE)
    I = Init(P)
    objects(P, ck, I)
    locals_(P, ck, I)
    arrays(P, ck, I)
    ck.floor("object", 320)
    ck.floor("local", 650)
    ck.floor("array", 75)
    return ck.finish(P)
