"""C16: numbers that can grow without bound stay in exact arithmetic.

(N) narrowing: every place where a value of an exact type (NTL ZZ, GMP integer or rational, RationalNTL) becomes a machine integer is
    guarded: on every path to it (or to every use of its result) the same value has been compared with a bound that fits the result type and
    the other outcome does not get there.  Callers are consulted when the value is a parameter.
(F) rounding: a value obtained by converting an exact value to floating point (machine or RR) is not converted back to an integer, does not enter an
    exact value and is not compared.
(G) wrapping: a machine number that enters an exact value (operand of an exact operation, conversion, assignment) is not the outcome of a
    multiplication or shift that grows with a loop or recursion, nor of a text-to-number routine that cannot report overflow.
Origin analysis is whole-program and flow-insensitive between functions, by reaching definitions inside them."""
import re
from model import *
from taint import Origins
import common, report

EXACT = re.compile(r'(\bZZ$|mpz_t\b|mpq_t\b|__mpz_struct\b|__mpq_struct\b|RationalNTL$|\bmpz_class$|\bmpq_class$|\bInteger$|\bmpq_srcptr|\bmpz_srcptr|mpz_ptr|mpq_ptr)')
INT = re.compile(r'^(unsigned |signed )*(char|short|int|long|long long|unsigned)( int)?$|^size_t$|^bool$')
FLT = re.compile(r'^(float|double|long double)$')
BIGF = re.compile(r'(^|::)(RR|xdouble|quad_float)$|\bmpf_t|mpf_class|__mpf_struct')
MAX = {"int": 2**31 - 1, "unsigned": 2**32 - 1, "long": 2**63 - 1, "short": 2**15 - 1, "char": 127}
CONT = re.compile(r'(Vec|Mat|vector|list|deque|map|set|pair|Matrix|VectorArray|Vector)<')
NOVALUE = {"operator[]", "operator()", "at", "elm", "get", "put", "SetLength", "SetDims", "resize", "reserve", "SetSize", "swap", "size", "length"}
INTNAMES = re.compile(r'^(conv|to_(int|long|uint|ulong|ushort|short)|trunc_long|(mpz_|mpq_|__gmpz_|__gmpq_)?get_[su][il]|__gmpz_get_[us]i)$')
FLTNAMES = re.compile(r'^(conv|to_(float|double|RR|xdouble|quad_float)|(__gmpz_|__gmpq_|mpz_|mpq_)?get_d|__gmp[zq]_get_d|get_d|log|RR|MakeRR|ConvPrec|ConvToRR)$')
BACKNAMES = re.compile(r'^(conv|to_ZZ|RoundToZZ|CeilToZZ|FloorToZZ|TruncToZZ)$')
TEXTNUM = {"atoi", "atol", "atoll", "strtol", "strtoll", "strtoul", "strtoull", "sscanf", "atof", "strtod", "fscanf", "scanf"}

def cl(t):
    return re.sub(r'\s*[&*]+\s*(const)?$', '', re.sub(r'\bconst ', '', t or "")).strip()
def exact(t): return bool(EXACT.search(cl(t))) and not CONT.search(t or "")
def isint(t): return bool(INT.match(cl(t))) and "*" not in (t or "")
def isflt(t): return bool(FLT.match(cl(t))) and "*" not in (t or "")
def isrr(t): return bool(BIGF.search(cl(t)))
def last(n):
    q = callee_qn(n) or ""
    if n.k in CTORS: q = cl(n.t)
    q = re.sub(r'<.*>', '', q)
    return q.split("::")[-1]

def width(t):
    t = cl(t)
    if "long" in t or t == "size_t": return 2**63 - 1
    if "short" in t: return 2**15 - 1
    if "char" in t: return 127
    if "unsigned" in t: return 2**32 - 1
    return 2**31 - 1

class Conv:
    """node, exact source expression, result type, target variable expression (conv(x, y)) or None"""
    def __init__(self, n, src, t, out):
        self.n, self.src, self.t, self.out = n, src, t, out
        m = n                                   # casts around the conversion may cut further
        while m.p is not None and (m.p.k in TRANSPARENT or m.p.k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr")):
            m = m.p
            if isint(m.t) and isint(self.t) and width(m.t) < width(self.t) and cl(m.t) != "bool": self.t = m.t

def narrowings(P, f):
    """(int conversions, float conversions, conversions back from floating point to integers / exact values)"""
    I, F, B = [], [], []
    for n in f.nodes:
        if is_call(n) and not P.targets(n):
            A = args(n); o = obj(n)
            nm = last(n)
            if nm == "conv" and len(A) == 2:
                a, b = A
                if exact(b.t):
                    if isint(a.t): I.append(Conv(n, b, a.t, a))
                    elif isflt(a.t) or isrr(a.t): F.append(Conv(n, b, a.t, a))
                elif isrr(strip(b).t) or isflt(strip(b).t):
                    if exact(a.t) or isint(a.t): B.append(Conv(n, b, a.t, a))
                continue
            srcs = [x for x in A + ([o] if o is not None else []) if exact(x.t)]
            if srcs and isint(n.t) and (INTNAMES.match(nm)): I.append(Conv(n, srcs[0], n.t, None))
            elif srcs and (isflt(n.t) or isrr(n.t)) and nm not in ("operator<<",): F.append(Conv(n, srcs[0], n.t, None))
            fs = [x for x in A if isrr(strip(x).t) or isflt(strip(x).t)]
            if fs:
                outs = [x for x in A if exact(x.t)]
                if exact(n.t) or isint(n.t) and nm in ("conv", "to_int", "to_long"): B.append(Conv(n, fs[0], n.t, None))
                elif outs: B.append(Conv(n, fs[0], outs[0].t, outs[0]))
        elif n.k in CTORS and not P.targets(n):
            A = args(n)
            if A and exact(n.t) and any(isflt(strip(x).t) or isrr(strip(x).t) for x in A): B.append(Conv(n, A[0], n.t, None))
            if A and isrr(n.t) and exact(A[0].t): F.append(Conv(n, A[0], n.t, None))
        elif n.k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.ch:
            s = n.ch[-1]
            if isflt(s.t) and isint(n.t) and cl(n.t) != "bool" and const(n) is None: B.append(Conv(n, s, n.t, None))
    return I, F, B

def core(e):
    """The exact value an expression denotes, up to sign: abs(x), -x, x.get_mpz_t(), (x)."""
    while True:
        e = strip(e, explicit=True)
        if e.k == "CXXOperatorCallExpr" and e.x["op"] == "-" and len(e.ch) == 2: e = e.ch[1]; continue
        if is_call(e) and last(e) in ("abs", "get_mpz_t", "get_mpq_t", "negate") :
            o = obj(e)
            if o is not None: e = o; continue
            if args(e): e = args(e)[0]; continue
        if e.k in CTORS and len(args(e)) == 1 and exact(e.t): e = args(e)[0]; continue
        if e.k in ("CXXFunctionalCastExpr", "UnaryOperator") and e.ch and (e.k != "UnaryOperator" or e.x["op"] in ("-", "*", "&", "+")): e = e.ch[-1]; continue
        return e

FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEGO = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}

def defs(f, v):
    """right-hand sides of everything that gives local v a value"""
    out = []
    for n in f.nodes:
        if n.k == "VarDecl" and n.d is v:
            if n.ch and not (strip(n.ch[0]).k in CTORS and not args(strip(n.ch[0]))): out.append(n.ch[0])
        elif n.k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and n.x.get("op") in ("=", "+=", "-=", "*=", "/=", "<<=", ">>=", "|=", "&="):
            a = n.ch[-2:]
            if vdecl(a[0]) is v: out.append(a[1] if n.x["op"] == "=" else n)
        elif n.k == "UnaryOperator" and n.x["op"] in ("++", "--", "&") and vdecl(n.ch[0]) is v: out.append(n)
        elif is_call(n) and n.k != "CXXOperatorCallExpr":
            pts = n.d.pt if n.d is not None and n.d.pt else []
            for i, a in enumerate(args(n)):
                if vdecl(a) is v and i < len(pts) and pts[i] and "&" in pts[i] and not pts[i].startswith("const"): out.append(n)
    return out

def constval(e):
    e = strip(e, explicit=True)
    k = const(e)
    if k is None and (is_call(e) or e.k in CTORS) and len(args(e)) == 1 and obj(e) is None: return constval(args(e)[0])
    return k

class Guards:
    def __init__(self, P):
        self.P, self.N = P, common.noreturn(P)
        self._dom = {}; self._sum = {}
    def same(self, f, a, b):
        """the two expressions denote the same value, possibly through a local that holds a copy"""
        a, b = core(a), core(b)
        ta, tb = text(a), text(b)
        if ta == tb: return True
        for x, y in ((a, tb), (b, ta)):
            v = vdecl(x)
            if v is not None and v.k == "local":
                ds = [m for m in f.nodes if m.k == "VarDecl" and m.d is v and m.ch]
                for m in ds:
                    s = core(m.ch[0])
                    if is_call(s) and last(s).startswith("convert_") and args(s): s = core(args(s)[0])
                    if text(s) == y: return True
        return False
    def bounds(self, f, cond, src, limit):
        """'true' / 'false': the outcome of cond under which |src| is known not to exceed limit; None"""
        c = strip(cond)
        out = set()
        v = vdecl(c)
        if v is not None and v.k == "local":             # a flag that holds the outcome of the comparison
            ds = defs(f, v)
            if len(ds) == 1: return self.bounds(f, ds[0], src, limit)
        if c.k == "UnaryOperator" and c.x["op"] == "!":
            r = self.bounds(f, c.ch[0], src, limit)
            return {not x for x in r}
        if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"):
            a, b = self.bounds(f, c.ch[0], src, limit), self.bounds(f, c.ch[1], src, limit)
            if c.x["op"] == "&&": return {x for x in (True, False) if (x in a or x in b if x else x in a and x in b)}
            return {x for x in (True, False) if (x in a and x in b if x else x in a or x in b)}
        l = r = op = None
        if c.k == "CXXOperatorCallExpr" and c.x["op"] in FLIP and len(c.ch) == 3: l, r, op = c.ch[1], c.ch[2], c.x["op"]
        elif c.k == "BinaryOperator" and c.x["op"] in FLIP: l, r, op = c.ch[0], c.ch[1], c.x["op"]
        elif is_call(c) and re.match(r'(__gmpz_)?fits_s(int|long|short)_p$|IsOneWord', last(c)):
            if limit < (2**63 - 1 if re.search(r"long|Word", last(c)) else 2**31 - 1): return out
            o = obj(c)
            if o is None and args(c): o = args(c)[0]
            if o is not None and self.same(f, o, src): out.add(True)
            return out
        elif is_call(c):
            # a program predicate: bool fits(const ZZ&)
            for t in self.P.targets(c):
                for i, a in enumerate(args(c)):
                    if i < len(t.params) and exact(a.t) and self.same(f, a, src):
                        for v in (True, False):
                            if self.predicate(t, i, v, limit): out.add(v)
            return out
        if op is None: return out
        for a, b, o in ((l, r, op), (r, l, FLIP[op])):
            a0 = strip(a)
            # NumBits(src) < k
            if is_call(a0) and last(a0) in ("NumBits", "sizeinbase", "__gmpz_sizeinbase") and args(a0) and self.same(f, args(a0)[0], src):
                k = const(b)
                if k is not None:
                    mx = k - 1 if o in ("<", ">=") else k
                    if 2**mx - 1 <= limit:
                        if o in ("<", "<="): out.add(True)
                        elif o in (">", ">="): out.add(False)
                continue
            if not exact(a.t) and not exact(core(a).t): continue
            if not self.same(f, a, src): continue
            b1 = strip(b)
            k = const(b1)
            if k is None: k = constval(b1)
            while k is None and (is_call(b1) or b1.k in CTORS) and len(args(b1)) == 1 and obj(b1) is None: b1 = strip(args(b1)[0])
            if k is None and vdecl(b1) is not None and vdecl(b1).k == "local":
                ds = defs(f, vdecl(b1))
                if len(ds) == 1: k = constval(ds[0])
            if k is None and self._round(f, b1, src): 
                if o == "==": out.add(True)
                if o == "!=": out.add(False)
                continue
            if k is not None:
                if abs(k) > limit or k <= 0 and o not in ("==", "!="): continue      # a lower bound does not bound
            else:
                t = strip(b1).t
                if not isint(t) or width(t) > limit: continue
            if o in ("<", "<=", "=="): out.add(True)
            elif o in (">", ">=", "!="): out.add(False)
        return out
    def _round(self, f, b, src):
        """b is the narrowed value converted back"""
        b = strip(b)
        v = vdecl(b)
        if is_call(b) and args(b): v = vdecl(args(b)[0]) or v
        if v is None: return False
        for m in f.nodes:
            if m.k == "VarDecl" and m.d is v and m.ch:
                e = strip(m.ch[0])
                if is_call(e) and INTNAMES.match(last(e)):
                    s = obj(e) if obj(e) is not None else (args(e)[0] if args(e) else None)
                    if s is not None and self.same(f, s, src): return True
            if is_call(m) and last(m) == "conv" and len(args(m)) == 2 and vdecl(args(m)[0]) is v and self.same(f, args(m)[1], src): return True
        return False
    def known(self, f, src, limit):
        """blocks of f in which src is known to be bounded: forward must-analysis over edges and checking calls"""
        key = (f.key, text(core(src)), limit)
        if key in self._sum: return self._sum[key]
        self._sum[key] = ({}, set())
        f.cfg()
        if not f.blocks: return {}, set()
        root = path(core(src))
        gen_nodes = set()
        for n in f.nodes:
            if is_call(n):
                for t in self.P.targets(n):
                    for i, a in enumerate(args(n)):
                        if i < len(t.params) and exact(a.t) and self.same(f, a, src) and self.refuses(t, i, limit): gen_nodes.add(n.i)
        # must: in[b] = AND over preds
        blocks = list(f.blocks.values()) if isinstance(f.blocks, dict) else list(f.blocks)
        inn = {b.id: True for b in blocks}
        inn[f.entry.id] = False
        ch = True
        def out(b):
            if inn[b.id]: return True
            return any(any(m.i in gen_nodes for m in walk(e)) for e in b.el)
        while ch:
            ch = False
            for b in blocks:
                if b is f.entry: continue
                v = True
                for p in b.pred:
                    if p.noret or out(p): continue
                    ok = False
                    if p.cond is not None and len(p.succ) == 2:
                        s = self.bounds(f, p.cond, src, limit)
                        taken = [x for x in (0, 1) if p.succ[x] is b]
                        if taken and all((x == 0) in s for x in taken): ok = True
                    if not ok: v = False; break
                if v != inn[b.id] and not v: inn[b.id] = v; ch = True
        self._sum[key] = (inn, gen_nodes)
        return inn, gen_nodes
    def at(self, f, node, src, limit):
        inn, gen = self.known(f, src, limit)
        p = f.pos(node)
        if p is None: return True
        b, i = f.blocks[p[0]], p[1]
        if inn.get(b.id): return True
        for e in b.el[:i]:
            if any(m.i in gen for m in walk(e)): return True
        # conditional operators and && inside one expression are blocks of their own in the CFG
        return False
    def refuses(self, t, i, limit):
        key = ("ref", t.key, i, limit)
        if key in self._sum: return self._sum[key]
        self._sum[key] = False
        if not t.params or not t.cfg(): return False
        t.cfg()
        use = next((n for n in t.nodes if n.k == "DeclRefExpr" and n.d is t.params[i]), None)
        if use is None: return False
        inn, gen = self.known(t, use, limit)
        r = bool(inn.get(t.exit.id))
        self._sum[key] = r
        return r
    def predicate(self, t, i, value, limit):
        """t returns value only when its i-th argument is bounded"""
        t.cfg()
        if not t.blocks: return False
        use = next((n for n in t.nodes if n.k == "DeclRefExpr" and n.d is t.params[i]), None)
        if use is None: return False
        any_ = False
        for n in t.nodes:
            if n.k != "ReturnStmt" or not n.ch: continue
            k = const(n.ch[0])
            if k is not None:
                if bool(k) != value: continue
                if not self.at(t, n, use, limit): return False
                any_ = True
            else:
                if value not in self.bounds(t, n.ch[0], use, limit) and not self.at(t, n, use, limit): return False
                any_ = True
        return any_

# ---- origins of machine numbers ----
def carried(P, f):
    """assignments by which a machine number grows geometrically: x *= e, x = x * e, x <<= e, x += x in a loop that x survives"""
    out = []
    for n in f.nodes:
        if n.k == "CompoundAssignOperator" and n.x["op"] in ("*=", "<<=") or n.k == "BinaryOperator" and n.x["op"] == "=" or \
           n.k == "CompoundAssignOperator" and n.x["op"] == "+=":
            if not (isint(n.ch[0].t) or isflt(n.ch[0].t)): continue
            lp = enclosing(n, LOOPS)
            if lp is None: continue
            v = path(n.ch[0])
            if v is None: continue
            if isinstance(v[0], Decl) and v[0].k == "local" and len(v) == 1:
                d = next((m for m in f.nodes if m.k == "VarDecl" and m.d is v[0]), None)
                if d is not None and any(m is d for m in walk(lp)) and not any(m is d for c in lp.ch[:1] for m in walk(c)): continue
            rhs = n.ch[1]
            if n.k == "CompoundAssignOperator":
                if n.x["op"] == "+=":
                    if path(rhs) != v: continue
                elif const(rhs) in (0, 1, -1): continue
                elif signlike(f, rhs): continue
            else:
                r = strip(rhs, explicit=True)
                if not any(m.k == "BinaryOperator" and m.x["op"] in ("*", "<<") and factor_of(m, v) for m in walk(r)):
                    if not (r.k == "BinaryOperator" and r.x["op"] == "+" and path(r.ch[0]) == v and path(r.ch[1]) == v): continue
            if shrinking(n, lp): continue
            out.append(n)
    return out

def shrinking(n, lp):
    """x *= k in a loop whose counter is divided by at least k each time round: x stays below k times the counter's first value"""
    if n.k != "CompoundAssignOperator" or n.x["op"] != "*=": return False
    k = const(n.ch[1])
    if not k or k < 2: return False
    cond = common.cond_of(lp)
    if cond is None: return False
    vs = {m.d for m in walk(cond) if m.k == "DeclRefExpr"}
    for m in walk(lp):
        if m.k == "CompoundAssignOperator" and m.x["op"] == "/=" and (const(m.ch[1]) or 0) >= k and vdecl(m.ch[0]) in vs: return True
        if m.k == "BinaryOperator" and m.x["op"] == "=" and vdecl(m.ch[0]) in vs:
            r = strip(m.ch[1], explicit=True)
            if r.k == "BinaryOperator" and r.x["op"] == "/" and vdecl(r.ch[0]) is vdecl(m.ch[0]) and (const(r.ch[1]) or 0) >= k: return True
    return False

def factor_of(m, v):
    """a product that has v as one factor, the other not being a unit"""
    a, b = m.ch
    def has(x):
        x = strip(x, explicit=True)
        if path(x) == v: return True
        return x.k == "BinaryOperator" and x.x["op"] in ("*",) and any(has(c) for c in x.ch)
    if has(a): return const(b) not in (0, 1, -1)
    return m.x["op"] == "*" and has(b) and const(a) not in (0, 1, -1)

def signlike(f, e):
    e = strip(e, explicit=True)
    if is_call(e) and last(e) in ("sign", "sgn"): return True
    if e.k == "ConditionalOperator": return all(const(c) in (0, 1, -1) for c in e.ch[1:])
    return False

def recursive_product(P, f):
    out = []
    for n in f.nodes:
        if n.k == "ReturnStmt" and n.ch and isint(n.ch[0].t):
            for m in walk(n.ch[0]):
                if m.k == "BinaryOperator" and m.x["op"] in ("*", "<<") and any(is_call(x) and f in P.targets(x) for x in walk(m)): out.append(n)
    return out

class Grow(Origins):
    def _fn(self, f):
        super()._fn(f)
        for n in carried(self.P, f):
            l = ("G", n)
            v = common.assigned_var(n)
            ds = [("def", f.key, n.i)] if v is not None and v in self._plain(f) else self.lv(n.ch[0])
            for d in ds:
                if d is not None: self.seed[d].add(l); self.witness.setdefault((d, l), n)
        for n in recursive_product(self.P, f):
            l = ("G", n); d = ("ret", f.key)
            self.seed[d].add(l); self.witness.setdefault((d, l), n)

def machine_decl(d):
    t = d.rt if getattr(d, "k", "") == "fn" else d.t
    t = t or ""
    if exact(t): return False
    return not re.search(r"ostream|istream|fstream|basic_string|stringstream|FILE|char \*", t)

def build(P, F, I):
    """labels: F rounded exact value, G machine number that grows, T number read from text without overflow report"""
    fl = {id(c.n): ("F", c) for c in F}
    fl.update({id(c.n): ("M", c) for c in I})
    def source(n):
        L = []
        c = fl.get(id(n))
        if c is not None and c[1].out is None: return [(c[0], n), "STOP"]
        if is_call(n) and not P.targets(n):
            nm = last(n)
            if nm in TEXTNUM: return [("T", n), "STOP"]
            if nm in ("clock", "time", "rand", "strlen", "size", "length", "NumBits", "NumRows", "NumCols", "NumBytes", "sign", "compare", "random", "sgn"): return ["STOP"]
            if nm in ("pow", "power_long", "exp", "exp2", "ldexp", "tgamma", "sqrt", "cbrt") and (isflt(n.t) or isint(n.t)):
                if not all(const(a) is not None for a in args(n)): return [("G", n)]
        if n.k == "BinaryOperator" and n.x["op"] == "<<" and isint(n.t) and const(n) is None and const(n.ch[1]) is None: return [("G", n)]
        if n.k == "BinaryOperator" and n.x["op"] == "*" and isint(n.t) and const(n.ch[0]) is None and const(n.ch[1]) is None: return [("P", n)]
        if exact(n.t) or re.search(r"Vec<NTL::ZZ>|Mat<NTL::ZZ>", n.t or ""): return ["STOP"]
        if n.k in ("DeclRefExpr", "MemberExpr") and n.d.k in ("local", "parm", "global", "field") and not machine_decl(n.d): return ["STOP"]
        return None
    def external(self, f, n, A, o):
        c = fl.get(id(n))
        if c is not None and c[1].out is not None:
            for v in self.lv(c[1].out):
                self.seed[v].add((c[0], n)); self.witness.setdefault((v, (c[0], n)), n)
            return True
        if n.k == "CXXOperatorCallExpr" and n.x.get("op") == ">>" and len(n.ch) == 3 and isflt(n.ch[2].t):
            for v in self.lv(n.ch[2]): self.seed[v].add(("D", n)); self.witness.setdefault((v, ("D", n)), n)
            return True
        if last(n) in ("sscanf", "fscanf", "scanf"):
            for a in A[1:]:
                for v in self.lv(a): self.seed[v].add(("T", n)); self.witness.setdefault((v, ("T", n)), n)
        return last(n) in TEXTNUM
    return Grow(P, source=source, external=external, type_filter=lambda d: machine_decl(d), ssa=True)

# ---- places where a rounded value is meant ----
# key: function in which the conversion to floating point happens; value: what the rounded number is used for
PRIORITY = {"ConeApproximationData::GetWeight": "order in which cones of the sampling approximation are refined",
            "ComputeOmega_2": "numerical search for a short vector; not called by any program"}
LABELLED = re.compile(r"^L: | [UD]: |Decimal|Real|gap|LP opt|LP relax|via LP|[Bb]ound|[Ww]eight|%")

def labelled(n):
    """an output of a rounded number that says so: the text printed just before it"""
    lits, m = [], n
    top = n
    while top.p is not None and not top.p.k.endswith("Stmt"): top = top.p
    def chain(e):
        return [x.x.get("s", "") for x in walk(e) if x.k == "StringLiteral"]
    lits += chain(n)
    if top.p is not None and top.p.k == "CompoundStmt":
        i = top.p.ch.index(top)
        for s in top.p.ch[max(0, i - 2):i]:
            if s.k == "CXXOperatorCallExpr" or s.k == "ExprWithCleanups": lits += chain(s)
    return any(LABELLED.search(x) for x in lits)

def short(f): return f.short

def check():
    P = load()
    C = report.Check("C16", " ".join(__doc__.split()))
    G = Guards(P)
    callers = P.callers()
    fns = [f for f in P.fns.values() if f.nodes]
    allI, allF, allB = [], [], []
    seen = set()
    for f in fns:
        I, F, B = narrowings(P, f)
        for c in I:
            if (f.file, c.n.line, c.n.col) not in seen: allI.append((f, c)); seen.add((f.file, c.n.line, c.n.col))
        allF += F; allB += [(f, c) for c in B]
    def guarded(f, node, src, limit, depth=0):
        if G.at(f, node, src, limit): return True
        v = vdecl(core(src))
        if v is not None and v.k == "parm" and v in f.params and depth < 3:
            i, cs = f.params.index(v), callers.get(f.key, [])
            return bool(cs) and all(i < len(args(x)) and guarded(x.fn, x, args(x)[i], limit, depth + 1) for x in cs)
        return False
    for f, c in allI:
        lim = width(c.t)
        why = "compared with a bound of the result type on every path" if guarded(f, c.n, c.src, lim) else None
        if not why:
            v = vdecl(c.out) if c.out is not None else None
            if c.out is None and c.n.p is not None:
                m = c.n
                while m.p is not None and m.p.k in TRANSPARENT: m = m.p
                if m.p is not None and m.p.k == "VarDecl": v = m.p.d
            if v is not None and v.k == "local":
                us = [n for n in f.nodes if n.k == "DeclRefExpr" and n.d is v and not is_under(n, c.n)
                      and not (is_call(n.p) and INTNAMES.match(last(n.p)))]
                us = [u for u in us if not in_comparison_with(G, f, u, c.src)]
                if us and all(G.at(f, u, c.src, lim) for u in us): why = "every use of the result lies behind the comparison"
        if why: C.ok("exact to machine integer", c.n, why)
        else: C.bad("exact to machine integer", "narrow:%s:%s" % (f.short, text(core(c.src))[:40]), c.n,
                    "%s becomes a machine %s without having been compared with what fits: larger values are cut silently" % (text(core(c.src))[:60], cl(c.t)))
    O = build(P, allF, [c for f, c in allI])
    def ls_of(n, kinds):
        return sorted((l for l in O.labels(n) if l[0] in kinds), key=lambda l: (l[0], loc(l[1]), l[1].i))
    def overflowing(n):
        """products of two machine numbers one of which was an exact value of any size that fits"""
        out = []
        for l in ls_of(n, "P"):
            if any(ls_of(x, "M") for x in l[1].ch) : out.append(l)
        return out
    seen = set()
    for f, c in allB:
        if (f.file, c.n.line, c.n.col) in seen: continue
        seen.add((f.file, c.n.line, c.n.col))
        ls = [l for l in ls_of(c.src, "FGD" if exact(c.t) else "F") if not exempt(l)]
        if not ls: C.ok("floating point to integer", c.n, "not derived from an exact value"); continue
        C.bad("floating point to integer", "round:%s:%s" % (f.short, text(c.src)[:40]), c.n,
              "%s was rounded to floating point at %s and is turned back into an integer: digits beyond the precision are lost" % (text(c.src)[:50], loc(ls[0][1])))
    for f in fns:
        for n in f.nodes:
            if not (is_call(n) or n.k in CTORS) or P.targets(n): continue
            A = list(args(n)); o = obj(n)
            if not (exact(n.t) or (o is not None and exact(o.t)) or any(exact(a.t) for a in A)): continue
            if last(n) in NOVALUE or CONT.search(cl(n.t)) or (n.d is not None and n.d.cls is not None and CONT.search(str(n.d.qn))): continue
            if n.k == "CXXOperatorCallExpr" and n.x.get("op") in NEGO and not any(is_value(a) for a in A): continue
            for a in A:
                x = strip(a)
                if a is o or not (isint(x.t) or isflt(x.t)) or const(a) is not None: continue
                k = (f.file, n.line, n.col, text(a))
                if k in seen: continue
                seen.add(k)
                ls = [l for l in ls_of(a, "FGD") if not exempt(l)] + overflowing(a)
                ls += [l for l in ls_of(a, "T") if l[1].fn is f and not f.file.split("/")[-1].startswith("test")]
                if not ls:
                    C.ok("machine operands of exact operations", n, "%s: a count, index, sign or small factor" % text(a)[:40]); continue
                l = ls[0]
                what = {"F": "was rounded to floating point", "G": "grows by multiplication in machine arithmetic", "D": "was read as a floating-point number",
                        "T": "was read by a routine that wraps silently",
                        "P": "is a machine product of numbers that may each fill the type"}[l[0]]
                C.bad("machine operands of exact operations", "operand:%s:%s" % (f.short, text(a)[:40]), n,
                      "%s enters an exact value; it %s at %s (%s)" % (text(a)[:50], what, loc(l[1]), text(l[1])[:50]))
    for f in fns:
        for n in f.nodes:
            op = n.x.get("op")
            if n.k == "BinaryOperator" and op in NEGO or n.k == "CXXOperatorCallExpr" and op in NEGO and len(n.ch) == 3:
                a, b = n.ch[-2:]
                k = (f.file, n.line, n.col)
                if k in seen: continue
                fl = [x for x in (a, b) if isflt(strip(x).t) or isrr(strip(x).t)]
                if not fl: continue
                seen.add(k)
                ls = [l for x in fl for l in ls_of(x, "F") if not exempt(l)]
                if not ls or isrr(re.sub(r".*<(.*)>.*", r"\1", f.d.rt or "")): C.ok("floating-point comparisons", n, "not of rounded exact values"); continue
                C.bad("floating-point comparisons", "compare:%s:%s" % (f.short, text(n)[:40]), n,
                      "decided on %s, which was rounded at %s" % (text(n)[:50], loc(ls[0][1])))
    for f in fns:
        for n in f.nodes:
            if n.k == "CXXOperatorCallExpr" and n.x.get("op") == "<<" and len(n.ch) == 3 and "ostream" in (n.t or ""):
                x = strip(n.ch[2])
                if not (isflt(x.t) or isrr(x.t) or re.search(r"Vec<NTL::RR>|Mat<NTL::RR>", x.t or "")): continue
                k = (f.file, n.line, n.col)
                if k in seen: continue
                seen.add(k)
                ls = [l for l in ls_of(x, "F") if not exempt(l)]
                if not ls or labelled(n): C.ok("floating-point output", n, "no exact value, or announced as decimal / approximate"); continue
                C.bad("floating-point output", "print:%s:%s" % (f.short, text(x)[:40]), n,
                      "%s, rounded at %s, is printed where the exact value belongs" % (text(x)[:50], loc(ls[0][1])))
    C.floor("exact to machine integer", 4)
    C.floor("machine operands of exact operations", 130)
    C.count("conversions to floating point", len(allF))
    return C.finish(P)

def is_value(a): return exact(strip(a).t)

def exempt(l):
    return l[0] == "F" and l[1].fn is not None and l[1].fn.short in PRIORITY

def in_comparison_with(G, f, u, src):
    """a use that converts the machine number back and compares it with the exact one"""
    m = u
    while m.p is not None and not m.p.k.endswith("Stmt"):
        m = m.p
        if m.k in ("BinaryOperator", "CXXOperatorCallExpr") and m.x.get("op") in ("==", "!="):
            return any(exact(strip(c).t) and G.same(f, c, src) for c in m.ch)
    return False
