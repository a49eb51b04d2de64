"""Shared syntactic / dataflow helpers used by several checks."""
from model import *
from effects import effects

RAND = {"rand", "random", "lrand48", "drand48", "std::rand", "NTL::RandomBnd", "NTL::RandomBits", "NTL::RandomWord",
        "NTL::RandomBits_ulong", "NTL::RandomLen", "NTL::RandomPrime_long", "NTL::RandomBits_ZZ", "NTL::RandomBnd_ulong"}

# values cached on demand inside an object, a function of its entries alone (C02 decides that they are consistent)
CACHES = {"rationalVector::integer_scale", "rationalVector::integer_scale_factor", "rationalVector::computed_integer_scale"}

def transitive(P, seeds):
    """Keys of all functions that may (transitively) call a function in seeds."""
    S = set(seeds)
    st = list(S)
    callers = P.callers()
    while st:
        k = st.pop()
        for c in callers.get(k, ()):
            if c.fn.key not in S: S.add(c.fn.key); st.append(c.fn.key)
    return S

def calls_in(n):
    return [m for m in walk(n) if m.k in CALLS]

def drawing(P):
    if not hasattr(P, "_drawing"):
        P._drawing = transitive(P, {f.key for f in P.fns.values() for n in f.nodes if n.k in CALLS and callee_qn(n) in RAND})
    return P._drawing

def is_draw(P, n):
    return n.k in CALLS and (callee_qn(n) in RAND or any(t.key in drawing(P) for t in P.targets(n)))

def cond_of(n):
    """Controlling expression of if / loop / switch / conditional."""
    x = n.x.get("c")
    c = n.fn.nodes[x] if isinstance(x, int) and x >= 0 else None
    while c is not None and c.k == "ParenExpr" and c.ch: c = c.ch[0]
    return c

def part(n, name):
    x = n.x.get(name)
    return n.fn.nodes[x] if isinstance(x, int) and x >= 0 else None

def in_output(n):
    """The expression is an operand of a stream-output / printf call."""
    m = n
    while m is not None and not m.k.endswith("Stmt"):
        if m.k == "CXXOperatorCallExpr" and m.x["op"] == "<<": return True
        if m.k == "CallExpr" and callee_qn(m) in ("printf", "fprintf", "gmp_printf", "__gmp_printf", "puts"): return True
        m = m.p
    return False

def stmt_of(n):
    """Enclosing statement (direct child of a compound / control statement)."""
    while n.p is not None and not (n.p.k in ("CompoundStmt", "IfStmt", "CaseStmt", "DefaultStmt", "SwitchStmt", "LabelStmt") or n.p.k in LOOPS):
        n = n.p
    return n

def falls_through(s):
    """Control may leave statement s normally (syntactic)."""
    if s is None: return True
    if s.k in ("ReturnStmt", "CXXThrowExpr", "ContinueStmt", "BreakStmt", "GotoStmt"): return False
    if s.k == "CompoundStmt": return all(falls_through(c) for c in s.ch)
    if s.k == "IfStmt":
        t, e = part(s, "th"), part(s, "e")
        return e is None or falls_through(t) or falls_through(e)
    if s.k in ("ExprWithCleanups",) and s.ch: return falls_through(s.ch[0])
    if s.k == "CallExpr" and callee_qn(s) in ("exit", "abort", "_exit", "std::exit", "std::abort", "THROW_LATTE"): return False
    return True

def zero_test(n):
    """(expression tested against zero, True when the true branch means zero) or None."""
    n = strip(n)
    if n.k == "UnaryOperator" and n.x["op"] == "!":
        r = zero_test(n.ch[0])
        return (r[0], not r[1]) if r else None
    if n.k == "BinaryOperator" and n.x["op"] in ("==", "!="):
        a, b = n.ch
        if const(b) == 0: return (a, n.x["op"] == "==")
        if const(a) == 0: return (b, n.x["op"] == "==")
    if n.k == "CXXOperatorCallExpr" and n.x["op"] in ("==", "!=") and len(n.ch) == 3:
        a, b = n.ch[1], n.ch[2]
        if const(b) == 0 or is_zero_obj(b): return (a, n.x["op"] == "==")
        if const(a) == 0 or is_zero_obj(a): return (b, n.x["op"] == "==")
    if n.k == "CallExpr" and n.d is not None and n.d.n in ("IsZero",): return (args(n)[0], True)
    if n.k == "CallExpr" and n.d is not None and n.d.n in ("sign", "sgn", "__gmpz_sgn", "__gmpq_sgn"): return (args(n)[0], False)
    return None

def is_zero_obj(n):
    """ZZ::zero(), to_ZZ(0), ZZ(0), mpq_class(0), RationalNTL(0..)"""
    n = strip(n)
    while n is not None and n.k in CTORS | CALLS:
        if n.k == "CallExpr" and n.d is not None and n.d.n == "zero": return True
        A = [a for a in (n.ch if n.k in CTORS else args(n)) if strip(a) is not None]
        if n.k in CALLS and (n.d is None or n.d.n not in ("to_ZZ", "to_RR", "to_long", "conv", "to_mpq")): return False
        if not A: return n.k in CTORS and ("ZZ" in (n.t or "") or "gmp" in (n.t or ""))
        if const(A[0]) == 0: return True
        n = strip(A[0])
    return False

# ---- reaching definitions of scalar locals that never have their address taken ----
SCALAR = {"int", "long", "unsigned int", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char", "bool", "double", "float",
          "clock_t", "time_t", "size_t", "long long", "unsigned long long", "__time_t", "__clock_t", "std::size_t", "std::time_t", "std::clock_t"}

def assigned_var(n):
    """Variable directly assigned by node n (VarDecl, =, op=, ++, --), else None."""
    if n.k == "VarDecl": return n.d
    if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"].endswith("=") and n.x["op"] not in ("==", "!=", "<=", ">="): return vdecl(n.ch[0])
    if n.k == "UnaryOperator" and n.x["op"] in ("++", "--"): return vdecl(n.ch[0])
    return None

def delta(n):
    """k when the node adds the constant k to a variable (++, --, += k, -= k, x = x + k), else None."""
    if n.k == "UnaryOperator" and n.x["op"] in ("++", "--"): return 1 if n.x["op"] == "++" else -1
    if n.k == "CompoundAssignOperator" and n.x["op"] in ("+=", "-="):
        c = const(n.ch[1])
        return None if c is None else c if n.x["op"] == "+=" else -c
    if n.k == "BinaryOperator" and n.x["op"] == "=":
        v, r = vdecl(n.ch[0]), strip(n.ch[1], explicit=True)
        if v is None or r is None or r.k != "BinaryOperator" or r.x["op"] not in ("+", "-"): return None
        if vdecl(r.ch[0]) is v and const(r.ch[1]) is not None: return const(r.ch[1]) if r.x["op"] == "+" else -const(r.ch[1])
        if r.x["op"] == "+" and vdecl(r.ch[1]) is v: return const(r.ch[0])
    return None

def plain_locals(f):
    """Scalar locals / by-value parameters of f that are only read and directly assigned."""
    if "plain" in f._cache: return f._cache["plain"]
    cand = {d for d in f.params if (d.t or "") in SCALAR}
    for n in f.nodes:
        if n.k == "VarDecl" and n.d.k == "local" and (n.d.t or "").replace("const ", "") in SCALAR and not n.d.x.get("st"): cand.add(n.d)
    bad = set()
    for n in f.nodes:
        if n.k == "DeclRefExpr" and n.d in cand:
            # climb over parentheses; an lvalue-to-rvalue cast means a read
            c, p = n, n.p
            while p is not None and p.k == "ParenExpr": c, p = p, p.p
            if p is None: bad.add(n.d); continue
            if p.x.get("ck") == "LValueToRValue": continue
            if assigned_var(p) is n.d and p.ch and c is p.ch[0]: continue
            if p.k == "UnaryOperator" and p.x["op"] == "!": continue
            bad.add(n.d)
        if n.k == "LambdaExpr": bad |= cand
    f._cache["plain"] = cand - bad
    return f._cache["plain"]

def reaching(f):
    """use(DeclRefExpr node) -> frozenset of defining nodes ('param' for the incoming value, None for uninitialised)."""
    if "rd" in f._cache: return f._cache["rd"]
    V = plain_locals(f)
    f.cfg()
    def defs_of(e):
        d = assigned_var(e)
        return d if d in V else None
    def xfer(b, st):
        for e in b.el:
            if e.k == "DeclStmt":
                for c in e.ch:
                    if c.k == "VarDecl" and c.d in V: st = {**st, c.d: frozenset([c if c.ch else None])}
                continue
            d = defs_of(e)
            if d is not None: st = {**st, d: frozenset([e] if e.k != "VarDecl" or e.ch else [None])}
        return st
    def join(a, b):
        out = dict(a)
        for k, v in b.items(): out[k] = out.get(k, frozenset()) | v
        return out
    init = {d: frozenset(["param"]) for d in f.params if d in V}
    IN = forward(f, init, xfer, join)
    def use(n):
        if n.d not in V: return None
        p = f.pos(n)
        if p is None or p[0] not in IN: return frozenset()
        st = IN[p[0]]
        for e in f.blocks[p[0]].el[:p[1]]:
            if e.k == "DeclStmt":
                for c in e.ch:
                    if c.k == "VarDecl" and c.d in V: st = {**st, c.d: frozenset([c if c.ch else None])}
                continue
            d = defs_of(e)
            if d is not None: st = {**st, d: frozenset([e] if e.k != "VarDecl" or e.ch else [None])}
        return st.get(n.d, frozenset())
    f._cache["rd"] = use
    return use

def noreturn(P):
    """Keys of program functions that never return normally (every path ends in exit, abort or a throw)."""
    if hasattr(P, "_noret"): return P._noret
    N = set()
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.key in N or not f.rawcfg: continue
            if not returns(P, f, N): N.add(f.key); ch = True
    P._noret = N
    return N

def call_ends(P, n, N):
    """The call never returns."""
    if n.k == "CXXThrowExpr": return True
    if n.k not in CALLS and n.k not in CTORS: return False
    T = P.targets(n)
    return bool(T) and all(t.key in N for t in T)

def returns(P, f, N, edge=None, ends=None):
    """Some path from entry reaches the normal exit. edge(block, index, succ) -> False prunes; ends(call) -> True stops."""
    f.cfg()
    seen, st = {f.entry.id}, [f.entry]
    while st:
        b = st.pop()
        if b is f.exit: return True
        if b.noret: continue
        stop = False
        for e in b.el:
            if call_ends(P, e, N) or ends is not None and ends(e): stop = True; break
        if stop: 
            # only handlers may follow
            for s in b.succ:
                if s is not None and s.term is not None and s.term.k == "CXXTryStmt" and s.id not in seen: seen.add(s.id); st.append(s)
            continue
        for i, s in enumerate(b.succ):
            if s is None or s.id in seen: continue
            if edge is not None and not edge(b, i, s): continue
            seen.add(s.id); st.append(s)
    return False
