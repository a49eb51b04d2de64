"""C10: the seeded generators are the only source of chance, and the user's seed governs all of them."""
import re
from model import *
from common import *
import taint
from report import Check

CLOCK = {"time", "clock", "gettimeofday", "times", "getrusage", "clock_gettime", "std::time", "std::clock", "ftime", "timespec_get"}
IDENT = {"getpid", "getppid", "gethostname", "getuid", "gettid", "tmpnam", "uname", "sysinfo", "pthread_self"}
SEEDERS = {"srand": "libc", "srandom": "libc", "std::srand": "libc", "srand48": "libc48", "seed48": "libc48", "initstate": "libc",
           "setstate": "libc", "NTL::SetSeed": "NTL", "gmp_randseed": "gmp", "__gmp_randseed": "gmp", "__gmp_randseed_ui": "gmp"}
DRAWERS = {"rand": "libc", "random": "libc", "std::rand": "libc", "rand_r": "libc_r", "drand48": "libc48", "lrand48": "libc48", "mrand48": "libc48",
           "getentropy": "os", "getrandom": "os", "arc4random": "os", "arc4random_uniform": "os", "__gmp_urandomm_ui": "gmp", "mpz_urandomm": "gmp"}
PARALLEL = {"fork", "vfork", "pthread_create", "std::async", "std::thread::thread", "clone"}
PRINTERS = re.compile(r"(operator<<|.*printf|ctime|asctime|localtime|gmtime|strftime|mktime|difftime|puts|fputs|setw|setprecision|sysconf|__assert_fail|srand)$")
# functions that may seed from the clock, by documentation
CLOCK_SEED = {
    "GraphMaker::GraphMaker": "generator of random example graphs; computes no answer",
    "BuildPolytope::forDebugging": "generator of a random example polytope; computes no answer",
    "TopKnapsack::seed": "documented: --random -1 asks for a seed taken from the clock",
}
PARM_GUARDED = {"TopKnapsack::seed"}
# functions entitled to seed a generator at all
SEED_FN = {"seed_random_generator": "the program-wide seed", "TopKnapsack::seed": "seed of the knapsack driver"}
ENTROPY_TYPES = re.compile(r"random_device")
ENGINE_TYPES = re.compile(r"(mersenne_twister|mt19937|linear_congruential|default_random|minstd_rand|ranlux|knuth_b|gmp_randclass|subtract_with_carry)")

def family(qn):
    if qn is None: return None
    if qn in DRAWERS: return DRAWERS[qn]
    if re.match(r"NTL::(Random\w*|random)$", qn): return "NTL"
    if re.search(r"random_shuffle$", qn): return "libc"
    return None

def only_negative(f, n):
    """Node n is reached only when an integer parameter of f (the requested seed) is negative: interval dataflow over the
    comparisons of the parameter with constants."""
    INF = float("inf")
    for d in f.params:
        if (d.t or "").replace("const ", "") not in ("int", "long", "long long", "short"): continue
        if any(assigned_var(m) is d for m in f.nodes): continue
        def constrain(c, truth, iv):
            c = strip(c)
            if c is None: return iv
            if c.k == "UnaryOperator" and c.x["op"] == "!": return constrain(c.ch[0], not truth, iv)
            if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"):
                if (c.x["op"] == "&&") == truth: return constrain(c.ch[1], truth, constrain(c.ch[0], truth, iv))
                return iv
            if c.k != "BinaryOperator" or c.x["op"] not in ("<", "<=", ">", ">=", "==", "!="): return iv
            op, x, y = c.x["op"], c.ch[0], c.ch[1]
            if vdecl(x) is not d:
                x, y = y, x
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            k = const(y)
            if vdecl(x) is not d or not isinstance(k, int): return iv
            if not truth: op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
            lo, hi = iv
            if op == "<": hi = min(hi, k - 1)
            elif op == "<=": hi = min(hi, k)
            elif op == ">": lo = max(lo, k + 1)
            elif op == ">=": lo = max(lo, k)
            elif op == "==": lo, hi = max(lo, k), min(hi, k)
            return (lo, hi)
        def edge(b, i, s, st):
            if b.cond is None or len(b.succ) != 2: return st
            r = constrain(b.cond, i == 0, st)
            return r if r[0] <= r[1] else None
        IN = forward(f, (-INF, INF), lambda b, st: st, lambda x, y: (min(x[0], y[0]), max(x[1], y[1])), edge)
        p = f.pos(n)
        if p is None or p[0] not in IN or IN[p[0]][1] < 0: return True
    return False

def clock_on_request(f, n):
    clocks = [m for m in f.nodes if m.k in CALLS and callee_qn(m) in CLOCK]
    return only_negative(f, n) or bool(clocks) and all(only_negative(f, m) for m in clocks)

def reaches(f, a, b):
    """Some CFG path evaluates node a and later node b."""
    pa, pb = f.pos(a), f.pos(b)
    if pa is None or pb is None: return False
    if pa[0] == pb[0] and pa[1] < pb[1]: return True
    seen, st = set(), [f.cfg()[pa[0]]]
    while st:
        x = st.pop()
        for s in x.succ:
            if s is None or s.id in seen: continue
            if s.id == pb[0]: return True
            seen.add(s.id); st.append(s)
    return False

def check():
    P = load()
    C = Check("C10", "every seeding call takes its value from the user's seed in the seed routines; every generator family drawn from is seeded "
              "by the program-wide seed routine on all its paths; no draw can precede the option that seeds; no clock, process identity, "
              "address or hardware entropy reaches a seed, a decision or an exact value")
    mains = {f.params[1] for f in P.fns.values() if f.d.n == "main" and len(f.params) > 1}
    live = [f for f in P.fns.values()]

    # ---- 1. who seeds, and with what
    def external(O, f, n, A, o):
        qn = callee_qn(n)
        if qn in CLOCK or qn in IDENT:
            for a in A:
                for v in O.lv(a):
                    O.seed[v].add("ND"); O.witness.setdefault((v, "ND"), n)
            return True
        return False
    def source(n):
        if n.k in CALLS:
            qn = callee_qn(n)
            if qn in CLOCK or qn in IDENT: return ["ND"] + (["CLK"] if qn in CLOCK else [])
            if re.match(r"std::chrono::.*::now$", qn or ""): return ["ND", "CLK"]
            if qn in DRAWERS and DRAWERS[qn] == "os": return ["ND", "CLK"]
            if n.k == "CXXOperatorCallExpr" and n.x["op"] == "()" and n.ch[1:] and ENTROPY_TYPES.search(n.ch[1].t or ""): return ["ND", "CLK"]
        if n.k in ("CStyleCastExpr", "CXXReinterpretCastExpr") and n.ch and n.t and not n.t.rstrip().endswith(("*", "&")) \
           and (strip(n.ch[-1]).t or "").rstrip().endswith("*") and n.t not in ("void", "bool"):
            return ["ND", "CLK"]
        if n.k == "DeclRefExpr" and (n.d in mains or n.d.n == "optarg" and n.d.k == "global"): return ["USER"]
        return None
    def tfilter(d):
        return "stream" not in (d.t or "")
    O = taint.Origins(P, source=source, external=external, type_filter=tfilter, ssa=True)

    for f in live:
        for n in f.nodes:
            if n.k not in CALLS and n.k not in CTORS: continue
            qn = callee_qn(n)
            if qn in SEEDERS:
                A = args(n)
                L = set()
                for a in A: L |= O.labels(a)
                key = "%s:%s" % (f.short, qn)
                if "ND" in L:
                    if f.short in CLOCK_SEED and (f.short not in PARM_GUARDED or clock_on_request(f, n)):
                        C.ok("seed_calls", n, CLOCK_SEED[f.short]); continue
                    C.bad("seed_calls", "clockseed:" + key, n, "a random generator is seeded from the clock, the process or an address: the user's seed is discarded and runs cannot be repeated"); continue
                if f.short not in SEED_FN and f.short not in CLOCK_SEED:
                    C.bad("seed_calls", "reseed:" + key, n, "a random generator is re-seeded outside the seed routines: the user's seed is discarded"); continue
                if f.short in SEED_FN and not (A and depends_on_params(f, A[0])):
                    C.bad("seed_calls", "constseed:" + key, n, "the seed routine seeds a generator with a value that does not come from its parameter"); continue
                C.ok("seed_calls", n, "value comes from the routine's parameter")
            if n.k in CTORS and ENTROPY_TYPES.search(n.t or "") :
                C.bad("seed_calls", "entropy:" + f.short, n, "hardware entropy is used")
    # ---- 2. every family drawn from is seeded by the seed routine on all paths
    sfs = P.fn_named("seed_random_generator")
    fams = {}
    draws = 0
    for f in live:
        for n in f.nodes:
            if n.k in CALLS:
                fam = family(callee_qn(n))
                if fam is None: continue
                draws += 1
                C.count("draw_sites")
                fams.setdefault(fam, n)
            elif n.k in CTORS and n.p is not None and ENGINE_TYPES.search(n.t or ""):
                C.bad("families", "engine:%s" % f.short, n, "a private random engine is used that the user's seed does not govern")
    def seeds_always(f, fam, depth=0):
        """Every path through f seeds the family, from a value depending on f's parameters."""
        sites = []
        for n in f.nodes:
            if n.k not in CALLS: continue
            if SEEDERS.get(callee_qn(n)) == fam: sites.append(n)
            elif depth < 3 and any(t.d.n != f.d.n and seeds_always(t, fam, depth + 1) for t in P.targets(n)): sites.append(n)
        f.cfg()
        if not sites: return False
        stop = {f.pos(s)[0] for s in sites if f.pos(s)}
        if f.entry.id in stop: return True
        seen, st = {f.entry.id}, [f.entry]
        while st:
            x = st.pop()
            for s in x.succ:
                if s is None or s.id in seen or s.id in stop: continue
                seen.add(s.id); st.append(s)
        return f.exit.id not in seen
    for fam, n in sorted(fams.items()):
        for sf in sfs:
            if not seeds_always(sf, fam):
                C.bad("families", "unseeded:" + fam, n, "the %s generator is drawn from here, but the seed routine does not seed it on every path" % fam)
            else: C.ok("families", n, "seeded by %s" % sf.short)
    # ---- 3. the option reaches the seed routine with the user's value, before any draw
    for sf in SEED_FN:
        for f in P.fn_named(sf):
            for c in P.callers().get(f.key, []):
                cf = c.fn
                L = set()
                for a in args(c): L |= O.labels(a)
                if "ND" in L:
                    C.bad("seed_option", "option:%s:nd" % cf.short, c, "the seed handed to the seed routine comes from the clock, the process or an address"); continue
                if "USER" not in L:
                    C.bad("seed_option", "option:%s:const" % cf.short, c, "the seed handed to the seed routine does not come from the command line"); continue
                early = [n for n in cf.nodes if n.k in CALLS | CTORS and n is not c and not seeds_only(P, n) and is_any_draw(P, n) and reaches(cf, n, c)]
                if early:
                    C.bad("seed_option", "option:%s:late" % cf.short, early[0], "random numbers may be drawn here before the user's seed is set")
                    continue
                C.ok("seed_option", c, "seed comes from the command line; no draw can precede it")
            if not P.callers().get(f.key):
                C.bad("seed_option", "option:unused:" + sf, f.body, "the seed routine is never called, so the seed option has no effect")
    # every option whose name says it sets the seed feeds a seed routine
    targets = set()
    for sf in list(SEED_FN) :
        for f in P.fn_named(sf): targets |= set(f.params)
    for f in live:
        for n in f.nodes:
            if n.k != "IfStmt": continue
            c, th = cond_of(n), part(n, "th")
            if c is None or th is None: continue
            lit = [m.x.get("s", "") for m in walk(c) if m.k == "StringLiteral"]
            if not any(re.match(r"--?[\w-]*seed", s or "") for s in lit) or not any(m.k in CALLS and (m.d is not None and "cmp" in (m.d.n or "")) or m.k in CALLS for m in walk(c)): continue
            fed = False
            start = set()
            for m in walk(th):
                if m.k in CALLS and (callee_qn(m) in SEEDERS or any(t.short in SEED_FN or any(callee_qn(x) in SEEDERS for x in t.nodes if x.k in CALLS) for t in P.targets(m))): fed = True
                v = assigned_var(m)
                if v is not None: start.add(("def", f.key, m.i)); start.add(v)
                if m.k in ("BinaryOperator",) and m.x["op"] == "=":
                    start |= set(O.lv(m.ch[0]))
                if m.k in CALLS:
                    for a in args(m): start |= set(O.lv(a))
            if not fed:
                seen, st = set(start), list(start)
                while st and not fed:
                    x = st.pop()
                    if x in targets: fed = True
                    for y in O.edges.get(x, ()):
                        if y not in seen: seen.add(y); st.append(y)
            if fed: C.ok("seed_handlers", n, "the handler's value reaches a seed routine")
            else: C.bad("seed_handlers", "handler:%s" % f.short, n, "the option that sets the seed does not reach a seed routine")
    # ---- 4. clock values decide nothing
    for f in live:
        for n in f.nodes:
            if n.k in ("IfStmt", "WhileStmt", "DoStmt", "ForStmt", "SwitchStmt", "ConditionalOperator"):
                c = cond_of(n) or (n.ch[0] if n.k == "ConditionalOperator" else None)
                if c is None: continue
                C.count("decisions")
                w = tainted_leaf(O, c)
                if w is not None:
                    C.bad("clock_decisions", "decide:%s" % f.short, n, "a decision depends on the clock or on an address: %s" % text(w)[:80])
            if n.k == "BinaryOperator" and n.x["op"] in ("<", ">", "<=", ">=") and is_ptr(n.ch[0]) and is_ptr(n.ch[1]) and not same_array(n):
                C.bad("address_order", "ptrcmp:%s" % f.short, n, "objects are ordered by their address")
            if n.k == "VarDecl" and n.t and re.search(r"\b(set|map|multiset|multimap|priority_queue)<[^,<>]*\*", n.t):
                C.bad("address_order", "ptrset:%s" % f.short, n, "a container orders its elements by address")
            if n.k in ("CStyleCastExpr", "CXXReinterpretCastExpr") and n.ch and n.t and not n.t.rstrip().endswith(("*", "&")) \
               and is_ptr(n.ch[-1]) and n.t not in ("void", "bool"):
                C.bad("address_order", "ptrint:%s" % f.short, n, "an object's address is used as a number")
            if n.k in CALLS and not P.targets(n) and n.d is not None and n.d.k == "fn" and callee_qn(n) not in CLOCK and not PRINTERS.match(n.d.n):
                for a in args(n):
                    if re.search(r"char|stream", strip(a).t or ""): continue
                    if tainted_leaf(O, a) is not None:
                        C.bad("clock_uses", "use:%s:%s" % (f.short, n.d.n), n, "a value derived from the clock is handed to %s" % n.d.n); break
            if n.k in CALLS and callee_qn(n) in PARALLEL:
                C.bad("parallel", "parallel:%s" % f.short, n, "work is started in parallel; the order of draws and results depends on scheduling")
    for r in P.recs.values():
        for fl in r["fields"]:
            C.count("fields")
            if re.search(r"\b(set|map|multiset|multimap|priority_queue)<[^,<>]*\*", fl["t"] or ""):
                C.bad("address_order", "ptrset:%s::%s" % (r["n"], fl["d"].n), "%s (%s)" % (r["file"], r["n"]), "a container orders its elements by address")
            if ENTROPY_TYPES.search(fl["t"] or "") or ENGINE_TYPES.search(fl["t"] or ""):
                C.bad("families", "engine:%s::%s" % (r["n"], fl["d"].n), "%s (%s)" % (r["file"], r["n"]), "a private random engine is used that the user's seed does not govern")
    # ---- 5. clock values never enter exact numbers
    for d, ls in O.lab.items():
        if isinstance(d, tuple) or "CLK" not in ls: continue
        if re.search(r"\b(ZZ|RR|mpq_class|mpz_class|RationalNTL|mpq_t|mpz_t)\b", d.t or ""):
            C.bad("exact_values", "exact:%s" % (d.q or d.n), "%s:%s" % (d.file, d.line), "the exact number %s receives a value derived from the clock or an address" % d.n)
        else: C.ok("clock_values")
    C.floor("seed_calls", 4); C.floor("draw_sites", 18); C.floor("seed_option", 2); C.floor("decisions", 2500); C.floor("families", 2); C.floor("seed_handlers", 2)
    return C.finish(P)

def is_ptr(n):
    return (strip(n).t or "").rstrip().endswith("*")
def same_array(n):
    a, b = path(n.ch[0]), path(n.ch[1])
    ts = {(strip(x).t or "") for x in n.ch}
    return all("char" in t for t in ts)

def depends_on_params(f, e):
    """Flow-insensitive local dependence of expression e on a parameter of f."""
    deps, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        for m in walk(x):
            if m.k == "DeclRefExpr" and m.d.k in ("parm", "local"):
                if m.d in f.params: return True
                if id(m.d) in seen: continue
                seen.add(id(m.d))
                for w in f.nodes:
                    if w.k == "VarDecl" and w.d is m.d and w.ch: st.append(w.ch[0])
                    if w.k == "BinaryOperator" and w.x["op"] == "=" and vdecl(w.ch[0]) is m.d: st.append(w.ch[1])
                    if w.k == "CXXOperatorCallExpr" and w.x["op"] == "=" and vdecl(w.ch[1]) is m.d: st.append(w.ch[2])
                    if w.k == "CallExpr" and any(vdecl(a) is m.d for a in args(w)):
                        for a in args(w):
                            if vdecl(a) is not m.d: st.append(a)
    return False

def is_any_draw(P, n):
    return n.k in CALLS | CTORS and (family(callee_qn(n)) is not None or any(t.key in drawing(P) for t in P.targets(n)))

def seeds_only(P, n):
    return any(t.short in SEED_FN for t in P.targets(n))

def tainted_leaf(O, c):
    for m in walk(c):
        if m.p is not None and m.p.k == "ImplicitCastExpr" and m.p.p is not None and m.p.p.k == "BinaryOperator" and m.p.p.x["op"] in ("==", "!=") \
           and any(const(x) == -1 for x in m.p.p.ch): continue     # error return of the clock call itself
        if m.k in ("DeclRefExpr", "MemberExpr") or m.k in CALLS:
            if "CLK" in O.labels(m): return m
    return None
