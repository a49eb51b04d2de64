"""C01: a computation that starts over with a new random choice keeps nothing of the abandoned attempt, and an unsuitable
choice is always reported up to the place that starts over."""
from model import *
from common import *
from effects import effects, shorten
from report import Check

ACC = ("ZZ", "mpq", "mpz", "RR", "RationalNTL", "__gmp_expr", "Polynomial", "Series", "vector<", "BurstT", "double", "Vec<", "valuationContainer")

def acc_type(t):
    return t is not None and any(a in t for a in ACC) and "listCone" not in t and "stream" not in t and "string" not in t

def field_must_set(P, E, fn, cls, depth=0, memo=None):
    """Fields (of this) overwritten with a fresh value on every path through fn, run on an object of class cls."""
    memo = {} if memo is None else memo
    if fn.key in memo: return memo[fn.key]
    memo[fn.key] = {}
    fn.cfg()
    gens = {}          # block -> [(index, field, node)]
    out = {}
    loops_done = {}
    for n in fn.nodes:
        for fld, node in sets_of(P, E, fn, n, cls, depth, memo):
            pos = loop_pos(fn, node)
            if pos is None: continue
            gens.setdefault(pos, set()).add(fld)
            out.setdefault(fld, []).append(node)
    allf = frozenset(out)
    TOP = None
    def tr(b, s):
        s = set(s)
        for (bid, ix), fl in gens.items():
            if bid == b.id: s |= fl
        return frozenset(s)
    IN = forward(fn, frozenset(), tr, lambda a, b: a & b)
    must = IN.get(fn.exit.id, frozenset()) if fn.exit.id in IN else frozenset()
    r = {f: out[f] for f in must}
    memo[fn.key] = r
    return r

def loop_pos(fn, node):
    """CFG position of node; an element store that happens in every iteration of a counting loop counts at the loop's
    condition (the loop runs over the whole range)."""
    n, top = node, None
    while n.p is not None:
        p = n.p
        if p.k in LOOPS and p.k != "DoStmt":
            top = p
        elif p.k in ("IfStmt", "SwitchStmt", "CaseStmt", "ConditionalOperator") and top is None and in_loop_below(p):
            return fn.pos(node)
        n = p
    if top is None: return fn.pos(node)
    c = cond_of(top)
    return fn.pos(c) if c is not None else fn.pos(node)

def in_loop_below(p): return enclosing(p, LOOPS) is not None

def sets_of(P, E, fn, n, cls, depth, memo):
    """(field, node) pairs that node n overwrites without using the old value."""
    def fld_of(e):
        r = [x for x in E.roots(fn, e) if x[0] == "this" and len(x) >= 2]
        return {x[1] for x in r} if len(r) == 1 else set()
    if n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CXXOperatorCallExpr" and n.x["op"] == "=":
        l, r = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2])
        for f in fld_of(l):
            if not any(m.k == "MemberExpr" and m.d is f for m in walk(r)): yield f, n
        # chained a = b = 0 is seen through its own node
    elif n.k in CALLS and n.d is not None and n.d.k == "fn":
        T = P.targets(n)
        o = obj(n)
        if n.k == "CXXMemberCallExpr" and T and o is not None and strip(o).k == "CXXThisExpr" and depth < 6:
            t = dispatch(P, n, T, cls)
            if t is not None:
                for f in field_must_set(P, E, t, cls, depth + 1, memo): yield f, n
        elif n.d.n in ("clear", "zero", "kill", "resize_and_zero", "assign", "clear_all") and not T:
            for a in ([o] if o is not None else args(n)[:1]):
                for f in fld_of(a): yield f, n
        elif T and len(T) == 1:
            # helper that overwrites a reference / array parameter
            for i in param_must_set(P, E, T[0]):
                A = args(n)
                if i < len(A):
                    for f in fld_of(A[i]): yield f, n

def dispatch(P, call, T, cls):
    if call.x.get("qual") or not call.d.x.get("v"): return T[0] if len(T) == 1 else next((t for t in T if t.d.q == call.d.q), None)
    best = None
    for c in [cls] + P.bases(cls):
        for t in T:
            if t.cls == c: return t
    return None

def param_must_set(P, E, t):
    if "pms" in t._cache: return t._cache["pms"]
    t._cache["pms"] = set()
    out = set()
    t.cfg()
    for i, p in enumerate(t.params):
        if not (p.t.endswith("&") or p.t.endswith("*") or p.t.endswith("]")): continue
        gens = set()
        for n in t.nodes:
            if n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CXXOperatorCallExpr" and n.x["op"] == "=":
                l, r = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2])
                if E.roots(t, l) == {(("p", i),)} and strip(l).k != "DeclRefExpr" or E.roots(t, l) == {(("p", i),)} and p.t.endswith("&"):
                    if not any(m.k == "DeclRefExpr" and m.d is p for m in walk(r)):
                        q = loop_pos(t, n)
                        if q: gens.add(q[0])
        if gens:
            IN = forward(t, frozenset(), lambda b, s: frozenset({1}) if b.id in gens else s, lambda a, b: a & b)
            if 1 in IN.get(t.exit.id, frozenset()): out.add(i)
    t._cache["pms"] = out
    return out

# ---------------------------------------------------------------------------------------------------------
def check():
    P = load(); E = effects(P)
    C = Check("C01", "For every loop that retries with a new random choice: the set of accumulators an attempt updates (transitive "
              "side-effect summaries) must be contained in the set overwritten before the next attempt (must-dataflow on the CFG, reset "
              "ranges no shorter than accumulation ranges); every attempt draws afresh; the 'unsuitable choice' status (-1 / exception) is "
              "tested or returned by every caller up to the retry loop; dot products of the random vector with rays that end up as divisors "
              "are tested against zero, and the boolean tests of a perturbation answer true whenever one was seen to vanish (finite abstract run "
              "over flags and test outcomes).")
    retry_classes(P, E, C)
    catch_loops(P, E, C)
    redraw_loops(P, E, C)
    attempt_callees(P, E, C)
    evaluation_state(P, E, C)
    status_rule(P, E, C)
    zero_rule(P, E, C)
    failure_flags(P, E, C)
    C.floor("failure_flag", 5)
    C.floor("accumulator_reset", 4); C.floor("retry_loop", 2); C.floor("redraw_loop", 2); C.floor("status", 8); C.floor("handler", 3)
    C.floor("zero_test", 3); C.floor("redraw_state", 3); C.floor("evaluation_state", 2)
    C.notes = ["fields of arithmetic types count as accumulators; counters used for progress statistics do not",
               "pools of pending work behind opaque pointers (heaps) are outside the rule"]
    return C.finish(P)

RETRY_BASE = "Generic_Vector_Single_Cone_Parameters"

def retry_classes(P, E, C):
    base = P.recs.get(RETRY_BASE)
    if base is None: raise AnalysisError("retry base class vanished")
    common = {f["d"] for b in P.bases(RETRY_BASE) for f in P.recs.get(b, {"fields": []})["fields"]}
    inits = [f for f in P.fns.values() if f.cls in ({RETRY_BASE} | P.subclasses(RETRY_BASE)) and f.name == "InitializeComputation"]
    if not inits: raise AnalysisError("InitializeComputation vanished")
    for cls in sorted(P.subclasses(RETRY_BASE) | {RETRY_BASE}):
        chain = [cls] + P.bases(cls)
        consume = next((f for c in chain for f in P.fns.values() if f.cls == c and f.name == "ConsumeCone" and c != "ConeConsumer"), None)
        init = next((f for c in chain for f in inits if f.cls == c), None)
        if init is None: continue
        must = field_must_set(P, E, init, cls)
        if cls == RETRY_BASE:
            gv = [f for f in must if "Vec" in f.t]
            drawn = [n for f in gv for n in must[f] if any(is_draw(P, m) for m in walk(n))]
            if drawn: C.ok("accumulator_reset", drawn[0], "the random vector is drawn afresh")
            else: C.bad("accumulator_reset", "redraw|%s" % cls, init.body, "starting a new attempt does not draw a new random vector")
            continue
        if consume is None or not any(consume.cls == c for c in chain if c in P.subclasses(RETRY_BASE)): continue
        written = {f for f in E.fields_written(consume.key) if f not in common and acc_type(f.t) and owner(P, f, chain)}
        if RETRY_BASE in chain:
            gvs = [fl["d"] for fl in P.recs[RETRY_BASE]["fields"] if "Vec" in fl["t"]]
            for g in gvs:
                if g in must: C.ok("accumulator_reset", init.body, "%s redraws %s" % (cls, g.n))
                else: C.bad("accumulator_reset", "redraw|%s|%s" % (cls, g.n), init.body, "a new attempt of %s keeps the old random vector" % cls)
        for f in sorted(written, key=lambda d: d.qn or d.n):
            if f in must:
                m = range_short(P, E, consume, f, must[f], cls)
                if m: C.bad("accumulator_reset", "range|%s|%s" % (cls, f.n), must[f][0], m)
                else: C.ok("accumulator_reset", must[f][0], "%s::%s reset on every path before an attempt" % (cls, f.n))
            else:
                C.bad("accumulator_reset", "reset|%s|%s" % (cls, f.n), init.body,
                      "%s is accumulated by each cone of an attempt but not reset on every path when a new attempt starts (%s)" % (f.n, cls))

def owner(P, f, chain):
    c = (f.qn or "").rsplit("::", 1)[0]
    return c in chain

def bounds(loop):
    """(loop variable, start const, bound decl/const, inclusive) of a counting for-loop."""
    if loop.k != "ForStmt": return None
    c = cond_of(loop)
    if c is None: return None
    c = strip(c)
    if c.k != "BinaryOperator" or c.x["op"] not in ("<", "<=", ">", ">=", "!="): return None
    a, b, op = c.ch[0], c.ch[1], c.x["op"]
    v, bd = vdecl(a), b
    if op in (">", ">="):
        v, bd, op = vdecl(b), a, {">": "<", ">=": "<="}[op]
    if v is None: return None
    start = None
    i = part(loop, "i")
    if i is not None:
        for m in walk(i):
            if m.k == "VarDecl" and m.d is v and m.ch: start = const(m.ch[0])
            if m.k == "BinaryOperator" and m.x["op"] == "=" and vdecl(m.ch[0]) is v: start = const(m.ch[1])
    return v, start, bd, op == "<="

def lin(fn, e, depth=0):
    """(symbol, constant) of a linear bound expression, following single-assignment locals."""
    e = strip(e, explicit=True)
    k = const(e)
    if k is not None: return (None, k)
    if e.k == "BinaryOperator" and e.x["op"] in ("+", "-"):
        k = const(e.ch[1])
        if k is not None:
            s = lin(fn, e.ch[0], depth)
            return (s[0], s[1] + (k if e.x["op"] == "+" else -k)) if s else None
        return None
    d = vdecl(e)
    if d is not None and d.k == "local" and depth < 4:
        defs = [n for n in fn.nodes if (n.k == "VarDecl" and n.d is d and n.ch) or (n.k == "BinaryOperator" and n.x["op"] == "=" and vdecl(n.ch[0]) is d)]
        if len(defs) == 1: return lin(fn, defs[0].ch[0] if defs[0].k == "VarDecl" else defs[0].ch[1], depth + 1)
    if d is not None: return (d, 0)
    if e.k == "MemberExpr" and e.d.k == "field": return (e.d, 0)
    return None

def range_short(P, E, consume, f, resets, cls):
    """Message when every reset of field f's elements covers fewer elements than the accumulation."""
    accs = []
    for n in consume.nodes:
        tgt = n.ch[0] if n.k == "CompoundAssignOperator" else n.ch[1] if n.k == "CXXOperatorCallExpr" and n.x["op"] in ("+=", "-=", "*=") else None
        if tgt is None: continue
        if not any(x[0] == "this" and len(x) > 1 and x[1] is f for x in E.roots(consume, tgt)): continue
        accs.append(tgt)
    spans = []
    def span(fn, tgt):
        t = strip(tgt)
        ix = t.ch[2] if t.k == "CXXOperatorCallExpr" and t.x["op"] == "[]" else t.ch[1] if t.k == "ArraySubscriptExpr" else None
        if ix is None: return "whole"
        v = vdecl(ix)
        for lp in enclosing_all(tgt, LOOPS):
            b = bounds(lp)
            if b and b[0] is v:
                l = lin(fn, b[2])
                return (b[1], l[0], l[1] + (1 if b[3] else 0)) if l else None
        return None
    need = [span(consume, t) for t in accs]
    have = []
    for r in resets:
        if r.k == "BinaryOperator" or (r.k == "CXXOperatorCallExpr" and r.x["op"] == "="):
            have.append(span(r.fn, r.ch[0] if r.k == "BinaryOperator" else r.ch[1]))
        else: have.append("whole")
    if any(h is None or h == "whole" for h in have): return None
    for nd in need:
        if nd is None or nd == "whole": continue
        good = False; comparable = False
        for h in have:
            if same_sym(h[1], nd[1]):
                comparable = True
                if h[2] >= nd[2] and (h[0] is None or nd[0] is None or h[0] <= nd[0]): good = True
            else: good = good or False
        if comparable and not good:
            return "the reset of %s covers a smaller index range than the accumulation does" % f.n
    return None

def same_sym(a, b):
    return a is b or (a is not None and b is not None and a.k == "field" and b.k == "field" and a.qn == b.qn)

# ---------------------------------------------------------------------------------------------------------
def retry_handler_loops(f):
    """(loop, try, handler) where control can leave the handler towards the loop's next iteration."""
    out = []
    for n in f.nodes:
        if n.k != "CXXCatchStmt": continue
        t = n.p
        lp = enclosing(t, LOOPS)
        if lp is None: continue
        body = part(lp, "b")
        blk = next((c for c in n.ch if c.k == "CompoundStmt"), None)
        if blk is not None and not falls_through(blk):
            if not any(m.k == "ContinueStmt" and enclosing(m, LOOPS) is lp for m in walk(blk)): continue
        # does the loop come round again after the try statement?
        f.cfg()
        hb = [b for b in f.blocks.values() if b.label is n]
        if hb:
            seen, st = set(), [hb[0]]
            while st:
                b = st.pop()
                if b.id in seen: continue
                seen.add(b.id); st += [s for s in b.succ if s is not None]
            tp = [b for b in f.blocks.values() for e in b.el if is_under(e, t.ch[0])]
            if not any(b.id in seen for b in tp): continue
        out.append((lp, t, n))
    return out

def attempt_updates(P, E, f, region):
    """[(node, root location, via)] accumulator updates inside region."""
    out = []
    for n in walk(region):
        for (d, tgt, mode) in E_direct(E, f, n):
            if mode != "upd": continue
            for r in E.roots(f, tgt):
                last = r[-1]
                t = last.t if isinstance(last, Decl) else (f.params[last[1]].t if isinstance(last, tuple) else None)
                if acc_type(t): out.append((n, r))
        if n.k in CALLS and n.d is not None and n.d.k == "fn" and n.x.get("op") != "=":
            for e, ext in E.call_effects(f, n):
                if isinstance(e, Decl) or e is not None and out_only(P, E, f, n, e): continue
                for r in (E.roots(f, e) if e is not None else {("this",)}):
                    r2 = shorten(r + ext)
                    last = r2[-1]
                    if isinstance(last, Decl) and last.q in CACHES: continue      # recomputed as a whole from the object's own entries
                    t = last.t if isinstance(last, Decl) else (f.params[last[1]].t if isinstance(last, tuple) else None)
                    if acc_type(t): out.append((n, r2))
    return out

def out_only(P, E, f, n, e):
    """Argument e of call n is a pure result: overwritten without being read."""
    A = args(n)
    ix = next((i for i, a in enumerate(A) if a is e), None)
    if ix is None: return False
    q = E.roots(f, e)
    if any(E.roots(f, m) & q for i, a in enumerate(A) if i != ix for m in walk(a) if m.k in ("DeclRefExpr", "MemberExpr")): return False
    T = P.targets(n)
    if not T: return n.d.qn is not None and (n.d.qn.startswith("NTL::") or n.d.qn.startswith("__gmp")) and ix == 0
    return all(ix < len(t.params) and param_out(P, E, t, ix) for t in T)

def param_out(P, E, t, ix):
    """Every path of t overwrites reference parameter ix before reading it."""
    key = ("po", ix)
    if key in t._cache: return t._cache[key]
    t._cache[key] = False
    p = t.params[ix]
    t.cfg()
    ev = {}
    for n in t.nodes:
        if n.k != "DeclRefExpr" or n.d is not p: continue
        m = n
        while m.p is not None and m.p.k in TRANSPARENT: m = m.p
        q, kill = m.p, None
        if q is not None:
            if q.k == "BinaryOperator" and q.x["op"] == "=" and q.ch[0] is m or q.k == "CXXOperatorCallExpr" and q.x["op"] == "=" and q.ch[1] is m: kill = q
            elif q.k in CALLS and out_only(P, E, t, q, m): kill = q
        pos = t.pos(kill if kill is not None else n)
        if pos is None: continue
        ev.setdefault(pos[0], []).append((pos[1], kill is not None))
    def tr(b, s):
        for ix_, k in sorted(ev.get(b.id, ())):
            if k and s == 0: s = 1
            elif not k and s == 0: s = 2
        return s
    IN = forward(t, 0, tr, lambda a, b: 2 if 2 in (a, b) else min(a, b))
    x = IN.get(t.exit.id, 0)
    t._cache[key] = x == 1
    return t._cache[key]

def E_direct(E, f, n):
    idx = f._cache.get("dw")
    if idx is None:
        idx = {}
        for t in E.direct[f.key]: idx.setdefault(t[0].i, []).append(t)
        f._cache["dw"] = idx
    return idx.get(n.i, [])

def catch_loops(P, E, C):
    for f in P.fns.values():
        if not f.file.startswith("code/latte") or "/test/" in f.file or "/buildPolytopes/" in f.file: continue
        for lp, t, h in retry_handler_loops(f):
            if not any(is_draw(P, m) for m in calls_in(t.ch[0])) and not any(is_draw(P, m) for m in calls_in(lp)): 
                continue
            body = part(lp, "b") or lp
            draws = [m for m in calls_in(lp) if is_draw(P, m)]
            # the draw must happen in every iteration: dominated by nothing conditional inside the loop
            every = [m for m in draws if not conditional_in(m, lp, t) and direct_draw(P, m)]
            if every: C.ok("retry_loop", every[0], "every attempt draws a new random choice")
            else: C.bad("retry_loop", "redraw|%s" % f.short, lp, "the retry loop starts over without drawing a new random choice in every iteration")
            stale_accumulators(P, E, C, f, lp, h, t)

def direct_draw(P, m):
    return True

def conditional_in(m, lp, t):
    n = m
    while n.p is not None and n.p is not lp:
        p = n.p
        if p.k in ("IfStmt", "SwitchStmt", "ConditionalOperator", "CXXCatchStmt"): 
            c = cond_of(p)
            if not (c is not None and is_under(m, c)): return True
        n = p
    return False

def tail_branch(n):
    """Every decision around n is the last thing its function does: the same as leaving early."""
    ifs, x = [], n
    while x.p is not None:
        p = x.p
        if p.k in ("SwitchStmt", "ConditionalOperator", "CXXCatchStmt") and not (cond_of(p) is not None and is_under(n, cond_of(p))): return False
        if p.k == "IfStmt" and not (cond_of(p) is not None and is_under(n, cond_of(p))): ifs.append(p)
        x = p
    for i in ifs:
        x = i
        while x.p is not None:
            p = x.p
            if p.k in LOOPS or p.k == "CompoundStmt" and p.ch[-1] is not x: return False
            x = p
    return True

def rootname(f, r):
    a = r[0]
    s = a if isinstance(a, str) else f.params[a[1]].n if isinstance(a, tuple) else a.n
    return ".".join([s] + [x.n for x in r[1:]])

def is_retry_param(P, f, r):
    """The accumulator lives in an object whose class resets itself (rule on classes)."""
    a = r[0]
    t = f.params[a[1]].t if isinstance(a, tuple) else a.t if isinstance(a, Decl) else ""
    t = t.replace("const ", "").rstrip(" &*")
    return t == RETRY_BASE or t in P.subclasses(RETRY_BASE)

def stale_accumulators(P, E, C, f, lp, h, region, kind="retry_loop"):
    """Values accumulated in an attempt must be overwritten on every path from the handler (or the loop's back edge) to
    the next accumulation or use."""
    ups = attempt_updates(P, E, f, region)
    roots = {}
    for n, r in ups:
        if is_retry_param(P, f, r): 
            roots.setdefault(("param", r[0]), []).append(n); continue
        roots.setdefault(r, []).append(n)
    f.cfg()
    for r, nodes in sorted(roots.items(), key=str):
        if r[0] == "param":
            resets = [m for m in calls_in(part(lp, "b") or lp) if m.d is not None and m.d.n == "InitializeComputation" and not conditional_in(m, lp, None)
                      and r[1] in {x[0] for x in E.roots(f, obj(m))}]
            if resets and all(dominates(f, resets[0], n) for n in nodes): C.ok(kind, resets[0], "the attempt's accumulators are re-initialised inside the loop")
            else: C.bad(kind, "reinit|%s" % f.short, lp, "a new attempt starts without re-initialising the accumulators of the abandoned one")
            continue
        last = r[-1]
        if isinstance(last, Decl) and last.k == "local" and declared_inside(f, last, lp): 
            C.ok(kind, nodes[0], "%s is a fresh variable of the attempt" % rootname(f, r)); continue
        kills, uses = {}, set()
        for n in f.nodes:
            k = kill_of(P, E, f, n, r)
            if k:
                q = loop_pos_in(f, n, lp)
                if q: kills.setdefault(q[0], []).append(q[1])
        upset = {n.i for n in nodes}
        # stale state from the handler's entry
        hb = [b for b in f.blocks.values() if b.label is h] if h is not None else []
        start = [(b.id, -1) for b in hb]
        if h is None:
            start = [(p, -2) for p in backedges(f, lp)]
        bad = reaches(f, start, kills, upset, lp)
        if bad is None: C.ok(kind, nodes[0], "%s is overwritten before the next attempt uses it" % rootname(f, r))
        else: C.bad(kind, "stale|%s|%s" % (f.short, rootname(f, r)), bad,
                    "%s keeps what the abandoned attempt accumulated: it reaches this update without having been reset" % rootname(f, r))

def declared_inside(f, d, lp):
    """The variable is declared inside the loop body (so each iteration has its own)."""
    return any(n.k == "VarDecl" and n.d is d and is_under(n, lp) and enclosing(n, LOOPS) is not None and "static" not in n.x for n in f.nodes)

def loop_pos_in(f, n, lp):
    """Like loop_pos but only lifts out of loops strictly inside lp."""
    m, top = n, None
    while m.p is not None and m.p is not lp:
        if m.p.k in LOOPS and m.p.k != "DoStmt": top = m.p
        elif m.p.k in ("IfStmt", "SwitchStmt", "ConditionalOperator") and top is None and enclosing(m.p, LOOPS) is not lp and enclosing(m.p, LOOPS) is not None: return f.pos(n)
        m = m.p
    if top is None or m.p is None: return f.pos(n)
    c = cond_of(top)
    return f.pos(c) if c is not None else f.pos(n)

def kill_of(P, E, f, n, r):
    if n.k == "VarDecl" and len(r) == 1 and n.d is r[0]: return True
    if n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CXXOperatorCallExpr" and n.x["op"] == "=":
        l, rhs = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2])
        R = E.roots(f, l)
        if r not in R and not any(r[:len(x)] == x for x in R): return False
        for m in walk(rhs):
            if m.k in ("DeclRefExpr", "MemberExpr") and r in E.roots(f, m): return False
        return True
    if n.k in CALLS and n.d is not None and n.d.n in ("clear", "kill", "zero", "assign", "conv") or n.k == "CallExpr" and n.d is not None and n.d.qn in ("NTL::mul", "NTL::power", "NTL::add", "NTL::sub"):
        a = obj(n) if obj(n) is not None else (args(n)[0] if args(n) else None)
        if a is None or r not in E.roots(f, a): return False
        return not any(r in E.roots(f, m) for b in args(n)[1:] for m in walk(b) if m.k in ("DeclRefExpr", "MemberExpr"))
    if n.k in CALLS and n.d is not None and n.d.k == "fn":
        T = P.targets(n)
        for i, a in enumerate(args(n)):
            if r in E.roots(f, a) and (out_only(P, E, f, n, a) or len(T) == 1 and i in param_must_set(P, E, T[0])): return True
    return False

def backedges(f, lp):
    """Blocks of the loop that jump back for another iteration."""
    c = cond_of(lp)
    body = part(lp, "b")
    if c is not None and const(c) is None:
        q = f.pos(c)
        if q: return [q[0]]
    # do{}while(1): the block whose terminator is the loop
    f.cfg()
    return [b.id for b in f.blocks.values() if b.term is lp]

def reaches(f, start, kills, upset, lp):
    """First update reached from a start point without passing a kill; None if there is none."""
    seen, st = set(), list(start)
    while st:
        bid, ix = st.pop(0)
        if (bid, ix >= 0) in seen: continue
        seen.add((bid, ix >= 0))
        b = f.blocks.get(bid)
        if b is None: continue
        if ix == -2:
            # take the edges back into the loop only
            for s in b.succ:
                if s is None: continue
                if any(is_under(e, lp) for e in s.el) or (not s.el): st.append((s.id, -1))
            continue
        killed = False
        ks = set(kills.get(bid, []))
        for j, e in enumerate(b.el):
            if e.i in upset: return e
            # updates whose own element is inside
            if j in ks: killed = True; break
        if killed: continue
        for s in b.succ:
            if s is not None: st.append((s.id, -1))
    return None

# ---------------------------------------------------------------------------------------------------------
def redraw_loops(P, E, C):
    """Loops without exceptions that draw a random choice, try it, and come round again when it was unsuitable."""
    for f in P.fns.values():
        if not f.file.startswith("code/latte") or "/buildPolytopes/" in f.file or "/test/" in f.file: continue
        for lp in f.nodes:
            if lp.k not in ("WhileStmt", "DoStmt"): continue
            body = part(lp, "b")
            if body is None: continue
            draws = [m for m in calls_in(body) if callee_qn(m) in RAND and not any(x.k in ("WhileStmt", "DoStmt") for x in enclosing_all(m, LOOPS) if x is not lp and is_under(x, lp))]
            if not draws: continue
            if any(m.k == "CXXTryStmt" for m in walk(body)): continue
            C.ok("redraw_loop", lp, "draws a new random choice in each iteration")
            randroots = set()
            for m in draws:
                s = m
                while s is not None and not (s.k == "BinaryOperator" and s.x["op"] == "=" or s.k == "CXXOperatorCallExpr" and s.x["op"] == "=" or s.k == "VarDecl" or s.k.endswith("Stmt")): s = s.p
                if s is not None and s.k in ("BinaryOperator", "CXXOperatorCallExpr"):
                    randroots |= E.roots(f, s.ch[0] if s.k == "BinaryOperator" else s.ch[1])
            ups = [(n, r) for n, r in attempt_updates(P, E, f, body) if r not in randroots]
            roots = {}
            for n, r in ups: roots.setdefault(r, []).append(n)
            for r, nodes in sorted(roots.items(), key=str):
                last = r[-1]
                if isinstance(last, Decl) and last.k == "local" and declared_inside(f, last, lp): continue
                if not any(E_direct(E, f, n) or n.k in CALLS for n in nodes): continue
                kills = {}
                for n in f.nodes:
                    if is_under(n, lp) and kill_of(P, E, f, n, r):
                        q = elem_pos(f, n, nodes, lp)
                        if q: kills.setdefault(q[0], []).append(q[1])
                bad = reaches(f, [(p, -2) for p in backedges(f, lp)], kills, {n.i for n in nodes}, lp)
                if bad is None: C.ok("redraw_loop", nodes[0], "%s is overwritten in each attempt before it is accumulated" % rootname(f, r))
                else: C.bad("redraw_loop", "stale|%s|%s" % (f.short, rootname(f, r)), bad,
                            "%s keeps what the abandoned attempt accumulated" % rootname(f, r))

def attempt_callees(P, E, C):
    """Functions called from a redraw loop that belong to the attempt: what they update in fields must have been
    overwritten earlier in the same call."""
    todo, seen = [], set()
    for f in P.fns.values():
        if not f.file.startswith("code/latte") or "/buildPolytopes/" in f.file or "/test/" in f.file: continue
        for lp in f.nodes:
            if lp.k not in ("WhileStmt", "DoStmt"): continue
            body = part(lp, "b")
            if body is None or not any(callee_qn(m) in RAND for m in calls_in(body)): continue
            for m in calls_in(lp):
                for t in P.targets(m):
                    if t.cls is not None and t.cls == f.cls: todo.append((t, 0))
    while todo:
        t, d = todo.pop()
        if t.key in seen: continue
        seen.add(t.key)
        for m in t.nodes:
            if m.k in CALLS and d < 3:
                for u in P.targets(m):
                    if u.file == t.file: todo.append((u, d + 1))
        t.cfg()
        sets = []
        for n in t.nodes:
            for (x, tgt, mode) in E_direct(E, t, n):
                rs = [r for r in E.roots(t, tgt) if r[0] == "this" and len(r) > 1]
                if len(rs) != 1: continue
                r = rs[0]
                ty = r[-1].t
                if mode == "set":
                    src = n.ch[1] if n.k == "BinaryOperator" else n.ch[2]
                    selfref = any(r in E.roots(t, m) for m in walk(src) if m.k == "MemberExpr")
                    if not selfref: sets.append((r, n)); 
                    if ty == "bool" and const(src) == 1 and conditional_in(n, None, None):
                        pre = [s for q, s in sets if q == r and s is not n and dominates(t, s, n)]
                        if pre or not selfref and False: C.ok("redraw_state", n, "flag %s is cleared first" % r[-1].n)
                        else: C.bad("redraw_state", "flag|%s|%s" % (t.short, r[-1].n), n, "flag %s is raised in an attempt but not cleared at its start" % r[-1].n)
                    elif not selfref: C.ok("redraw_state", n, "%s is overwritten in each attempt" % r[-1].n)
                    if selfref and acc_type(ty):
                        pre = [s for q, s in sets if q == r and dominates(t, s, n)]
                        if not pre: C.bad("redraw_state", "upd|%s|%s" % (t.short, r[-1].n), n, "%s depends on the value left by the previous attempt" % r[-1].n)
                elif acc_type(ty):
                    pre = [s for q, s in sets if q == r and (dominates(t, s, n) or loop_pos(t, s) and t.pos(n) and loop_pos(t, s)[0] in dominators(t).get(t.pos(n)[0], ()))]
                    if pre: C.ok("redraw_state", n, "%s overwritten earlier in the attempt" % r[-1].n)
                    else: C.bad("redraw_state", "upd|%s|%s" % (t.short, r[-1].n), n, "%s is accumulated across attempts without being overwritten first" % r[-1].n)

def evaluation_state(P, E, C):
    """Per-cone scratch state of the perturbed integration: whatever evaluating one linear form changes must be set afresh,
    unconditionally, when the next linear form is prepared."""
    cls = "LinearLawrenceIntegration"
    prep = [f for f in P.fns.values() if f.cls == cls and f.name == "computeDotProducts"]
    ev = [f for f in P.fns.values() if f.cls == cls and f.name == "integrateTerm"]
    if not prep or not ev: raise AnalysisError("perturbed integration terms vanished")
    written = {}
    for f in ev:
        for l in E.sum[f.key]:
            if l[0] == "this" and len(l) > 2: written[l] = f
    for l, f in sorted(written.items(), key=str):
        ok = None
        for p in prep:
            for n in p.nodes:
                for (x, tgt, mode) in E_direct(E, p, n):
                    if mode == "set" and l in E.roots(p, tgt) and not (conditional_in(n, None, None) and not tail_branch(n)): ok = n
        if ok is not None: C.ok("evaluation_state", ok, "%s is set afresh for each linear form" % rootname(f, l))
        else: C.bad("evaluation_state", "state|%s" % rootname(f, l), f.body, "%s is changed while one linear form is evaluated and not set afresh for the next" % rootname(f, l))

def elem_pos(f, n, nodes, lp): return f.pos(n)

# ---------------------------------------------------------------------------------------------------------
def status_rule(P, E, C):
    """-1 produced for an unsuitable choice is returned or tested by every caller, up to the retry loop."""
    prod = {f.key for f in P.fns.values() if f.name == "ConsumeCone" and (f.d.rt or "") == "int"}
    if not prod: raise AnalysisError("ConsumeCone vanished")
    # functions that hand the status through
    ch = True
    callers = P.callers()
    while ch:
        ch = False
        for k in list(prod):
            for c in callers.get(k, ()):
                g = c.fn
                if g.key in prod or g.d.rt != "int": continue
                if returned(g, c): prod.add(g.key); ch = True
    retry_types = {RETRY_BASE} | P.subclasses(RETRY_BASE)
    carriers = {f.key for f in P.fns.values() if f.name != "ConsumeCone" and f.key in prod}
    for f in P.fns.values():
        for n in f.nodes:
            if n.k not in CALLS: continue
            T = P.targets(n)
            if not any(t.key in prod for t in T): continue
            m = status_use(P, f, n, retry_types, prod)
            if m == "exempt": C.count("status_exempt"); continue
            if m is None: C.ok("status", n, "the status is returned or tested")
            else: C.bad("status", "status|%s|%s" % (f.short, n.d.n), n, m)
    producers = {t.key for g in P.fns.values() if g.name == "ConsumeCone" for n in g.nodes if n.k in CALLS and returned(g, n)
                 for t in P.targets(n) if t.d.rt == "int"}
    for k in sorted(prod | producers):
        f = P.fns[k]
        for m in f.nodes:
            if m.k == "BinaryOperator" and m.x["op"] == "=" and (const(m.ch[1]) or 0) < 0:
                v = vdecl(m.ch[0])
                if v is None or v.k != "local" or not any(r.k == "ReturnStmt" and r.ch and vdecl(r.ch[0]) is v for r in f.nodes): continue
                b = lost_later(f, m, v)
                if b is None: C.ok("status", m, "the failure status is not overwritten before it is returned")
                else: C.bad("status", "lost|%s|%s" % (f.short, v.n), b, "the failure status set at line %d is overwritten before it is returned" % m.line)
    for f in P.fns.values():
        for n in f.nodes:
            if n.k == "CXXCatchStmt" and "NotGeneric" in (n.x.get("ct") or ""):
                blk = next((c for c in n.ch if c.k == "CompoundStmt"), None)
                good = blk is not None and not falls_through(blk) and any(neg_return(m) or m.k == "CXXThrowExpr" for m in walk(blk))
                if not good and blk is not None:
                    for m in walk(blk):
                        if m.k == "BinaryOperator" and m.x["op"] == "=" and (const(m.ch[1]) or 0) < 0:
                            v = vdecl(m.ch[0])
                            if v is not None and any(r.k == "ReturnStmt" and r.ch and vdecl(r.ch[0]) is v for r in f.nodes) and not killed_after(f, m, v): good = True
                if not good and any(h is n for _, _, h in retry_handler_loops(f)): good = True
                if good: C.ok("handler", n, "reports the unsuitable choice or starts over")
                else: C.bad("handler", "handler|%s" % f.short, n, "the 'random choice unsuitable' exception is swallowed: the handler neither reports failure nor starts over")

def killed_after(f, m, v):
    """Another assignment to v can follow m before the return."""
    pb = f.pos(m)
    seen, st = set(), []
    b = f.blocks[pb[0]]
    for e in b.el[pb[1] + 1:]:
        if e.k == "BinaryOperator" and e.x["op"] == "=" and vdecl(e.ch[0]) is v: return True
    st = [s for s in b.succ if s is not None]
    while st:
        b = st.pop()
        if b.id in seen: continue
        seen.add(b.id)
        for e in b.el:
            if e.k == "BinaryOperator" and e.x["op"] == "=" and vdecl(e.ch[0]) is v: return True
        st += [s for s in b.succ if s is not None]
    return False

def lost_later(f, m, v):
    """An assignment of something else to v reached from m (a loop test on v stops the search)."""
    pos = f.pos(m)
    st, seen = [(pos[0], pos[1] + 1)], set()
    while st:
        b, i = st.pop()
        if (b, i > 0) in seen: continue
        seen.add((b, i > 0))
        blk, stop = f.blocks[b], False
        for e in blk.el[i:]:
            if (e.k == "BinaryOperator" and e.x["op"] == "=" and vdecl(e.ch[0]) is v) or (e.k == "VarDecl" and e.d is v) or (e.k == "DeclStmt" and any(c.k == "VarDecl" and c.d is v and c.ch for c in e.ch)):
                c = const(e.ch[1]) if e.k == "BinaryOperator" else 1
                if e.k == "BinaryOperator" and (c is None or c >= 0): return e
                stop = True; break
            if e.k == "BinaryOperator" and e.x["op"] in ("==", "<", "<=", "!=", ">", ">=", "&&", "||") and any(vdecl(q) is v for q in walk(e)): stop = True; break
        if stop: continue
        st += [(x.id, 0) for x in blk.succ if x is not None]
    return None

def neg_return(m): return m.k == "ReturnStmt" and m.ch and (const(m.ch[0]) or 0) < 0

def returned(g, c):
    """The call's value is returned (directly or through one local)."""
    n = c
    while n.p is not None and (n.p.k in TRANSPARENT or n.p.k == "ConditionalOperator"): n = n.p
    if n.p is not None and n.p.k == "ReturnStmt": return True
    v = None
    if n.p is not None and n.p.k == "VarDecl": v = n.p.d
    if n.p is not None and n.p.k == "BinaryOperator" and n.p.x["op"] == "=": v = vdecl(n.p.ch[0])
    return v is not None and any(r.k == "ReturnStmt" and r.ch and any(vdecl(m) is v for m in walk(r)) for r in g.nodes)

def overwritten_untested(f, asg, v):
    """From the assignment, another assignment to v (or the same one in the next iteration) is reached with no branch on v."""
    pos = f.pos(asg)
    if pos is None: return False
    defs, tests = {}, set()
    for n in f.nodes:
        if n.k == "BinaryOperator" and n.x["op"] == "=" and vdecl(n.ch[0]) is v or n.k == "VarDecl" and n.d is v and n.ch:
            q = f.pos(n)
            if q: defs.setdefault(q[0], []).append(q[1])
        if n.k == "BinaryOperator" and n.x["op"] in ("==", "<", "<=", "!=", ">", ">=", "&&", "||") and any(vdecl(m) is v for m in walk(n)):
            q = f.pos(n)
            if q: tests.add(q)
    st, seen, first = [(pos[0], pos[1] + 1)], set(), True
    while st:
        b, i = st.pop()
        if (b, i > 0) in seen: continue
        seen.add((b, i > 0))
        evs = [(q, "d") for q in defs.get(b, []) if q >= i] + [(q[1], "t") for q in tests if q[0] == b and q[1] >= i]
        if evs:
            if min(evs, key=lambda e: (e[0], e[1] == "d"))[1] == "d": return True
            continue
        blk = f.blocks[b]
        for s in blk.succ:
            if s is not None: st.append((s.id, 0))
    return False

def can_be_retry(P, f, n, retry_types):
    """The consumer object used at this call may be one of the classes that report an unsuitable random choice."""
    cands = [obj(n)] + list(args(n)) if obj(n) is not None else list(args(n))
    best = None
    for a in cands:
        if a is None: continue
        e = strip(a)
        if e.k == "UnaryOperator" and e.x["op"] in ("&", "*"): e = strip(e.ch[0])
        t = (e.t or "").replace("const ", "").rstrip(" &*")
        rec = t
        if rec in P.recs and (rec in retry_types or "ConeConsumer" in P.bases(rec) or rec == "ConeConsumer"):
            if rec in retry_types: return True
            d = vdecl(e)
            if d is not None and d.k == "local" and not d.t.endswith("*") and not d.t.endswith("&"):
                best = False if best is None else best; continue      # concrete object of that class
            if P.subclasses(rec) & retry_types or rec in retry_types: return True
            best = False if best is None else best
    return best

def status_use(P, f, n, retry_types, prod):
    c = can_be_retry(P, f, n, retry_types)
    p, m = n.p, n
    while p is not None and p.k in TRANSPARENT: m, p = p, p.p
    v = None
    if p is not None and p.k == "VarDecl": v = p.d
    elif p is not None and p.k == "BinaryOperator" and p.x["op"] == "=": v = vdecl(p.ch[0])
    if v is not None and c and overwritten_untested(f, p, v):
        return "the status of this call (which reports an unsuitable random choice) can be overwritten before it is looked at"
    if returned(f, n): return None
    if v is not None:
        tests = [t for t in f.nodes if t.k == "BinaryOperator" and t.x["op"] in ("==", "<", "<=", "!=", ">", ">=") and
                 (vdecl(t.ch[0]) is v or vdecl(t.ch[1]) is v) and f.pos(t) is not None and reach_from(f, n, t)]
        if any(branch_reports(f, t, v) for t in tests): return None
    elif p is not None and p.k == "BinaryOperator" and p.x["op"] in ("==", "<", "<=", "!=", ">", ">="):
        if branch_reports(f, p, None): return None
    if not c:
        return "exempt"
    if (f.d.rt or "") != "int" and f.name != "main" and not any(t.k == "CXXTryStmt" for t in f.nodes) and not concrete_retry(P, f, n, retry_types):
        return "exempt"
    return "the status of this call (which reports an unsuitable random choice) is dropped: the attempt would count as complete"

def concrete_retry(P, f, n, retry_types):
    for a in ([obj(n)] if obj(n) is not None else []) + list(args(n)):
        e = strip(a)
        if e.k == "UnaryOperator" and e.x["op"] in ("&", "*"): e = strip(e.ch[0])
        if (e.t or "").replace("const ", "").rstrip(" &*") in retry_types: return True
    return False

def reach_from(f, a, b):
    pa, pb = f.pos(a), f.pos(b)
    if pa is None or pb is None: return False
    if pa[0] == pb[0] and pa[1] <= pb[1]: return True
    seen, st = set(), [s for s in f.blocks[pa[0]].succ if s is not None]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.id == pb[0]: return True
        st += [s for s in x.succ if s is not None]
    return False

def branch_reports(f, test, v):
    """The outcome 'negative' of the test leads to return/throw/goto or sets a variable that is returned/tested."""
    if test.x.get("m") == "assert" or any(a.x.get("m") == "assert" for a in [test] + ([test.p] if test.p else [])): return False
    s = test
    while s is not None and s.k not in ("IfStmt", "ConditionalOperator") and s.k not in LOOPS and s.k != "CompoundStmt": s = s.p
    if s is None or s.k == "CompoundStmt": return False
    if s.k in LOOPS: return True
    if s.k == "ConditionalOperator": return True
    for br in (part(s, "th"), part(s, "e")):
        if br is None: continue
        for m in walk(br):
            if m.k == "ReturnStmt" or m.k == "CXXThrowExpr" or m.k == "GotoStmt": return True
            if m.k == "CallExpr" and callee_qn(m) in ("exit", "abort"): return True
            if m.k == "BinaryOperator" and m.x["op"] == "=" :
                w = vdecl(m.ch[0])
                if w is not None and w is not v and any(r.k == "ReturnStmt" and r.ch and any(vdecl(q) is w for q in walk(r)) for r in f.nodes): return True
    return False

# ---------------------------------------------------------------------------------------------------------
def random_vectors(P):
    """Variables, parameters and fields that hold (exactly) a randomly drawn vector."""
    src = {f.key for f in P.fns.values() if f.d.rt and "Vec" in f.d.rt and any(callee_qn(n) in RAND for n in f.nodes if n.k in CALLS)}
    S = set()
    def is_src(e):
        e = strip(e)
        while e is not None and e.k in CTORS and len(e.ch) == 1: e = strip(e.ch[0])
        if e is None: return False
        if e.k in CALLS and any(t.key in src for t in P.targets(e)): return True
        return e.k in ("DeclRefExpr", "MemberExpr") and e.d in S
    for _ in range(6):
        n0 = len(S)
        for f in P.fns.values():
            for n in f.nodes:
                if n.k in ("VarDecl", "CtorInit") and n.ch and n.d is not None and n.d.t and is_src(n.ch[0]): S.add(n.d)
                elif n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CXXOperatorCallExpr" and n.x["op"] == "=":
                    l, r = (n.ch[0], n.ch[1]) if n.k == "BinaryOperator" else (n.ch[1], n.ch[2])
                    ls = strip(l)
                    if is_src(r) and ls.k in ("DeclRefExpr", "MemberExpr"): S.add(ls.d)
                    elif ls.k in ("ArraySubscriptExpr",) or ls.k == "CXXOperatorCallExpr" and ls.x["op"] == "[]":
                        if any(m.k in CALLS and callee_qn(m) in RAND for m in walk(r)):
                            b = strip(ls.ch[0] if ls.k == "ArraySubscriptExpr" else ls.ch[1])
                            if b.k in ("DeclRefExpr", "MemberExpr") and ("Vec" in (b.d.t or "") or "vector" in (b.d.t or "")): S.add(b.d)
                elif n.k in CALLS or n.k in CTORS:
                    for t in P.targets(n):
                        for a, p in zip(args(n), t.params):
                            if is_src(a): S.add(p)
        if len(S) == n0: break
    return S

def zero_rule(P, E, C):
    S = random_vectors(P)
    if not S: raise AnalysisError("no randomly drawn vectors found")
    C.count("random_vectors", len(S))
    names = {d.qn or d.n for d in S}
    sites = []
    for f in P.fns.values():
        if "/buildPolytopes/" in f.file or "/test/" in f.file: continue
        for n in f.nodes:
            if n.k == "CallExpr" and n.d is not None and n.d.n == "InnerProduct" and len(args(n)) == 3:
                A = args(n)
                if uses_rand(A[1], S) and from_ray(f, E, A[2]) or uses_rand(A[2], S) and from_ray(f, E, A[1]): sites.append((f, n, A[0]))
            elif n.k == "CompoundAssignOperator" and n.x["op"] == "+=" or n.k == "CXXOperatorCallExpr" and n.x["op"] == "+=":
                l, r = (n.ch[0], n.ch[1]) if n.k == "CompoundAssignOperator" else (n.ch[1], n.ch[2])
                for m in walk(r):
                    if m.k in ("BinaryOperator", "CXXOperatorCallExpr") and m.x["op"] == "*":
                        a, b = (m.ch[0], m.ch[1]) if m.k == "BinaryOperator" else (m.ch[1], m.ch[2])
                        if uses_rand(a, S) and from_ray(f, E, b) or uses_rand(b, S) and from_ray(f, E, a): sites.append((f, n, l)); break
            elif n.k == "CXXOperatorCallExpr" and n.x["op"] in ("=", "*="):
                for m in walk(n.ch[2]):
                    if m.k == "CXXOperatorCallExpr" and m.x["op"] == "*" and len(m.ch) == 3 and m.t and "ZZ" in m.t and "Vec" not in m.t:
                        a, b = m.ch[1], m.ch[2]
                        if "Vec" in (strip(a).t or "") and "Vec" in (strip(b).t or "") and (
                                uses_rand(a, S) and from_ray(f, E, b) or uses_rand(b, S) and from_ray(f, E, a)): sites.append((f, n, n.ch[1])); break
    verified = set()
    pend = []
    producers = {t.key for g in P.fns.values() if g.name == "ConsumeCone" for n in g.nodes if n.k in CALLS and returned(g, n)
                 for t in P.targets(n) if t.d.rt == "int" and t.name != "ConsumeCone"}
    for f, n, dst in sites:
        clo = closure(f, dst)
        ok = None
        for m in f.nodes:
            z = zero_test(m)
            if z is None: continue
            q = path(z[0])
            if q is not None and last_decl(q) in clo and zero_reports(f, m): ok = m; break
        if ok is not None:
            C.ok("zero_test", ok, "the dot product is tested against zero and the attempt abandoned"); verified.add(f.key)
        else: pend.append((f, n, dst, clo))
    for f, n, dst, clo in pend:
        # another call in this function on the same ray list has already tested these dot products
        if any(m.k in CALLS and any(t.key in verified or wraps(P, t, verified) for t in P.targets(m)) and dominates(f, m, n) for m in f.nodes):
            C.ok("zero_test", n, "tested by a preceding call"); continue
        if f.key not in producers and not divides(P, f, clo):
            C.count("zero_test_not_divisor"); continue
        C.bad("zero_test", "zero|%s|%s" % (f.short, text(dst)[:30]), n,
              "a dot product of the random vector with a ray is used without testing for zero, so an unsuitable choice goes undetected")

def wraps(P, t, verified):
    return any(n.k in CALLS and any(u.key in verified for u in P.targets(n)) for n in t.nodes)

def last_decl(q):
    for x in reversed(q):
        if isinstance(x, Decl): return x
    return None

def uses_rand(e, S):
    e = strip(e)
    while e is not None and (e.k == "ArraySubscriptExpr" or e.k == "CXXOperatorCallExpr" and e.x["op"] in ("[]", "*", "()") or e.k in CTORS or e.k == "UnaryOperator"):
        if e.k == "CXXOperatorCallExpr" and e.x["op"] == "*" and len(e.ch) == 3:
            return uses_rand(e.ch[1], S) or uses_rand(e.ch[2], S)
        if e.k in ("ArraySubscriptExpr", "UnaryOperator") or e.k in CTORS:
            if not e.ch: return False
            e = strip(e.ch[0])
        else: e = strip(e.ch[1])
    return e is not None and e.k in ("DeclRefExpr", "MemberExpr") and e.d in S

def from_ray(f, E, e):
    """e is (an element of) list->first where the list walks over a cone's rays."""
    for m in walk(e):
        if m.k == "MemberExpr" and m.d.n == "first" and m.d.cls is None or m.k == "MemberExpr" and m.d.n == "first":
            for r in E.roots(f, m):
                if any(isinstance(x, Decl) and x.n == "rays" for x in r): return True
    return False

def closure(f, dst):
    """Declarations in f whose value is computed from the destination (copies, products, conversions)."""
    q = path(dst)
    if q is None: return set()
    S = {last_decl(q)}
    for _ in range(3):
        for n in f.nodes:
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"].endswith("=") and n.x["op"] not in ("==", "!=", "<=", ">="): l, r = n.ch
            elif n.k == "CXXOperatorCallExpr" and n.x["op"] in ("=", "*="): l, r = n.ch[1], n.ch[2]
            elif n.k == "VarDecl" and n.ch:
                if any(m.k in ("DeclRefExpr", "MemberExpr") and m.d in S for m in walk(n.ch[0])): S.add(n.d)
                continue
            else: continue
            if any(m.k in ("DeclRefExpr", "MemberExpr") and m.d in S for m in walk(r)):
                p = path(l)
                if p is not None and last_decl(p) is not None: S.add(last_decl(p))
    return S

def zero_reports(f, test):
    s = test
    while s is not None and s.k != "IfStmt": 
        if s.k in LOOPS or s.k == "CompoundStmt": return False
        s = s.p
    if s is None: return False
    if test.x.get("m") == "assert": return False
    for br in (part(s, "th"), part(s, "e")):
        if br is None: continue
        for m in walk(br):
            if m.k == "CXXThrowExpr" or neg_return(m) or m.k in ("BreakStmt", "GotoStmt"): return True
            if m.k == "BinaryOperator" and m.x["op"] == "=": return True
    return False

def divides(P, f, clo):
    for n in f.nodes:
        d = None
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"] in ("/", "/=", "%", "%="): d = n.ch[1]
        elif n.k == "CXXOperatorCallExpr" and n.x["op"] in ("/", "/=", "%", "%="): d = n.ch[2]
        elif n.k == "CallExpr" and n.d is not None and n.d.n in ("div", "divide", "DivRem", "rem", "evaluate_todd") and args(n): d = args(n)[-1]
        elif n.k in CTORS and len(n.ch) == 2 and ("Rational" in (n.t or "") or "mpq" in (n.t or "")): d = n.ch[1]
        elif n.k == "CXXMemberCallExpr" and n.d is not None and n.d.n in ("add", "div", "mult") and len(args(n)) == 2: d = args(n)[1]
        if d is not None and any(m.k in ("DeclRefExpr", "MemberExpr") and m.d in clo for m in walk(d)): return True
    return False
# ---------------------------------------------------------------------------------------------------------
class FailureFlow:
    """Abstract run of a function over the truth of its flags: which of 'this choice is unsuitable' (a dot product with a ray
    vanishes, or a called test says so) has been seen, and what every boolean local and field holds."""
    def __init__(self, P, E, f, atoms, prod, latest):
        self.P, self.f, self.atoms, self.prod, self.latest = P, f, atoms, prod, latest
        self.Z = frozenset(p for p, _ in atoms.values())
        f.cfg()

    def key(self, e):
        e = strip(e, explicit=True)
        if e is None: return None
        d = vdecl(e)
        if d is not None: return d if d.k in ("local", "parm") and d.t.replace("const ", "") in ("bool", "int") else None
        if e.k == "MemberExpr" and e.d.k == "field" and e.d.t == "bool":
            q = path(e)
            return e.d if q is not None and q[0] == "this" and len(q) == 2 else None
        return None

    # state: (failed, facts, env) with env a frozenset of (key, value)
    def get(self, st, k): return next((v for q, v in st[2] if q is k or q == k), None)
    def put(self, st, k, v): return (st[0], st[1], frozenset([x for x in st[2] if not (x[0] is k or x[0] == k)] + ([(k, v)] if v is not None else [])))

    def fact(self, st, n, zero):
        p = self.atoms[n.i][0]
        facts = st[1] | {p} if zero else st[1] - {p}
        return (st[0] or facts >= self.Z, facts, st[2])

    def ev(self, e, st):
        """[(value, state)] with value in T F S (left over from before the call) or None"""
        e = strip(e, explicit=True)
        if e is None: return [(None, st)]
        c = const(e)
        if c is not None and not isinstance(c, str): return [("T" if c else "F", st)]
        if e.i in self.atoms:
            zt = self.atoms[e.i][1]
            v = self.get(st, e.i)
            if v is not None: return [(v, st)]
            return [("T" if zt else "F", self.fact(st, e, True)), ("F" if zt else "T", self.fact(st, e, False))]
        if e.i in self.prod:
            v = self.get(st, e.i)
            return [(v, st)] if v is not None else [("T", (True,) + st[1:]), ("F", (False,) + st[1:] if self.latest else st)]
        k = self.key(e)
        if k is not None:
            v = self.get(st, k)
            if v is None and k.k == "field": return [("S", st)]
            return [(v, st)]
        if e.k == "UnaryOperator" and e.x["op"] == "!": return [({"T": "F", "F": "T"}.get(v, v), s) for v, s in self.ev(e.ch[0], st)]
        if e.k == "BinaryOperator":
            op = e.x["op"]
            if op == "=": return self.ev(e.ch[0], st)             # the assignment has been carried out as an element
            if op in ("&&", "||", "|", "&"):
                zero = "F" if op[0] == "&" else "T"
                out = []
                for v, s in self.ev(e.ch[0], st):
                    if v == zero and len(op) == 2: out.append((v, s)); continue
                    for w, s2 in self.ev(e.ch[1], s):
                        out.append((zero if zero in (v, w) else "S" if "S" in (v, w) else None if None in (v, w) else w, s2))
                return out
            if op in ("==", "!="):
                a, b = e.ch
                if const(a) is not None: a, b = b, a
                c = const(b)
                if c in (0, 1) and (strip(a).t or "").replace("const ", "") == "bool" or c == 0:
                    flip = (c == 0) == (op == "==")
                    return [(({"T": "F", "F": "T"}.get(v, v)) if flip else v, s) for v, s in self.ev(a, st)]
            if op == ",": return self.ev(e.ch[1], st)
        if e.k == "ConditionalOperator":
            out = []
            for v, s in self.ev(e.ch[0], st):
                if v != "F": out += self.ev(e.ch[1], s)
                if v != "T": out += self.ev(e.ch[2], s)
            return out
        return [(None, st)]

    def elem(self, e, S):
        if e.i in self.atoms or e.i in self.prod:
            out = set()
            for st in S:
                for v, s in self.ev(e, self.put(st, e.i, None)): out.add(self.put(s, e.i, v))
            return frozenset(out)
        tgt = src = None; orr = None
        if e.k == "BinaryOperator" and e.x["op"] == "=": tgt, src = e.ch
        elif e.k == "CompoundAssignOperator": tgt, src = e.ch; orr = e.x["op"][:-1]
        elif e.k == "CXXOperatorCallExpr" and e.x["op"] == "=" and len(e.ch) == 3: tgt, src = e.ch[1:]
        elif e.k == "VarDecl" or e.k == "DeclStmt":
            for v in ([e] if e.k == "VarDecl" else [c for c in e.ch if c.k == "VarDecl"]):
                if v.d.k == "local" and v.d.t.replace("const ", "") in ("bool", "int"):
                    out = set()
                    for st in S:
                        if v.ch:
                            for w, s in self.ev(v.ch[0], st): out.add(self.put(s, v.d, w))
                        else: out.add(self.put(st, v.d, None))
                    S = frozenset(out)
            return S
        elif e.k == "UnaryOperator" and e.x["op"] in ("++", "--"):
            return frozenset((s[0], frozenset(), s[2]) for s in S)
        if tgt is None: return S
        k = self.key(tgt)
        if k is None:
            q = path(tgt)
            if q is not None and q in self.Z: return frozenset((s[0], s[1] - {q}, s[2]) for s in S)
            return S
        out = set()
        for st in S:
            for v, s in self.ev(src, st):
                if orr == "|":
                    o = self.get(s, k)
                    if o is None and k.k == "field": o = "S"
                    v = "T" if "T" in (o, v) else "S" if "S" in (o, v) else None if None in (o, v) else v
                elif orr == "&":
                    o = self.get(s, k)
                    v = "F" if "F" in (o, v) else None if None in (o, v) else v
                elif orr is not None: v = None
                out.add(self.put(s, k, v))
        return frozenset(out)

    def xfer(self, b, S):
        for e in b.el:
            if e.k == "CXXThrowExpr" or b.noret: return frozenset()
            S = self.elem(e, S)
        return S

    def edge(self, b, i, s, S):
        if not S: return None
        if b.cond is None or len(b.succ) != 2: return S
        c = strip(b.cond)
        if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||") and b.term is not None: c = strip(c.ch[1])
        out = set()
        for st in S:
            for v, s2 in self.ev(c, st):
                if v == ("F" if i == 0 else "T"): continue
                out.add(self.refine(c, s2, i == 0))
        return frozenset(out) or None

    def refine(self, c, st, truth):
        c = strip(c, explicit=True)
        if c.k == "UnaryOperator" and c.x["op"] == "!": return self.refine(c.ch[0], st, not truth)
        if c.k == "BinaryOperator" and c.x["op"] in ("==", "!="):
            a, b = c.ch
            if const(a) is not None: a, b = b, a
            if const(b) in (0, 1): return self.refine(a, st, truth == ((const(b) == 1) == (c.x["op"] == "==")))
        k = self.key(c)
        if k is not None and (k.k == "field" or self.get(st, k) is not None or k.t == "bool"): return self.put(st, k, "T" if truth else "F")
        return st

    def run(self):
        return forward(self.f, frozenset([(False, frozenset(), frozenset())]), self.xfer, lambda a, b: a | b, self.edge)

def product_with_ray(P, E, f):
    """{path: assignment node} of the elements that hold a dot product with a ray"""
    out = {}
    for n in f.nodes:
        if n.k == "CXXOperatorCallExpr" and n.x["op"] == "=" and len(n.ch) == 3: l, r = n.ch[1], n.ch[2]
        else: continue
        for m in walk(r):
            if m.k == "CXXOperatorCallExpr" and m.x["op"] == "*" and len(m.ch) == 3 and (from_ray(f, E, m.ch[1]) or from_ray(f, E, m.ch[2])):
                q = path(l)
                if q is not None: out[q] = n
                break
        else:
            pass
    for n in f.nodes:
        if n.k == "CallExpr" and n.d is not None and n.d.n == "InnerProduct" and len(args(n)) == 3 and (from_ray(f, E, args(n)[1]) or from_ray(f, E, args(n)[2])):
            q = path(args(n)[0])
            if q is not None: out[q] = n
    return out

def failure_flags(P, E, C):
    """Boolean tests of a choice: once one dot product with a ray has been seen to vanish, the answer is true whatever follows;
    the function that draws again is not left while the last answer was true."""
    base, prod = {}, set()
    for f in P.fns.values():
        if (f.d.rt or "") != "bool" or not f.file.startswith("code/latte") or "/test/" in f.file: continue
        prods = product_with_ray(P, E, f)
        if not prods: continue
        atoms = {}
        for n in f.nodes:
            z = zero_test(n)
            if z is None: continue
            q = path(z[0])
            if q is None or strip(n) is not n: continue
            if n.k == "UnaryOperator": continue                    # the test below it is the atom
            same = any(q[:-1] == p[:-1] and len(q) > 1 and q[0] == p[0] for p in prods)
            if q in prods or same: atoms[n.i] = (q, z[1])
        if atoms: base[f.key] = atoms; prod.add(f.key)
    callers, ch = P.callers(), True
    while ch:
        ch = False
        for k in list(prod):
            for c in callers.get(k, ()):
                g = c.fn
                if g.key not in prod and g.d.rt == "bool" and "/test/" not in g.file: prod.add(g.key); ch = True
    for k in sorted(prod | {c.fn.key for k in prod for c in callers.get(k, ())}):
        f = P.fns[k]
        if "/test/" in f.file or not f.rawcfg: continue
        calls = {n.i for n in f.nodes if n.k in CALLS and any(t.key in prod for t in P.targets(n))}
        draws = any(n.k in CALLS and callee_qn(n) in RAND for n in f.nodes)
        latest = k not in prod
        if latest and not draws: continue
        F = FailureFlow(P, E, f, base.get(k, {}), calls, latest)
        IN = F.run()
        for lp in (f.nodes if not latest else ()):
            if lp.k in LOOPS and any(m.i in calls or m.i in F.atoms for m in walk(lp)): whole_range(f, lp, C)
        if latest:
            S = IN.get(f.exit.id, frozenset())
            if any(st[0] for st in S): C.bad("failure_flag", "exit|%s" % f.short, f.body, "%s can end while the last random choice it tried was reported unsuitable" % f.short)
            else: C.ok("failure_flag", f.body, "ends only after a choice that was not reported unsuitable")
            continue
        for b in f.blocks.values():
            S = IN.get(b.id)
            if S is None: continue
            for e in b.el:
                if e.k == "ReturnStmt" and e.ch:
                    lost = stale = False
                    for st in S:
                        for v, s in F.ev(e.ch[0], st):
                            if s[0] and v != "T": lost = True
                            if v == "S": stale = True
                            if s[0] and any(q for q, w in s[2] if w == "F" and isinstance(q, Decl) and q.k == "field" and read_elsewhere(P, f, q)): lost = True
                    if lost or stale:
                        C.bad("failure_flag", "lost|%s" % f.short, e, "%s can answer that the choice is suitable after one of its dot products with a ray was seen to vanish" % f.short if lost
                              else "%s answers with a flag left by an earlier term" % f.short)
                    else: C.ok("failure_flag", e, "true whenever a dot product was seen to vanish")
                S = F.elem(e, S)

def read_elsewhere(P, f, d):
    return any(m.k == "MemberExpr" and m.d is d for g in P.fns.values() if g.cls == f.cls and g is not f and g.name != f.name and "print" not in g.name.lower() for m in g.nodes
               if not (m.p is not None and m.p.k == "BinaryOperator" and m.p.x["op"] == "=" and m.p.ch[0] is m))

def whole_range(f, lp, C):
    """The loop looks at every element: it starts at the first one and stops at the end of the range."""
    b = bounds(lp)
    if b is not None:
        v, start, bd, incl = b
        if start is not None and start != 0 or any(m.k == "BinaryOperator" and m.x["op"] == "-" for m in walk(bd)):
            C.bad("failure_flag", "range|%s" % f.short, lp, "the loop that looks for an unsuitable choice skips some of the terms"); return
    i = part(lp, "i") if lp.k == "ForStmt" else None
    if i is not None:
        for m in walk(i):
            s = m.ch[0] if m.k == "VarDecl" and m.ch else m.ch[1] if m.k == "BinaryOperator" and m.x["op"] == "=" else None
            s = strip(s) if s is not None else None
            if s is not None and s.k == "MemberExpr" and s.d.n == "rest":
                C.bad("failure_flag", "range|%s" % f.short, lp, "the loop that looks for an unsuitable choice skips some of the rays"); return
    C.ok("failure_flag", lp, "looks at every term")

