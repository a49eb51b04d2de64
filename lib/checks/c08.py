"""C08: command-line options do what the help says: each is recognised by its own test, its value starts right after the '=',
wrong options and wrong choices are refused, different options have different effects, and what an option sets is used."""
import re
from model import *
from common import *
from report import Check

STRCMP = {"strcmp", "strncmp", "strcasecmp", "strncasecmp", "std::strcmp", "std::strncmp"}
# several spellings of one option (confirmed in the documentation / legacy names)
SYN = [{"nodecom", "nodecomposition", "no-decomposition"}, {"irrational-all-primal", "all-primal"}, {"delone", "delaunay"},
       {"cplex", "CPLEX"}, {"m", "monomial"}, {"lrs", "compute-vertex-cones=lrs"}, {"dil", "dilation="}]
# fields read only by code this build leaves out (the CPLEX reduction)
READ_ELSEWHERE = {"ReductionTestFactory::verbose", "ReductionTestFactory::rays_filename", "ReductionTestFactory::facets_filename"}
# places several options may name: the one input file, given in different formats
SHARED = {"ReadPolyhedronData::filename", "Valuation::IntegrationInput::fileName", "filename", "fileName", "ReadPolyhedronData::dilation_const"}
NOEFFECT = {"--count-lattice-points": "names the default", "equ": "documented as ignored (legacy)"}

def stem(l): return l.lstrip("-")

def strip_all(n): return strip(n, explicit=True)

def base_off(f, n, depth=0):
    """(key of the text expression, constant offset) of a pointer into / string made of a text expression."""
    n = strip_all(n)
    if n is None or depth > 6: return None
    if n.k in CTORS and len(n.ch) >= 1 and "string" in (n.t or ""): return base_off(f, n.ch[0], depth + 1)
    if n.k == "BinaryOperator" and n.x["op"] == "+":
        for a, b in ((0, 1), (1, 0)):
            k = ival(n.ch[b])
            if k is not None:
                r = base_off(f, n.ch[a], depth + 1)
                return (r[0], r[1] + k) if r else None
        return None
    if n.k == "UnaryOperator" and n.x["op"] == "&":
        m = strip_all(n.ch[0])
        if m.k == "ArraySubscriptExpr":
            k = ival(m.ch[1])
            r = base_off(f, m.ch[0], depth + 1)
            return (r[0], r[1] + k) if r and k is not None else None
        return None
    if n.k == "CXXMemberCallExpr" and n.d is not None and n.d.n == "c_str": return base_off(f, obj(n), depth + 1)
    if n.k == "CXXMemberCallExpr" and n.d is not None and n.d.n == "substr" and len([a for a in args(n) if strip(a) is not None]) >= 1:
        k = ival(args(n)[0]); r = base_off(f, obj(n), depth + 1)
        return (r[0], r[1] + k) if r and k is not None else None
    if n.k == "DeclRefExpr" and n.d.k == "local":
        defs = [m for m in f.nodes if assigned_var(m) is n.d]
        if len(defs) == 1 and defs[0].k == "VarDecl" and defs[0].ch and ("char" in (n.d.t or "") or "string" in (n.d.t or "")):
            r = base_off(f, defs[0].ch[0], depth + 1)
            if r: return r
        return ((n.d,), 0) if defs else None
    if n.k == "DeclRefExpr" and n.d.k in ("parm",): return ((n.d,), 0)
    if n.k == "ArraySubscriptExpr":
        b = strip_all(n.ch[0])
        if b.k == "DeclRefExpr" and b.d.k in ("parm", "local", "global"):
            i = strip_all(n.ch[1])
            if i.k == "DeclRefExpr": return ((b.d, i.d), 0)
            return ((b.d, text(i)), 0)
    return None

def ival(n):
    v = const(n)
    if v is not None: return v
    m = strip_all(n)
    if m is not None and m.k in CALLS and m.d is not None and m.d.n == "strlen":
        s = lit(args(m)[0]); return len(s) if s is not None else None
    if m is not None and m.k == "BinaryOperator" and m.x["op"] in "+-":
        a, b = ival(m.ch[0]), ival(m.ch[1])
        if a is not None and b is not None: return a + b if m.x["op"] == "+" else a - b
    if m is not None and m.k == "UnaryExprOrTypeTraitExpr" and m.ch:
        s = lit(m.ch[0]); return len(s) + 1 if s is not None else None
    return None

def lit(n):
    n = strip_all(n)
    if n is not None and n.k in CTORS and len(n.ch) >= 1 and "string" in (n.t or ""): n = strip_all(n.ch[0])
    return n.x.get("s") if n is not None and n.k == "StringLiteral" else None

def helper_kind(P, t):
    """A tiny helper comparing its first text with its second: 'exact' / 'prefix' / None."""
    if "c08h" in t._cache: return t._cache["c08h"]
    r = None
    tests = [m for m in t.nodes if m.k in CALLS and m.d is not None and m.d.n in ("strcmp", "strncmp")]
    if len(tests) == 1 and len(t.params) == 2:
        A = args(tests[0])
        v = [vdecl(A[0]), vdecl(A[1])]
        if set(v) == set(t.params): r = "exact" if tests[0].d.n == "strcmp" else ("prefix" if any(m.k in CALLS and m.d is not None and m.d.n in ("strlen", "size", "length") for m in t.nodes) else None)
    t._cache["c08h"] = r
    return r

class Test:
    __slots__ = ("node", "fn", "key", "off", "lit", "n", "rev")
    def holds(self, S):
        s = S[self.off:]
        if self.n is None: return s == self.lit
        return s[:self.n] == self.lit[:self.n]

def tests_of(P, f):
    if "c08t" in f._cache: return f._cache["c08t"]
    out = {}
    for n in f.nodes:
        a = b = None; cnt = None; rev = False
        if n.k in CALLS and n.d is not None and n.d.n in STRCMP or n.k in CALLS and callee_qn(n) in STRCMP:
            A = args(n); a, b = A[0], A[1]; rev = True     # returns 0 on a match
            if "strn" in n.d.n:
                cnt = ival(A[2])
                if cnt is None: continue
        elif n.k == "CXXOperatorCallExpr" and n.x.get("op") in ("==", "!=") and len(n.ch) == 3 and "string" in ((n.d.pt or [""])[0] if n.d is not None and n.d.pt else (n.ch[1].t or "")):
            a, b = n.ch[1], n.ch[2]; rev = n.x["op"] == "!="
        elif n.k == "CXXMemberCallExpr" and n.d is not None and n.d.n == "compare" and "string" in (n.d.qn or ""):
            A = [x for x in args(n) if strip(x) is not None]
            rev = True
            if len(A) == 1: a, b = obj(n), A[0]
            elif len(A) == 3 and ival(A[0]) == 0: a, b, cnt = obj(n), A[2], ival(A[1])
            else: continue
        elif n.k == "CallExpr" and len(args(n)) == 2:
            T = P.targets(n)
            h = helper_kind(P, T[0]) if len(T) == 1 and len(T[0].nodes) < 60 else None
            if h is None: continue
            a, b = args(n)
            l = lit(b) if lit(b) is not None else lit(a)
            if l is None: continue
            cnt = len(l) if h == "prefix" else None
        else: continue
        l, s = lit(b), a
        if l is None: l, s = lit(a), b
        if l is None: continue
        r = base_off(f, s)
        if r is None: continue
        t = Test(); t.node, t.fn, t.key, t.off, t.lit, t.n, t.rev = n, f, r[0], r[1], l, cnt, rev
        out[n.i] = t
    f._cache["c08t"] = out
    return out

def scope(P, f, key):
    """(entry block, set of stop block ids) of one look at the text expression: the body of the loop over the arguments, or the whole function."""
    T = [t.node for t in tests_of(P, f).values() if t.key == key] + [n for n in f.nodes if n.k in CALLS and deleg(P, f, key, n)]
    L = None
    if len(key) == 2 and isinstance(key[1], Decl):
        loops = [set(x.i for x in enclosing_all(t, LOOPS)) for t in T]
        com = set.intersection(*loops) if loops else set()
        # the loop that steps the index
        for n in f.nodes:
            if n.i in com and any(m.k == "UnaryOperator" and m.x["op"] in ("++", "--") and vdecl(m.ch[0]) is key[1] or assigned_var(m) is key[1] for m in walk(n)): L = n
    f.cfg()
    if L is None: return f.entry, set()
    b = part(L, "b") if part(L, "b") is not None else L.ch[-1]
    inside, others = set(), set()
    for bl in f.blocks.values():
        els = [e for e in bl.el] + ([bl.cond] if bl.cond is not None else [])
        if any(is_under(e, b) for e in els): inside.add(bl.id)
        elif els or bl is f.exit or bl is f.entry: others.add(bl.id)
    heads = [bl for bl in f.blocks.values() if bl.term is L]
    for h in heads:
        s = h.succ[0] if h.succ else None
        if s is not None: return s, others | {h.id}
    return f.entry, set()

class Run:
    """What one fixed text makes a parser do: reached blocks, matched tests, reached nodes of callees, how it can end."""
    def __init__(self):
        self.nodes, self.matched, self.tested, self.accept, self.rets = [], set(), set(), False, set()

def ev(P, f, key, off, S, n, run, depth):
    """Truth of condition n for text S: True / False / None (unknown)."""
    n = strip(n)
    if n is None: return None
    if n.k == "UnaryOperator" and n.x["op"] == "!":
        v = ev(P, f, key, off, S, n.ch[0], run, depth)
        return None if v is None else not v
    if n.k == "BinaryOperator" and n.x["op"] in ("==", "!="):
        for a, b in ((0, 1), (1, 0)):
            if const(n.ch[b]) == 0 and strip(n.ch[a]).k in CALLS:
                v = ev(P, f, key, off, S, n.ch[a], run, depth)
                return None if v is None else (not v if n.x["op"] == "==" else v)
        return None
    if n.k == "BinaryOperator" and n.x["op"] in ("&&", "||"):
        a, b = ev(P, f, key, off, S, n.ch[0], run, depth), ev(P, f, key, off, S, n.ch[1], run, depth)
        if n.x["op"] == "&&": return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if n.k in CALLS:
        t = tests_of(P, f).get(n.i)
        if t is not None and t.key == key:
            m = t.holds(S)
            run.tested.add((f.key, n.i, t.off))
            if m: run.matched.add((f.key, n.i, t.lit))
            return m != t.rev
        r = deleg(P, f, key, n)
        if r:
            res = None
            for g, pk, o in r:
                sub = simulate(P, g, pk, S[o:], depth + 1)
                if sub is None: return None
                run.nodes += sub.nodes; run.tested |= {(a, b, c + o) for a, b, c in sub.tested}; run.matched |= sub.matched
                vals = sub.rets
                if not vals: return "stop"
                v = True if vals == {True} else (False if vals == {False} else None)
                if res is None: res = ("v", v)
                elif res[1] != v: res = ("v", None)
            return res[1]
    return None

def deleg(P, f, key, n):
    """Program functions handed the text: [(callee, key there, offset)]."""
    out = []
    if n.k not in CALLS: return out
    for g in P.targets(n):
        for i, a in enumerate(args(n)):
            r = base_off(f, a)
            if r and r[0] == key and i < len(g.params):
                if relevant(P, g): out.append((g, (g.params[i],), r[1]))
    return out

def relevant(P, g):
    return any(len(t.key) == 1 and t.key[0] in g.params for t in tests_of(P, g).values())

_memo = {}
def simulate(P, f, key, S, depth=0):
    mk = (f.key, key, S)
    if mk in _memo: return _memo[mk]
    if depth > 4 or not f.rawcfg: return None
    start, stops = scope(P, f, key)
    run = Run()
    N = noreturn(P)
    seen, st = {start.id}, [start]
    while st:
        b = st.pop()
        if b is f.exit: run.accept = True; continue
        if b.id in stops: run.accept = True; continue
        stop = b.noret
        vals = {}
        for e in b.el:
            run.nodes.append(e)
            if e.k in CALLS and (tests_of(P, f).get(e.i) is not None or deleg(P, f, key, e)):
                v = ev(P, f, key, 0, S, e, run, depth)
                if v == "stop": stop = True; break
                vals[e.i] = v
            if e.k == "CXXThrowExpr" or call_ends(P, e, N) or e.k in CALLS and callee_qn(e) in ("exit", "abort", "std::exit", "_exit", "__assert_fail"):
                stop = True; break
            if e.k == "ReturnStmt":
                v = None
                if e.ch:
                    c = const(e.ch[0])
                    v = bool(c) if c is not None and (f.d.rt or "") == "bool" else ev(P, f, key, 0, S, e.ch[0], run, depth)
                    if v == "stop": stop = True; break
                run.rets |= {v} if isinstance(v, bool) else {True, False, None}
        if stop: continue
        c = b.cond
        v = None
        if c is not None and len(b.succ) == 2:
            m = c
            while strip(m).k == "BinaryOperator" and strip(m).x["op"] in ("&&", "||"): m = strip(m).ch[1]
            v = ev(P, f, key, 0, S, m, run, depth)
            if v == "stop": continue
        for i, s in enumerate(b.succ):
            if s is None: continue
            if isinstance(v, bool) and i != (0 if v else 1): continue
            if s.term is not None and s.term.k == "CXXTryStmt" and i >= 2: continue
            if s.id not in seen: seen.add(s.id); st.append(s)
    run.rets.discard(None)
    if not run.rets and run.accept: run.rets = {True, False}
    _memo[mk] = run
    return run

def families(P):
    """(function, key, tests): every text expression examined for options."""
    out = []
    for f in P.fns.values():
        if not f.rawcfg: continue
        by = {}
        for t in tests_of(P, f).values(): by.setdefault(t.key, []).append(t)
        for n in f.nodes:
            if n.k in CALLS:
                for i, a in enumerate(args(n)):
                    r = base_off(f, a) if any(relevant(P, g) for g in P.targets(n)) else None
                    if r and len(r[0]) == 2: by.setdefault(r[0], by.get(r[0], []))
        for k, T in by.items(): out.append((f, k, T))
    return out

def all_lits(P, f, key, pre="", seen=None):
    """Option spellings examined on this text, delegation included: {(spelling, own test key, exact?)}."""
    seen = seen if seen is not None else set()
    out = []
    if (f.key, key, pre) in seen: return out
    seen.add((f.key, key, pre))
    for t in tests_of(P, f).values():
        if t.key == key and t.off == 0: out.append((t.lit, (f.key, t.node.i), t))
    for n in f.nodes:
        for g, pk, o in deleg(P, f, key, n):
            if o == 0: out += all_lits(P, g, pk, pre, seen)
    return out

def sub_lits(P, f, key, l):
    """Choices compared after the option's own prefix (in the code an argument `l...' reaches)."""
    out = set()
    r = simulate(P, f, key, l + "nosuchchoice")
    for fk, i, off in (r.tested if r is not None else ()):
        t = tests_of(P, P.fns[fk])[i]
        if off == len(l): out.add(l + t.lit)
        elif off == 0 and t.lit.startswith(l) and t.lit != l: out.add(t.lit)
    return out

def effects_of(P, f, nodes):
    """What the reached code sets: {(place, value)} for constants and text taken from the argument."""
    out = set()
    for e in nodes:
        fn = e.fn
        if e.k == "BinaryOperator" and e.x["op"] == "=" or e.k == "CXXOperatorCallExpr" and e.x.get("op") == "=" and len(e.ch) == 3:
            l, r = (e.ch[0], e.ch[1]) if e.k == "BinaryOperator" else (e.ch[1], e.ch[2])
            p = path(l)
            if p is None: continue
            out.add((pkey(p), val(r)))
        elif e.k in ("CompoundAssignOperator",):
            p = path(e.ch[0])
            if p: out.add((pkey(p), e.x["op"] + val(e.ch[1])))
        elif e.k in CALLS and e.d is not None and e.d.n in ("strcpy", "strncpy"):
            p = path(args(e)[0])
            if p: out.add((pkey(p), json_s(lit(args(e)[1])) if lit(args(e)[1]) is not None else val(args(e)[1])))
        elif e.k == "ReturnStmt" and e.ch and not (fn.d.rt or "") == "bool":
            out.add((("return " + fn.d.n,), val(e.ch[0])))
        elif e.k in CALLS and P.targets(e) and e.d.n not in ("latte_banner",) and not any(tests_of(P, g) for g in P.targets(e)):
            out.add((("call", e.d.q), ",".join(val(a) for a in args(e))))
        elif e.k in CALLS and e.d is not None and e.d.n in ("push_back", "insert", "swap", "assign"):
            out.add((("call", e.d.n), text(e)))
        elif e.k == "CXXOperatorCallExpr" and e.x.get("op") == ">>":
            p = path(e.ch[2])
            if p: out.add((pkey(p), "read"))
    return out

def json_s(s): return '"%s"' % s
def pkey(p): return tuple(x if isinstance(x, str) else (x.q or x.n) for x in p)
def val(n):
    c = const(n)
    m = strip_all(n)
    if m is not None and m.k == "DeclRefExpr" and m.d.k == "enumconst": return m.d.q or m.d.n
    if c is not None: return str(c)
    return re.sub(r"[ ()]", "", re.sub(r"\b\d+\b", "#", text(m))) if m is not None else ""

def help_texts(P, f, nodes, depth=0):
    out = []
    for e in nodes:
        for m in walk(e):
            if m.k == "StringLiteral": out.append((m, m.x.get("s", "")))
            if m.k in CALLS and depth < 2:
                for g in P.targets(m):
                    if not tests_of(P, g) and len(g.nodes) < 4000: out += help_texts(P, g, g.nodes, depth + 1)
    seen, r = set(), []
    for m, s in out:
        if (m.fn.key, m.i) not in seen: seen.add((m.fn.key, m.i)); r.append((m, s))
    return r

ADV = re.compile(r"(?:^|\n)  (--[A-Za-z0-9][A-Za-z0-9-]*)(=(?:\{([^}]*)\})?(\S*))?")

def advertised(s):
    """[(option with '=' kept, [values] or None)] from one line of help."""
    out = []
    for m in ADV.finditer(s):
        o = m.group(1)
        if m.group(2) is None: out.append((o, None)); continue
        if m.group(3) is not None:
            out.append((o + "=", [v for v in m.group(3).split(",") if v and v != "..."]))
        elif re.match(r"^[a-z][a-z0-9-]*$", m.group(4) or ""): out.append((o + "=", [m.group(4)]))
        else: out.append((o + "=", None))
    return out

VALUE = "7q3"

def check():
    P = load()
    C = Check("C08", "every option spelling, as a fixed text, is followed through the option-parsing code: its own test must be the one that takes it, every "
              "offset applied to the argument there must be the length of the spelling, unknown options and unknown choices must end in an error, "
              "different options must set different things, and every variable set must be read afterwards")
    fams = families(P)
    U = uses(C, P, fams)
    ADVS = set()
    for f, key, T in fams:
        L = all_lits(P, f, key)
        # only genuine option parsers
        opts = [l for l, _, _ in L if l.startswith("--") and len(l) > 2]
        if not opts: continue
        root = isinstance(key[0], Decl) and len(key) == 2 or True
        name = f.short
        effs = {}
        done = set()
        for l, own, t in L:
            if l in done or l in ("-", "--", "+"): continue
            done.add(l)
            # -- own test length
            if t.n is not None and t.n > len(l) and t.fn is f:
                C.bad("prefix", "C08:len:%s:%s" % (name, l), t.node, "the test looks at %d characters of `%s', which has %d: it never matches an argument with a value" % (t.n, l, len(l)))
            if l.endswith("=") and t.fn is f:
                if t.n is not None and t.n != len(l): C.bad("prefix", "C08:len:%s:%s" % (name, l), t.node, "the test compares %s characters of `%s', which has %d" % (t.n, l, len(l)))
                else: C.ok("prefix", t.node)
            S = l + VALUE if t.n is not None and l.endswith("=") else l
            run = simulate(P, f, key, S)
            if run is None: continue
            own_hit = any((fk, i) in {o for l2, o, _ in L if l2 == l} for fk, i, _ in run.matched)
            if not own_hit:
                who = sorted({m[2] for m in run.matched})
                C.bad("own", "C08:shadow:%s:%s" % (name, l), t.node, "the option `%s' never reaches its own test: %s takes it first" % (l, ", ".join("`%s'" % w for w in who) or "another branch"))
                continue
            C.ok("own", t.node, "taken by its own test")
            # -- offsets applied to the argument in the code reached
            for e in run.nodes:
                if e.k == "BinaryOperator" and e.x["op"] == "+" or e.k == "CXXMemberCallExpr" and e.d is not None and e.d.n == "substr" or e.k == "UnaryOperator" and e.x["op"] == "&":
                    r = base_off(e.fn, e)
                    if r is None or r[0] != key or e.fn is not f or r[1] == 0: continue
                    if e.p is not None and base_off(e.fn, e.p) and base_off(e.fn, e.p)[0] == key and strip_all(e.p) is not strip_all(e) and e.p.k in ("BinaryOperator",): continue
                    if any(a.i in tests_of(P, e.fn) for a in up(e)) and not l.endswith("="): continue
                    if r[1] == len(l) or r[1] == len(l) + 1 and not l.endswith("=") and t.n is not None: C.ok("offset", e)
                    else: C.bad("offset", "C08:off:%s:%s" % (name, l), e, "the value of `%s' is taken from position %d of the argument instead of %d" % (l, r[1], len(l)))
            if t.fn is f or True:
                effs[l] = (effects_of(P, f, own_nodes(P, f, key, run)), t, run)
        if not effs: continue
        # -- effects
        groups = {}
        for l, (E, t, run) in effs.items():
            if t.fn is not f: continue
            if not E and not ends(run) and l not in NOEFFECT and not mute(l, E, run, f, key):
                C.bad("effect", "C08:noeffect:%s:%s" % (name, l), t.node, "the option `%s' is accepted but changes nothing" % l)
            else: C.ok("effect", t.node)
            if not ends(run): groups.setdefault(frozenset(E), []).append(l)
        for E, ls in groups.items():
            if not E or len(ls) < 2: continue
            a = [l for l in ls]
            for i in range(len(a)):
                for j in range(i + 1, len(a)):
                    s1, s2 = stem(a[i]), stem(a[j])
                    if s1 == s2 or s1.startswith(s2) and len(s2) >= 3 and not s2.endswith("=") and "=" not in s1 and short_of(a[j], effs) or any(s1 in g and s2 in g for g in SYN): C.ok("distinct"); continue
                    C.bad("distinct", "C08:same:%s:%s/%s" % (name, a[i], a[j]), effs[a[j]][1].node, "the options `%s' and `%s' have exactly the same effect" % (a[i], a[j]))
        # -- one place for each option's value
        sink = {}
        for l, (E, t, run) in effs.items():
            if t.fn is not f or not (l.endswith("=") or t.n is not None): continue
            for e in own_nodes(P, f, key, run):
                if e.fn is not f: continue
                tgt = src = None
                if e.k == "BinaryOperator" and e.x["op"] == "=": tgt, src = e.ch
                elif e.k == "CXXOperatorCallExpr" and e.x.get("op") == "=" and len(e.ch) == 3: tgt, src = e.ch[1], e.ch[2]
                elif e.k in CALLS and e.d is not None and e.d.n in ("strcpy", "strncpy"): tgt, src = args(e)[0], args(e)[1]
                if tgt is None or path(tgt) is None: continue
                if any((base_off(f, m) or (None, 0))[0] == key and (base_off(f, m) or (None, 0))[1] > 0 for m in walk(src)):
                    k = pkey(path(tgt))
                    if k[-1] in SHARED: continue
                    o = sink.setdefault(k, (l, e))
                    ka, kb = ({x[0] for x in effs[q][0]} - {k} for q in (o[0], l))
                    mode = bool(ka - kb) != bool(kb - ka)       # one of them also switches a mode that tells them apart
                    if o[0] != l and not mode and not any(stem(o[0]) in g and stem(l) in g for g in SYN):
                        C.bad("sink", "C08:sink:%s:%s/%s" % (name, o[0], l), e, "the value of `%s' is stored where `%s' stores its value" % (l, o[0]))
                    else: C.ok("sink", e)
        # complete effects with the initial values of the fields
        near(C, P, f, name, effs)
        # -- enumerated values
        for l, (E, t, run) in effs.items():
            if not l.endswith("="): continue
            V = sub_lits(P, f, key, l)
            if len(V) < 2: continue
            if t.fn is not f: continue
            ve = {}
            for v in sorted(V):
                r = simulate(P, f, key, v)
                if r is None: continue
                if not accepted(f, r): C.bad("choice", "C08:choice:%s:%s" % (name, v), t.node, "the choice `%s' is tested for but cannot be accepted" % v); continue
                C.ok("choice", t.node)
                ve[v] = frozenset(effects_of(P, f, r.nodes))
            vs = list(ve)
            for i in range(len(vs)):
                for j in range(i + 1, len(vs)):
                    s1, s2 = vs[i][len(l):], vs[j][len(l):]
                    if ve[vs[i]] != ve[vs[j]] or any(s1 in g and s2 in g for g in SYN): C.ok("choice-distinct"); continue
                    C.bad("choice-distinct", "C08:same:%s:%s/%s" % (name, vs[i], vs[j]), t.node, "the choices `%s' and `%s' have exactly the same effect" % (vs[i], vs[j]))
            r = simulate(P, f, key, l + "nosuchchoice")
            if r is not None:
                if accepted(f, r): C.bad("refuse", "C08:refuse:%s:%s" % (name, l), t.node, "an unknown choice for `%s' is accepted" % l)
                else: C.ok("refuse", t.node, "unknown choice refused")
        # -- unknown option
        r = simulate(P, f, key, "--nosuchoption")
        if r is not None:
            w = "%s:%d (%s)" % (f.file, f.line, name)
            if accepted(f, r):
                C.bad("refuse", "C08:refuse:%s" % name, w, "an unknown option starting with `--' is accepted")
            else: C.ok("refuse", w, "unknown option refused")
        # -- advertised options
        if len(key) == 2 or any(x.startswith("--") for x in opts):
            hr = simulate(P, f, key, "--help") if any(l in ("--help",) for l, _, _ in L) else None
            if hr is not None:
                for m, s in help_texts(P, f, own_nodes(P, f, key, hr, all_=True)):
                    for o, vals in advertised(s):
                        for S in ([o + v for v in vals] if vals else [o + (VALUE if o.endswith("=") else "")]):
                            r = simulate(P, f, key, S)
                            if r is None: continue
                            own = any((fk, i) in {q for l2, q, _ in L if l2 in (o, S)} for fk, i, _ in r.matched)
                            if (f.key, o) not in ADVS:
                                ADVS.add((f.key, o))
                                used(C, P, f, key, o, r, U, m)
                            if not own or vals and not accepted(f, r): C.bad("advertised", "C08:help:%s:%s" % (name, S.replace(VALUE, "")), m, "the help advertises `%s', which the program does not take as such" % S.replace(VALUE, "..."))
                            else: C.ok("advertised", m)
    for f, l, e, tgt in LOST:
        if (f.key, l) in ADVS:
            C.bad("kept", "C08:dead:%s:%s:%s" % (f.short, l, text(tgt)), e, "what `%s' stores in %s is overwritten on every path before it is read" % (l, text(tgt)))
    C.floor("own", 90); C.floor("advertised", 40); C.floor("refuse", 8); C.floor("offset", 30); C.floor("choice", 10)
    return C.finish(P)

def used(C, P, f, key, o, run, U, m):
    """The advertised option o has an effect that lasts."""
    whys, other = [], False
    for e in own_nodes(P, f, key, run):
        hit = False
        for (fk, l), es in U.items():
            for e2, w in es:
                if e2 is e:
                    hit = True
                    if w is None: C.ok("lasting", e); return
                    whys.append(w)
        if not hit and (e.k in ("CompoundAssignOperator", "CXXThrowExpr") or e.k in CALLS and P.targets(e) and not any(tests_of(P, g) for g in P.targets(e))): other = True
    if whys and not other: C.bad("lasting", "C08:useless:%s:%s" % (f.short, o), m, "`%s' is advertised but has no lasting effect: %s" % (o, "; ".join(sorted(set(whys)))))
    else: C.ok("lasting", m)

def up(n):
    while n is not None:
        yield n
        n = n.p

def short_of(l, effs): return False

def ends(run): return not run.accept and not (run.rets & {True})

def accepted(f, run):
    if (f.d.rt or "") == "bool": return True in run.rets
    return run.accept or bool(run.rets)

def mute(l, E, run, f, key): return False

def own_nodes(P, f, key, run, all_=False):
    """Reached nodes that are only there because of the option (not reached by an unknown plain argument)."""
    if all_: return run.nodes
    base = simulate(P, f, key, "\x01")
    bs = {(n.fn.key, n.i) for n in base.nodes} if base is not None else set()
    return [n for n in run.nodes if (n.fn.key, n.i) not in bs]

def init_value(P, pk):
    """Value the constructor gives to a field, or None."""
    q = pk[-1]
    if "::" not in q: return None
    cls = q.rsplit("::", 1)[0]
    for g in P.fns.values():
        if g.cls == cls and g.d.x.get("ctor") is not None or g.cls == cls and g.d.n == cls.rsplit("::", 1)[-1]:
            for e in g.nodes:
                if e.k == "BinaryOperator" and e.x["op"] == "=" and path(e.ch[0]) and pkey(path(e.ch[0]))[-1] == q: return val(e.ch[1])
                if e.k in CALLS and e.d is not None and e.d.n == "strcpy" and path(args(e)[0]) and pkey(path(args(e)[0]))[-1] == q and lit(args(e)[1]) is not None: return json_s(lit(args(e)[1]))
            for i in g.inits:
                if i.d is not None and (i.d.q or i.d.n) == q and i.ch: return val(i.ch[0])
    return None

def near(C, P, f, name, effs):
    """Two options whose effects coincide once unset fields get their initial values."""
    ls = [l for l, (E, t, r) in effs.items() if E and t.fn is f and not ends(r)]
    for i in range(len(ls)):
        for j in range(i + 1, len(ls)):
            a, b = dict(effs[ls[i]][0]), dict(effs[ls[j]][0])
            if a == b or len(a) < 3 or len(b) < 3: continue
            if abs(len(a) - len(b)) > 1: continue
            ka, kb = set(a), set(b)
            if not (ka <= kb or kb <= ka): continue
            big, small = (a, b) if len(a) >= len(b) else (b, a)
            if all((small[k] if k in small else init_value(P, k)) == v for k, v in big.items()):
                C.bad("distinct", "C08:same:%s:%s/%s" % (name, ls[i], ls[j]), effs[ls[j]][1].node, "the options `%s' and `%s' have the same effect: what they leave unset already has that value" % (ls[i], ls[j]))

def set_places(P, fams):
    out = []
    for f, key, T in fams:
        L = all_lits(P, f, key)
        if not any(l.startswith("--") and len(l) > 2 for l, _, _ in L): continue
        seen = set()
        for l, own, t in L:
            S = l + VALUE if t.n is not None and l.endswith("=") else l
            run = simulate(P, f, key, S)
            if run is None: continue
            for e in own_nodes(P, f, key, run):
                if e.fn is not f or e.i in seen: continue
                tgt = None
                if e.k == "BinaryOperator" and e.x["op"] == "=": tgt = e.ch[0]
                elif e.k == "CXXOperatorCallExpr" and e.x.get("op") == "=": tgt = e.ch[1]
                elif e.k in CALLS and e.d is not None and e.d.n == "strcpy": tgt = args(e)[0]
                if tgt is None: continue
                p = path(tgt)
                if p is None: continue
                seen.add(e.i); out.append((f, l, e, tgt, p))
    return out

def is_write_target(n):
    """n is the place assigned (not read)."""
    c, p = n, n.p
    while p is not None and (p.k in TRANSPARENT or p.x.get("xc")) and p.x.get("ck") != "LValueToRValue": c, p = p, p.p
    if p is None: return False
    if p.k in ("BinaryOperator",) and p.x["op"] == "=" and p.ch[0] is c: return True
    if p.k == "CXXOperatorCallExpr" and p.x.get("op") == "=" and len(p.ch) == 3 and p.ch[1] is c: return True
    if p.k in CALLS and p.d is not None and p.d.n in ("strcpy", "strncpy") and args(p) and strip(args(p)[0]) is strip(c): return True
    return False

LOST = []
def uses(C, P, fams):
    """Something an advertised option sets is read afterwards: it is neither overwritten on every path nor never looked at."""
    reads = set()
    for g in P.fns.values():
        for n in g.nodes:
            if n.k in ("MemberExpr", "DeclRefExpr") and n.d is not None and n.d.k in ("field", "global", "local", "parm"):
                if is_write_target(n): continue
                a = n
                while a is not None and (a.k in TRANSPARENT or a is n): a = a.p
                if a is not None and a.k == "BinaryOperator" and a.x["op"] == "=" and path(a.ch[0]) and path(a.ch[0])[-1] is n.d: continue
                reads.add(id(n.d))
    per = {}
    for f, l, e, tgt, p in set_places(P, fams):
        last = [x for x in p if isinstance(x, Decl)]
        why = None
        if last and id(last[-1]) not in reads and last[-1].q not in READ_ELSEWHERE: why = "%s is never read" % text(tgt)
        elif tgt is not None and isinstance(p[0], Decl) and p[0].k == "local" and dead(P, f, e, p):
            why = "%s is overwritten on every path before it is read" % text(tgt)
            if any(touches(P, f, n, p, True) == "read" for b in f.cfg().values() for n in b.el):
                LOST.append((f, l, e, tgt))
        else: C.ok("kept", e)
        per.setdefault((f.key, l), []).append((e, why))
    return per

def dead(P, f, e, p):
    """Walk forward from e; True when no path reaches a read of p's place before an overwrite."""
    pos = f.pos(e)
    if pos is None: return False
    root, leaf = p[0], p
    esc = escapes(P, f, root)
    seen, st = set(), [(pos[0], pos[1] + 1)]
    while st:
        bid, j = st.pop()
        b = f.blocks[bid]
        killed = False
        for n in b.el[j:]:
            if n.k == "CXXThrowExpr" or call_ends(P, n, noreturn(P)): killed = True; break
            r = touches(P, f, n, p, esc)
            if r == "read": return False
            if r == "kill": killed = True; break
        if killed: continue
        if b is f.exit:
            if root.k != "local" or esc: return False
            continue
        if b.noret: continue
        for s in b.succ:
            if s is not None and s.id not in seen: seen.add(s.id); st.append((s.id, 0))
    return True

def looks_at(P, g, d):
    """Function g, or something it calls, reads field d (or copies whole objects holding it)."""
    m = P.__dict__.setdefault("_c08look", {})
    k = (g.key, id(d))
    if k in m: return m[k]
    seen, st, r = {g.key}, [g], False
    while st and not r:
        h = st.pop()
        for n in h.nodes:
            if n.k == "MemberExpr" and n.d is d and not is_write_target(n): r = True; break
            if n.k in CALLS or n.k in CTORS:
                if n.d is not None and n.d.x.get("imp"): r = True; break
                for t in P.targets(n):
                    if t.key not in seen: seen.add(t.key); st.append(t)
    m[k] = r
    return r

def escapes(P, f, root):
    if root.k != "local": return True
    if (root.t or "").rstrip().endswith(("*", "&")): return True
    return False

def touches(P, f, n, p, esc):
    """Effect of CFG element n on place p."""
    tgt = None
    if n.k == "BinaryOperator" and n.x["op"] == "=": tgt = n.ch[0]
    elif n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=" and len(n.ch) == 3: tgt = n.ch[1]
    elif n.k in CALLS and n.d is not None and n.d.n == "strcpy": tgt = args(n)[0]
    if tgt is not None:
        q = path(tgt)
        if q == p and "[]" not in q: return "kill"
        return None
    if n.k in CALLS or n.k in CTORS:
        if n.d is not None and n.d.n in ("strcpy", "strcmp", "strncmp"): pass
        T = P.targets(n)
        if T and all(relevant(P, g) and any(t.lit.startswith("--") for t in tests_of(P, g).values()) for g in T): return None     # parses the next option
        if T and isinstance(p[-1], Decl) and p[-1].k == "field" and not any(looks_at(P, g, p[-1]) for g in T): return None
        if esc and T and p[0].k in ("global",): return "read"
        for m in ([obj(n)] if obj(n) is not None else []) + list(args(n)):
            q = path(m)
            if q is not None and len(q) <= len(p) and tuple(q) == tuple(p[:len(q)]): return "read"
            v = vdecl(m)
            if v is not None and v is p[0]: return "read"
        return None
    if n.k in ("DeclRefExpr", "MemberExpr") and not is_write_target(n):
        q = path(n)
        if q == p: 
            # plain evaluation of the place: a read unless it only names a prefix
            return "read"
        if q is not None and len(q) < len(p) and tuple(q) == tuple(p[:len(q)]):
            # a whole object mentioned other than to select a member
            c, pp = n, n.p
            while pp is not None and pp.k in TRANSPARENT: c, pp = pp, pp.p
            if pp is not None and (pp.k in ("MemberExpr", "ArraySubscriptExpr") or pp.k in CALLS): return None    # the call itself is examined
            if pp is not None and pp.k == "CXXOperatorCallExpr" and pp.x.get("op") == "->": return None
            return "read"
        if q is not None and len(q) > len(p) and tuple(q[:len(p)]) == tuple(p): return "read"
    return None
