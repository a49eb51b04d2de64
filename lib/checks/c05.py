"""C05: text from outside never reaches a shell unquoted, and the quoting routine neutralises every byte."""
from model import *
from taint import Origins
from report import Check, site

SINKS = {"system": 0, "popen": 0, "std::system": 0, "execl": None, "execlp": None, "execv": None, "execvp": None, "wordexp": 0}
QUOTE = "shell_quote"
OUTSIDE = {"ARGV": "a command-line argument", "ENV": "an environment variable", "INPUT": "text read from a file or stdin",
           "DIRENT": "a name read from the file system"}

def is_texty(d):
    t = d.t
    return "char" in t or "string" in t or "stream" in t or "Parse" in t or not any(
        t.replace("const ", "").rstrip(" &*").startswith(x) for x in ("int", "long", "unsigned", "double", "float", "bool", "NTL::", "mpz", "mpq", "__gmp"))

def instream(t):
    t = t or ""
    return ("istream" in t or "ifstream" in t or "iostream" in t or "_IO_FILE" in t or "istringstream" in t and False)

def check():
    P = load()
    C = Check("C05", "Taint over the whole program (resolved calls, flow-insensitive, field-based): command-line arguments, environment, "
              "stream input are followed through strings, char buffers, fields, parameters and returns to every argument of "
              "system/popen/exec; only the result of the quoting routine stops them. The quoting routine itself is checked by abstract "
              "interpretation over byte classes against the POSIX shell lexer.")
    quoters = {f.d.q for f in P.fn_named(QUOTE)}
    def source(n):
        if n.k == "DeclRefExpr" and n.d.k == "parm" and n.fn is not None and n.fn.d.n == "main" and "char **" in n.d.t:
            return ["ARGV"]
        if n.k == "DeclRefExpr" and n.d.k == "global" and n.d.n == "optarg": return ["ARGV"]
        if n.k == "CallExpr" and callee_qn(n) in ("getenv", "std::getenv", "secure_getenv"): return ["ENV", "STOP"]
        if n.k == "CallExpr" and callee_qn(n) in ("readdir",): return ["DIRENT", "STOP"]
        if n.k in ("DeclRefExpr", "MemberExpr") and n.d.k in ("local", "parm", "global", "field") and instream(n.d.t): return ["INPUT"]
        return None
    def sanitize(n):
        if n.d is not None and n.d.k == "fn" and n.d.q in quoters: return ["QUOTED"]
        return None
    O = Origins(P, source, sanitize, type_filter=is_texty)
    # functions whose parameter is handed to a shell
    sink_param = {}
    sites = []
    for f in P.fns.values():
        for n in f.nodes:
            if n.k == "CallExpr" and callee_qn(n) in SINKS: sites.append((n, args(n)[0]))
    if not sites: raise AnalysisError("no shell execution site found")
    done = set()
    i = 0
    allsites = list(sites)
    while i < len(allsites):
        n, a = allsites[i]; i += 1
        reach = backward_params(O, n.fn, a)
        for p in reach:
            if (n.fn.key, p.ix) in done: continue
            done.add((n.fn.key, p.ix)); sink_param[(n.fn.key, p.ix)] = p
            for c in P.callers().get(n.fn.key, []):
                A = args(c)
                if p.ix < len(A): allsites.append((c, A[p.ix]))
    params = set(sink_param.values())
    for n, a in allsites:
        bad = taint_not_via(O, a, params, n.fn)
        C.count("shell_sinks" if callee_qn(n) in SINKS else "shell_call_sites")
        if bad:
            l = sorted(bad)[0]
            C.bad("shell_text", "shell|%s|%s" % (n.fn.short, bad[l]), n,
                  "%s reaches a shell command without passing the quoting routine (%s)" % (OUTSIDE[l], bad[l]))
        else:
            C.ok("shell_text", n, "labels: " + ",".join(sorted(map(str, O.labels(a)))) )
    C.count("quoted_arguments", sum(len(P.callers().get(q, [])) for q in quoters))
    for f in P.fn_named(QUOTE): quote_rule(P, C, f)
    C.floor("shell_text", 40); C.floor("quoted_arguments", 20); C.floor("quote_lexer", 3)
    C.notes = ["numeric types carry no shell text", "external functions propagate all arguments to results and mutable arguments"]
    return C.finish(P)

def backward_params(O, fn, a):
    """Parameters of fn from which the value of a can come inside fn."""
    back = {}
    for s, ds in O.edges.items():
        for d in ds: back.setdefault(d, set()).add(s)
    N, _ = O.ev(a)
    seen, st, out = set(), list(N), []
    P = set(fn.params)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x in P: out.append(x); continue
        if isinstance(x, tuple): continue
        if x.k == "local": st.extend(back.get(x, ()))
    return out

def taint_not_via(O, a, params, fn):
    """Outside labels of a that do not come solely through a parameter that is itself a checked sink parameter."""
    N, L = O.ev(a)
    back = {}
    for s, ds in O.edges.items():
        for d in ds: back.setdefault(d, set()).add(s)
    res = {}
    for l in L:
        if l in OUTSIDE: res[l] = text(a)[:60]
    seen, st = set(), [(x, x) for x in N]
    while st:
        x, root = st.pop()
        if x in seen or x in params: continue
        seen.add(x)
        for l in O.seed.get(x, ()):
            if l in OUTSIDE and l not in res:
                w = O.witness.get((x, l))
                res[l] = "%s from %s" % (x[1] if isinstance(x, tuple) else x.n, text(w)[:60])
        for s in back.get(x, ()): st.append((s, root))
    return res

# ---- the quoting routine ----
SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+/.,:=@%^")
SPECIAL = "'"

class Unknown(Exception): pass

def quote_rule(P, C, f):
    """Abstract interpretation of the quoting routine: the argument's bytes are abstracted to the classes quote character /
    other unsafe / safe; the emitted text is fed to a POSIX shell lexer automaton (states outside, inside single quotes,
    after backslash outside, inside double quotes)."""
    arg = f.params[0]
    res = None
    cfg = f.cfg()
    # the returned builder variable(s)
    rets = [n for n in f.nodes if n.k == "ReturnStmt" and n.ch]
    if not rets: raise AnalysisError("quoting routine without return")
    raw_returns, built = [], []
    for r in rets:
        v = rootvar(r.ch[0])
        if v is arg: raw_returns.append(r)
        elif v is not None and v.k == "local": built.append((r, v))
        else: raise AnalysisError("quoting routine returns an unrecognised expression: " + text(r))
    # 1. raw return only for arguments made of safe characters, and not empty
    for r in raw_returns:
        g = guards(f, r)
        safe, nonempty, why = False, False, []
        for cond, taken in g:
            s, e = cond_meaning(f, cond, taken, arg)
            safe |= s; nonempty |= e
        if safe: C.ok("quote_lexer", r, "returned unquoted only when every character is in the safe set")
        else: C.bad("quote_lexer", "quote|%s|raw-unsafe" % f.short, r, "the quoting routine returns its argument unquoted without having established that it holds only safe characters")
        if nonempty: C.ok("quote_lexer", r, "an empty argument is quoted")
        else: C.bad("quote_lexer", "quote|%s|raw-empty" % f.short, r, "an empty argument is returned unquoted, so the word vanishes from the command line")
    # 2. built returns
    for r, v in built:
        msg = lex_builder(f, v, arg, r)
        if msg is None: C.ok("quote_lexer", r, "for every byte class the emitted text lexes as one shell word equal to the argument")
        else: C.bad("quote_lexer", "quote|%s|%s" % (f.short, msg[0]), r, msg[1])

def rootvar(n):
    n = strip(n)
    while n is not None and n.k in CTORS and len(n.ch) >= 1: n = strip(n.ch[0])
    return vdecl(n) if n is not None else None

def guards(f, n):
    """Conditions (node, truth) that hold whenever n is evaluated: branch edges dominating it."""
    cfg = f.cfg()
    pos = f.pos(n)
    out = []
    if pos is None: return out
    dom = dominators(f)
    for b in cfg.values():
        if b.cond is None or len(b.succ) != 2: continue
        for idx, s in enumerate(b.succ):
            o = b.succ[1 - idx]
            if s is None: continue
            # edge b->s dominates n if removing it makes n unreachable
            if not reach_without(f, (b.id, idx), pos[0]): out.append((b.cond, idx == 0))
    return out

def reach_without(f, edge, target):
    seen, st = set(), [f.entry]
    while st:
        b = st.pop()
        if b.id in seen: continue
        seen.add(b.id)
        if b.id == target: return True
        for i, s in enumerate(b.succ):
            if s is None or (b.id, i) == edge: continue
            st.append(s)
    return False

def cond_meaning(f, cond, taken, arg, depth=0):
    """(all characters safe, argument nonempty) implied by cond having the given truth value."""
    n = strip(cond)
    if depth > 5: return False, False
    if n.k == "UnaryOperator" and n.x["op"] == "!": return cond_meaning(f, n.ch[0], not taken, arg, depth + 1)
    if n.k == "BinaryOperator" and n.x["op"] in ("&&", "||"):
        both = (n.x["op"] == "&&") == taken
        a, b = cond_meaning(f, n.ch[0], taken, arg, depth + 1), cond_meaning(f, n.ch[1], taken, arg, depth + 1)
        return (a[0] or b[0], a[1] or b[1]) if both else (a[0] and b[0], a[1] and b[1])
    if n.k in ("BinaryOperator",) and n.x["op"] in ("==", "!=", ">", "<"):
        l, r = strip(n.ch[0]), strip(n.ch[1])
        eq = (n.x["op"] == "==") == taken
        for x, y in ((l, r), (r, l)):
            call = resolve_local(f, x)
            if call is None or call.k != "CXXMemberCallExpr": continue
            if vdecl(obj(call)) is not arg: continue
            m = call.d.n
            if m == "find_first_not_of" and is_npos(y) and n.x["op"] in ("==", "!="):
                s = strlit(args(call)[0])
                if s is not None and set(s) <= SAFE and eq: return True, False
            if m in ("size", "length"):
                c = const(y)
                if c == 0 and n.x["op"] in ("==", "!="): return False, not eq
                if c == 0 and ((n.x["op"] == ">" and x is l) or (n.x["op"] == "<" and x is r)): return False, taken
        # comparison with the empty string
    if n.k == "CXXOperatorCallExpr" and n.x.get("op") in ("==", "!="):
        eq = (n.x["op"] == "==") == taken
        ops = n.ch[1:]
        if any(vdecl(o) is arg for o in ops) and any(strlit(o) == "" for o in ops): return False, not eq
    call = resolve_local(f, n)
    if call is not None and call.k == "CXXMemberCallExpr" and call.d.n == "empty" and vdecl(obj(call)) is arg:
        return False, not taken
    # a boolean local decided elsewhere
    if call is not None and call is not n: return cond_meaning(f, call, taken, arg, depth + 1)
    return False, False

def is_npos(n):
    n = strip(n, explicit=True)
    if n is None: return False
    if n.k in ("DeclRefExpr", "MemberExpr") and n.d.n == "npos": return True
    return const(n) in (-1, 18446744073709551615)

def strlit(n):
    for m in walk(n):
        if m.k == "StringLiteral": return m.x.get("s")
    v = vdecl(n)
    if v is not None and v.k in ("local", "global") and n.fn is not None:
        for m in n.fn.nodes:
            if m.k == "VarDecl" and m.d is v and m.ch: return strlit(m.ch[0])
        for g in load().globals.values():
            if g["d"] is v and g["init"] is not None: return strlit(g["init"])
    return None

def resolve_local(f, n):
    """n itself, or the single initialiser of the local it names."""
    n = strip(n, explicit=True)
    v = vdecl(n)
    if v is not None and v.k == "local":
        defs = [m for m in f.nodes if m.k == "VarDecl" and m.d is v and m.ch]
        asg = [m for m in f.nodes if m.k == "BinaryOperator" and m.x["op"] == "=" and vdecl(m.ch[0]) is v]
        if len(defs) == 1 and not asg: return strip(defs[0].ch[0], explicit=True)
        if not defs and len(asg) == 1: return strip(asg[0].ch[1], explicit=True)
        return None
    return n

# lexer states: "O" outside, "S" single-quoted, "B" backslash outside, "D" double-quoted, "DB" backslash in double quotes
def lex(state, ch):
    """One literal character written by the routine. Returns (state, decoded char or '')."""
    if state == "O":
        if ch == "'": return "S", ""
        if ch == '"': return "D", ""
        if ch == "\\": return "B", ""
        if ch in SAFE: return "O", ch
        return "ERR", "unquoted special character %r emitted" % ch
    if state == "S": return ("O", "") if ch == "'" else ("S", ch)
    if state == "B": return "O", ch
    if state == "D":
        if ch == '"': return "O", ""
        if ch == "\\": return "DB", ""
        if ch in "$`!": return "ERR", "expansion inside double quotes"
        return "D", ch
    if state == "DB": return "D", (ch if ch in '$`"\\' else "\\" + ch)
    return "ERR", ""

def lex_cur(state, cls):
    """The current argument character, of a class, is emitted verbatim."""
    if cls == "quote": return lex(state, "'")
    if cls == "safe": return lex(state, "a")
    # other: any unsafe byte except the quote
    if state == "S": return "S", "?"
    if state == "B": return "O", "?"    # backslash-newline would vanish, see below
    return "ERR", "an unsafe byte of the argument is emitted outside quotes"

def lex_builder(f, v, arg, ret):
    """Explore the routine's CFG with (lexer state, class of current character, decoded so far this iteration)."""
    cfg = f.cfg()
    curvars = current_char_vars(f, arg)
    # state: (block, lex, cls, pending) pending: what this iteration decoded so far; cls None before/after the loop
    start = (f.entry.id, "O", None, "", False)
    seen, st = set(), [start]
    retpos = f.pos(ret)
    reached = False
    while st:
        s = st.pop()
        if s in seen: continue
        seen.add(s)
        if len(seen) > 20000: raise AnalysisError("quoting routine too complex")
        bid, lx, cls, dec, emitted = s
        b = cfg[bid]
        states = [(lx, cls, dec)]
        for e in b.el:
            new = []
            for (lx1, c1, d1) in states:
                em = emission(f, e, v, arg, curvars)
                if em is None: new.append((lx1, c1, d1)); continue
                if c1 is None and any(x is CUR for x in em): raise AnalysisError("quoting routine emits a character outside its loop")
                for x in em:
                    if x is CUR: lx1, o = lex_cur(lx1, c1); o = {"quote": "'", "safe": "a", "other": "?"}[c1] if o and lx1 != "ERR" else o
                    else: lx1, o = lex(lx1, x)
                    if lx1 == "ERR": return ("escape", o + " (argument character class: %s)" % (c1 or "none"))
                    d1 += o
                if len(d1) > 8: return ("decode", "decoded text differs from the argument")
                new.append((lx1, c1, d1))
            states = new
        if bid == retpos[0]:
            reached = True
            for (lx1, c1, d1) in states:
                if lx1 != "O": return ("unterminated", "the quoted text can end inside a quotation (%s)" % lx1)
        for (lx1, c1, d1) in states:
            loophead = b.cond is not None and b.term is not None and b.term.k in LOOPS and is_char_loop(f, b, arg, curvars)
            if loophead:
                if c1 is not None:
                    want = {"quote": "'", "safe": "a", "other": "?"}[c1]
                    if d1 != want:
                        return ("char-%s" % c1, "a %s in the argument is emitted so that a shell reads %s instead of the character itself" %
                                ({"quote": "quote character", "safe": "safe character", "other": "special character"}[c1], repr(d1) if d1 else "nothing"))
                body, out = b.succ[0], b.succ[1]
                if body is not None:
                    for c in ("quote", "safe", "other"): st.append((body.id, lx1, c, "", emitted))
                if out is not None: st.append((out.id, lx1, None, "", emitted))
                continue
            taken = None
            if b.cond is not None and len(b.succ) == 2 and c1 is not None:
                taken = eval_cond(b.cond, c1, arg, curvars)
            if b.term is not None and b.term.k == "SwitchStmt" and c1 is not None and is_cur(b.cond, arg, curvars):
                chosen, dflt = [], None
                for sb in b.succ:
                    if sb is None: continue
                    if sb.label is not None and sb.label.k == "CaseStmt":
                        cv = const(sb.label.ch[0])
                        ch = chr(cv & 255) if cv is not None else None
                        kc = "quote" if ch == "'" else ("safe" if ch in SAFE else "other")
                        if kc == c1:
                            chosen.append(sb)
                    else: dflt = sb
                if not (c1 == "quote" and chosen) and dflt is not None: chosen.append(dflt)
                for sb in chosen: st.append((sb.id, lx1, c1, d1, emitted))
                continue
            for idx, sb in enumerate(b.succ):
                if sb is None: continue
                if taken is not None and (idx == 0) != taken: continue
                st.append((sb.id, lx1, c1, d1, emitted))
    if not reached: raise AnalysisError("quoting routine: return not reached")
    return None

CUR = object()

def current_char_vars(f, arg):
    """Locals that stand for the current character or an iterator over the argument."""
    it, cur = set(), set()
    changed = True
    while changed:
        changed = False
        for n in f.nodes:
            if n.k != "VarDecl" or not n.ch: continue
            v, init = n.d, n.ch[0]
            if v in it or v in cur: continue
            i = strip(init, explicit=True)
            while i is not None and i.k in CTORS and len(i.ch) == 1: i = strip(i.ch[0], explicit=True)
            if i is None: continue
            if vdecl(i) is arg and "string" in v.t: it.add(v); changed = True; continue   # __range
            if i.k == "CXXMemberCallExpr" and obj(i) is not None and (vdecl(obj(i)) is arg or vdecl(obj(i)) in it) and i.d.n in ("begin", "cbegin", "end", "cend", "data", "c_str", "size", "length"):
                it.add(v); changed = True; continue
            if is_cur(i, arg, (it, cur)) and "char" in v.t: cur.add(v); changed = True
    return it, cur

def is_cur(n, arg, cv):
    it, cur = cv
    n = strip(n, explicit=True)
    if n is None: return False
    v = vdecl(n)
    if v is not None: return v in cur
    if n.k in ("ArraySubscriptExpr",):
        b = strip(n.ch[0]); return vdecl(b) is arg or vdecl(b) in it
    if n.k == "CXXOperatorCallExpr" and n.x["op"] == "[]": return vdecl(n.ch[1]) is arg or vdecl(n.ch[1]) in it
    if n.k == "CXXOperatorCallExpr" and n.x["op"] == "*" : return vdecl(n.ch[1]) in it
    if n.k == "UnaryOperator" and n.x["op"] == "*": return vdecl(n.ch[0]) in it
    if n.k == "CXXMemberCallExpr" and n.d is not None and n.d.n == "at": return vdecl(obj(n)) is arg
    return False

def is_char_loop(f, b, arg, cv):
    """The loop's condition or body refers to the argument's characters."""
    for m in walk(b.term):
        if is_cur(m, arg, cv): return True
    return False

def emission(f, e, v, arg, cv):
    """Characters appended to builder v by CFG element e, or None."""
    def chars(n, rep=1):
        n0 = strip(n, explicit=True)
        if is_cur(n0, arg, cv): return [CUR] * rep
        c = None
        if n0.k == "CharacterLiteral" or (const(n0) is not None and "char" in (n0.t or "")):
            return [chr(const(n0) & 255)] * rep
        s = strlit(n0)
        if s is not None: return list(s) * rep
        raise AnalysisError("quoting routine appends an unrecognised expression: " + text(n))
    if e.k == "VarDecl" and e.d is v:
        if e.ch:
            i = strip(e.ch[0])
            while i.k in CTORS and len(i.ch) == 1: i = strip(i.ch[0])
            if i.k in CTORS and not i.ch: return None
            if i.k in CTORS and len(i.ch) >= 2:
                if const(i.ch[0]) is not None and "char" in (strip(i.ch[1]).t or ""): return chars(i.ch[1], const(i.ch[0]))
                return chars(i.ch[0])
            return chars(i)
        return None
    if e.k == "CXXMemberCallExpr" and obj(e) is not None and vdecl(obj(e)) is v and not e.d.x.get("c"):
        a = args(e)
        if e.d.n == "push_back": return chars(a[0])
        if e.d.n == "append":
            if len(a) >= 2 and const(a[0]) is not None: return chars(a[1], const(a[0]))
            return chars(a[0])
        if e.d.n in ("reserve", "begin", "end", "shrink_to_fit"): return None
        raise AnalysisError("quoting routine modifies its result with %s" % e.d.n)
    if e.k == "CXXOperatorCallExpr" and e.x["op"] == "+=" and vdecl(e.ch[1]) is v: return chars(e.ch[2])
    if e.k == "CXXOperatorCallExpr" and e.x["op"] == "=" and vdecl(e.ch[1]) is v:
        r = strip(e.ch[2])
        if r.k == "CXXOperatorCallExpr" and r.x["op"] == "+" and vdecl(r.ch[1]) is v: return chars(r.ch[2])
        if strlit(r) == "" : return None
        raise AnalysisError("quoting routine reassigns its result: " + text(e))
    return None

def eval_cond(c, cls, arg, cv):
    """Truth of a test of the current character for a character class, or None when undetermined."""
    n = strip(c, explicit=True)
    if n.k == "UnaryOperator" and n.x["op"] == "!":
        r = eval_cond(n.ch[0], cls, arg, cv); return None if r is None else not r
    if n.k == "BinaryOperator" and n.x["op"] in ("==", "!="):
        for x, y in ((n.ch[0], n.ch[1]), (n.ch[1], n.ch[0])):
            if is_cur(x, arg, cv) and const(y) is not None:
                ch = chr(const(y) & 255)
                k = "quote" if ch == "'" else ("safe" if ch in SAFE else "other")
                if k != cls: r = False
                elif cls == "quote": r = True
                else: return None
                return r if n.x["op"] == "==" else not r
    return None
