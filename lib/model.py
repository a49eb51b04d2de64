"""Program model over the extracted facts: resolved syntax trees, control-flow graphs, classes, call graph."""
import json, os, sys
from collections import defaultdict
import build
from build import AnalysisError, REPO, VERIF

TRANSPARENT = {"ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
               "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "OpaqueValueExpr"}
CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"}
CTORS = {"CXXConstructExpr", "CXXTemporaryObjectExpr"}
LOOPS = {"ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"}

class Decl:
    __slots__ = ("k", "n", "t", "q", "qn", "rt", "pt", "cls", "ix", "x", "file", "line", "uid", "def_")
    def __repr__(self): return "<%s %s>" % (self.k, self.q or self.n)

class Node:
    __slots__ = ("i", "k", "t", "line", "col", "ch", "x", "p", "fn", "d")
    def __repr__(self): return "<%s@%d %s>" % (self.k, self.line, text(self)[:60])

class Block:
    __slots__ = ("id", "el", "term", "cond", "succ", "pred", "noret", "label", "fn")
    def __repr__(self): return "<B%d>" % self.id

class Fn:
    __slots__ = ("key", "d", "file", "line", "eline", "params", "nodes", "body", "inits", "_cfg", "blocks", "entry", "exit",
                 "cls", "imp", "ti", "_pos", "rawcfg", "_cache", "tu")
    def __repr__(self): return "<Fn %s>" % self.key
    @property
    def name(self): return self.d.n
    @property
    def qn(self): return self.d.qn
    @property
    def short(self): return self.d.qn or self.d.n

    def cfg(self):
        if self._cfg is not None:
            return self._cfg
        bl = {}
        raw = self.rawcfg
        if raw is None:
            self._cfg = {}
            return self._cfg
        for (bid, el, term, cond, succ, noret, lab) in raw["b"]:
            b = Block()
            b.id, b.el = bid, [self.nodes[e] for e in el]
            b.term = self.nodes[term] if term >= 0 else None
            b.cond = self.nodes[cond] if cond >= 0 else None
            b.succ, b.pred, b.noret, b.fn = succ, [], bool(noret), self
            b.label = self.nodes[lab] if lab >= 0 else None
            bl[bid] = b
        for b in bl.values():
            b.succ = [bl[s] if s >= 0 else None for s in b.succ]
        self._add_eh(bl)
        for b in bl.values():
            for s in b.succ:
                if s is not None and b not in s.pred:
                    s.pred.append(b)
        self.entry, self.exit = bl[raw["entry"]], bl[raw["exit"]]
        # unreachable blocks are dropped
        seen, st = {self.entry.id}, [self.entry]
        while st:
            b = st.pop()
            for s in b.succ:
                if s is not None and s.id not in seen:
                    seen.add(s.id); st.append(s)
        self.blocks = {i: b for i, b in bl.items() if i in seen or i == raw["exit"]}
        for b in self.blocks.values():
            b.pred = [q for q in b.pred if q.id in seen]
        self._pos = {}
        for b in self.blocks.values():
            for j, e in enumerate(b.el):
                self._pos.setdefault(e.i, (b.id, j))
        self._cfg = self.blocks
        return self._cfg

    def _add_eh(self, bl):
        """Exceptional edges: any block holding a call inside a try body may enter that try's handlers."""
        tries = [b for b in bl.values() if b.term is not None and b.term.k == "CXXTryStmt"]
        for tb in tries:
            body = tb.term.ch[0]
            inside = set()
            for b in bl.values():
                for e in b.el:
                    if (e.k in CALLS or e.k in CTORS or e.k in ("CXXThrowExpr", "CXXNewExpr")) and is_under(e, body):
                        inside.add(b.id); break
            for i in inside:
                if tb not in bl[i].succ:
                    bl[i].succ = list(bl[i].succ) + [tb]

    def pos(self, node):
        """(block id, element index) of the CFG element evaluating node, or of the nearest enclosing one."""
        self.cfg()
        n = node
        while n.k == "ParenExpr" and n.ch: n = n.ch[0]
        while n is not None:
            if n.i in self._pos:
                return self._pos[n.i]
            n = n.p
        return None

def is_under(n, anc):
    while n is not None:
        if n is anc:
            return True
        n = n.p
    return False

class Prog:
    def __init__(self):
        self.fns, self.recs, self.enums, self.globals = {}, {}, {}, {}
        self.decls = {}
        self.types = {}
        files, self.reextracted = build.fact_files()
        self.tus = [t for t, _ in files]
        self.programs = build.programs()
        for tu, path in files:
            self._load(tu, path)
        for f in self.fns.values():
            f.d.def_ = f
        self._link()

    def _load(self, tu, path):
        J = json.load(open(path))
        if J["errors"]:
            raise AnalysisError("parse errors in " + tu)
        T, F = [t.replace(" *__restrict", " *").replace("*__restrict", "*") for t in J["types"]], J["files"]
        D = []
        for dj in J["decls"]:
            q = dj.get("q")
            key = None
            if q is not None:
                key = (dj["k"], q)
                if dj["k"] == "global" and not dj.get("ext"):
                    pass
            if key and key in self.decls:
                d0 = self.decls[key]
                if "def_" and dj.get("ov") and not d0.x.get("ov"): d0.x["ov"] = dj["ov"]
                D.append(d0); continue
            d = Decl()
            d.k, d.n, d.t, d.q, d.qn = dj["k"], dj["n"], T[dj["t"]], q, dj.get("qn", q)
            d.rt = T[dj["rt"]] if "rt" in dj else None
            d.pt = [T[i] for i in dj["pt"]] if "pt" in dj else None
            d.cls, d.ix, d.x, d.file, d.line, d.def_ = dj.get("cls"), dj.get("ix"), dj, F[dj["f"]], dj["l"], None
            d.uid = len(self.decls) if key is None else None
            if key: self.decls[key] = d
            D.append(d)
        def mknodes(raw, fn):
            nodes = []
            for i, r in enumerate(raw):
                n = Node()
                n.i, n.k, n.t, n.line, n.col = i, r[0], (T[r[1]] if r[1] >= 0 else None), r[2], r[3]
                n.x = r[5] if len(r) > 5 else {}
                n.p, n.fn = None, fn
                n.d = D[n.x["d"]] if "d" in n.x else None
                for tk in ("at", "ct"):
                    if tk in n.x: n.x[tk] = T[n.x[tk]]
                if "ex" in n.x: n.x["ex"] = D[n.x["ex"]]
                n.ch = r[4]
                nodes.append(n)
            for n in nodes:
                n.ch = [nodes[c] for c in n.ch]
                for c in n.ch:
                    if c.p is None: c.p = n
            return nodes
        for fj in J["fns"]:
            key = fj["key"]
            if key.startswith("main(") and "@" not in key:
                key = key + " @" + tu
                fj["key"] = key
            if key in self.fns:
                continue
            f = Fn()
            f.key, f.d, f.file, f.line, f.eline = key, D[fj["d"]], F[fj["file"]], fj["line"], fj["eline"]
            if key.startswith("main("):
                import copy
                f.d = copy.copy(f.d); f.d.q = key
            f.params = [D[i] for i in fj["params"]]
            f._cfg, f._pos, f._cache, f.rawcfg, f.tu = None, None, {}, fj["cfg"], tu
            f.imp, f.ti = fj.get("imp", 0), fj.get("ti", 0)
            f.nodes = mknodes(fj["nodes"], f)
            f.body = f.nodes[fj["body"]]
            f.inits = [f.nodes[i] for i in fj["inits"]]
            f.cls = f.d.cls
            self.fns[key] = f
        for rj in J["recs"]:
            if rj["n"] in self.recs: continue
            rj["file"] = F[rj["file"]]
            for fl in rj["fields"]:
                fl["d"] = D[fl["d"]]; fl["t"] = T[fl["t"]]
            rj["methods"] = [D[m] for m in rj["methods"]]
            self.recs[rj["n"]] = rj
        for ej in J["enums"]:
            ej["file"] = F[ej["file"]]
            self.enums.setdefault((ej["n"], ej["file"], ej["line"]), ej)
        for gj in J["globals"]:
            gj["file"] = F[gj["file"]]; gj["d"] = D[gj["d"]]; gj["t"] = T[gj["t"]]
            k = gj["n"] + "@" + gj["file"]
            if k in self.globals: continue
            gj["nodes"] = mknodes(gj["nodes"], None)
            gj["init"] = gj["nodes"][gj["init"]] if gj["init"] >= 0 else None
            self.globals[k] = gj

    def _link(self):
        self.subs = defaultdict(set)     # class -> direct subclasses
        for n, r in self.recs.items():
            for b in r["bases"]:
                self.subs[b].add(n)
        self.overriders = defaultdict(set)   # method key -> keys overriding it (transitively)
        ov = defaultdict(set)
        for (k, q), d in self.decls.items():
            if k == "fn":
                for b in d.x.get("ov", []):
                    ov[b].add(q)
        for b in list(ov):
            seen, st = set(), [b]
            while st:
                m = st.pop()
                for o in ov.get(m, ()):
                    if o not in seen:
                        seen.add(o); st.append(o)
            self.overriders[b] = seen

    # ---- queries ----
    def targets(self, call):
        """Possible callee Fn definitions of a call/construct node (virtual calls resolved to all overriders)."""
        d = call.d
        if d is None or d.k != "fn":
            return []
        keys = {d.q}
        if d.x.get("v") and not call.x.get("qual"):
            keys |= self.overriders.get(d.q, set())
        return [self.fns[k] for k in keys if k in self.fns]

    def fn_named(self, qn, required=True):
        r = [f for f in self.fns.values() if f.d.qn == qn]
        if required and not r:
            raise AnalysisError("anchor function %s not found" % qn)
        return r

    def subclasses(self, cls):
        seen, st = set(), [cls]
        while st:
            c = st.pop()
            for s in self.subs.get(c, ()):
                if s not in seen:
                    seen.add(s); st.append(s)
        return seen

    def bases(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop()
            r = self.recs.get(c)
            if r:
                for b in r["bases"]:
                    out.append(b); st.append(b)
        return out

    def callers(self):
        if not hasattr(self, "_callers"):
            m = defaultdict(list)
            for f in self.fns.values():
                for n in f.nodes:
                    if n.k in CALLS or n.k in CTORS:
                        for t in self.targets(n):
                            m[t.key].append(n)
            self._callers = m
        return self._callers

# ---- node helpers ----
def strip(n, explicit=False):
    while n is not None:
        if n.k in TRANSPARENT and n.ch:
            n = n.ch[0]; continue
        if explicit and n.x.get("xc") and n.ch:
            n = n.ch[-1]; continue
        return n
    return n

def walk(n):
    st = [n]
    while st:
        m = st.pop()
        yield m
        st.extend(reversed(m.ch))

def is_call(n): return n.k in CALLS
def callee_qn(n):
    return n.d.qn if n.d is not None and n.d.k == "fn" else None

def args(n):
    """Actual arguments of a call (without callee / implicit object)."""
    if n.k in CTORS:
        return n.ch
    if n.k == "CXXOperatorCallExpr":
        if n.d is not None and n.d.cls is not None and not n.d.x.get("st"):
            return n.ch[2:]
        return n.ch[1:]
    return n.ch[1:]

def obj(n):
    """Implicit object expression of a member call, or None."""
    if n.k == "CXXMemberCallExpr":
        me = strip(n.ch[0])
        if me.k == "MemberExpr":
            return me.ch[0] if me.ch else None
        return None
    if n.k == "CXXOperatorCallExpr" and n.d is not None and n.d.cls is not None and not n.d.x.get("st"):
        return n.ch[1]
    return None

def const(n):
    """Integer constant value of an expression if known."""
    n0 = n
    while n is not None:
        if "cv" in n.x: return n.x["cv"]
        if "v" in n.x: return n.x["v"]
        if (n.k in TRANSPARENT or n.x.get("xc")) and n.ch: n = n.ch[-1]; continue
        return None

def text(n, depth=0):
    """Readable rendering of an expression."""
    if n is None: return ""
    if depth > 12: return "..."
    k = n.k
    if k in TRANSPARENT and n.ch: return text(n.ch[0], depth)
    r = lambda m: text(m, depth + 1)
    if k == "DeclRefExpr": return n.d.n
    if k == "MemberExpr":
        b = n.ch[0] if n.ch else None
        if b is not None and strip(b).k == "CXXThisExpr": return n.d.n
        return r(b) + ("->" if n.x.get("ar") else ".") + n.d.n
    if k == "CXXThisExpr": return "this"
    if k in ("IntegerLiteral", "CXXBoolLiteralExpr"): return str(n.x.get("v"))
    if k == "CharacterLiteral": return repr(chr(n.x["v"] & 255))
    if k == "StringLiteral": return json.dumps(n.x.get("s", "?"))
    if k == "FloatingLiteral": return n.x["fv"]
    if k in ("BinaryOperator", "CompoundAssignOperator"): return "%s %s %s" % (r(n.ch[0]), n.x["op"], r(n.ch[1]))
    if k == "UnaryOperator": return (r(n.ch[0]) + n.x["op"]) if n.x.get("post") else n.x["op"] + r(n.ch[0])
    if k == "CXXOperatorCallExpr":
        a = n.ch[1:]
        if n.x["op"] == "[]": return "%s[%s]" % (r(a[0]), r(a[1]))
        if n.x["op"] == "()": return "%s(%s)" % (r(a[0]), ", ".join(r(c) for c in a[1:]))
        if len(a) == 2: return "%s %s %s" % (r(a[0]), n.x["op"], r(a[1]))
        return n.x["op"] + r(a[0])
    if k == "ArraySubscriptExpr": return "%s[%s]" % (r(n.ch[0]), r(n.ch[1]))
    if k in CALLS: return "%s(%s)" % (r(n.ch[0]), ", ".join(r(c) for c in n.ch[1:]))
    if k in CTORS: return "%s(%s)" % (n.t, ", ".join(r(c) for c in n.ch))
    if k == "VarDecl": return "%s %s%s" % (n.t, n.d.n, " = " + r(n.ch[0]) if n.ch else "")
    if k == "CXXNewExpr": return "new " + n.x["at"]
    if k == "CXXDeleteExpr": return "delete%s %s" % ("[]" if n.x.get("arr") else "", r(n.ch[0]))
    if k == "ReturnStmt": return "return " + (r(n.ch[0]) if n.ch else "")
    if k == "CXXThrowExpr": return "throw " + (r(n.ch[0]) if n.ch else "")
    if k == "ConditionalOperator": return "%s ? %s : %s" % tuple(r(c) for c in n.ch[:3])
    if n.x.get("xc"): return "(%s)%s" % (n.t, r(n.ch[-1]) if n.ch else "")
    if k == "UnaryExprOrTypeTraitExpr": return "sizeof(%s)" % n.x.get("at")
    if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr": return "NULL"
    return "%s(%s)" % (k, ", ".join(r(c) for c in n.ch[:4]))

def loc(n):
    return "%s:%d" % (n.fn.file if n.fn else "?", n.line)

def vdecl(n):
    """Declaration referenced by a plain variable expression, else None."""
    n = strip(n)
    return n.d if n is not None and n.k == "DeclRefExpr" and n.d.k in ("local", "parm", "global") else None

def path(n):
    """Access path of an lvalue: (root, field, field...), where root is a Decl, 'this', or None. Subscripts and derefs
    contribute '[]' and '*'."""
    n = strip(n, explicit=True)
    if n is None: return None
    if n.k == "DeclRefExpr":
        if n.d.k in ("local", "parm", "global"): return (n.d,)
        if n.d.k == "field": return ("this", n.d)
        return None
    if n.k == "CXXThisExpr": return ("this",)
    if n.k == "MemberExpr":
        if n.d.k == "global": return (n.d,)
        b = path(n.ch[0]) if n.ch else ("this",)
        if b is None: return None
        return b + (n.d,)
    if n.k == "ArraySubscriptExpr":
        b = path(n.ch[0])
        return b + ("[]",) if b else None
    if n.k == "UnaryOperator" and n.x["op"] == "*":
        b = path(n.ch[0])
        return b + ("*",) if b else None
    if n.k == "UnaryOperator" and n.x["op"] == "&":
        return path(n.ch[0])
    if n.k == "CXXOperatorCallExpr" and n.x["op"] in ("[]", "()") and len(n.ch) >= 3:
        b = path(n.ch[1])
        return b + ("[]",) if b else None
    if n.k == "CXXOperatorCallExpr" and n.x["op"] in ("*", "->") and len(n.ch) == 2:
        b = path(n.ch[1])
        return b + ("*",) if b else None
    return None

# ---- CFG helpers ----
def forward(fn, init, transfer, join, edge=None, bottom=None):
    """Forward worklist dataflow; returns {block id: in-state}. transfer(block, state)->state. edge(block, idx, succ, st)->st"""
    fn.cfg()
    IN = {fn.entry.id: init}
    wl = [fn.entry]
    n = 0
    while wl:
        b = wl.pop(0)
        n += 1
        if n > 200000: raise AnalysisError("dataflow does not converge in " + fn.key)
        out = transfer(b, IN[b.id])
        for i, s in enumerate(b.succ):
            if s is None or b.noret and s is fn.exit: continue
            o = edge(b, i, s, out) if edge else out
            if o is None: continue
            if s.id not in IN:
                IN[s.id] = o
                wl.append(s)
            else:
                j = join(IN[s.id], o)
                if j != IN[s.id]:
                    IN[s.id] = j
                    if s not in wl: wl.append(s)
    return IN

def dominators(fn):
    if "dom" in fn._cache: return fn._cache["dom"]
    fn.cfg()
    order, seen = [], set()
    def dfs(b0):
        st = [(b0, iter(b0.succ))]
        seen.add(b0.id)
        while st:
            b, it = st[-1]
            for s in it:
                if s is not None and s.id not in seen:
                    seen.add(s.id); st.append((s, iter(s.succ))); break
            else:
                order.append(b); st.pop()
    dfs(fn.entry)
    order.reverse()
    allb = {b.id for b in order}
    dom = {b.id: set(allb) for b in order}
    dom[fn.entry.id] = {fn.entry.id}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b is fn.entry: continue
            ps = [dom[p.id] for p in b.pred if p.id in allb]
            new = set.intersection(*ps) | {b.id} if ps else {b.id}
            if new != dom[b.id]: dom[b.id] = new; ch = True
    fn._cache["dom"] = dom
    return dom

def dominates(fn, a, b):
    """Every path from entry to node b evaluates node a first."""
    pa, pb = fn.pos(a), fn.pos(b)
    if pa is None or pb is None: return False
    if pa[0] == pb[0]: return pa[1] < pb[1]
    return pa[0] in dominators(fn).get(pb[0], set())

def enclosing(n, kinds):
    n = n.p
    while n is not None:
        if n.k in kinds: return n
        n = n.p
    return None

def enclosing_all(n, kinds):
    out = []
    n = n.p
    while n is not None:
        if n.k in kinds: out.append(n)
        n = n.p
    return out

_prog = None
def load():
    global _prog
    if _prog is None: _prog = Prog()
    return _prog
