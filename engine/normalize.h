// Canonical form of a translation unit before its facts are taken: values named once for use in the next statement are put back
// where they are used, and functions that the original repository does not have (engine/functions.txt) are put back in place of
// their calls.  Both steps keep what the program does; every line keeps its number.
struct Edit { unsigned b, e; string s; };
static std::vector<SourceRange> Skipped;      // what the preprocessor left out of this unit
struct Skips : PPCallbacks { void SourceRangeSkipped(SourceRange r, SourceLocation) override { Skipped.push_back(r); } };
struct Normalizer : RecursiveASTVisitor<Normalizer> {
  ASTContext &C; SourceManager &SM; const LangOptions &LO; const std::set<string> &Known; int Level; string Tag;
  std::map<string, std::vector<std::vector<Edit>>> Groups;
  FunctionDecl *Fn = nullptr; unsigned Counter = 0;
  std::map<const VarDecl *, std::vector<const DeclRefExpr *>> Refs;                  // local variables
  std::map<const FunctionDecl *, std::vector<std::pair<const DeclRefExpr *, FunctionDecl *>>> FRefs;   // new functions: every mention
  std::map<const FunctionDecl *, std::vector<std::pair<const CallExpr *, FunctionDecl *>>> FCalls;
  std::map<const FunctionDecl *, unsigned> Mentions;
  std::vector<FunctionDecl *> News;
  Normalizer(ASTContext &C, const std::set<string> &K, int L, string T) : C(C), SM(C.getSourceManager()), LO(C.getLangOpts()), Known(K), Level(L), Tag(T) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitImplicitCode() const { return false; }

  // ---- source text ----
  SourceLocation sp(SourceLocation l) { while (l.isMacroID() && SM.isMacroArgExpansion(l)) l = SM.getImmediateSpellingLoc(l); return l; }
  bool loc(SourceRange r, string &f, unsigned &b, unsigned &e, bool arg = false) {
    SourceLocation x = r.getBegin(), y = r.getEnd();
    if (arg) { x = sp(x); y = sp(y); }
    if (x.isInvalid() || y.isInvalid() || x.isMacroID() || y.isMacroID()) return false;
    auto d = SM.getDecomposedLoc(x), d2 = SM.getDecomposedLoc(y);
    if (d.first != d2.first) return false;
    auto fe = SM.getFileEntryRefForID(d.first); if (!fe) return false;
    f = fe->getFileEntry().tryGetRealPathName().str(); if (f.rfind(Root, 0)) return false;
    b = d.second; e = d2.second + Lexer::MeasureTokenLength(y, SM, LO); return b < e;
  }
  llvm::StringRef buf(SourceLocation l) { return SM.getBufferData(SM.getFileID(sp(l))); }
  bool sloc(const Stmt *s, string &f, unsigned &b, unsigned &e) {                    // a statement with its semicolon
    if (!loc(s->getSourceRange(), f, b, e)) return false;
    auto t = buf(s->getBeginLoc());
    if (t[e - 1] == ';' || t[e - 1] == '}' && !isa<Expr>(s) && !isa<ReturnStmt>(s) && !isa<DeclStmt>(s)) return true;
    unsigned i = e; while (i < t.size() && isspace((unsigned char)t[i])) i++;
    if (i < t.size() && t[i] == ';') { e = i + 1; return true; }
    return false;
  }
  string raw(const Stmt *s) { string f; unsigned b, e; return loc(s->getSourceRange(), f, b, e) ? buf(s->getBeginLoc()).substr(b, e - b).str() : ""; }
  // tokens on one line, with replacements (offsets in the file)
  string flat(SourceLocation at, unsigned b, unsigned e, std::vector<Edit> reps = {}) {
    llvm::StringRef t = buf(at); string s;
    FileID fid = SM.getFileID(sp(at));
    for (auto &k : Skipped) { auto d = SM.getDecomposedLoc(k.getBegin()), d2 = SM.getDecomposedLoc(k.getEnd()); if (d.first == fid && d2.first == fid && d.second >= b && d2.second < e) reps.push_back({d.second, d2.second, "\n"}); }
    std::sort(reps.begin(), reps.end(), [](const Edit &x, const Edit &y) { return x.b < y.b; });
    unsigned p = b; for (auto &r : reps) { if (r.b < p || r.e > e) return ""; s += t.substr(p, r.b - p).str() + r.s; p = r.e; } s += t.substr(p, e - p).str();
    string o; s += '\n'; s.c_str();
    Lexer L(SourceLocation(), LO, s.data(), s.data(), s.data() + s.size()); L.SetCommentRetentionState(false);
    Token k; bool first = true;
    while (!L.LexFromRawLexer(k) || k.isNot(tok::eof)) {
      if (k.is(tok::eof)) break;
      if (k.is(tok::hash) && k.isAtStartOfLine()) {
        unsigned at = L.getBufferLocation() - s.data(); while (at < s.size() && (s[at] == ' ' || s[at] == '\t')) at++;
        bool cond = false; for (auto w : {"if", "ifdef", "ifndef", "else", "elif", "endif"}) if (s.compare(at, strlen(w), w) == 0 && !isalnum((unsigned char)s[at + strlen(w)])) cond = true;
        if (!cond) return "";
        size_t end = at; while (end < s.size() && s[end] != '\n') end++;
        L.seek(end, true); continue;
      }
      unsigned off = L.getBufferLocation() - s.data() - k.getLength();
      if (!first && (k.hasLeadingSpace() || k.isAtStartOfLine())) o += ' ';
      o += s.substr(off, k.getLength()); first = false;
    }
    return o;
  }
  string flat(const Stmt *s, std::vector<Edit> reps = {}) { string f; unsigned b, e; return loc(s->getSourceRange(), f, b, e) ? flat(s->getBeginLoc(), b, e, reps) : ""; }
  string blank(SourceLocation at, unsigned b, unsigned e) { string o; for (char c : buf(at).substr(b, e - b)) if (c == '\n') o += '\n'; return o.empty() ? " " : o; }
  bool overlaps(const std::vector<Edit> &g, const string &f) {
    for (auto &h : Groups[f]) for (auto &x : h) for (auto &y : g) if (!(x.e <= y.b || y.e <= x.b) || x.b == y.b) return true;
    return false;
  }
  bool put(const string &f, std::vector<Edit> g) {
    // the span of one group is not shared with another: the next round takes the rest
    unsigned lo = ~0u, hi = 0; for (auto &e : g) lo = std::min(lo, e.b), hi = std::max(hi, e.e);
    for (auto &h : Groups[f]) { unsigned l2 = ~0u, h2 = 0; for (auto &e : h) l2 = std::min(l2, e.b), h2 = std::max(h2, e.e); if (!(hi <= l2 || h2 <= lo)) return false; }
    Groups[f].push_back(g); return true;
  }
  template <class F> void all(const Stmt *s, F f) { if (!s) return; f(s); for (auto c : s->children()) all(c, f); }

  // ---- collection ----
  bool isNew(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (F->isImplicit() || F->isTemplated() || isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F) || isa<CXXConversionDecl>(F) || F->isOverloadedOperator() || F->isVariadic() || F->isMain()) return false;
    string f; unsigned b, e; if (!loc(SourceRange(F->getLocation()), f, b, e)) return false;
    if (f.find("/test/") != string::npos) return false;
    if (Known.empty() || Known.count(F->getQualifiedNameAsString())) return false;
    if (auto M = dyn_cast<CXXMethodDecl>(F)) if (M->isVirtual() || M->getParent()->isLambda()) return false;
    return true;
  }
  bool TraverseFn(FunctionDecl *d) { return true; }
  template <class T> bool in(T *d, bool (RecursiveASTVisitor::*go)(T *)) { auto o = Fn; Fn = d; bool r = (this->*go)(d); Fn = o; return r; }
  bool TraverseFunctionDecl(FunctionDecl *d) { return in(d, &RecursiveASTVisitor::TraverseFunctionDecl); }
  bool TraverseCXXMethodDecl(CXXMethodDecl *d) { return in(d, &RecursiveASTVisitor::TraverseCXXMethodDecl); }
  bool TraverseCXXConstructorDecl(CXXConstructorDecl *d) { return in(d, &RecursiveASTVisitor::TraverseCXXConstructorDecl); }
  bool TraverseCXXDestructorDecl(CXXDestructorDecl *d) { return in(d, &RecursiveASTVisitor::TraverseCXXDestructorDecl); }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && isNew(F)) News.push_back(F);
    return true;
  }
  std::vector<std::pair<const CompoundStmt *, FunctionDecl *>> Blocks;
  bool VisitCompoundStmt(CompoundStmt *s) { Blocks.push_back({s, Fn}); return true; }
  bool VisitDeclRefExpr(DeclRefExpr *r) {
    if (auto v = dyn_cast<VarDecl>(r->getDecl())) Refs[v].push_back(r);
    if (auto f = dyn_cast<FunctionDecl>(r->getDecl())) Mentions[f->getCanonicalDecl()]++;
    return true;
  }
  bool VisitMemberExpr(MemberExpr *m) { if (auto f = dyn_cast<FunctionDecl>(m->getMemberDecl())) Mentions[f->getCanonicalDecl()]++; return true; }
  bool VisitCallExpr(CallExpr *c) { if (auto f = c->getDirectCallee()) FCalls[f->getCanonicalDecl()].push_back({c, Fn}); return true; }

  std::vector<const UnaryOperator *> Nots; std::vector<const BinaryOperator *> Cmps;
  bool VisitUnaryOperator(UnaryOperator *u) { if (u->getOpcode() == UO_LNot) Nots.push_back(u); return true; }
  bool VisitBinaryOperator(BinaryOperator *b) { if (b->isComparisonOp()) Cmps.push_back(b); return true; }
  // ---- comparisons: !(a > b) is a <= b, 0 < x is x > 0 (numbers that are totally ordered) ----
  bool ordered(QualType t) {
    t = t.getNonReferenceType().getCanonicalType().getUnqualifiedType();
    if (t->isIntegerType() || t->isPointerType() || t->isEnumeralType() || t->isNullPtrType()) return true;
    if (auto r = t->getAsCXXRecordDecl()) { string q = r->getQualifiedNameAsString(); return q == "NTL::ZZ" || q == "__gmp_expr"; }
    return false;
  }
  bool cst(const Expr *e) { e = e->IgnoreParenImpCasts(); if (auto u = dyn_cast<UnaryOperator>(e)) if (u->getOpcode() == UO_Minus) e = u->getSubExpr()->IgnoreParenImpCasts(); return isa<IntegerLiteral>(e) || isa<CharacterLiteral>(e) || isa<CXXBoolLiteralExpr>(e) || isa<GNUNullExpr>(e) || isa<CXXNullPtrLiteralExpr>(e); }
  void comparisons() {
    auto op = [&](BinaryOperatorKind k) { return BinaryOperator::getOpcodeStr(k).str(); };
    for (auto u : Nots) {
      const Expr *x = u->getSubExpr()->IgnoreParenImpCasts(), *l, *r; BinaryOperatorKind k;
      if (auto b = dyn_cast<BinaryOperator>(x)) { if (!b->isComparisonOp() || b->getOpcode() == BO_Cmp) continue; l = b->getLHS(); r = b->getRHS(); k = b->getOpcode(); }
      else if (auto c = dyn_cast<CXXOperatorCallExpr>(x)) { if (c->getNumArgs() != 2) continue; l = c->getArg(0); r = c->getArg(1);
        switch (c->getOperator()) { case OO_Less: k = BO_LT; break; case OO_LessEqual: k = BO_LE; break; case OO_Greater: k = BO_GT; break; case OO_GreaterEqual: k = BO_GE; break; case OO_EqualEqual: k = BO_EQ; break; case OO_ExclaimEqual: k = BO_NE; break; default: continue; }
        if (!ordered(l->getType()) || !ordered(r->getType())) continue; }
      else continue;
      if (l->isTypeDependent() || r->isTypeDependent()) continue;
      if (isa<BinaryOperator>(x) && !(ordered(l->getType()) && ordered(r->getType()))) continue;
      string f; unsigned b, e; if (!loc(u->getSourceRange(), f, b, e)) continue;
      string a = flat(l), c = flat(r); if (a.empty() || c.empty()) continue;
      auto ps = C.getParents(*u); const Stmt *P = ps.empty() ? nullptr : ps[0].get<Stmt>(); bool bare = P && (isa<ParenExpr>(P) || isa<IfStmt>(P) || isa<WhileStmt>(P) || isa<ForStmt>(P) || isa<DoStmt>(P) || isa<ReturnStmt>(P));
      put(f, {{b, e, (bare ? "" : "(") + a + " " + op(BinaryOperator::negateComparisonOp(k)) + " " + c + (bare ? "" : ")") + nl(u->getBeginLoc(), b, e)}});
    }
    for (auto o : Cmps) {
      if (!cst(o->getLHS()) || cst(o->getRHS()) || !ordered(o->getLHS()->getType()) || !ordered(o->getRHS()->getType()) || o->getOpcode() == BO_Cmp) continue;
      string f; unsigned b, e; if (!loc(o->getSourceRange(), f, b, e)) continue;
      string a = flat(o->getLHS()), c = flat(o->getRHS()); if (a.empty() || c.empty()) continue;
      put(f, {{b, e, c + " " + op(BinaryOperator::reverseComparisonOp(o->getOpcode())) + " " + a + nl(o->getBeginLoc(), b, e)}});
    }
  }
  bool pure(const Expr *e) {
    bool ok = true;
    all(e, [&](const Stmt *x) {
      if (auto c = dyn_cast<CallExpr>(x)) {
        auto f = c->getDirectCallee(); if (!f) { ok = false; return; }
        if (auto m = dyn_cast<CXXMethodDecl>(f)) if (!m->isConst() && !m->isStatic()) ok = false;
        for (auto p : f->parameters()) { QualType t = p->getType(); if ((t->isReferenceType() || t->isPointerType()) && !t->getPointeeType().isConstQualified()) ok = false; }
      }
      if (isa<CXXNewExpr>(x) || isa<CXXDeleteExpr>(x) || isa<CXXThrowExpr>(x)) ok = false;
      if (auto b = dyn_cast<BinaryOperator>(x)) if (b->isAssignmentOp()) ok = false;
      if (auto u = dyn_cast<UnaryOperator>(x)) if (u->isIncrementDecrementOp()) ok = false;
    });
    return ok;
  }
  // is r evaluated whenever s is (not behind &&, ||, ?: or in a loop)
  enum Where { Always, Behind, No };
  Where where(const Stmt *s, const Stmt *r) {
    const Stmt *x = r; Where w = Always;
    while (x != s) {
      auto ps = C.getParents(*x); if (ps.empty()) return No;
      const Stmt *p = ps[0].get<Stmt>();
      if (!p) { auto d = ps[0].get<VarDecl>(); if (!d) return No; auto q = C.getParents(*d); if (q.empty() || !q[0].get<Stmt>()) return No; p = q[0].get<Stmt>(); }
      if (isa<LambdaExpr>(p) || isa<UnaryExprOrTypeTraitExpr>(p)) return No;
      if (auto b = dyn_cast<BinaryOperator>(p)) if (b->isLogicalOp() && b->getRHS() == x) w = Behind;
      if (auto q = dyn_cast<ConditionalOperator>(p)) if (q->getCond() != x) w = Behind;
      if (auto i = dyn_cast<IfStmt>(p)) if (i->getCond() != x || p != s) return No;
      if (auto i = dyn_cast<SwitchStmt>(p)) if (i->getCond() != x || p != s) return No;
      if (isa<WhileStmt>(p) || isa<DoStmt>(p) || isa<CXXForRangeStmt>(p) || isa<CompoundStmt>(p) || isa<CXXTryStmt>(p)) return No;
      if (auto f = dyn_cast<ForStmt>(p)) return No;
      x = p;
    }
    return w;
  }
  bool boolContext(const Expr *r) {          // the value only decides
    const Stmt *x = r;
    for (;;) {
      auto ps = C.getParents(*x); if (ps.empty()) return false;
      const Stmt *p = ps[0].get<Stmt>(); if (!p) return false;
      if (isa<ParenExpr>(p) || isa<ImplicitCastExpr>(p)) { x = p; continue; }
      if (auto i = dyn_cast<IfStmt>(p)) return i->getCond() == x;
      if (auto u = dyn_cast<UnaryOperator>(p)) return u->getOpcode() == UO_LNot;
      if (auto b = dyn_cast<BinaryOperator>(p)) return b->isLogicalOp();
      if (auto q = dyn_cast<ConditionalOperator>(p)) return q->getCond() == x;
      return false;
    }
  }
  // ---- values named once ----
  bool candidate(const Stmt *s, const VarDecl *&v) {
    auto d = dyn_cast<DeclStmt>(s); if (!d || !d->isSingleDecl()) return false;
    v = dyn_cast<VarDecl>(d->getSingleDecl());
    if (!v || !v->isLocalVarDecl() || v->isStaticLocal() || !v->hasInit() || v->getInitStyle() != VarDecl::CInit || v->getType()->isReferenceType() || v->getType()->isArrayType()) return false;
    auto &R = Refs[v]; return R.size() == 1;
  }
  void values(const CompoundStmt *B) {
    std::vector<const Stmt *> b(B->body_begin(), B->body_end());
    for (size_t i = 0; i + 1 < b.size(); i++) {
      const VarDecl *v; if (!candidate(b[i], v)) continue;
      auto r = Refs[v][0]; if (r->refersToEnclosingVariableOrCapture()) continue;
      size_t j = i + 1; const VarDecl *w;
      Where wh = No;
      for (; j < b.size(); j++) {
        const Stmt *s = b[j]; if (auto l = dyn_cast<LabelStmt>(s)) break;
        wh = where(s, r); if (wh != No) break;
        bool skip = candidate(s, w) && (w->getType()->isScalarType() || w->getType()->isDependentType());
        if (!skip) break;
      }
      if (j >= b.size() || wh == No) continue;
      const Expr *e = v->getInit(); QualType T = v->getType().getUnqualifiedType();
      if (isa<InitListExpr>(e->IgnoreImplicit())) continue;
      const Expr *t = e->IgnoreParenImpCasts();
      bool bc = T->isBooleanType() && boolContext(r);
      if (bc) { if (auto x = dyn_cast<ExplicitCastExpr>(t)) if (x->getType()->isBooleanType()) t = x->getSubExpr()->IgnoreParenImpCasts(); }
      if (wh == Behind && !pure(e)) continue;
      if (!pure(e)) { bool ok = true; for (size_t k = i + 1; k < j; k++) { const VarDecl *w2; if (candidate(b[k], w2) && !Refs[w2].empty() && where(b[j], Refs[w2][0]) == No) ok = false; } if (!ok) continue; }
      if (!bc) {
        if (T->isDependentType() || t->isTypeDependent() || T->isUndeducedType()) continue;
        QualType U = t->getType().getUnqualifiedType();
        if (U->isArrayType() && T->isPointerType()) U = C.getDecayedType(U);
        if (T->isPointerType() && U->isPointerType() && T->getPointeeType().isConstQualified()) U = C.getPointerType(U->getPointeeType().withConst());
        if (!C.hasSameUnqualifiedType(T.getCanonicalType(), U.getCanonicalType())) continue;
        auto rs = dyn_cast<ReturnStmt>(b[j]);
        if (T->isRecordType()) {
          if (!rs || !rs->getRetValue() || !Fn0 || !C.hasSameUnqualifiedType(Fn0->getReturnType(), T)) continue;
          const Expr *x = rs->getRetValue()->IgnoreImplicit(); if (auto cc = dyn_cast<CXXConstructExpr>(x)) if (cc->getNumArgs() == 1) x = cc->getArg(0)->IgnoreImplicit();
          if (x->IgnoreParenImpCasts() != r) continue;
          if (t->isLValue() ) {}
        } else if (!T->isScalarType()) continue;
        // read only: the variable is not changed or bound where it is used
        else {
          auto ps = C.getParents(*r); const Stmt *p = ps.empty() ? nullptr : ps[0].get<Stmt>();
          while (p && isa<ParenExpr>(p)) { auto q = C.getParents(*p); p = q.empty() ? nullptr : q[0].get<Stmt>(); }
          auto ic = p ? dyn_cast<ImplicitCastExpr>(p) : nullptr;
          if (!ic || ic->getCastKind() != CK_LValueToRValue) { if (!(ic && ic->getCastKind() == CK_NoOp)) continue; }
        }
      }
      string f, f2; unsigned db, de, ub, ue;
      if (!sloc(b[i], f, db, de) || !loc(r->getSourceRange(), f2, ub, ue) || f != f2) continue;
      string s = flat(t); if (s.empty()) continue;
      auto ps = C.getParents(*r); const Stmt *P = ps.empty() ? nullptr : ps[0].get<Stmt>(); while (P && isa<ImplicitCastExpr>(P)) { auto q = C.getParents(*P); P = q.empty() ? nullptr : q[0].get<Stmt>(); }
      bool bare = P && (isa<ParenExpr>(P) || isa<IfStmt>(P) || isa<WhileStmt>(P) || isa<ReturnStmt>(P) || isa<SwitchStmt>(P));
      put(f, {{db, de, blank(b[i]->getBeginLoc(), db, de)}, {ub, ue, bare ? s : "(" + s + ")"}});
    }
  }
  FunctionDecl *Fn0 = nullptr;
  // ---- counting loops: while (c) { ...; i++; } is for (; c; i++) { ... } ----
  const VarDecl *counted(const Stmt *s) {
    const Expr *e = nullptr;
    if (auto u = dyn_cast<UnaryOperator>(s)) { if (u->isIncrementDecrementOp()) e = u->getSubExpr(); }
    else if (auto b = dyn_cast<CompoundAssignOperator>(s)) { if ((b->getOpcode() == BO_AddAssign || b->getOpcode() == BO_SubAssign) && isa<IntegerLiteral>(b->getRHS()->IgnoreParenImpCasts())) e = b->getLHS(); }
    auto r = e ? dyn_cast<DeclRefExpr>(e->IgnoreParens()) : nullptr; auto v = r ? dyn_cast<VarDecl>(r->getDecl()) : nullptr;
    return v && v->getType()->isIntegerType() ? v : nullptr;
  }
  bool continues(const Stmt *s) {
    if (!s) return false; if (isa<ContinueStmt>(s)) return true;
    if (isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<DoStmt>(s) || isa<CXXForRangeStmt>(s)) return false;
    for (auto c : s->children()) if (continues(c)) return true; return false;
  }
  // for (; c; ) and while (true) { if (!c) break; ... } are while (c)
  void whiles(const Stmt *s) {
    const Stmt *bd; const Expr *c;
    if (auto f = dyn_cast<ForStmt>(s)) { if (f->getInit() || f->getInc() || f->getConditionVariable()) return; bd = f->getBody(); c = f->getCond(); }
    else if (auto w = dyn_cast<WhileStmt>(s)) { if (w->getConditionVariable()) return; bd = w->getBody(); c = w->getCond(); }
    else return;
    bool ever = !c; if (c) { auto k = c->IgnoreParenImpCasts(); if (auto x = dyn_cast<CXXBoolLiteralExpr>(k)) ever = x->getValue(); if (auto x = dyn_cast<IntegerLiteral>(k)) ever = x->getValue() != 0; }
    string f, g; unsigned wb, we, bb, be, ib, ie, tb, te;
    if (!loc(s->getSourceRange(), f, wb, we) || !sloc(bd, g, bb, be) || f != g) return;
    if (!ever) {
      if (!isa<ForStmt>(s)) return;
      string t = flat(c); if (t.empty()) return;
      put(f, {{wb, bb, "while (" + t + ") " + nl(s->getBeginLoc(), wb, bb)}}); return;
    }
    auto B = dyn_cast<CompoundStmt>(bd); if (!B || B->body_empty()) return;
    auto is = dyn_cast<IfStmt>(*B->body_begin()); if (!is || is->getElse() || is->getInit() || is->getConditionVariable()) return;
    auto th = is->getThen(); if (auto tc = dyn_cast<CompoundStmt>(th)) { if (tc->size() != 1) return; th = *tc->body_begin(); } if (!isa<BreakStmt>(th)) return;
    if (!sloc(is->getThen(), g, tb, te) || f != g || !loc(SourceRange(is->getBeginLoc(), is->getCond()->getEndLoc()), g, ib, ie) || f != g) return;
    const Expr *n = is->getCond()->IgnoreParenImpCasts(); string t;
    if (auto u = dyn_cast<UnaryOperator>(n)) if (u->getOpcode() == UO_LNot) t = flat(u->getSubExpr()->IgnoreParens());
    if (t.empty()) { t = flat(n); if (t.empty()) return; t = "!(" + t + ")"; }
    put(f, {{wb, bb, "while (" + t + ") " + nl(s->getBeginLoc(), wb, bb)}, {ib, te, " " + nl(is->getBeginLoc(), ib, te)}});
  }
  // ---- another name for a place that stays the same place while the name lives ----
  bool changedIn(const Stmt *s, const VarDecl *v) {
    bool m = false; if (!v->hasLocalStorage()) return true;
    for (auto r : Refs[v]) {
      const Stmt *y = r; bool in = false; const Stmt *p0 = nullptr;
      for (int k = 0; k < 400; k++) { if (y == s) { in = true; break; } auto ps = C.getParents(*y); if (ps.empty()) break; const Stmt *q = ps[0].get<Stmt>();
        if (!q) { auto dd = ps[0].get<VarDecl>(); if (!dd) break; auto z = C.getParents(*dd); q = z.empty() ? nullptr : z[0].get<Stmt>(); if (!q) break; } if (!p0 && !isa<ParenExpr>(q)) p0 = q; y = q; }
      if (!in) continue;
      auto ic = p0 ? dyn_cast<ImplicitCastExpr>(p0) : nullptr; if (!(ic && ic->getCastKind() == CK_LValueToRValue)) m = true;
    }
    return m;
  }
  // depth: pointers followed that are not local variables
  bool place(const Expr *e, const Stmt *scope, unsigned &depth) {
    e = e->IgnoreParenImpCasts();
    if (auto r = dyn_cast<DeclRefExpr>(e)) return isa<VarDecl>(r->getDecl());
    if (isa<CXXThisExpr>(e)) return true;
    auto pointer = [&](const Expr *b) {
      b = b->IgnoreParenImpCasts();
      if (isa<CXXThisExpr>(b)) return true;
      if (auto r = dyn_cast<DeclRefExpr>(b)) { auto v = dyn_cast<VarDecl>(r->getDecl()); return v && !changedIn(scope, v); }
      depth++; return place(b, scope, depth);
    };
    if (auto m = dyn_cast<MemberExpr>(e)) { if (!isa<FieldDecl>(m->getMemberDecl()) || m->getMemberDecl()->getType()->isReferenceType()) return false; return m->isArrow() ? pointer(m->getBase()) : place(m->getBase(), scope, depth); }
    if (auto u = dyn_cast<UnaryOperator>(e)) return u->getOpcode() == UO_Deref && pointer(u->getSubExpr());
    if (auto a = dyn_cast<ArraySubscriptExpr>(e)) {
      auto i = a->getIdx()->IgnoreParenImpCasts(); bool ok = isa<IntegerLiteral>(i); if (auto r = dyn_cast<DeclRefExpr>(i)) if (auto v = dyn_cast<VarDecl>(r->getDecl())) ok = !changedIn(scope, v);
      if (!ok) return false; auto b = a->getBase()->IgnoreParenImpCasts(); return b->getType()->isArrayType() ? place(b, scope, depth) : pointer(b);
    }
    return false;
  }
  void aliases(const CompoundStmt *B) {
    std::vector<const Stmt *> b(B->body_begin(), B->body_end());
    for (size_t i = 0; i + 1 < b.size(); i++) {
      auto d = dyn_cast<DeclStmt>(b[i]); if (!d || !d->isSingleDecl()) continue;
      auto v = dyn_cast<VarDecl>(d->getSingleDecl()); if (!v || !v->isLocalVarDecl() || v->isStaticLocal() || !v->hasInit() || v->getInitStyle() != VarDecl::CInit || !v->getType()->isReferenceType() || !Refs.count(v)) continue;
      const Expr *e = v->getInit()->IgnoreParenImpCasts(); if (isa<DeclRefExpr>(e) && false) continue;
      if (e->isTypeDependent() || !e->isLValue() || !C.hasSameUnqualifiedType(e->getType().getCanonicalType(), v->getType().getNonReferenceType().getCanonicalType())) continue;
      unsigned depth = 0; if (!place(e, B, depth)) continue;
      if (depth) {                              // fields on the way may be changed by anything: only in one statement without calls
        if (i + 2 < b.size()) { bool later = false; for (size_t j = i + 2; j < b.size(); j++) all(b[j], [&](const Stmt *x) { if (auto r = dyn_cast<DeclRefExpr>(x)) if (r->getDecl() == v) later = true; }); if (later) continue; }
        bool bad = false; all(b[i + 1], [&](const Stmt *x) { if (auto c = dyn_cast<CallExpr>(x)) if (!isa<CXXOperatorCallExpr>(c)) bad = true; if (isa<CXXConstructExpr>(x)) bad = true; }); if (bad) continue;
      }
      string f, g; unsigned db, de, ub, ue; if (!sloc(b[i], f, db, de)) continue;
      string t = flat(e); if (t.empty()) continue; if (!isa<DeclRefExpr>(e)) t = "(" + t + ")";
      std::vector<Edit> ed{{db, de, blank(b[i]->getBeginLoc(), db, de)}}; bool ok = true; std::set<unsigned> seen;
      for (auto r : Refs[v]) { if (!loc(r->getSourceRange(), g, ub, ue, true) || f != g || r->refersToEnclosingVariableOrCapture()) { ok = false; break; } if (seen.insert(ub).second) ed.push_back({ub, ue, t}); }
      // names on the way are not hidden where they are used
      std::set<string> names; all(e, [&](const Stmt *x) { if (auto r = dyn_cast<DeclRefExpr>(x)) names.insert(r->getDecl()->getNameAsString()); });
      for (size_t j = i + 1; j < b.size(); j++) all(b[j], [&](const Stmt *x) { if (isa<LambdaExpr>(x)) ok = false; if (auto q = dyn_cast<DeclStmt>(x)) for (auto y : q->decls()) if (auto n = dyn_cast<NamedDecl>(y)) if (names.count(n->getNameAsString())) ok = false; });
      if (ok) put(f, ed);
    }
  }
  // if (c) { do ... while (c); } is while (c) ...
  void dos(const Stmt *s) {
    auto is = dyn_cast<IfStmt>(s); if (!is || is->getElse() || is->getInit() || is->getConditionVariable()) return;
    const Stmt *x = is->getThen(); if (auto c = dyn_cast<CompoundStmt>(x)) { if (c->size() != 1) return; x = *c->body_begin(); }
    auto d = dyn_cast<DoStmt>(x); if (!d) return;
    string t = flat(is->getCond()), t2 = flat(d->getCond()); if (t.empty() || t != t2) return;
    string f, g; unsigned ib, ie, bb, be; if (!sloc(is, f, ib, ie) || !sloc(d->getBody(), g, bb, be) || f != g) return;
    put(f, {{ib, bb, "while (" + t + ") " + nl(s->getBeginLoc(), ib, bb)}, {be, ie, nl(s->getBeginLoc(), be, ie)}});
  }
  // ---- if (c) return; / continue; rest...  is  if (!c) { rest... } ----
  void guards(const CompoundStmt *B) {
    auto ps = C.getParents(*B); if (ps.empty()) return;
    bool fn = Fn0 && Fn0->getBody() == B && Fn0->getReturnType()->isVoidType(), lp = false;
    if (auto p = ps[0].get<Stmt>()) lp = isa<ForStmt>(p) || isa<WhileStmt>(p) || isa<DoStmt>(p) || isa<CXXForRangeStmt>(p);
    if (!fn && !lp) return;
    std::vector<const Stmt *> b(B->body_begin(), B->body_end());
    for (size_t i = 0; i + 1 < b.size(); i++) {
      auto is = dyn_cast<IfStmt>(b[i]); if (!is || is->getElse() || is->getInit() || is->getConditionVariable()) continue;
      auto th = is->getThen(); if (auto tc = dyn_cast<CompoundStmt>(th)) { if (tc->size() != 1) continue; th = *tc->body_begin(); }
      auto rs = dyn_cast<ReturnStmt>(th); if (!(fn && rs && !rs->getRetValue()) && !(lp && isa<ContinueStmt>(th))) continue;
      bool bad = false; for (size_t j = i + 1; j < b.size(); j++) all(b[j], [&](const Stmt *x) { if (isa<LabelStmt>(x) || isa<GotoStmt>(x)) bad = true; });
      if (bad) continue;
      string f, g; unsigned ib, ie, tb, te, cb, ce; if (!sloc(is, f, ib, ie) || !sloc(is->getThen(), g, tb, te) || f != g || !loc(SourceRange(B->getRBracLoc()), g, cb, ce) || f != g) continue;
      const Expr *n = is->getCond()->IgnoreParenImpCasts(); string t;
      if (auto u = dyn_cast<UnaryOperator>(n)) if (u->getOpcode() == UO_LNot) t = flat(u->getSubExpr()->IgnoreParens());
      if (t.empty()) { t = flat(n); if (t.empty()) continue; t = "!(" + t + ")"; }
      put(f, {{ib, te, "if (" + t + ") {" + nl(is->getBeginLoc(), ib, te)}, {cb, cb, "} "}});
      return;
    }
  }
  void loops(const CompoundStmt *B) {
    for (auto s : B->body()) { whiles(s); dos(s); }
    std::vector<const Stmt *> b(B->body_begin(), B->body_end());
    for (size_t i = 0; i < b.size(); i++) {
      auto w = dyn_cast<WhileStmt>(b[i]); if (!w || w->getConditionVariable()) continue;
      auto body = dyn_cast<CompoundStmt>(w->getBody()); if (!body || body->body_empty()) continue;
      auto inc = body->body_back(); auto v = counted(inc); if (!v || continues(body)) continue;
      auto c = dyn_cast<BinaryOperator>(w->getCond()->IgnoreParenImpCasts()); bool mentions = false;
      all(w->getCond(), [&](const Stmt *x) { if (auto r = dyn_cast<DeclRefExpr>(x)) if (r->getDecl() == v) mentions = true; });
      if (!mentions || !c || !(c->isComparisonOp() || c->isLogicalOp())) continue;
      string f, g; unsigned wb, we, bb, be, ib, ie, cb, ce;
      if (!loc(w->getSourceRange(), f, wb, we) || !loc(body->getSourceRange(), g, bb, be) || f != g || !sloc(inc, g, ib, ie) || f != g) continue;
      string ct = flat(w->getCond()), nt = flat(inc), it; std::vector<Edit> ed; if (ct.empty() || nt.empty()) continue;
      if (i > 0) {
        const Stmt *p = b[i - 1]; bool take = false;
        if (auto d = dyn_cast<DeclStmt>(p)) take = d->isSingleDecl() && d->getSingleDecl() == v && v->hasInit() && [&] {
          for (auto r : Refs[v]) { const Stmt *x = r; bool in = false; for (int k = 0; k < 400; k++) { if (x == w) { in = true; break; } auto ps = C.getParents(*x); if (ps.empty()) break; const Stmt *q = ps[0].get<Stmt>();
              if (!q) { auto dd = ps[0].get<VarDecl>(); if (!dd) break; auto z = C.getParents(*dd); q = z.empty() ? nullptr : z[0].get<Stmt>(); if (!q) break; } x = q; } if (!in) return false; }
          return true; }();
        if (auto a = dyn_cast<BinaryOperator>(p)) if (a->getOpcode() == BO_Assign) if (auto r = dyn_cast<DeclRefExpr>(a->getLHS()->IgnoreParens())) take = r->getDecl() == v;
        string h; unsigned pb, pe; string t;
        if (take && sloc(p, h, pb, pe) && h == f && !(t = flat(p)).empty()) { while (!t.empty() && (t.back() == ';' || t.back() == ' ')) t.pop_back(); it = t; ed.push_back({pb, pe, blank(p->getBeginLoc(), pb, pe)}); }
      }
      ed.push_back({wb, bb, "for (" + it + "; " + ct + "; " + nt + ") " + nl(w->getBeginLoc(), wb, bb)});
      ed.push_back({ib, ie, ";" + nl(inc->getBeginLoc(), ib, ie)});
      put(f, ed);
    }
  }

  // ---- functions put back in place ----
  bool simpleArg(const Expr *a, const VarDecl *&base) {
    a = a->IgnoreParenImpCasts(); base = nullptr;
    if (auto r = dyn_cast<DeclRefExpr>(a)) { base = dyn_cast<VarDecl>(r->getDecl()); return true; }
    if (isa<IntegerLiteral>(a) || isa<CXXBoolLiteralExpr>(a) || isa<CXXThisExpr>(a) || isa<StringLiteral>(a) || isa<CharacterLiteral>(a)) return true;
    if (auto u = dyn_cast<UnaryOperator>(a)) return (u->getOpcode() == UO_Deref || u->getOpcode() == UO_AddrOf) && simpleArg(u->getSubExpr(), base);
    if (auto m = dyn_cast<MemberExpr>(a)) return isa<FieldDecl>(m->getMemberDecl()) && (m->isImplicitAccess() || simpleArg(m->getBase(), base));
    return false;
  }
  bool modified(const FunctionDecl *F, const VarDecl *v) {
    for (auto r : Refs[v]) {
      const Stmt *x = r; 
      auto ps = C.getParents(*x); const Stmt *p = ps.empty() ? nullptr : ps[0].get<Stmt>();
      while (p && isa<ParenExpr>(p)) { auto q = C.getParents(*p); p = q.empty() ? nullptr : q[0].get<Stmt>(); }
      auto ic = p ? dyn_cast<ImplicitCastExpr>(p) : nullptr;
      if (ic && (ic->getCastKind() == CK_LValueToRValue)) continue;
      if (v->getType().getNonReferenceType().isConstQualified()) continue;
      return true;
    }
    return false;
  }
  struct Body { std::vector<Edit> reps; string decls; bool ok = false; };
  Body bind(FunctionDecl *F, const CallExpr *c, const string &id, FunctionDecl *caller) {
    Body R; std::set<string> locals;
    all(F->getBody(), [&](const Stmt *x) { if (auto d = dyn_cast<DeclStmt>(x)) for (auto y : d->decls()) if (auto n = dyn_cast<NamedDecl>(y)) locals.insert(n->getNameAsString()); });
    unsigned off = 0;
    if (c->getNumArgs() != F->getNumParams()) return R;
    std::map<const VarDecl *, unsigned> bound;    // caller variables handed over by reference
    for (unsigned i = 0; i < F->getNumParams(); i++) { const VarDecl *b; if (F->getParamDecl(i)->getType()->isReferenceType() && simpleArg(c->getArg(i), b) && b) bound[b]++; }
    for (unsigned i = 0; i < F->getNumParams(); i++) {
      auto p = F->getParamDecl(i); auto a = c->getArg(i); if (isa<CXXDefaultArgExpr>(a)) return R;
      const VarDecl *base = nullptr; bool simple = simpleArg(a, base); string s = flat(a); if (s.empty()) return R;
      bool ref = p->getType()->isReferenceType(), sub = false;
      const Expr *ia = a->IgnoreParenImpCasts();
      bool same = C.hasSameUnqualifiedType(p->getType().getNonReferenceType().getCanonicalType(), ia->getType().getNonReferenceType().getCanonicalType());
      bool capt = false; all(ia, [&](const Stmt *x) { if (auto r = dyn_cast<DeclRefExpr>(x)) if (locals.count(r->getDecl()->getNameAsString())) capt = true; if (auto m = dyn_cast<MemberExpr>(x)) if (m->isImplicitAccess() && locals.count(m->getMemberDecl()->getNameAsString())) capt = true; });
      if (simple && same && !capt) {
        if (ref) sub = true;
        else if (!modified(F, p) && (!base || (!bound.count(base) && base->hasLocalStorage()))) sub = true;
        else if (!modified(F, p) && ia->getType()->isPointerType() && base && base->hasLocalStorage() && !bound.count(base)) sub = true;
      }
      if (!sub && !ref && same && !capt && Refs[p].size() <= 1 && pure(a) && isExprBody(F)) sub = true;
      string name;
      if (sub) name = isa<DeclRefExpr>(ia) || isa<IntegerLiteral>(ia) || isa<CXXThisExpr>(ia) ? s : "(" + s + ")";
      else {
        if (isExprBody(F) && !stmtForm) return R;
        name = (p->getNameAsString().empty() ? string("unnamed") : p->getNameAsString()) + "_" + id;
        PrintingPolicy pp(LO); pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; string d = name; p->getType().getAsStringInternal(d, pp);
        R.decls += d + " = (" + s + "); ";
      }
      for (auto r : Refs[p]) { string f; unsigned b, e; if (!loc(r->getSourceRange(), f, b, e, true)) return R; 
        // p in "p.x" with *this and the like is handled by the parentheses
        R.reps.push_back({b, e, name}); }
    }
    R.ok = true; return R;
  }
  bool stmtForm = false;
  const ReturnStmt *exprBody(FunctionDecl *F) { auto b = dyn_cast<CompoundStmt>(F->getBody()); if (!b || b->size() != 1) return nullptr; auto r = dyn_cast<ReturnStmt>(*b->body_begin()); return r && r->getRetValue() ? r : nullptr; }
  bool isExprBody(FunctionDecl *F) { return exprBody(F) != nullptr; }
  std::vector<const ReturnStmt *> returns(const Stmt *s) { std::vector<const ReturnStmt *> r; all(s, [&](const Stmt *x) { if (auto y = dyn_cast<ReturnStmt>(x)) r.push_back(y); }); return r; }
  bool inlinable(FunctionDecl *F) {
    if (!F->getBody() || !isa<CompoundStmt>(F->getBody())) return false;
    bool ok = true;
    all(F->getBody(), [&](const Stmt *x) {
      if (isa<LambdaExpr>(x) || isa<GotoStmt>(x) || isa<LabelStmt>(x) || isa<CXXTryStmt>(x) && false) ok = false;
      if (auto d = dyn_cast<DeclStmt>(x)) for (auto y : d->decls()) if (auto v = dyn_cast<VarDecl>(y)) { if (v->isStaticLocal()) ok = false; }
      if (auto c = dyn_cast<CallExpr>(x)) if (c->getDirectCallee() && c->getDirectCallee()->getCanonicalDecl() == F->getCanonicalDecl()) ok = false;
    });
    return ok;
  }
  // text of the body, every return replaced by what ret gives for it
  template <class G> string body(FunctionDecl *F, Body &R, G ret) {
    string f; unsigned b, e; if (!loc(F->getBody()->getSourceRange(), f, b, e)) return "";
    std::vector<Edit> reps;
    auto rs = returns(F->getBody()); std::vector<std::pair<unsigned, unsigned>> spans;
    for (auto r : rs) {
      string f2; unsigned rb, re; if (!sloc(r, f2, rb, re)) return "";
      std::vector<Edit> in; for (auto &x : R.reps) if (x.b >= rb && x.e <= re) in.push_back(x);
      string val; if (r->getRetValue()) { val = flat(r->getRetValue(), in); if (val.empty()) return ""; }
      reps.push_back({rb, re, ret(r, val)}); spans.push_back({rb, re});
    }
    for (auto &x : R.reps) { bool inside = false; for (auto &s : spans) if (x.b >= s.first && x.e <= s.second) inside = true; if (!inside) reps.push_back(x); }
    std::sort(reps.begin(), reps.end(), [](const Edit &x, const Edit &y) { return x.b < y.b; });
    reps.erase(std::unique(reps.begin(), reps.end(), [](const Edit &x, const Edit &y) { return x.b == y.b; }), reps.end());
    return flat(F->getBody()->getBeginLoc(), b, e, reps);
  }
  bool isLast(FunctionDecl *F, const ReturnStmt *r) { auto b = cast<CompoundStmt>(F->getBody()); return !b->body_empty() && b->body_back() == r; }
  string constRet(const ReturnStmt *r) { auto e = r->getRetValue() ? r->getRetValue()->IgnoreParenImpCasts() : nullptr; if (!e) return ""; if (auto b = dyn_cast<CXXBoolLiteralExpr>(e)) return b->getValue() ? "1" : "0"; if (auto i = dyn_cast<IntegerLiteral>(e)) return i->getValue() == 0 ? "0" : "1"; return ""; }

  bool inlineCall(FunctionDecl *F, const CallExpr *c, FunctionDecl *caller) {
    if (!caller || !inlinable(F)) return false;
    if (caller->getCanonicalDecl() == F->getCanonicalDecl()) return false;
    if (auto m = dyn_cast<CXXMethodDecl>(F)) if (!m->isStatic()) {
      auto mc = dyn_cast<CXXMemberCallExpr>(c); if (!mc || !isa<CXXThisExpr>(mc->getImplicitObjectArgument()->IgnoreParenImpCasts())) return false;
      auto cm = dyn_cast<CXXMethodDecl>(caller); if (!cm || cm->getParent()->getCanonicalDecl() != m->getParent()->getCanonicalDecl()) return false;
    }
    string id = "vp" + Tag + std::to_string(++Counter);
    string f; unsigned cb, ce; if (!loc(c->getSourceRange(), f, cb, ce)) return false;
    // expression
    if (auto r = exprBody(F)) {
      stmtForm = false; Body R = bind(F, c, id, caller);
      if (R.ok && R.decls.empty()) {
        std::vector<Edit> in = R.reps; string s = flat(r->getRetValue(), in);
        QualType U = r->getRetValue()->IgnoreParenImpCasts()->getType();
        bool same = C.hasSameUnqualifiedType(U.getCanonicalType(), F->getReturnType().getNonReferenceType().getCanonicalType()) || F->getReturnType()->isBooleanType() && boolContext(c);
        if (!s.empty()) return put(f, {{cb, ce, same ? "(" + s + ")" : "((" + F->getReturnType().getNonReferenceType().getUnqualifiedType().getAsString(pol()) + ")(" + s + "))"}});
      }
    }
    stmtForm = true;
    // the statement the call stands in
    const Stmt *x = c, *p = nullptr; bool neg = false, direct = true;
    for (;;) {
      auto ps = C.getParents(*x); if (ps.empty()) return false;
      p = ps[0].get<Stmt>();
      if (p && (isa<ExprWithCleanups>(p) || isa<ParenExpr>(p) || isa<ImplicitCastExpr>(p) || isa<CXXBindTemporaryExpr>(p) || isa<MaterializeTemporaryExpr>(p))) { x = p; continue; }
      if (p && isa<UnaryOperator>(p) && cast<UnaryOperator>(p)->getOpcode() == UO_LNot) { neg = !neg; x = p; continue; }
      if (p && isa<CXXConstructExpr>(p) && cast<CXXConstructExpr>(p)->getNumArgs() == 1 && cast<CXXConstructExpr>(p)->isElidable()) { x = p; continue; }
      break;
    }
    Body R = bind(F, c, id, caller); if (!R.ok) return false;
    bool isVoid = F->getReturnType()->isVoidType();
    auto stmtPos = [&](const Stmt *s, const Stmt *q) {
      if (!q) return false;
      if (isa<CompoundStmt>(q) || isa<CaseStmt>(q) || isa<DefaultStmt>(q)) return true;
      if (auto i = dyn_cast<IfStmt>(q)) return i->getThen() == s || i->getElse() == s;
      if (auto i = dyn_cast<WhileStmt>(q)) return i->getBody() == s;
      if (auto i = dyn_cast<ForStmt>(q)) return i->getBody() == s;
      if (auto i = dyn_cast<DoStmt>(q)) return i->getBody() == s;
      return false;
    };
    if (p && !neg && stmtPos(x, p)) {
      string f2; unsigned b, e; if (!sloc(x, f2, b, e)) return false;
      bool go = false;
      string s = body(F, R, [&](const ReturnStmt *r, const string &v) { string o = v.empty() ? "" : isVoid ? v + ";" : "(void)(" + v + "); "; if (isLast(F, r)) return o.empty() ? string(";") : o; go = true; return "{ " + o + " goto end_" + id + "; }"; });
      if (s.empty()) return false;
      return put(f, {{b, e, "{ " + R.decls + s + (go ? " end_" + id + ":; " : "") + " }"}});
    }
    if (auto rs = p ? dyn_cast<ReturnStmt>(p) : nullptr) {
      if (neg || !C.hasSameType(F->getReturnType(), caller->getReturnType())) return false;
      string f2; unsigned b, e; if (!sloc(rs, f2, b, e)) return false;
      string s = body(F, R, [&](const ReturnStmt *r, const string &v) { return "return " + v + ";"; });
      if (s.empty()) return false;
      return put(f, {{b, e, "{ " + R.decls + s + " }"}});
    }
    if (isVoid) return false;
    if (auto is = p ? dyn_cast<IfStmt>(p) : nullptr) if (is->getCond() == x && !is->getConditionVariable() && !is->getInit() && (F->getReturnType()->isIntegralOrEnumerationType())) {
      string f2; unsigned ib, ie, tb, te, lb, le; if (!sloc(is, f2, ib, ie) || !sloc(is->getThen(), f2, tb, te)) return false;
      string T = (neg ? "no_" : "yes_") + id, E = (neg ? "yes_" : "no_") + id;
      string s = body(F, R, [&](const ReturnStmt *r, const string &v) { string k = constRet(r); if (!k.empty()) return "goto " + (k == "1" ? T : E) + ";"; return "{ if (" + v + ") goto " + T + "; goto " + E + "; }"; });
      if (s.empty()) return false;
      // labels: yes_ = then branch
      std::vector<Edit> g; g.push_back({ib, tb, "{ { " + R.decls + s + " } yes_" + id + ":; { " + nl(is->getBeginLoc(), ib, tb)});
      if (is->getElse()) {
        unsigned eb, ee; if (!sloc(is->getElse(), f2, eb, ee)) return false;
        g.push_back({te, eb, " } goto end_" + id + "; no_" + id + ":; {" + nl(is->getBeginLoc(), te, eb)});
        g.push_back({ee, ee, " } end_" + id + ":; }"});
      } else g.push_back({te, te, " } no_" + id + ":; }"});
      return put(f, g);
    }
    // a value used in a statement of a block
    const Stmt *st = c;
    for (;;) {
      auto ps = C.getParents(*st); if (ps.empty()) return false;
      const Stmt *q = ps[0].get<Stmt>();
      if (!q) { auto d = ps[0].get<VarDecl>(); if (!d) return false; auto z = C.getParents(*d); if (z.empty() || !z[0].get<Stmt>()) return false; q = z[0].get<Stmt>(); }
      if (isa<CompoundStmt>(q)) break;
      st = q;
    }
    if (where(st, c) != Always) return false;
    QualType RT = F->getReturnType().getNonReferenceType().getUnqualifiedType(); if (F->getReturnType()->isReferenceType()) return false;
    string f2; unsigned b, e; if (!sloc(st, f2, b, e)) return false;
    string val = "val_" + id, d = val; RT.getAsStringInternal(d, pol());
    auto rs = returns(F->getBody());
    if (RT->isRecordType() && !defaultable(RT)) return false;
    // x = f(...): straight into x
    bool go = false;
    string s = body(F, R, [&](const ReturnStmt *r, const string &v) { string o = val + " = " + v + ";"; if (isLast(F, r)) return o; go = true; return "{ " + o + " goto end_" + id + "; }"; });
    if (s.empty()) return false;
    return put(f, {{b, b, d + "; { " + R.decls + s + (go ? " end_" + id + ":; " : "") + " } "}, {cb, ce, val}});
  }
  bool defaultable(QualType T) { auto r = T->getAsCXXRecordDecl(); return r && r->hasDefinition() && r->hasDefaultConstructor(); }
  PrintingPolicy pol() { PrintingPolicy pp(LO); pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; pp.Bool = true; return pp; }
  string nl(SourceLocation at, unsigned b, unsigned e) { string o; for (char c : buf(at).substr(b, e - b)) if (c == '\n') o += '\n'; return o; }

  bool run() {
    TraverseDecl(C.getTranslationUnitDecl());
    if (Level >= 2) for (auto F : News) {
      auto K = F->getCanonicalDecl(); auto calls = FCalls[K]; unsigned done = 0;
      for (auto &c : calls) if (inlineCall(F, c.first, c.second)) done++;
      bool own = !F->isExternallyVisible(); if (auto m = dyn_cast<CXXMethodDecl>(F)) own = own || m->getAccess() == AS_private;
      if (done == calls.size() && Mentions[K] == calls.size() && own && (done || Removable.count(F->getQualifiedNameAsString()))) {
        string f; unsigned b, e; if (loc(F->getBody()->getSourceRange(), f, b, e)) {
          // only together with the calls, or when none is left
          if (calls.empty()) { if (put(f, {{b, e, ";" + nl(F->getBody()->getBeginLoc(), b, e)}})) Removable.erase(F->getQualifiedNameAsString()); }
          else Removable.insert(F->getQualifiedNameAsString());
        }
      }
      if (done) Removable.insert(F->getQualifiedNameAsString());
    }
    if (Level >= 1) for (auto &b : Blocks) { Fn0 = b.second; values(b.first); loops(b.first); if (Level >= 3) guards(b.first), aliases(b.first); }
    if (Level >= 3) comparisons();
    for (auto &g : Groups) if (!g.second.empty()) return true;
    return false;
  }
  static std::set<string> Removable;
};
std::set<string> Normalizer::Removable;
