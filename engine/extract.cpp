// latte-facts: parses translation units of the repository under check with Clang and writes, per unit, the resolved
// syntax trees and control-flow graphs of every function defined inside the repository, plus class/enum/global tables.
// Usage: latte-facts --root=/repo --out=DIR  tu1.cpp=out1.json tu2.cpp=out2.json ... -- <compiler args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace clang;
using std::string;

static string Root;  // with trailing slash

static void jstr(string &o, llvm::StringRef s) {
  o += '"';
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
  }
  o += '"';
}

namespace {
struct Dumper {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  string out;
  std::map<string, int> typeIx; std::vector<string> types;
  std::map<string, int> fileIx; std::vector<string> files;
  std::map<const Decl *, int> declIx; std::vector<string> decls;
  std::set<string> emitted;
  bool firstFn = true;

  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
  }

  int type(QualType T) {
    string s = T.isNull() ? string("?") : T.getCanonicalType().getAsString(PP);
    auto it = typeIx.find(s);
    if (it != typeIx.end()) return it->second;
    int i = types.size(); types.push_back(s); typeIx[s] = i; return i;
  }
  string filePath(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
    if (rp.empty()) rp = FE->getName();
    if (rp.starts_with(Root)) return rp.substr(Root.size()).str();
    return rp.str();
  }
  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return false;
    llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
    return rp.starts_with(Root);
  }
  int file(SourceLocation L) {
    string p = filePath(L);
    auto it = fileIx.find(p);
    if (it != fileIx.end()) return it->second;
    int i = files.size(); files.push_back(p); fileIx[p] = i; return i;
  }
  string fnKey(const FunctionDecl *FD) {
    string s; llvm::raw_string_ostream os(s);
    FD->getNameForDiagnostic(os, PP, true);
    os << "(";
    bool f = true;
    for (auto *P : FD->parameters()) { if (!f) os << ", "; f = false; os << P->getType().getCanonicalType().getAsString(PP); }
    if (FD->isVariadic()) os << ", ...";
    os << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->isConst()) os << " const";
    if (!FD->isExternallyVisible()) {
      os << " @" << filePath(FD->getCanonicalDecl()->getLocation());
    }
    return s;
  }
  string recName(const RecordDecl *R) {
    string s; llvm::raw_string_ostream os(s);
    R->getNameForDiagnostic(os, PP, true);
    return s;
  }
  static const Decl *canon(const Decl *D) { return D->getCanonicalDecl(); }
  int decl(const ValueDecl *D0) {
    const ValueDecl *D = cast<ValueDecl>(canon(D0));
    auto it = declIx.find(D);
    if (it != declIx.end()) return it->second;
    int i = decls.size(); declIx[D] = i; decls.push_back("");
    string o = "{\"n\":"; jstr(o, D->getNameAsString());
    o += ",\"t\":" + std::to_string(type(D->getType()));
    o += ",\"f\":" + std::to_string(file(D->getLocation()));
    o += ",\"l\":" + std::to_string(SM.getExpansionLineNumber(D->getLocation()));
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      o += ",\"k\":\"fn\",\"q\":"; jstr(o, fnKey(FD));
      o += ",\"qn\":"; jstr(o, FD->getQualifiedNameAsString());
      o += ",\"rt\":" + std::to_string(type(FD->getReturnType()));
      o += ",\"pt\":[";
      for (unsigned k = 0; k < FD->getNumParams(); k++) { if (k) o += ","; o += std::to_string(type(FD->getParamDecl(k)->getType())); }
      o += "]";
      if (FD->isVariadic()) o += ",\"va\":1";
      if (FD->isNoReturn()) o += ",\"nr\":1";
      if (FD->isInlined()) o += ",\"inl\":1";
      if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
        o += ",\"cls\":"; jstr(o, recName(M->getParent()));
        if (M->isVirtual()) o += ",\"v\":1";
        if (M->isPureVirtual()) o += ",\"pv\":1";
        if (M->isStatic()) o += ",\"st\":1";
        if (M->isConst()) o += ",\"c\":1";
        if (M->isImplicit()) o += ",\"imp\":1";
        if (M->isDefaulted()) o += ",\"dft\":1";
        if (M->isDeleted()) o += ",\"del\":1";
        if (M->getAccess() == AS_private || M->getAccess() == AS_protected) o += ",\"pr\":1";
        o += ",\"ov\":[";
        bool f = true;
        for (auto *B : M->overridden_methods()) { if (!f) o += ","; f = false; jstr(o, fnKey(B)); }
        o += "]";
      }
      if (auto *C = dyn_cast<CXXConstructorDecl>(FD)) { o += ",\"ctor\":\""; o += C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : C->isDefaultConstructor() ? "def" : "user"; o += "\""; }
      if (isa<CXXDestructorDecl>(FD)) o += ",\"dtor\":1";
    } else if (auto *F = dyn_cast<FieldDecl>(D)) {
      o += ",\"k\":\"field\",\"cls\":"; jstr(o, recName(F->getParent()));
      o += ",\"q\":"; jstr(o, recName(F->getParent()) + "::" + F->getNameAsString());
      if (F->getAccess() == AS_private || F->getAccess() == AS_protected) o += ",\"pr\":1";
    } else if (auto *P = dyn_cast<ParmVarDecl>(D)) {
      o += ",\"k\":\"parm\",\"ix\":" + std::to_string(P->getFunctionScopeIndex());
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDecl()) { o += ",\"k\":\"local\""; if (V->isStaticLocal()) o += ",\"st\":1"; }
      else { o += ",\"k\":\"global\",\"q\":"; jstr(o, V->getQualifiedNameAsString());
        if (V->isStaticDataMember()) { o += ",\"sm\":1"; }
        if (V->hasExternalStorage()) o += ",\"ext\":1"; }
      // declared (uncanonical) spelling of arrays with dependent/variable bounds
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      o += ",\"k\":\"enum\",\"q\":"; jstr(o, E->getQualifiedNameAsString());
      o += ",\"v\":" + toString(E->getInitVal());
      if (auto *ED = dyn_cast<EnumDecl>(E->getDeclContext())) { o += ",\"en\":"; jstr(o, ED->getQualifiedNameAsString()); }
    } else { o += ",\"k\":\"other\""; }
    o += "}";
    decls[i] = o;
    return i;
  }
  static string toString(const llvm::APSInt &v) { llvm::SmallString<32> s; v.toString(s, 10); return s.str().str(); }

  // ---- per function ----
  std::map<const void *, int> nodeIx;
  std::vector<string> nodes;

  string macroOf(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // outermost macro expansion whose name is "assert" wins; otherwise the immediate macro name
    string name;
    SourceLocation cur = L;
    while (cur.isMacroID()) {
      llvm::StringRef n = Lexer::getImmediateMacroName(cur, SM, Ctx.getLangOpts());
      name = n.str();
      if (name == "assert") return name;
      cur = SM.getImmediateMacroCallerLoc(cur);
      if (cur.isMacroID()) continue;
    }
    return name;
  }

  int addNode(const void *p, const string &s) { int i = nodes.size(); if (p) nodeIx[p] = i; nodes.push_back(s); return i; }

  void head(string &o, const char *kind, QualType T, SourceLocation B) {
    o = "["; o += "\""; o += kind; o += "\",";
    o += std::to_string(T.isNull() ? -1 : type(T)); o += ",";
    SourceLocation E = SM.getExpansionLoc(B);
    o += std::to_string(E.isValid() ? SM.getExpansionLineNumber(E) : 0);
    o += ","; o += std::to_string(E.isValid() ? SM.getExpansionColumnNumber(E) : 0);
  }

  int varNode(const VarDecl *VD) {
    int id = addNode(VD, "");
    std::vector<int> ch;
    if (VD->getInit()) ch.push_back(stmt(VD->getInit()));
    string ex = "\"d\":" + std::to_string(decl(VD));
    if (VD->getInitStyle() != VarDecl::CInit) ex += ",\"is\":1";
    // VLA size expression
    QualType T = VD->getType();
    while (auto *A = Ctx.getAsArrayType(T)) {
      if (auto *VA = dyn_cast<VariableArrayType>(A)) if (VA->getSizeExpr()) { int s = stmt(VA->getSizeExpr()); ex += ",\"vla\":" + std::to_string(s); }
      T = A->getElementType();
    }
    string o; head(o, "VarDecl", VD->getType(), VD->getLocation());
    finish(id, o, ch, ex);
    return id;
  }
  void finish(int id, string &o, const std::vector<int> &ch, const string &ex) {
    o += ",[";
    for (size_t i = 0; i < ch.size(); i++) { if (i) o += ","; o += std::to_string(ch[i]); }
    o += "]";
    if (!ex.empty()) { o += ",{"; o += ex; o += "}"; }
    o += "]";
    nodes[id] = o;
  }

  int stmt(const Stmt *S) {
    if (!S) { string o = "[\"Null\",-1,0,0,[]]"; return addNode(nullptr, o); }
    auto found = nodeIx.find(S);
    if (found != nodeIx.end()) return found->second;
    int id = addNode(S, "");
    string o, ex;
    QualType T;
    if (auto *E = dyn_cast<Expr>(S)) T = E->getType();
    SourceLocation L = S->getBeginLoc();
    if (auto *BO = dyn_cast<BinaryOperator>(S)) L = BO->getOperatorLoc();
    else if (auto *ME = dyn_cast<MemberExpr>(S)) L = ME->getMemberLoc();
    head(o, S->getStmtClassName(), T, L);
    auto add = [&](const string &s) { if (!ex.empty()) ex += ","; ex += s; };
    auto addS = [&](const char *k, llvm::StringRef v) { string s = "\""; s += k; s += "\":"; jstr(s, v); add(s); };
    auto addI = [&](const char *k, long v) { add(string("\"") + k + "\":" + std::to_string(v)); };
    std::vector<int> ch;
    bool kids = true;
    if (S->getBeginLoc().isMacroID()) { string m = macroOf(S->getBeginLoc()); if (!m.empty()) addS("m", m); }
    if (auto *DR = dyn_cast<DeclRefExpr>(S)) addI("d", decl(DR->getDecl()));
    else if (auto *ME = dyn_cast<MemberExpr>(S)) { addI("d", decl(ME->getMemberDecl())); if (ME->isArrow()) addI("ar", 1); }
    else if (auto *BO = dyn_cast<BinaryOperator>(S)) addS("op", BO->getOpcodeStr());
    else if (auto *UO = dyn_cast<UnaryOperator>(S)) { addS("op", UnaryOperator::getOpcodeStr(UO->getOpcode())); if (UO->isPostfix()) addI("post", 1); }
    else if (auto *IL = dyn_cast<IntegerLiteral>(S)) { llvm::SmallString<32> b; IL->getValue().toString(b, 10, IL->getType()->isSignedIntegerType()); add("\"v\":" + b.str().str()); }
    else if (auto *CL = dyn_cast<CharacterLiteral>(S)) addI("v", CL->getValue());
    else if (auto *BL = dyn_cast<CXXBoolLiteralExpr>(S)) addI("v", BL->getValue());
    else if (auto *FL = dyn_cast<FloatingLiteral>(S)) { char b[64]; snprintf(b, 64, "%.17g", FL->getValueAsApproximateDouble()); addS("fv", b); }
    else if (auto *SL = dyn_cast<StringLiteral>(S)) { if (SL->isOrdinary()) addS("s", SL->getString()); }
    else if (auto *PE = dyn_cast<PredefinedExpr>(S)) { kids = false; (void)PE; }
    else if (auto *CE = dyn_cast<CallExpr>(S)) {
      if (auto *FD = CE->getDirectCallee()) addI("d", decl(FD));
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(CE)) addS("op", getOperatorSpelling(OC->getOperator()));
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(CE)) {
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) if (ME->hasQualifier()) addI("qual", 1);
      }
    }
    else if (auto *CC = dyn_cast<CXXConstructExpr>(S)) { addI("d", decl(CC->getConstructor())); if (CC->isElidable()) addI("el", 1); if (CC->requiresZeroInitialization()) addI("zi", 1); }
    else if (auto *IC = dyn_cast<CastExpr>(S)) { addS("ck", IC->getCastKindName()); if (isa<ExplicitCastExpr>(IC)) addI("xc", 1); }
    else if (auto *NE = dyn_cast<CXXNewExpr>(S)) { if (NE->isArray()) addI("arr", 1); addI("at", type(NE->getAllocatedType())); if (NE->hasInitializer()) addI("init", 1);
      if (NE->isArray() && NE->getArraySize()) addI("asz", stmt(*NE->getArraySize())); }
    else if (auto *DE = dyn_cast<CXXDeleteExpr>(S)) { if (DE->isArrayForm()) addI("arr", 1); }
    else if (auto *UE = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { addI("uk", UE->getKind()); addI("at", type(UE->getTypeOfArgument())); }
    else if (auto *CS = dyn_cast<CXXCatchStmt>(S)) { if (CS->getExceptionDecl()) { addI("ex", decl(CS->getExceptionDecl())); addI("ct", type(CS->getCaughtType())); } else addI("all", 1); }
    else if (auto *GS = dyn_cast<GotoStmt>(S)) addS("lb", GS->getLabel()->getName());
    else if (auto *LS = dyn_cast<LabelStmt>(S)) addS("lb", LS->getName());
    else if (auto *DA = dyn_cast<CXXDefaultArgExpr>(S)) { kids = false; ch.push_back(stmt(DA->getExpr())); addI("da", 1); }
    else if (auto *DI = dyn_cast<CXXDefaultInitExpr>(S)) { kids = false; if (DI->getExpr()) ch.push_back(stmt(DI->getExpr())); }
    else if (auto *DS = dyn_cast<DeclStmt>(S)) {
      kids = false;
      for (auto *D : DS->decls()) if (auto *VD = dyn_cast<VarDecl>(D)) ch.push_back(varNode(VD));
    }
    else if (isa<LambdaExpr>(S)) { auto *LE = cast<LambdaExpr>(S); kids = false; for (auto *I : LE->capture_inits()) if (I) ch.push_back(stmt(I)); ch.push_back(stmt(LE->getBody())); }
    else if (auto *IS = dyn_cast<IfStmt>(S)) {
      kids = false; ch.push_back(stmt(IS->getInit())); if (IS->getConditionVariableDeclStmt()) ch.push_back(stmt(IS->getConditionVariableDeclStmt()));
      string s = "\"c\":" ; int c = stmt(IS->getCond()); ch.push_back(c); addI("c", c);
      int t = stmt(IS->getThen()); ch.push_back(t); addI("th", t);
      if (IS->getElse()) { int e = stmt(IS->getElse()); ch.push_back(e); addI("e", e); }
    }
    else if (auto *FS = dyn_cast<ForStmt>(S)) {
      kids = false;
      if (FS->getInit()) { int i = stmt(FS->getInit()); ch.push_back(i); addI("i", i); }
      if (FS->getConditionVariableDeclStmt()) ch.push_back(stmt(FS->getConditionVariableDeclStmt()));
      if (FS->getCond()) { int i = stmt(FS->getCond()); ch.push_back(i); addI("c", i); }
      if (FS->getInc()) { int i = stmt(FS->getInc()); ch.push_back(i); addI("inc", i); }
      int b = stmt(FS->getBody()); ch.push_back(b); addI("b", b);
    }
    else if (auto *WS = dyn_cast<WhileStmt>(S)) {
      kids = false;
      if (WS->getConditionVariableDeclStmt()) ch.push_back(stmt(WS->getConditionVariableDeclStmt()));
      int c = stmt(WS->getCond()); ch.push_back(c); addI("c", c);
      int b = stmt(WS->getBody()); ch.push_back(b); addI("b", b);
    }
    else if (auto *DW = dyn_cast<DoStmt>(S)) {
      kids = false;
      int b = stmt(DW->getBody()); ch.push_back(b); addI("b", b);
      int c = stmt(DW->getCond()); ch.push_back(c); addI("c", c);
    }
    else if (auto *SS = dyn_cast<SwitchStmt>(S)) {
      kids = false;
      if (SS->getInit()) ch.push_back(stmt(SS->getInit()));
      if (SS->getConditionVariableDeclStmt()) ch.push_back(stmt(SS->getConditionVariableDeclStmt()));
      int c = stmt(SS->getCond()); ch.push_back(c); addI("c", c);
      int b = stmt(SS->getBody()); ch.push_back(b); addI("b", b);
      if (SS->isAllEnumCasesCovered()) addI("cov", 1);
    }
    if (kids) {
      if (auto *ILE = dyn_cast<InitListExpr>(S)) { const InitListExpr *sem = ILE->isSemanticForm() ? ILE : ILE->getSemanticForm(); if (!sem) sem = ILE; for (auto *I : sem->inits()) ch.push_back(stmt(I)); if (sem->hasArrayFiller()) addI("fill", 1); if (sem != ILE) nodeIx[sem] = id; }
      else if (auto *PO = dyn_cast<OpaqueValueExpr>(S)) { if (PO->getSourceExpr()) ch.push_back(stmt(PO->getSourceExpr())); }
      else for (const Stmt *C : S->children()) if (C) ch.push_back(stmt(C));
    }
    // integer constant value
    if (auto *E = dyn_cast<Expr>(S)) {
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue() &&
          !isa<IntegerLiteral>(E) && !isa<CharacterLiteral>(E) && !isa<CXXBoolLiteralExpr>(E)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) add("\"cv\":" + toString(R.Val.getInt()));
      }
    }
    finish(id, o, ch, ex);
    return id;
  }

  void function(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody()) return;
    if (FD->isDependentContext()) return;
    if (!inRepo(FD->getLocation())) return;
    string key = fnKey(FD);
    if (!emitted.insert(key).second) return;
    nodeIx.clear(); nodes.clear();
    string o = firstFn ? "" : ",\n"; firstFn = false;
    o += "{\"key\":"; jstr(o, key);
    o += ",\"d\":" + std::to_string(decl(FD));
    o += ",\"file\":" + std::to_string(file(FD->getLocation()));
    o += ",\"line\":" + std::to_string(SM.getExpansionLineNumber(FD->getLocation()));
    o += ",\"eline\":" + std::to_string(SM.getExpansionLineNumber(FD->getEndLoc()));
    if (FD->isImplicit()) o += ",\"imp\":1";
    if (FD->isTemplateInstantiation()) o += ",\"ti\":1";
    o += ",\"params\":[";
    for (unsigned k = 0; k < FD->getNumParams(); k++) { if (k) o += ","; o += std::to_string(decl(FD->getParamDecl(k))); }
    o += "]";
    std::vector<int> inits;
    if (auto *C = dyn_cast<CXXConstructorDecl>(FD)) {
      for (auto *I : C->inits()) {
        int id = addNode(I, "");
        std::vector<int> ch;
        if (I->getInit()) ch.push_back(stmt(I->getInit()));
        string h, ex; head(h, "CtorInit", QualType(), I->getSourceLocation());
        if (I->isAnyMemberInitializer()) ex = "\"d\":" + std::to_string(decl(I->getAnyMember()));
        else if (I->isBaseInitializer()) { ex = "\"base\":"; jstr(ex, QualType(I->getBaseClass(), 0).getCanonicalType().getAsString(PP)); }
        else ex = "\"deleg\":1";
        if (I->isWritten()) ex += ",\"w\":1";
        finish(id, h, ch, ex);
        inits.push_back(id);
      }
    }
    const Stmt *Body = FD->getBody();
    int body = stmt(Body);
    // CFG
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true; BO.AddEHEdges = false; BO.AddImplicitDtors = false; BO.AddLifetime = false;
    BO.PruneTriviallyFalseEdges = true; BO.AddCXXDefaultInitExprInCtors = true; BO.AddCXXNewAllocator = false;
    string cfgs = "null";
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, const_cast<Stmt *>(Body), &Ctx, BO);
    if (G) {
      std::map<const DeclStmt *, const DeclStmt *> synth;
      cfgs = "{\"entry\":" + std::to_string(G->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(G->getExit().getBlockID()) + ",\"b\":[";
      bool fb = true;
      for (const CFGBlock *B : *G) {
        if (!fb) cfgs += ","; fb = false;
        cfgs += "[" + std::to_string(B->getBlockID()) + ",[";
        bool fe = true;
        auto put = [&](int n) { if (!fe) cfgs += ","; fe = false; cfgs += std::to_string(n); };
        for (const CFGElement &E : *B) {
          if (auto SE = E.getAs<CFGStmt>()) {
            const Stmt *S = SE->getStmt();
            if (auto *DS = dyn_cast<DeclStmt>(S)) {
              for (auto *D : DS->decls()) if (auto *VD = dyn_cast<VarDecl>(D)) { auto f = nodeIx.find(VD); if (f != nodeIx.end()) put(f->second); else put(varNode(VD)); }
            } else { auto f = nodeIx.find(S); if (f != nodeIx.end()) put(f->second); else put(stmt(S)); }
          } else if (auto IE = E.getAs<CFGInitializer>()) {
            auto f = nodeIx.find(IE->getInitializer()); if (f != nodeIx.end()) put(f->second);
          }
        }
        cfgs += "],";
        const Stmt *term = B->getTerminatorStmt();
        int tn = -1, cn = -1;
        if (term) { auto f = nodeIx.find(term); if (f != nodeIx.end()) tn = f->second; else tn = stmt(term); }
        if (const Stmt *c = B->getTerminatorCondition(false)) { auto f = nodeIx.find(c); if (f != nodeIx.end()) cn = f->second; }
        cfgs += std::to_string(tn) + "," + std::to_string(cn) + ",[";
        bool fs = true;
        for (auto &A : B->succs()) { if (!fs) cfgs += ","; fs = false; const CFGBlock *sb = A.getReachableBlock(); cfgs += std::to_string(sb ? (int)sb->getBlockID() : -1); }
        cfgs += "]," + std::to_string(B->hasNoReturnElement() ? 1 : 0);
        int ln = -1;
        if (const Stmt *lab = B->getLabel()) { auto f = nodeIx.find(lab); if (f != nodeIx.end()) ln = f->second; }
        cfgs += "," + std::to_string(ln) + "]";
      }
      cfgs += "]}";
    }
    o += ",\"body\":" + std::to_string(body) + ",\"inits\":[";
    for (size_t i = 0; i < inits.size(); i++) { if (i) o += ","; o += std::to_string(inits[i]); }
    o += "],\"nodes\":[";
    for (size_t i = 0; i < nodes.size(); i++) { if (i) o += ","; o += nodes[i]; }
    o += "],\"cfg\":" + cfgs + "}";
    out += o;
  }
  string recs, enums, globals;
  std::set<string> recSeen, enumSeen, globSeen;
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRepo(R->getLocation())) return;
    string n = recName(R);
    if (!recSeen.insert(n).second) return;
    string o = recs.empty() ? "" : ",\n";
    o += "{\"n\":"; jstr(o, n);
    o += ",\"file\":" + std::to_string(file(R->getLocation())) + ",\"line\":" + std::to_string(SM.getExpansionLineNumber(R->getLocation()));
    o += ",\"kind\":"; jstr(o, R->getKindName());
    o += ",\"bases\":[";
    bool f = true;
    for (auto &B : R->bases()) { if (!f) o += ","; f = false; jstr(o, B.getType().getCanonicalType().getAsString(PP)); }
    o += "],\"fields\":["; f = true;
    for (auto *F : R->fields()) {
      if (!f) o += ","; f = false;
      o += "{\"d\":" + std::to_string(decl(F)) + ",\"n\":"; jstr(o, F->getNameAsString());
      o += ",\"t\":" + std::to_string(type(F->getType()));
      if (F->hasInClassInitializer()) o += ",\"ici\":1";
      QualType T = Ctx.getBaseElementType(F->getType());
      bool trivial = T->isScalarType();
      if (trivial) o += ",\"scalar\":1";
      if (F->getType()->isPointerType()) o += ",\"ptr\":1";
      if (F->getType()->isArrayType()) o += ",\"arr\":1";
      if (auto *RD = T->getAsCXXRecordDecl()) { if (RD->hasDefinition() && RD->hasTrivialDefaultConstructor()) o += ",\"tdc\":1"; }
      if (F->isMutable()) o += ",\"mut\":1";
      o += "}";
    }
    o += "],\"methods\":["; f = true;
    for (auto *M : R->methods()) { if (!f) o += ","; f = false; o += std::to_string(decl(M)); }
    o += "]";
    if (R->hasUserDeclaredCopyConstructor()) o += ",\"ucc\":1";
    if (R->hasUserDeclaredCopyAssignment()) o += ",\"uca\":1";
    if (R->hasUserDeclaredDestructor()) o += ",\"udt\":1";
    if (R->isPolymorphic()) o += ",\"poly\":1";
    if (R->isAbstract()) o += ",\"abs\":1";
    bool udc = false; for (auto *C : R->ctors()) if (!C->isImplicit() && !C->isDefaulted()) udc = true;
    if (udc) o += ",\"uctor\":1";
    if (R->hasDefaultConstructor()) o += ",\"hasdc\":1";
    o += "}";
    recs += o;
  }
  void enumd(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation())) return;
    string n = E->getQualifiedNameAsString();
    string k = n + "@" + filePath(E->getLocation()) + std::to_string(SM.getExpansionLineNumber(E->getLocation()));
    if (!enumSeen.insert(k).second) return;
    string o = enums.empty() ? "" : ",\n";
    o += "{\"n\":"; jstr(o, n); o += ",\"file\":" + std::to_string(file(E->getLocation())) + ",\"line\":" + std::to_string(SM.getExpansionLineNumber(E->getLocation()));
    o += ",\"vals\":["; bool f = true;
    for (auto *C : E->enumerators()) { if (!f) o += ","; f = false; o += "["; jstr(o, C->getNameAsString()); o += "," + toString(C->getInitVal()) + "]"; }
    o += "]}";
    enums += o;
  }
  void global(const VarDecl *V) {
    if (V->isLocalVarDecl() || isa<ParmVarDecl>(V)) return;
    if (!inRepo(V->getLocation()) || V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    string k = V->getQualifiedNameAsString() + filePath(V->getLocation());
    if (!globSeen.insert(k).second) return;
    nodeIx.clear(); nodes.clear();
    int init = V->getInit() ? stmt(V->getInit()) : -1;
    string o = globals.empty() ? "" : ",\n";
    o += "{\"d\":" + std::to_string(decl(V)) + ",\"n\":"; jstr(o, V->getQualifiedNameAsString());
    o += ",\"t\":" + std::to_string(type(V->getType())) + ",\"file\":" + std::to_string(file(V->getLocation())) + ",\"line\":" + std::to_string(SM.getExpansionLineNumber(V->getLocation()));
    o += ",\"init\":" + std::to_string(init) + ",\"nodes\":[";
    for (size_t i = 0; i < nodes.size(); i++) { if (i) o += ","; o += nodes[i]; }
    o += "]}";
    globals += o;
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { fns.push_back(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enumd(E); return true; }
  bool VisitVarDecl(VarDecl *V) { D.global(V); return true; }
  std::vector<FunctionDecl *> fns;
};

#include "normalize.h"
static std::set<string> KnownFns; static std::map<string, string> Mapped; static int Level = 3, Round = 0; static bool More = false, Broken = false; static unsigned Changes = 0;
static const int Rounds = 12; static bool Names = false;
std::map<string, string> OutOf;
std::string CurOut;

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    More = Broken = false;
    if (Names) {
      struct W : RecursiveASTVisitor<W> { ASTContext &C; W(ASTContext &C) : C(C) {}
        bool VisitFunctionDecl(FunctionDecl *F) {
          auto &SM = C.getSourceManager(); auto fe = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(F->getLocation())));
          if (fe && fe->getFileEntry().tryGetRealPathName().starts_with(Root)) llvm::outs() << F->getQualifiedNameAsString() << "\n";
          return true; } } w(Ctx);
      w.TraverseDecl(Ctx.getTranslationUnitDecl()); return;
    }
    if (Round > 0 && CI.getDiagnostics().getClient()->getNumErrors()) { Broken = true; return; }
    if (Level > 0 && Round < Rounds && !CI.getDiagnostics().getClient()->getNumErrors()) {
      Normalizer N(Ctx, KnownFns, Level, std::to_string(Round) + "_");
      if (N.run()) {
        for (auto &g : N.Groups) {
          if (g.second.empty()) continue;
          std::vector<Edit> all; for (auto &x : g.second) { Changes++; for (auto &e : x) all.push_back(e); }
          std::stable_sort(all.begin(), all.end(), [](const Edit &a, const Edit &b) { return a.b < b.b || (a.b == b.b && a.e < b.e); });
          string s;
          if (Mapped.count(g.first)) s = Mapped[g.first];
          else { std::ifstream in(g.first); s.assign((std::istreambuf_iterator<char>(in)), {}); }
          string o; unsigned p = 0; for (auto &e : all) { o += s.substr(p, e.b - p) + e.s; p = e.e; } o += s.substr(p);
          Mapped[g.first] = o;
        }
        More = true; return;
      }
    }
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    for (auto *F : V.fns) D.function(F);
    string tu; 
    auto &SM = Ctx.getSourceManager();
    auto FE = SM.getFileEntryRefForID(SM.getMainFileID());
    llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
    string o = "{\"tu\":"; jstr(o, rp.starts_with(Root) ? rp.substr(Root.size()) : rp);
    o += ",\"errors\":" + std::to_string(CI.getDiagnostics().getClient()->getNumErrors());
    std::set<string> deps;
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      llvm::StringRef p = it->first.getFileEntry().tryGetRealPathName();
      if (p.starts_with(Root)) deps.insert(p.substr(Root.size()).str());
    }
    o += ",\"deps\":["; bool f = true;
    for (auto &d : deps) { if (!f) o += ","; f = false; jstr(o, d); }
    o += "],\n\"fns\":[" + D.out + "],\n\"recs\":[" + D.recs + "],\n\"enums\":[" + D.enums + "],\n\"globals\":[" + D.globals + "],\n\"decls\":[";
    for (size_t i = 0; i < D.decls.size(); i++) { if (i) o += ",\n"; o += D.decls[i]; }
    o += "],\n\"types\":["; for (size_t i = 0; i < D.types.size(); i++) { if (i) o += ","; jstr(o, D.types[i]); }
    o += "],\n\"files\":["; for (size_t i = 0; i < D.files.size(); i++) { if (i) o += ","; jstr(o, D.files[i]); }
    o += "]}\n";
    std::ofstream os(CurOut); os << o;
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { Skipped.clear(); CI.getPreprocessor().addPPCallbacks(std::make_unique<Skips>()); return std::make_unique<Consumer>(CI); }
};
} // namespace

int main(int argc, char **argv) {
  std::vector<std::pair<string, string>> jobs; std::vector<string> args; bool rest = false, Show = false; int Level0 = 3;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (rest) { args.push_back(a); continue; }
    if (a == "--") { rest = true; continue; }
    if (a.rfind("--root=", 0) == 0) { Root = a.substr(7); if (Root.back() != '/') Root += '/'; continue; }
    auto p = a.rfind('=');
    if (a.rfind("--known=", 0) == 0) { std::ifstream in(a.substr(8)); string l; while (std::getline(in, l)) KnownFns.insert(l); continue; }
    if (a.rfind("--level=", 0) == 0) { Level0 = atoi(a.c_str() + 8); continue; }
    if (a == "--names") { Names = true; continue; }
    if (a == "--show") { Show = true; continue; }
    jobs.push_back({a.substr(0, p), a.substr(p + 1)});
  }
  int rc = 0;
  for (auto &j : jobs) {
    CurOut = j.second;
    tooling::FixedCompilationDatabase db(Root, args);
    int r = 0;
    for (Level = Level0; Level >= 0; Level--) {
      Mapped.clear(); Changes = 0; Normalizer::Removable.clear(); bool again = true;
      for (Round = 0; again; Round++) {
        tooling::ClangTool tool(db, {j.first});
        tool.setPrintErrorMessage(Round == 0 || Show);
        IgnoringDiagConsumer quiet; if (Round > 0 && !Show) tool.setDiagnosticConsumer(&quiet);
        for (auto &m : Mapped) tool.mapVirtualFile(m.first, m.second);
        r = tool.run(tooling::newFrontendActionFactory<Action>().get());
        again = More;
      }
      if (!Broken) break;
    }
    if (Show) { llvm::outs() << j.first << " level " << Level << " changes " << Changes << " rounds " << Round << "\n"; for (auto &m : Mapped) { std::ofstream(j.second + "." + m.first.substr(m.first.rfind('/') + 1)) << m.second; } }
    if (r) { llvm::errs() << "FAILED " << j.first << "\n"; rc = 1; }
  }
  return rc;
}
