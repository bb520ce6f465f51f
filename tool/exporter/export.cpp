// astexport: dump the resolved, instantiated bodies of every function that is
// reachable from the functions of namespace `drv` in a driver translation
// unit, as a compact JSON program.  Nothing is executed: the output is the
// type-checked program (templates instantiated, overloads resolved, implicit
// conversions explicit).
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::OStream;

static std::string OutPath;
static std::vector<std::string> BodyRoots; // path prefixes whose bodies are exported

struct Exporter {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  llvm::raw_ostream &Out;
  OStream J;
  std::map<const FunctionDecl *, int> FnId;
  std::deque<const FunctionDecl *> FnQueue;
  std::vector<const FunctionDecl *> Fns;
  std::map<const ValueDecl *, int> VarId;
  std::vector<const VarDecl *> Globals;
  std::set<const VarDecl *> GlobalSeen;
  std::map<std::string, int> TyId;
  std::vector<QualType> Tys;
  std::map<const RecordDecl *, int> RecId;
  std::vector<const RecordDecl *> Recs;
  std::map<std::string, int> FileId;
  std::vector<std::string> Files;

  Exporter(ASTContext &C, llvm::raw_ostream &O)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()), Out(O), J(O, 0) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  int fileId(const std::string &f) {
    auto it = FileId.find(f);
    if (it != FileId.end()) return it->second;
    int id = Files.size();
    Files.push_back(f);
    FileId[f] = id;
    return id;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  int lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  int rec(const RecordDecl *R) {
    R = cast<RecordDecl>(R->getCanonicalDecl());
    auto it = RecId.find(R);
    if (it != RecId.end()) return it->second;
    int id = Recs.size();
    RecId[R] = id;
    Recs.push_back(R);
    // a functor class may be called from a function whose body is not exported
    if (auto *CR = dyn_cast_or_null<CXXRecordDecl>(R->getDefinition()); CR && !CR->isDependentContext()) {
      std::string f = fileOf(CR->getLocation());
      for (auto &p : BodyRoots)
        if (f.compare(0, p.size(), p) == 0)
          for (auto *D : CR->decls()) {
            if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
              if (!CR->isLambda() && M->getOverloadedOperator() == OO_Call && M->isDefined()) fn(M);
            } else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
              if (FT->getTemplatedDecl()->getOverloadedOperator() == OO_Call)
                for (auto *S : FT->specializations())
                  if (S->isDefined()) fn(S);
            }
          }
    }
    return id;
  }
  int ty(QualType T) {
    T = T.getCanonicalType();
    std::string s = T.getAsString(PP);
    auto it = TyId.find(s);
    if (it != TyId.end()) return it->second;
    int id = Tys.size();
    TyId[s] = id;
    Tys.push_back(T);
    QualType U = T.getNonReferenceType();
    if (T->isReferenceType()) ty(U);
    if (auto *RD = U->getAsRecordDecl()) rec(RD);
    if (U->isPointerType()) ty(U->getPointeeType());
    return id;
  }
  int var(const ValueDecl *V) {
    V = cast<ValueDecl>(V->getCanonicalDecl());
    auto it = VarId.find(V);
    if (it != VarId.end()) return it->second;
    int id = VarId.size();
    VarId[V] = id;
    return id;
  }
  int fn(const FunctionDecl *F) {
    const FunctionDecl *K = F->getCanonicalDecl();
    auto it = FnId.find(K);
    if (it != FnId.end()) return it->second;
    int id = Fns.size();
    FnId[K] = id;
    Fns.push_back(K);
    FnQueue.push_back(K);
    return id;
  }

  // ---------------------------------------------------------------- exprs
  void nil() { J.value(nullptr); }

  void exprs(llvm::ArrayRef<const Expr *> es) {
    J.arrayBegin();
    for (auto *e : es) expr(e);
    J.arrayEnd();
  }
  template <class R> void exprRange(const R &es) {
    J.arrayBegin();
    for (const Expr *e : es) expr(e);
    J.arrayEnd();
  }

  void head(const char *k, const Expr *E) {
    J.attribute("e", k);
    J.attribute("t", ty(E->getType()));
    if (E->isLValue()) J.attribute("lv", 1);
    else if (E->isXValue()) J.attribute("lv", 2);
    J.attribute("l", lineOf(E->getExprLoc()));
  }

  bool constFold(const Expr *E) {
    if (E->isGLValue() || E->isValueDependent() || E->isTypeDependent()) return false;
    if (!E->getType()->isIntegralOrEnumerationType()) return false;
    if (isa<IntegerLiteral>(E) || isa<CXXBoolLiteralExpr>(E)) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) return false;
    if (!R.Val.isInt()) return false;
    J.objectBegin();
    head("int", E);
    J.attribute("v", llvm::toString(R.Val.getInt(), 10));
    J.objectEnd();
    return true;
  }

  void expr(const Expr *E) {
    if (!E) { nil(); return; }
    // transparent wrappers
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else if (auto *P = dyn_cast<OpaqueValueExpr>(E); P && P->getSourceExpr()) E = P->getSourceExpr();
      else break;
    }
    if (constFold(E)) return;
    J.objectBegin();
    exprBody(E);
    J.objectEnd();
  }

  void calleeAttrs(const FunctionDecl *F) { J.attribute("fn", fn(F)); }

  void args(llvm::ArrayRef<const Expr *> as) {
    J.attributeBegin("a");
    exprs(as);
    J.attributeEnd();
  }

  void exprBody(const Expr *E) {
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      head("int", E);
      J.attribute("v", llvm::toString(L->getValue(), 10, L->getType()->isSignedIntegerOrEnumerationType()));
    } else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      head("int", E);
      J.attribute("v", L->getValue() ? "1" : "0");
    } else if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      head("flt", E);
      llvm::SmallString<32> s; L->getValue().toString(s);
      J.attribute("v", std::string(s.str()));
    } else if (isa<clang::StringLiteral>(E)) {
      head("str", E);
    } else if (auto *C = dyn_cast<CharacterLiteral>(E)) {
      head("int", E);
      J.attribute("v", std::to_string(C->getValue()));
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      head("null", E);
    } else if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *B = dyn_cast<BindingDecl>(V)) {
        if (auto *H = B->getHoldingVar()) {
          head("var", E);
          J.attribute("d", var(H));
          J.attribute("n", B->getNameAsString());
        } else {
          head("wrap", E);
          J.attributeBegin("x"); expr(B->getBinding()); J.attributeEnd();
        }
      } else if (auto *F = dyn_cast<FunctionDecl>(V)) {
        head("fref", E);
        J.attribute("fn", fn(F));
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        head("int", E);
        J.attribute("v", llvm::toString(EC->getInitVal(), 10));
      } else if (auto *VD = dyn_cast<VarDecl>(V)) {
        head("var", E);
        J.attribute("d", var(VD));
        J.attribute("n", VD->getNameAsString());
        if (VD->hasGlobalStorage()) {
          J.attribute("g", 1);
          auto *DD = VD->getCanonicalDecl();
          if (GlobalSeen.insert(DD).second) Globals.push_back(VD);
        }
      } else {
        head("unk", E);
        J.attribute("k", V->getDeclKindName());
      }
    } else if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        head("mem", E);
        J.attribute("f", FD->getNameAsString());
        J.attribute("fi", (int)FD->getFieldIndex());
        J.attribute("rec", rec(FD->getParent()));
        J.attribute("ar", M->isArrow() ? 1 : 0);
        J.attributeBegin("x"); expr(M->getBase()); J.attributeEnd();
      } else if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
        head("var", E);
        J.attribute("d", var(VD));
        J.attribute("n", VD->getNameAsString());
        J.attribute("g", 1);
        auto *DD = VD->getCanonicalDecl();
        if (GlobalSeen.insert(DD).second) Globals.push_back(VD);
      } else {
        head("unk", E);
        J.attribute("k", "MemberExpr");
      }
    } else if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
      head("call", E);
      if (auto *F = C->getMethodDecl()) calleeAttrs(F);
      auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens());
      J.attribute("m", (ME && ME->isArrow()) ? 2 : 1);
      std::vector<const Expr *> as;
      as.push_back(C->getImplicitObjectArgument());
      for (auto *a : C->arguments()) as.push_back(a);
      args(as);
    } else if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
      head("call", E);
      if (auto *F = C->getDirectCallee()) {
        calleeAttrs(F);
        auto *MD = dyn_cast<CXXMethodDecl>(F);
        J.attribute("m", (MD && !MD->isStatic()) ? 1 : 0);
      }
      J.attribute("op", getOperatorSpelling(C->getOperator()));
      std::vector<const Expr *> as(C->arg_begin(), C->arg_end());
      args(as);
    } else if (auto *C = dyn_cast<CallExpr>(E)) {
      if (auto *F = C->getDirectCallee()) {
        head("call", E);
        calleeAttrs(F);
      } else {
        head("calli", E);
        J.attributeBegin("x"); expr(C->getCallee()); J.attributeEnd();
      }
      std::vector<const Expr *> as(C->arg_begin(), C->arg_end());
      args(as);
    } else if (auto *C = dyn_cast<CXXConstructExpr>(E)) { // incl. temporary object
      head("ctor", E);
      calleeAttrs(C->getConstructor());
      if (C->isElidable()) J.attribute("elide", 1);
      std::vector<const Expr *> as(C->arg_begin(), C->arg_end());
      args(as);
    } else if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      head("unk", E);
      J.attribute("k", "CXXInheritedCtorInitExpr");
    } else if (auto *C = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = C->isSemanticForm() ? C : C->getSemanticForm();
      if (!S) S = C;
      head("ilist", E);
      std::vector<const Expr *> as;
      for (auto *x : S->inits()) as.push_back(x);
      args(as);
    } else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) {
      head("tmp", E);
      J.attributeBegin("x"); expr(M->getSubExpr()); J.attributeEnd();
    } else if (auto *C = dyn_cast<CastExpr>(E)) {
      if (auto *DC = dyn_cast<CXXFunctionalCastExpr>(E); DC && DC->getCastKind() == CK_ConstructorConversion) {
        head("wrap", E);
        J.attributeBegin("x"); expr(C->getSubExpr()); J.attributeEnd();
        return;
      }
      head("cast", E);
      J.attribute("k", C->getCastKindName());
      if (isa<ExplicitCastExpr>(C)) J.attribute("ex", 1);
      J.attributeBegin("x"); expr(C->getSubExpr()); J.attributeEnd();
    } else if (auto *U = dyn_cast<UnaryOperator>(E)) {
      head("un", E);
      J.attribute("op", UnaryOperator::getOpcodeStr(U->getOpcode()));
      J.attribute("post", U->isPostfix() ? 1 : 0);
      J.attributeBegin("x"); expr(U->getSubExpr()); J.attributeEnd();
    } else if (auto *B = dyn_cast<CompoundAssignOperator>(E)) {
      head("cassign", E);
      std::string op = B->getOpcodeStr().str();
      op.pop_back();
      J.attribute("op", op);
      J.attribute("ct", ty(B->getComputationResultType()));
      J.attributeBegin("x"); expr(B->getLHS()); J.attributeEnd();
      J.attributeBegin("y"); expr(B->getRHS()); J.attributeEnd();
    } else if (auto *B = dyn_cast<BinaryOperator>(E)) {
      head(B->getOpcode() == BO_Assign ? "assign" : "bin", E);
      J.attribute("op", B->getOpcodeStr().str());
      J.attributeBegin("x"); expr(B->getLHS()); J.attributeEnd();
      J.attributeBegin("y"); expr(B->getRHS()); J.attributeEnd();
    } else if (auto *C = dyn_cast<AbstractConditionalOperator>(E)) {
      head("cond", E);
      J.attributeBegin("c"); expr(C->getCond()); J.attributeEnd();
      J.attributeBegin("x"); expr(C->getTrueExpr()); J.attributeEnd();
      J.attributeBegin("y"); expr(C->getFalseExpr()); J.attributeEnd();
    } else if (isa<CXXThisExpr>(E)) {
      head("this", E);
    } else if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      head("sub", E);
      J.attributeBegin("x"); expr(A->getBase()); J.attributeEnd();
      J.attributeBegin("y"); expr(A->getIdx()); J.attributeEnd();
    } else if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      head("throw", E);
      if (T->getSubExpr()) {
        J.attribute("tt", ty(T->getSubExpr()->getType()));
        J.attributeBegin("x"); expr(T->getSubExpr()); J.attributeEnd();
      }
    } else if (auto *L = dyn_cast<LambdaExpr>(E)) {
      head("lambda", E);
      const CXXRecordDecl *R = L->getLambdaClass();
      J.attribute("rec", rec(R));
      if (auto *CO = L->getCallOperator(); CO && !CO->isDependentContext()) J.attribute("fn", fn(CO));
      J.attributeBegin("caps");
      J.arrayBegin();
      auto fi = R->field_begin();
      auto ii = L->capture_init_begin();
      for (auto ci = L->capture_begin(); ci != L->capture_end(); ++ci, ++fi, ++ii) {
        J.objectBegin();
        J.attribute("fi", (int)fi->getFieldIndex());
        if (ci->capturesVariable()) {
          const ValueDecl *cv = ci->getCapturedVar();
          if (auto *B = dyn_cast<BindingDecl>(cv); B && B->getHoldingVar()) cv = B->getHoldingVar();
          J.attribute("d", var(cv));
        }
        if (ci->capturesThis()) J.attribute("this", 1);
        J.attribute("ref", ci->getCaptureKind() == LCK_ByRef ? 1 : 0);
        J.attributeBegin("x"); expr(*ii); J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      head("zero", E);
    } else if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      head("new", E);
      J.attribute("at", ty(N->getAllocatedType()));
      if (N->getInitializer()) { J.attributeBegin("x"); expr(N->getInitializer()); J.attributeEnd(); }
    } else if (auto *N = dyn_cast<CXXDeleteExpr>(E)) {
      head("delete", E);
      J.attributeBegin("x"); expr(N->getArgument()); J.attributeEnd();
    } else {
      head("unk", E);
      J.attribute("k", E->getStmtClassName());
    }
  }

  // ---------------------------------------------------------------- stmts
  void shead(const char *k, const Stmt *S) {
    J.attribute("s", k);
    J.attribute("l", lineOf(S->getBeginLoc()));
  }

  void vardecl(const VarDecl *V) {
    J.objectBegin();
    J.attribute("d", var(V));
    J.attribute("n", V->getNameAsString());
    J.attribute("t", ty(V->getType()));
    J.attribute("l", lineOf(V->getLocation()));
    if (V->isStaticLocal()) J.attribute("static", 1);
    if (V->getInit()) { J.attributeBegin("x"); expr(V->getInit()); J.attributeEnd(); }
    J.objectEnd();
    if (auto *D = dyn_cast<DecompositionDecl>(V))
      for (auto *B : D->bindings())
        if (auto *H = B->getHoldingVar()) vardecl(H);
  }

  void stmt(const Stmt *S) {
    if (!S) { nil(); return; }
    if (auto *A = dyn_cast<AttributedStmt>(S)) { stmt(A->getSubStmt()); return; }
    if (auto *L = dyn_cast<LabelStmt>(S)) { stmt(L->getSubStmt()); return; }
    J.objectBegin();
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      shead("block", S);
      J.attributeBegin("b"); J.arrayBegin();
      for (auto *s : C->body()) stmt(s);
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      shead("decl", S);
      J.attributeBegin("vs"); J.arrayBegin();
      for (auto *d : D->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) vardecl(V);
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      shead("if", S);
      if (I->getInit()) { J.attributeBegin("init"); stmt(I->getInit()); J.attributeEnd(); }
      if (I->getConditionVariableDeclStmt()) { J.attributeBegin("cv"); stmt(I->getConditionVariableDeclStmt()); J.attributeEnd(); }
      J.attribute("cx", I->isConstexpr() ? 1 : 0);
      J.attributeBegin("c"); expr(I->getCond()); J.attributeEnd();
      J.attributeBegin("x"); stmt(I->getThen()); J.attributeEnd();
      J.attributeBegin("y"); stmt(I->getElse()); J.attributeEnd();
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      shead("for", S);
      J.attributeBegin("init"); stmt(F->getInit()); J.attributeEnd();
      J.attributeBegin("c"); expr(F->getCond()); J.attributeEnd();
      J.attributeBegin("inc"); expr(F->getInc()); J.attributeEnd();
      J.attributeBegin("b"); stmt(F->getBody()); J.attributeEnd();
    } else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      shead("rfor", S);
      J.attributeBegin("pre"); J.arrayBegin();
      if (F->getInit()) stmt(F->getInit());
      stmt(F->getRangeStmt());
      stmt(F->getBeginStmt());
      stmt(F->getEndStmt());
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("c"); expr(F->getCond()); J.attributeEnd();
      J.attributeBegin("inc"); expr(F->getInc()); J.attributeEnd();
      J.attributeBegin("lv"); stmt(F->getLoopVarStmt()); J.attributeEnd();
      J.attributeBegin("b"); stmt(F->getBody()); J.attributeEnd();
    } else if (auto *W = dyn_cast<WhileStmt>(S)) {
      shead("while", S);
      if (W->getConditionVariableDeclStmt()) { J.attributeBegin("cv"); stmt(W->getConditionVariableDeclStmt()); J.attributeEnd(); }
      J.attributeBegin("c"); expr(W->getCond()); J.attributeEnd();
      J.attributeBegin("b"); stmt(W->getBody()); J.attributeEnd();
    } else if (auto *W = dyn_cast<DoStmt>(S)) {
      shead("do", S);
      J.attributeBegin("c"); expr(W->getCond()); J.attributeEnd();
      J.attributeBegin("b"); stmt(W->getBody()); J.attributeEnd();
    } else if (auto *R = dyn_cast<ReturnStmt>(S)) {
      shead("ret", S);
      if (R->getRetValue()) { J.attributeBegin("x"); expr(R->getRetValue()); J.attributeEnd(); }
    } else if (isa<BreakStmt>(S)) {
      shead("break", S);
    } else if (isa<ContinueStmt>(S)) {
      shead("continue", S);
    } else if (isa<NullStmt>(S)) {
      shead("nop", S);
    } else if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      shead("try", S);
      J.attributeBegin("b"); stmt(T->getTryBlock()); J.attributeEnd();
      J.attributeBegin("hs"); J.arrayBegin();
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        J.objectBegin();
        if (!H->getCaughtType().isNull()) J.attribute("t", ty(H->getCaughtType()));
        J.attributeBegin("b"); stmt(H->getHandlerBlock()); J.attributeEnd();
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *W = dyn_cast<SwitchStmt>(S)) {
      shead("switch", S);
      J.attributeBegin("c"); expr(W->getCond()); J.attributeEnd();
      J.attributeBegin("b"); stmt(W->getBody()); J.attributeEnd();
    } else if (auto *C = dyn_cast<CaseStmt>(S)) {
      shead("case", S);
      J.attributeBegin("c"); expr(C->getLHS()); J.attributeEnd();
      J.attributeBegin("b"); stmt(C->getSubStmt()); J.attributeEnd();
    } else if (auto *C = dyn_cast<DefaultStmt>(S)) {
      shead("default", S);
      J.attributeBegin("b"); stmt(C->getSubStmt()); J.attributeEnd();
    } else if (auto *E = dyn_cast<Expr>(S)) {
      shead("expr", S);
      J.attributeBegin("x"); expr(E); J.attributeEnd();
    } else {
      shead("unk", S);
      J.attribute("k", S->getStmtClassName());
    }
    J.objectEnd();
  }

  bool wantBody(const FunctionDecl *D) {
    if (!D || !D->hasBody() ) return false;
    std::string f = fileOf(D->getLocation());
    for (auto &p : BodyRoots)
      if (f.compare(0, p.size(), p) == 0) return true;
    return false;
  }

  void function(const FunctionDecl *K) {
    const FunctionDecl *D = nullptr;
    if (!K->hasBody(D)) D = nullptr;
    const FunctionDecl *F = D ? D : K;
    J.objectBegin();
    J.attribute("id", FnId[K->getCanonicalDecl()]);
    std::string qn = F->getQualifiedNameAsString();
    J.attribute("n", qn);
    J.attribute("sn", F->getNameAsString());
    J.attribute("file", fileId(fileOf(F->getLocation())));
    J.attribute("l", lineOf(F->getLocation()));
    J.attribute("rt", ty(F->getReturnType()));
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
      if (!MD->isStatic()) J.attribute("method", 1);
      if (MD->isConst()) J.attribute("const", 1);
      J.attribute("rec", rec(MD->getParent()));
    }
    if (F->isDefaulted()) J.attribute("dflt", 1);
    if (F->isInlined()) J.attribute("inl", 1);
    if (isa<CXXConstructorDecl>(F)) {
      auto *C = cast<CXXConstructorDecl>(F);
      J.attribute("isctor", C->isCopyConstructor() ? 2 : C->isMoveConstructor() ? 3 : 1);
    }
    if (isa<CXXDestructorDecl>(F)) J.attribute("isdtor", 1);
    if (isa<CXXConversionDecl>(F)) J.attribute("isconv", 1);
    J.attributeBegin("ps"); J.arrayBegin();
    for (auto *P : F->parameters()) {
      J.objectBegin();
      J.attribute("d", var(P));
      J.attribute("n", P->getNameAsString());
      J.attribute("t", ty(P->getType()));
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    // template arguments, as types
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J.attributeBegin("ta"); J.arrayBegin();
      for (auto &A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Type) J.value(A.getAsType().getAsString(PP));
        else if (A.getKind() == TemplateArgument::Integral) J.value(llvm::toString(A.getAsIntegral(), 10));
        else if (A.getKind() == TemplateArgument::Pack) {
          for (auto &B : A.pack_elements())
            if (B.getKind() == TemplateArgument::Type) J.value(B.getAsType().getAsString(PP));
        } else J.value("?");
      }
      J.arrayEnd(); J.attributeEnd();
    }
    if (wantBody(D)) {
      if (auto *C = dyn_cast<CXXConstructorDecl>(D)) {
        J.attributeBegin("inits"); J.arrayBegin();
        for (auto *I : C->inits()) {
          J.objectBegin();
          if (I->isAnyMemberInitializer()) {
            J.attribute("fi", (int)I->getAnyMember()->getFieldIndex());
            J.attribute("f", I->getAnyMember()->getNameAsString());
          } else if (I->isBaseInitializer()) {
            J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
          } else if (I->isDelegatingInitializer()) {
            J.attribute("deleg", 1);
          }
          J.attributeBegin("x"); expr(I->getInit()); J.attributeEnd();
          J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
      }
      J.attributeBegin("body"); stmt(D->getBody()); J.attributeEnd();
    } else {
      J.attribute("nobody", 1);
    }
    J.objectEnd();
  }

  void run(const std::vector<const FunctionDecl *> &roots) {
    J.objectBegin();
    J.attributeBegin("roots"); J.arrayBegin();
    for (auto *R : roots) J.value(fn(R));
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("fns"); J.arrayBegin();
    size_t gdone = 0;
    while (!FnQueue.empty()) {
      auto *K = FnQueue.front();
      FnQueue.pop_front();
      function(K);
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("globals"); J.arrayBegin();
    for (; gdone < Globals.size(); ++gdone) {
      auto *V = Globals[gdone];
      const VarDecl *Def = V->getDefinition();
      if (!Def) Def = V->getInitializingDeclaration();
      if (!Def) Def = V;
      J.objectBegin();
      J.attribute("d", var(V));
      J.attribute("n", V->getQualifiedNameAsString());
      J.attribute("t", ty(V->getType()));
      std::string f = fileOf(Def->getLocation());
      bool want = false;
      for (auto &p : BodyRoots) if (f.compare(0, p.size(), p) == 0) want = true;
      if (want && Def->getInit() && !Def->getInit()->isValueDependent()) { J.attributeBegin("x"); expr(Def->getInit()); J.attributeEnd(); }
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    // functions discovered by global initialisers
    J.attributeBegin("fns2"); J.arrayBegin();
    while (!FnQueue.empty()) {
      auto *K = FnQueue.front();
      FnQueue.pop_front();
      function(K);
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("recs"); J.arrayBegin();
    for (size_t i = 0; i < Recs.size(); ++i) {
      auto *R = Recs[i]->getDefinition();
      J.objectBegin();
      J.attribute("id", (int)i);
      J.attribute("n", Recs[i]->getQualifiedNameAsString());
      J.attribute("fn", Ctx.getTypeDeclType(Recs[i]).getCanonicalType().getAsString(PP));
      if (R) {
        std::string f = fileOf(R->getLocation());
        bool want = false;
        for (auto &p : BodyRoots) if (f.compare(0, p.size(), p) == 0) want = true;
        J.attribute("own", want ? 1 : 0);
        if (want) {
          J.attribute("file", fileId(f));
          J.attributeBegin("fs"); J.arrayBegin();
          for (auto *F : R->fields()) {
            J.objectBegin();
            J.attribute("n", F->getNameAsString());
            J.attribute("t", ty(F->getType()));
            J.objectEnd();
          }
          J.arrayEnd(); J.attributeEnd();
          J.attributeBegin("bs"); J.arrayBegin();
          if (auto *CR = dyn_cast<CXXRecordDecl>(R))
            for (auto &B : CR->bases()) J.value(ty(B.getType()));
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *CR = dyn_cast<CXXRecordDecl>(R)) {
          J.attributeBegin("bs"); J.arrayBegin();
          for (auto &B : CR->bases()) J.value(ty(B.getType()));
          J.arrayEnd(); J.attributeEnd();
        }
        if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
          J.attributeBegin("ta"); J.arrayBegin();
          for (auto &A : TS->getTemplateArgs().asArray()) {
            if (A.getKind() == TemplateArgument::Type) J.value(ty(A.getAsType()));
            else if (A.getKind() == TemplateArgument::Pack) {
              for (auto &B : A.pack_elements())
                if (B.getKind() == TemplateArgument::Type) J.value(ty(B.getAsType()));
            } else J.value(-1);
          }
          J.arrayEnd(); J.attributeEnd();
        }
      }
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("tys"); J.arrayBegin();
    for (size_t i = 0; i < Tys.size(); ++i) {
      QualType T = Tys[i];
      J.objectBegin();
      J.attribute("n", T.getAsString(PP));
      QualType U = T;
      if (T->isReferenceType()) {
        J.attribute("k", T->isRValueReferenceType() ? "rref" : "ref");
        U = T.getNonReferenceType();
        J.attribute("p", ty(U));
        J.attribute("c", U.isConstQualified() ? 1 : 0);
      } else {
        J.attribute("c", T.isConstQualified() ? 1 : 0);
        if (U->isBooleanType()) J.attribute("k", "bool");
        else if (U->isEnumeralType()) J.attribute("k", "enum");
        else if (U->isIntegerType()) { J.attribute("k", "int"); J.attribute("w", (int)Ctx.getTypeSize(U)); J.attribute("sg", U->isSignedIntegerType() ? 1 : 0); }
        else if (U->isRealFloatingType()) { J.attribute("k", "flt"); J.attribute("w", (int)Ctx.getTypeSize(U)); }
        else if (U->isPointerType()) { J.attribute("k", "ptr"); J.attribute("p", ty(U->getPointeeType())); J.attribute("pc", U->getPointeeType().isConstQualified() ? 1 : 0); }
        else if (U->isVoidType()) J.attribute("k", "void");
        else if (auto *RD = U->getAsRecordDecl()) { J.attribute("k", "rec"); J.attribute("rec", rec(RD)); }
        else if (U->isFunctionType()) J.attribute("k", "fn");
        else if (U->isNullPtrType()) J.attribute("k", "null");
        else J.attribute("k", "other");
      }
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("files"); J.arrayBegin();
    for (auto &f : Files) J.value(f);
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
};

struct RootFinder : RecursiveASTVisitor<RootFinder> {
  std::vector<const FunctionDecl *> Roots;
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
    std::string q = F->getQualifiedNameAsString();
    if (q.compare(0, 5, "drv::") == 0 && !isa<CXXMethodDecl>(F)) Roots.push_back(F);
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    RootFinder RF;
    RF.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream O(OutPath, EC);
    Exporter X(C, O);
    X.run(RF.Roots);
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Cons>();
  }
};
struct ActF : tooling::FrontendActionFactory {
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};

// usage: astexport OUT.json SRC.cpp BODYROOT[,BODYROOT...] -- clang-args...
int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  OutPath = argv[1];
  std::string src = argv[2];
  std::string roots = argv[3];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(',', p);
    if (q == std::string::npos) q = roots.size();
    if (q > p) BodyRoots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> a;
  for (int i = 5; i < argc; ++i) a.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", a);
  tooling::ClangTool T(DB, {src});
  ActF F;
  return T.run(&F);
}
