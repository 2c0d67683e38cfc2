// Front end of the analyses in /verif/sa: a libTooling program that parses one
// translation unit of LearnTA with the real build's flags and prints, as JSON,
// every record, enum and function body (including lambdas, constructors and
// template instantiations) that is defined under the repository root.  All
// names are resolved by clang; implicit nodes that carry no behaviour are
// stripped.  Nothing of the analysed program is executed.
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::string OutPath;

namespace {
class Conv {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array Functions, Records, Enums, Globals;
  std::set<const Decl *> Seen;
  std::map<const Decl *, int64_t> Ids;
  std::vector<const FunctionDecl *> Pending;

  explicit Conv(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
    PP.SuppressDefaultTemplateArgs = true;
    PP.AnonymousTagLocations = true;
  }

  int64_t id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int64_t N = Ids.size() + 1;
    Ids[D] = N;
    return N;
  }

  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L).str();
    return F;
  }
  bool inRoot(SourceLocation L) {
    std::string F = file(L);
    llvm::SmallString<256> P(F);
    llvm::sys::path::remove_dots(P, true);
    return llvm::StringRef(P).starts_with(Root);
  }
  json::Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return json::Array{(int64_t)SM.getExpansionLineNumber(L), (int64_t)SM.getExpansionColumnNumber(L)};
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getNonReferenceType().getCanonicalType().getUnqualifiedType();
    return T.getAsString(PP);
  }
  json::Object tyinfo(QualType T) {
    json::Object O;
    O["t"] = ty(T);
    if (T->isLValueReferenceType()) O["ref"] = 1;
    if (T->isRValueReferenceType()) O["ref"] = 2;
    if (T.getNonReferenceType().isConstQualified()) O["const"] = true;
    return O;
  }
  std::string lambdaName(const CXXRecordDecl *R) {
    SourceLocation L = SM.getExpansionLoc(R->getBeginLoc());
    std::string F = llvm::sys::path::filename(SM.getFilename(L)).str();
    return "lambda@" + F + ":" + std::to_string(SM.getExpansionLineNumber(L)) + ":" +
           std::to_string(SM.getExpansionColumnNumber(L));
  }
  std::string recName(const CXXRecordDecl *R) {
    if (!R) return "?";
    if (R->isLambda()) return lambdaName(R);
    return ty(C.getRecordType(R));
  }
  std::string fname(const FunctionDecl *F) {
    std::string Q;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      Q = recName(M->getParent()) + "::";
      if (isa<CXXConstructorDecl>(F)) return Q + "<ctor>";
      if (isa<CXXDestructorDecl>(F)) return Q + "<dtor>";
      if (isa<CXXConversionDecl>(F)) return Q + "<conv>" + ty(F->getReturnType());
      return Q + F->getNameAsString();
    }
    return F->getQualifiedNameAsString();
  }
  std::string fid(const FunctionDecl *F) {
    std::string S = fname(F) + "(";
    bool First = true;
    for (auto *P : F->parameters()) {
      if (!First) S += ",";
      First = false;
      QualType T = P->getType();
      S += T.getCanonicalType().getAsString(PP);
    }
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst()) S += " const";
    if (F->isTemplateInstantiation() && F->getTemplateSpecializationArgs()) {
      S += "<";
      for (auto &A : F->getTemplateSpecializationArgs()->asArray()) {
        std::string B;
        llvm::raw_string_ostream OS(B);
        A.print(PP, OS, true);
        S += OS.str() + ",";
      }
      S += ">";
    }
    return S;
  }

  std::string macroName(SourceLocation L) {
    if (!L.isMacroID()) return "";
    std::string N;
    while (L.isMacroID()) {
      N = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return N;
  }
  // is the location produced by an expansion of macro Name (at any level)?
  bool fromMacro(SourceLocation L, llvm::StringRef Name) {
    while (L.isMacroID()) {
      if (Lexer::getImmediateMacroName(L, SM, C.getLangOpts()) == Name) return true;
      if (SM.isMacroArgExpansion(L))
        L = SM.getImmediateExpansionRange(L).getBegin();
      else
        L = SM.getImmediateMacroCallerLoc(L);
    }
    return false;
  }

  json::Value jarr(json::Array A) { return json::Value(std::move(A)); }

  // ---------------------------------------------------------------- exprs
  json::Value args(llvm::ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *E : A) R.push_back(expr(E));
    return R;
  }

  const Expr *strip(const Expr *E) {
    for (;;) {
      if (!E) return E;
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) E = X->getSourceExpr(); else return E; }
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_NoOp ||
            X->getCastKind() == CK_UserDefinedConversion) E = X->getSubExpr();
        else return E;
      } else if (auto *X = dyn_cast<CastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
        case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase: case CK_NonAtomicToAtomic: case CK_AtomicToNonAtomic:
        case CK_BaseToDerived: case CK_BuiltinFnToFnPtr: case CK_ToVoid: case CK_LValueBitCast:
          E = X->getSubExpr(); break;
        default: return E;
        }
      } else return E;
    }
  }

  json::Value calleeRef(const FunctionDecl *F, json::Object &O) {
    O["fn"] = fname(F);
    const FunctionDecl *Def = nullptr;
    F->getBody(Def);
    const FunctionDecl *D = Def ? Def : F;
    O["fid"] = fid(D);
    if (inRoot(D->getLocation())) {
      O["repo"] = true;
      if (Def) enqueue(Def);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virtual"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
    }
    json::Array PR;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      int K = 0; // 0 value, 1 const ref, 2 mutable ref, 3 rvalue ref, 4 pointer to non-const
      if (T->isLValueReferenceType()) K = T.getNonReferenceType().isConstQualified() ? 1 : 2;
      else if (T->isRValueReferenceType()) K = 3;
      else if (T->isPointerType()) K = T->getPointeeType().isConstQualified() ? 0 : 4;
      PR.push_back(K);
    }
    O["pm"] = std::move(PR);
    return nullptr;
  }

  json::Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    SourceLocation AssertLoc = E0->getBeginLoc();
    const Expr *E = strip(E0);
    json::Object O;
    O["l"] = loc(E->getExprLoc());
    // assert(): condition ? void : __assert_fail
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      const Expr *F = strip(X->getFalseExpr());
      if (auto *CE = dyn_cast<CallExpr>(F))
        if (auto *FD = CE->getDirectCallee())
          if (FD->getIdentifier() && FD->getName() == "__assert_fail") {
            O["k"] = "Assert";
            O["e"] = expr(X->getCond());
            return O;
          }
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "Int";
      llvm::SmallString<32> S;
      X->getValue().toString(S, 10, X->getType()->isSignedIntegerType());
      O["v"] = S.str().str();
      return O;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "Float";
      O["v"] = X->getValueAsApproximateDouble();
      return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "Bool"; O["v"] = X->getValue(); return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "Char"; O["v"] = (int64_t)X->getValue(); return O; }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      O["k"] = "Str";
      O["v"] = X->isOrdinary() ? json::fixUTF8(X->getString()) : std::string("?");
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "Null"; return O; }
    if (isa<CXXThisExpr>(E)) { O["k"] = "This"; O["t"] = ty(E->getType()->getPointeeType()); return O; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      O["k"] = "ZeroInit"; O["t"] = ty(E->getType()); return O;
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "Enum";
        O["v"] = EC->getQualifiedNameAsString();
        O["t"] = ty(E->getType());
        O["i"] = EC->getInitVal().isRepresentableByInt64() ? EC->getInitVal().getExtValue() : (int64_t)-1;
        return O;
      }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "FnRef";
        calleeRef(FD, O);
        return O;
      }
      O["k"] = "Var";
      O["id"] = id(D);
      O["n"] = D->getNameAsString();
      O["t"] = ty(E->getType());
      if (isa<ParmVarDecl>(D)) O["kind"] = "param";
      else if (isa<BindingDecl>(D)) O["kind"] = "bind";
      else if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->isStaticLocal()) O["kind"] = "static";
        else if (VD->hasGlobalStorage()) {
          O["kind"] = "global";
          O["q"] = VD->getQualifiedNameAsString();
          Expr::EvalResult R;
          if (VD->getType().isConstQualified() && !E->isValueDependent() && E->EvaluateAsRValue(R, C) && R.Val.isInt() && R.Val.getInt().isRepresentableByInt64())
            O["cv"] = R.Val.getInt().getExtValue();
        } else O["kind"] = "local";
      }
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["k"] = "Member";
        O["b"] = expr(X->getBase());
        O["arrow"] = X->isArrow();
        O["f"] = FD->getNameAsString();
        O["rec"] = recName(dyn_cast<CXXRecordDecl>(FD->getParent()));
        O["t"] = ty(E->getType());
        return O;
      }
      if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["k"] = "Var"; O["id"] = id(VD); O["n"] = VD->getNameAsString(); O["kind"] = "global";
        O["q"] = VD->getQualifiedNameAsString(); O["t"] = ty(E->getType());
        return O;
      }
      O["k"] = "Unknown"; O["c"] = "MemberExpr";
      return O;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "Lambda";
      const CXXRecordDecl *R = X->getLambdaClass();
      O["cls"] = recName(R);
      json::Array Caps;
      auto CI = X->capture_init_begin();
      for (auto &Cap : X->captures()) {
        json::Object CO;
        if (Cap.capturesThis()) { CO["this"] = true; if (Cap.getCaptureKind() == LCK_StarThis) CO["copy"] = true; }
        else if (Cap.capturesVariable()) {
          CO["id"] = id(Cap.getCapturedVar());
          CO["n"] = Cap.getCapturedVar()->getNameAsString();
          CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
          if (X->isInitCapture(&Cap)) CO["init"] = expr(*CI);
        }
        Caps.push_back(std::move(CO));
        ++CI;
      }
      O["caps"] = std::move(Caps);
      json::Array Fs;
      if (auto *FTD = X->getDependentCallOperator()) {
        for (auto *S : FTD->specializations()) { if (S->hasBody()) { Fs.push_back(fid(S)); enqueue(S); } }
        O["generic"] = true;
      } else {
        CXXMethodDecl *M = X->getCallOperator();
        Fs.push_back(fid(M));
        enqueue(M);
      }
      O["fids"] = std::move(Fs);
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "Op";
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *FD = X->getDirectCallee()) {
        calleeRef(FD, O);
        O["method"] = isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic();
      }
      json::Array A;
      json::Array AT;
      for (auto *Arg : X->arguments()) { A.push_back(expr(Arg)); AT.push_back(ty(Arg->getType())); }
      O["a"] = std::move(A);
      O["at"] = std::move(AT);
      O["t"] = ty(E->getType()); if (E->isGLValue()) O["lv"] = true;
      if (E->getType()->isPointerType()) O["ptr"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "MCall";
      if (auto *MD = X->getMethodDecl()) {
        calleeRef(MD, O);
        O["m"] = isa<CXXConversionDecl>(MD) ? std::string("<conv>") : MD->getNameAsString();
      }
      if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) {
        O["arrow"] = ME->isArrow();
        O["qual"] = ME->hasQualifier();
      }
      O["o"] = expr(X->getImplicitObjectArgument());
      O["ot"] = ty(X->getObjectType());
      O["oc"] = X->getObjectType().isConstQualified();
      O["a"] = args(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
      O["t"] = ty(E->getType()); if (E->isGLValue()) O["lv"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "Call";
      if (auto *FD = X->getDirectCallee()) {
        calleeRef(FD, O);
        if (FD->getTemplateSpecializationArgs()) {
          json::Array TA;
          for (auto &A : FD->getTemplateSpecializationArgs()->asArray()) {
            std::string B; llvm::raw_string_ostream OS(B); A.print(PP, OS, true); TA.push_back(OS.str());
          }
          O["ta"] = std::move(TA);
        }
      } else O["cal"] = expr(X->getCallee());
      O["a"] = args(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
      O["t"] = ty(E->getType()); if (E->isGLValue()) O["lv"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "New";
      auto *CD = X->getConstructor();
      O["cls"] = recName(CD->getParent());
      calleeRef(CD, O);
      if (CD->isCopyConstructor()) O["copy"] = true;
      if (CD->isMoveConstructor()) O["move"] = true;
      if (CD->isDefaultConstructor()) O["dflt"] = true;
      if (X->isListInitialization()) O["list"] = true;
      if (X->isStdInitListInitialization()) O["sil"] = true;
      if (CD->isImplicit() || CD->isDefaulted()) O["implicit"] = true;
      O["a"] = args(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
      O["t"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      O["k"] = "InitList";
      json::Array A;
      for (auto *I : X->inits()) A.push_back(expr(I));
      O["a"] = std::move(A);
      O["t"] = ty(E->getType());
      if (auto *RD = E->getType()->getAsCXXRecordDecl()) {
        json::Array FN;
        for (auto *F : RD->fields()) FN.push_back(F->getNameAsString());
        O["fields"] = std::move(FN);
      }
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "Index"; O["b"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); O["t"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "Un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = true;
      O["e"] = expr(X->getSubExpr()); O["t"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "Assign" : "Bin";
      O["op"] = X->getOpcodeStr().str();
      O["x"] = expr(X->getLHS()); O["y"] = expr(X->getRHS());
      O["t"] = ty(E->getType());
      O["xt"] = ty(X->getLHS()->getType());
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "Cond"; O["c"] = expr(X->getCond()); O["x"] = expr(X->getTrueExpr()); O["y"] = expr(X->getFalseExpr());
      O["t"] = ty(E->getType());
      return O;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "Cast"; O["ck"] = X->getCastKindName(); O["e"] = expr(X->getSubExpr()); O["t"] = ty(E->getType());
      O["ft"] = ty(X->getSubExpr()->getType());
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "Unknown"; O["c"] = "sizeof"; (void)X;
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "HeapNew"; O["t"] = ty(X->getAllocatedType());
      if (X->getInitializer()) O["e"] = expr(X->getInitializer());
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "Throw"; O["e"] = expr(X->getSubExpr()); return O; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { O["k"] = "Unknown"; O["c"] = "StmtExpr"; (void)X; return O; }
    O["k"] = "Unknown";
    O["c"] = E->getStmtClassName();
    json::Array Ch;
    for (auto *S : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(S)) Ch.push_back(expr(CE));
    O["a"] = std::move(Ch);
    return O;
  }

  // ---------------------------------------------------------------- stmts
  json::Value varDecl(const VarDecl *V) {
    json::Object O = tyinfo(V->getType());
    O["id"] = id(V);
    O["n"] = V->getNameAsString();
    O["l"] = loc(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->isStaticLocal() && (V->isConstexpr() || V->getType().isConstQualified())) O["fixed"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *BD : D->bindings()) {
        json::Object BO;
        BO["id"] = id(BD);
        BO["n"] = BD->getNameAsString();
        std::string F;
        if (auto *ME = dyn_cast_or_null<MemberExpr>(BD->getBinding() ? strip(BD->getBinding()) : nullptr))
          F = ME->getMemberDecl()->getNameAsString();
        BO["f"] = F;
        // tuple-like bindings have a holding variable; refer to both ids
        if (auto *HV = BD->getHoldingVar()) BO["hv"] = id(HV);
        B.push_back(std::move(BO));
      }
      O["binds"] = std::move(B);
    }
    return O;
  }

  void collectCalls(const Stmt *S, json::Array &Out) {
    if (!S) return;
    if (auto *E = dyn_cast<Expr>(S)) {
      if (isa<CXXMemberCallExpr>(E) || isa<CallExpr>(E)) {
        // only calls spelled in the repository (log operands)
        if (auto *CE = dyn_cast<CallExpr>(E))
          if (auto *FD = CE->getDirectCallee())
            if (inRoot(FD->getLocation())) { Out.push_back(expr(E)); }
      }
      if (auto *U = dyn_cast<UnaryOperator>(E)) if (U->isIncrementDecrementOp()) Out.push_back(expr(E));
      if (auto *B = dyn_cast<BinaryOperator>(E)) if (B->isAssignmentOp()) Out.push_back(expr(E));
    }
    for (auto *Ch : S->children()) collectCalls(Ch, Out);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object O;
    O["l"] = loc(S->getBeginLoc());
    if (S->getBeginLoc().isMacroID() && !isa<Expr>(S)) {
      if (fromMacro(S->getBeginLoc(), "BOOST_LOG_TRIVIAL")) {
        O["k"] = "Log";
        json::Array A;
        if (auto *F = dyn_cast<ForStmt>(S)) collectCalls(F->getBody(), A);
        O["a"] = std::move(A);
        return O;
      }
    }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "Block";
      json::Array B;
      for (auto *Ch : X->body()) B.push_back(stmt(Ch));
      O["b"] = std::move(B);
      O["e"] = loc(X->getRBracLoc());
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl";
      json::Array V;
      for (auto *D : X->decls())
        if (auto *VD = dyn_cast<VarDecl>(D)) V.push_back(varDecl(VD));
      O["v"] = std::move(V);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "If";
      if (X->isConstexpr()) O["constexpr"] = true;
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["t"] = stmt(X->getThen());
      if (X->getElse()) O["f"] = stmt(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "While";
      if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "Do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "For";
      if (X->getInit()) O["i"] = stmt(X->getInit());
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getInc()) O["n"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
      if (fromMacro(S->getBeginLoc(), "BOOST_FOREACH")) O["foreach"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "RFor";
      O["v"] = varDecl(X->getLoopVariable());
      O["r"] = expr(X->getRangeInit());
      O["rt"] = ty(X->getRangeInit()->getType());
      if (X->getRangeStmt())
        if (auto *RD = dyn_cast<VarDecl>(X->getRangeStmt()->getSingleDecl()))
          O["rconst"] = RD->getType().getNonReferenceType().isConstQualified();
      if (X->getInit()) O["i"] = stmt(X->getInit());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "Switch"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody());
      O["ct"] = ty(X->getCond()->IgnoreParenImpCasts()->getType());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "Case"; O["v"] = expr(X->getLHS()); O["b"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "Default"; O["b"] = stmt(X->getSubStmt()); return O; }
    if (isa<BreakStmt>(S)) { O["k"] = "Break"; return O; }
    if (isa<ContinueStmt>(S)) { O["k"] = "Continue"; return O; }
    if (isa<NullStmt>(S)) { O["k"] = "Nop"; return O; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "Return";
      if (X->getRetValue()) O["e"] = expr(X->getRetValue());
      return O;
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "Try"; O["b"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) H.push_back(stmt(X->getHandler(I)->getHandlerBlock()));
      O["h"] = std::move(H);
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<Expr>(S)) {
      O["k"] = "Expr";
      O["e"] = expr(X);
      return O;
    }
    O["k"] = "UnknownStmt"; O["c"] = S->getStmtClassName();
    return O;
  }

  // ---------------------------------------------------------------- decls
  void enqueue(const FunctionDecl *F) {
    if (!F || F->isDependentContext()) return;
    if (!inRoot(F->getLocation())) return;
    if (Seen.count(F)) return;
    Seen.insert(F);
    Pending.push_back(F);
  }
  void drain() {
    while (!Pending.empty()) {
      auto *F = Pending.back();
      Pending.pop_back();
      emit(F);
    }
  }
  void emit(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->getBody(Def)) {
      if (!F->isDefaulted()) return;
      Def = F;
    }
    F = Def;
    json::Object O;
    O["fid"] = fid(F);
    O["name"] = fname(F);
    O["file"] = file(F->getLocation());
    O["line"] = (int64_t)SM.getExpansionLineNumber(F->getLocation());
    O["endline"] = (int64_t)SM.getExpansionLineNumber(F->getEndLoc());
    O["ret"] = json::Value(tyinfo(F->getReturnType()));
    if (F->getReturnType()->isVoidType()) O["void"] = true;
    json::Array P;
    for (auto *PD : F->parameters()) {
      json::Object PO = tyinfo(PD->getType());
      PO["id"] = id(PD); PO["n"] = PD->getNameAsString();
      if (PD->getType()->isPointerType()) PO["ptr"] = true;
      P.push_back(std::move(PO));
    }
    O["params"] = std::move(P);
    if (F->isVariadic()) O["variadic"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) {
        O["virtual"] = true;
        json::Array Ov;
        for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
        O["overrides"] = std::move(Ov);
      }
      O["access"] = (int64_t)M->getAccess();
      if (M->getParent()->isLambda()) O["lambda"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array In;
      for (auto *I : CD->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer()) { IO["f"] = I->getAnyMember()->getNameAsString(); IO["ft"] = ty(I->getAnyMember()->getType()); }
        else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["e"] = expr(I->getInit());
        In.push_back(std::move(IO));
      }
      O["inits"] = std::move(In);
    }
    if (F->getBody()) O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Conv &K;
  explicit V(Conv &K) : K(K) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition()) return true;
    if (F->isDependentContext()) return true;
    if (!K.inRoot(F->getLocation())) return true;
    if (F->isImplicit() && !F->hasBody()) return true;
    K.enqueue(F);
    K.drain();
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!K.inRoot(R->getLocation())) return true;
    json::Object O;
    O["name"] = K.recName(R);
    O["file"] = K.file(R->getLocation());
    json::Array F, B;
    for (auto *FD : R->fields()) {
      json::Object FO = K.tyinfo(FD->getType());
      FO["n"] = FD->getNameAsString();
      FO["access"] = (int64_t)FD->getAccess();
      if (FD->hasInClassInitializer()) FO["init"] = K.expr(FD->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    for (auto &BS : R->bases()) B.push_back(K.ty(BS.getType()));
    O["fields"] = std::move(F);
    O["bases"] = std::move(B);
    K.Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !K.inRoot(E->getLocation())) return true;
    json::Object O;
    O["name"] = K.ty(K.C.getEnumType(E));
    json::Array A;
    for (auto *C : E->enumerators()) A.push_back(C->getQualifiedNameAsString());
    O["vals"] = std::move(A);
    K.Enums.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Conv K(C);
    V Vis(K);
    Vis.TraverseDecl(C.getTranslationUnitDecl());
    K.drain();
    json::Object O;
    O["functions"] = std::move(K.Functions);
    O["records"] = std::move(K.Records);
    O["enums"] = std::move(K.Enums);
    O["errors"] = C.getDiagnostics().hasErrorOccurred();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(O)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: extract ROOT OUT SOURCE -- flags...
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  Root = argv[1];
  OutPath = argv[2];
  std::vector<std::string> Srcs{argv[3]};
  int N = argc - 4;
  const char **A = argv + 4;
  std::string Err;
  auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(N, A, Err);
  if (!DB) { llvm::errs() << "no flags: " << Err << "\n"; return 2; }
  tooling::ClangTool T(*DB, Srcs);
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-fparse-all-comments", tooling::ArgumentInsertPosition::BEGIN));
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
