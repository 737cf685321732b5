// Dumps the type-checked, instantiated syntax tree of the functions defined
// below given source prefixes as JSON.  usage:
//   comma-extract OUT.json PREFIX[,PREFIX...] file.cpp -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::string OutPath;
static std::vector<std::string> Prefixes;

namespace {

class Dumper {
public:
  explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()) {}

  ASTContext &Ctx;
  SourceManager &SM;
  J::Array Types, Functions, Records, Enums, Globals, Narrow;
  std::string CurFn;
  std::map<const void *, int> TypeIds, DeclIds;
  std::map<std::string, int> FileIds;
  std::vector<std::string> Files;
  std::set<const FunctionDecl *> Queued;
  std::vector<const FunctionDecl *> Queue;
  std::set<const CXXRecordDecl *> RecDone;

  // ---------------------------------------------------------------- helpers
  int fileId(const std::string &F) {
    auto It = FileIds.find(F);
    if (It != FileIds.end()) return It->second;
    int N = (int)Files.size();
    FileIds[F] = N;
    Files.push_back(F);
    return N;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    llvm::StringRef R = FE->getFileEntry().tryGetRealPathName();
    return R.empty() ? FE->getName().str() : R.str();
  }
  bool inScope(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    for (auto &P : Prefixes)
      if (F.compare(0, P.size(), P) == 0) return true;
    return false;
  }
  J::Value loc(SourceLocation L) {
    if (L.isInvalid()) return nullptr;
    SourceLocation E = SM.getExpansionLoc(L);
    return J::Array{fileId(fileOf(E)), (int64_t)SM.getExpansionLineNumber(E)};
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = DeclIds.find(D);
    if (It != DeclIds.end()) return It->second;
    int N = (int)DeclIds.size();
    DeclIds[D] = N;
    return N;
  }
  static void ctxName(const DeclContext *DC, std::string &Out) {
    if (!DC || DC->isTranslationUnit()) return;
    ctxName(DC->getParent(), Out);
    if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
      if (NS->isInline()) return;
      Out += (NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString());
      Out += "::";
    } else if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) {
      Out += RD->isLambda() ? "(lambda)" : RD->getNameAsString();
      Out += "::";
    } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
      Out += FD->getNameAsString();
      Out += "::";
    }
  }
  static std::string qname(const NamedDecl *D) {
    std::string S;
    ctxName(D->getDeclContext(), S);
    if (auto *RD = dyn_cast<CXXRecordDecl>(D))
      if (RD->isLambda()) return S + "(lambda)";
    return S + D->getNameAsString();
  }
  int typeId(QualType T) {
    T = T.getCanonicalType();
    void *Key = T.getAsOpaquePtr();
    auto It = TypeIds.find(Key);
    if (It != TypeIds.end()) return It->second;
    int Id = (int)TypeIds.size();
    TypeIds[Key] = Id;
    Types.push_back(nullptr);
    J::Object O;
    PrintingPolicy PP(Ctx.getLangOpts());
    PP.SuppressTagKeyword = true;
    O["s"] = T.getAsString(PP);
    if (T.isConstQualified()) O["const"] = true;
    if (T->isReferenceType()) {
      O["c"] = "ref";
      O["p"] = typeId(T->getPointeeType());
      if (T->isRValueReferenceType()) O["rv"] = true;
    } else if (T->isPointerType()) {
      O["c"] = "ptr";
      O["p"] = typeId(T->getPointeeType());
    } else if (T->isBooleanType()) {
      O["c"] = "bool";
    } else if (T->isEnumeralType()) {
      O["c"] = "enum";
      if (auto *ED = T->getAsTagDecl()) O["r"] = qname(ED);
    } else if (T->isIntegerType()) {
      O["c"] = T->isUnsignedIntegerType() ? "uint" : "int";
      O["w"] = (int64_t)Ctx.getTypeSize(T);
    } else if (T->isFloatingType()) {
      O["c"] = "float";
      O["w"] = (int64_t)Ctx.getTypeSize(T);
    } else if (T->isVoidType()) {
      O["c"] = "void";
    } else if (auto *RD = T->getAsCXXRecordDecl()) {
      O["c"] = "rec";
      O["r"] = qname(RD);
      if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(RD))
        O["a"] = targs(SD->getTemplateArgs());
      if (RD->isLambda()) O["lambda"] = declId(RD);
      addRecord(RD);
    } else if (T->isFunctionType()) {
      O["c"] = "func";
    } else {
      O["c"] = "other";
    }
    Types[Id] = std::move(O);
    return Id;
  }
  J::Array targs(const TemplateArgumentList &L) {
    J::Array A;
    for (const TemplateArgument &TA : L.asArray()) targ(TA, A);
    return A;
  }
  void targ(const TemplateArgument &TA, J::Array &A) {
    switch (TA.getKind()) {
    case TemplateArgument::Type: A.push_back(J::Object{{"t", typeId(TA.getAsType())}}); break;
    case TemplateArgument::Integral: {
      llvm::SmallString<16> S;
      TA.getAsIntegral().toString(S, 10);
      A.push_back(J::Object{{"v", std::string(S)}});
      break;
    }
    case TemplateArgument::Pack:
      for (auto &X : TA.pack_elements()) targ(X, A);
      break;
    default: A.push_back(J::Object{{"x", (int)TA.getKind()}});
    }
  }
  void addRecord(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD || RD->isLambda() || RD->isDependentContext()) return;
    if (!inScope(RD->getLocation())) return;
    if (!RecDone.insert(RD).second) return;
    J::Object O;
    O["q"] = qname(RD);
    O["id"] = declId(RD);
    O["l"] = loc(RD->getLocation());
    if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(RD))
      O["a"] = targs(SD->getTemplateArgs());
    J::Array B, F;
    for (auto &Bs : RD->bases()) {
      J::Object Bo;
      Bo["t"] = typeId(Bs.getType());
      if (auto *BR = Bs.getType()->getAsCXXRecordDecl()) Bo["q"] = qname(BR);
      Bo["access"] = (int)Bs.getAccessSpecifier();
      B.push_back(std::move(Bo));
    }
    for (auto *FD : RD->fields()) {
      J::Object Fo;
      Fo["n"] = FD->getNameAsString();
      Fo["t"] = typeId(FD->getType());
      Fo["l"] = loc(FD->getLocation());
      Fo["access"] = (int)FD->getAccess();
      if (FD->isMutable()) Fo["mutable"] = true;
      F.push_back(std::move(Fo));
    }
    O["bases"] = std::move(B);
    O["fields"] = std::move(F);
    O["poly"] = RD->isPolymorphic();
    O["abstract"] = RD->isAbstract();
    if (auto *D = RD->getDestructor()) O["vdtor"] = D->isVirtual();
    else O["vdtor"] = false;
    O["final"] = RD->hasAttr<FinalAttr>();
    Records.push_back(std::move(O));
  }
  const FunctionDecl *defOf(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D)) return D;
    if (F->isDefined(D)) return D;
    return nullptr;
  }
  void enqueue(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *D = defOf(F);
    if (!D) {
      // pure virtual declarations are recorded without body
      auto *M = dyn_cast<CXXMethodDecl>(F);
      if (!M || !M->isPureVirtual()) return;
      D = F;
    }
    if (D->isDependentContext()) return;
    if (!inScope(D->getLocation())) return;
    if (D->isImplicit() && !isa<CXXMethodDecl>(D)) return;
    if (!Queued.insert(D).second) return;
    Queue.push_back(D);
  }

  // ------------------------------------------------------------ expressions
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; E = X->getSourceExpr(); }
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        if (X->getCastKind() == CK_FloatingToIntegral || X->getCastKind() == CK_UserDefinedConversion
            || X->getCastKind() == CK_IntegralToBoolean || X->getCastKind() == CK_FloatingToBoolean
            || X->getCastKind() == CK_PointerToBoolean)
          return E;
        E = X->getSubExpr();
      } else return E;
    }
    return E;
  }
  // whether the expression is a temporary bound to a reference
  bool materialized(const Expr *E) {
    while (E) {
      if (isa<MaterializeTemporaryExpr>(E)) return true;
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) E = X->getSubExpr();
      else return false;
    }
    return false;
  }
  bool tryConst(const Expr *E, J::Object &O) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    QualType T = E->getType();
    if (!(T->isArithmeticType() || T->isEnumeralType())) return false;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, Ctx)) return false;
    if (R.HasSideEffects) return false;
    if (R.Val.isInt()) {
      if (T->isBooleanType()) {
        O["k"] = "bool";
        O["v"] = R.Val.getInt() != 0;
        return true;
      }
      llvm::SmallString<24> S;
      R.Val.getInt().toString(S, 10);
      O["k"] = "int";
      O["v"] = std::string(S);
      return true;
    }
    if (R.Val.isFloat()) {
      llvm::SmallString<32> S;
      R.Val.getFloat().toString(S);
      O["k"] = "flt";
      O["v"] = std::string(S);
      O["d"] = R.Val.getFloat().convertToDouble();
      if (!std::isfinite(R.Val.getFloat().convertToDouble())) O["d"] = nullptr;
      return true;
    }
    return false;
  }
  void calleeInfo(J::Object &O, const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *D = defOf(F);
    O["f"] = declId(F);
    O["q"] = qname(F);
    O["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qname(M->getParent());
      if (M->isConst()) O["cm"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["static"] = true;
    }
    if (inScope(F->getLocation())) {
      O["in"] = true;
      enqueue(D ? D : F);
    }
    if ((F->isInStdNamespace() && F->getIdentifier() && F->getName() == "move" && F->getNumParams() == 1))
      O["move"] = true;
    J::Array PT;
    for (auto *P : F->parameters()) PT.push_back(typeId(P->getType()));
    O["pt"] = std::move(PT);
    if (F->isVariadic()) O["variadic"] = true;
    if (auto *A = F->getTemplateSpecializationArgs()) O["ta"] = targs(*A);
  }
  J::Value expr(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    J::Object O;
    O["l"] = loc(E->getBeginLoc());
    O["t"] = typeId(E->getType());
    if (E->isLValue()) O["lv"] = true;
    if (materialized(E0)) O["mat"] = true;

    if (isa<IntegerLiteral>(E) || isa<FloatingLiteral>(E) || isa<CXXBoolLiteralExpr>(E) ||
        isa<UnaryExprOrTypeTraitExpr>(E) || isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)
        || isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E)) {
      if (tryConst(E, O)) return std::move(O);
      if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { O["k"] = "zero"; return std::move(O); }
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["v"] = std::to_string(X->getValue()); return std::move(O); }
    if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      O["k"] = "str";
      std::string S = X->getString().str();
      for (auto &c : S) if ((unsigned char)c >= 128) c = '?';
      O["v"] = S;
      return std::move(O);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "nullptr"; return std::move(O); }
    if (isa<CXXThisExpr>(E)) { O["k"] = "this"; return std::move(O); }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        tryConst(E, O);
        O["enum"] = EC->getNameAsString();
        return std::move(O);
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isConstexpr() || (V->hasGlobalStorage() && V->getType().isConstQualified()))
          if (tryConst(E, O)) { O["cname"] = V->getNameAsString(); return std::move(O); }
        O["k"] = "ref";
        O["n"] = V->getNameAsString();
        O["id"] = declId(V);
        O["dk"] = isa<ParmVarDecl>(V) ? "param" : (V->hasGlobalStorage() ? "global" : "var");
        if (V->hasGlobalStorage()) { O["q"] = qname(V); if (inScope(V->getLocation())) O["in"] = true; }
        return std::move(O);
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        O["k"] = "ref"; O["n"] = B->getNameAsString(); O["id"] = declId(B); O["dk"] = "binding";
        return std::move(O);
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fref";
        calleeInfo(O, F);
        return std::move(O);
      }
      O["k"] = "ref"; O["n"] = D->getNameAsString(); O["id"] = declId(D); O["dk"] = "other";
      return std::move(O);
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isConstexpr() || V->getType().isConstQualified())
          if (tryConst(E, O)) return std::move(O);
        O["k"] = "ref"; O["n"] = V->getNameAsString(); O["id"] = declId(V); O["dk"] = "global"; O["q"] = qname(V);
        return std::move(O);
      }
      O["k"] = "mem";
      O["n"] = D->getNameAsString();
      if (X->isArrow()) O["arrow"] = true;
      O["b"] = expr(X->getBase());
      if (auto *FD = dyn_cast<FieldDecl>(D)) O["cls"] = qname(FD->getParent());
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["k"] = "memfn"; calleeInfo(O, F); }
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "opcall";
      O["op"] = getOperatorSpelling(X->getOperator());
      calleeInfo(O, X->getDirectCallee());
      J::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "mcall";
      calleeInfo(O, X->getMethodDecl());
      O["o"] = expr(X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) {
        if (ME->isArrow()) O["arrow"] = true;
        if (ME->hasQualifier()) O["qualified"] = true;
      }
      J::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      if (X->getNumArgs() == 0 && tryConstCall(E, O)) {}
      return std::move(O);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = X->getDirectCallee();
      // value of constant calls such as numeric_limits<T>::max()
      if (F && X->getNumArgs() == 0 && F->isConstexpr() && tryConst(E, O)) {
        O["q"] = qname(F);
        return std::move(O);
      }
      O["k"] = "call";
      if (F) calleeInfo(O, F);
      else O["fn"] = expr(X->getCallee());
      J::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *C = X->getConstructor();
      O["k"] = "ctor";
      if (C->isCopyConstructor()) O["copy"] = true;
      if (C->isMoveConstructor()) O["mv"] = true;
      if (X->isListInitialization()) O["list"] = true;
      if (X->isStdInitListInitialization()) O["stdlist"] = true;
      if (isa<CXXTemporaryObjectExpr>(E)) O["tmp"] = true;
      calleeInfo(O, C);
      O["rt"] = qname(C->getParent());
      J::Array A;
      for (auto *Arg : X->arguments()) A.push_back(expr(Arg));
      O["args"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (!X->isSemanticForm() && X->getSemanticForm()) X = X->getSemanticForm();
      O["k"] = "ilist";
      J::Array A;
      for (auto *I : X->inits()) A.push_back(expr(I));
      O["args"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      if (tryConstLit(E, O)) return std::move(O);
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = true;
      O["a"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "cassign";
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return std::move(O);
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "assign" : "bin";
      O["op"] = X->getOpcodeStr().str();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
      return std::move(O);
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "cond";
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "sub";
      O["a"] = expr(X->getBase());
      O["b"] = expr(X->getIdx());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      if (X->getCastKind() == CK_UserDefinedConversion) {
        return expr(X->getSubExpr());
      }
      if (X->getCastKind() == CK_ConstructorConversion) return expr(X->getSubExpr());
      O["k"] = "cast";
      O["ck"] = X->getCastKindName();
      if (isa<ExplicitCastExpr>(X)) O["ex"] = true;
      if (isa<CXXConstCastExpr>(X)) O["cc"] = true;
      if (isa<CXXReinterpretCastExpr>(X)) O["rc"] = true;
      O["a"] = expr(X->getSubExpr());
      return std::move(O);
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      auto *RD = X->getLambdaClass();
      O["rd"] = declId(RD);
      J::Array Caps;
      for (auto &C : X->captures()) {
        J::Object Co;
        if (C.capturesThis()) { Co["this"] = true; Co["byref"] = C.getCaptureKind() == LCK_This; }
        else if (C.capturesVariable()) {
          Co["id"] = declId(C.getCapturedVar());
          Co["n"] = C.getCapturedVar()->getNameAsString();
          Co["byref"] = C.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(C.getCapturedVar()))
            if (VD->isInitCapture() && VD->getInit()) Co["init"] = expr(VD->getInit());
        }
        Caps.push_back(std::move(Co));
      }
      O["caps"] = std::move(Caps);
      O["mutable"] = X->isMutable();
      J::Array Ops;
      if (auto *FT = RD->getDependentLambdaCallOperator()) {
        O["gen"] = true;
        for (auto *S : FT->specializations()) { enqueue(S); Ops.push_back(declId(S)); }
      } else if (auto *Op = RD->getLambdaCallOperator()) {
        enqueue(Op);
        Ops.push_back(declId(Op));
      }
      O["ops"] = std::move(Ops);
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new";
      O["at"] = typeId(X->getAllocatedType());
      if (X->isArray()) O["array"] = true;
      O["init"] = expr(X->getInitializer());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["a"] = expr(X->getArgument()); return std::move(O); }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw";
      if (X->getSubExpr()) {
        QualType T = X->getSubExpr()->getType();
        if (auto *RD = T->getAsCXXRecordDecl()) O["exc"] = qname(RD);
        O["a"] = expr(X->getSubExpr());
      }
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      J::Value V = expr(X->getExpr());
      if (auto *VO = V.getAsObject()) (*VO)["defarg"] = true;
      return V;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { O["k"] = "str"; O["v"] = "__func__"; (void)X; return std::move(O); }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { O["k"] = "opaque"; O["c"] = "typeid"; (void)X; return std::move(O); }
    O["k"] = "opaque";
    O["c"] = E->getStmtClassName();
    J::Array A;
    for (auto *Ch : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(Ch)) A.push_back(expr(CE));
    O["args"] = std::move(A);
    return std::move(O);
  }
  bool tryConstCall(const Expr *, J::Object &) { return false; }
  bool tryConstLit(const Expr *E, J::Object &O) {
    auto *U = dyn_cast<UnaryOperator>(E);
    if (!U || (U->getOpcode() != UO_Minus && U->getOpcode() != UO_Plus)) return false;
    const Expr *S = strip(U->getSubExpr());
    if (isa<IntegerLiteral>(S) || isa<FloatingLiteral>(S)) return tryConst(E, O);
    return false;
  }

  // ------------------------------------------------------------- statements
  J::Value varDecl(const VarDecl *V) {
    J::Object O;
    O["n"] = V->getNameAsString();
    O["id"] = declId(V);
    O["t"] = typeId(V->getType());
    O["l"] = loc(V->getLocation());
    if (V->isStaticLocal()) {
      O["static"] = true;
      if (V->getType().isConstQualified()) O["const"] = true;
    }
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->isConstexpr()) O["constexpr"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      J::Array B;
      for (auto *Bd : DD->bindings()) {
        J::Object Bo;
        Bo["n"] = Bd->getNameAsString();
        Bo["id"] = declId(Bd);
        if (auto *HV = Bd->getHoldingVar()) {
          Bo["hv"] = declId(HV);
        }
        B.push_back(std::move(Bo));
      }
      O["bind"] = std::move(B);
    }
    return std::move(O);
  }
  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      J::Object O;
      O["k"] = "expr";
      O["l"] = loc(S->getBeginLoc());
      O["e"] = expr(E);
      return std::move(O);
    }
    J::Object O;
    O["l"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "block";
      J::Array A;
      for (auto *C : X->body()) A.push_back(stmt(C));
      O["b"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      J::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["d"] = std::move(A);
      return std::move(O);
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) {
        if (auto Nd = X->getNondiscardedCase(Ctx)) {
          if (*Nd) return stmt(*Nd);
          O["k"] = "null";
          return std::move(O);
        }
      }
      O["k"] = "if";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (auto *CV = X->getConditionVariable()) O["cv"] = varDecl(CV);
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getThen());
      if (X->getElse()) O["b"] = stmt(X->getElse());
      return std::move(O);
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getCond()) O["c"] = expr(X->getCond());
      if (X->getInc()) O["inc"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while";
      if (auto *CV = X->getConditionVariable()) O["cv"] = varDecl(CV);
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do";
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      O["range"] = expr(X->getRangeInit());
      O["var"] = varDecl(X->getLoopVariable());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return std::move(O);
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case";
      O["v"] = expr(X->getLHS());
      O["b"] = stmt(X->getSubStmt());
      return std::move(O);
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default";
      O["b"] = stmt(X->getSubStmt());
      return std::move(O);
    }
    if (isa<BreakStmt>(S)) { O["k"] = "break"; return std::move(O); }
    if (isa<ContinueStmt>(S)) { O["k"] = "continue"; return std::move(O); }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "return";
      if (X->getRetValue()) O["e"] = expr(X->getRetValue());
      return std::move(O);
    }
    if (isa<NullStmt>(S)) { O["k"] = "null"; return std::move(O); }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try";
      O["b"] = stmt(X->getTryBlock());
      J::Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) H.push_back(stmt(X->getHandler(I)->getHandlerBlock()));
      O["h"] = std::move(H);
      return std::move(O);
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    O["k"] = "opaque";
    O["c"] = S->getStmtClassName();
    return std::move(O);
  }

  // -------------------------------------------------------------- functions
  void baseMost(const CXXMethodDecl *M, std::set<const CXXMethodDecl *> &Out) {
    if (M->size_overridden_methods() == 0) { Out.insert(M); return; }
    for (auto *O : M->overridden_methods()) baseMost(O, Out);
  }
  void function(const FunctionDecl *F) {
    J::Object O;
    O["id"] = declId(F);
    O["q"] = qname(F);
    O["n"] = F->getNameAsString();
    O["l"] = loc(F->getLocation());
    O["end"] = loc(F->getEndLoc());
    O["ret"] = typeId(F->getReturnType());
    O["kind"] = "func";
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : "method";
      O["cls"] = qname(M->getParent());
      if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) O["ca"] = targs(SD->getTemplateArgs());
      if (M->getParent()->isLambda()) { O["kind"] = "lambda"; O["rd"] = declId(M->getParent()); }
      else addRecord(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isPureVirtual()) O["pure"] = true;
      if (M->isStatic()) O["static"] = true;
      O["access"] = (int)M->getAccess();
      std::set<const CXXMethodDecl *> B;
      baseMost(M, B);
      J::Array BA;
      for (auto *X : B) if (X != M) { BA.push_back(declId(X)); enqueue(X); }
      O["over"] = std::move(BA);
    }
    if (auto *A = F->getTemplateSpecializationArgs()) O["ta"] = targs(*A);
    O["tmpl"] = F->isTemplateInstantiation();
    if (F->isInlined()) O["inline"] = true;
    O["linkage_internal"] = F->getFormalLinkage() == Linkage::Internal;
    J::Array P;
    for (auto *Pm : F->parameters()) {
      J::Object Po;
      Po["n"] = Pm->getNameAsString();
      Po["id"] = declId(Pm);
      Po["t"] = typeId(Pm->getType());
      if (Pm->hasDefaultArg() && !Pm->hasUnparsedDefaultArg() && !Pm->hasUninstantiatedDefaultArg())
        Po["def"] = expr(Pm->getDefaultArg());
      else if (Pm->hasDefaultArg()) Po["hasdef"] = true;
      P.push_back(std::move(Po));
    }
    O["params"] = std::move(P);
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      if (C->isCopyConstructor()) O["copy"] = true;
      if (C->isMoveConstructor()) O["mv"] = true;
      J::Array I;
      for (auto *In : C->inits()) {
        J::Object Io;
        if (In->isAnyMemberInitializer()) {
          Io["f"] = In->getAnyMember()->getNameAsString();
          Io["ft"] = typeId(In->getAnyMember()->getType());
        }
        else if (In->isBaseInitializer()) { if (auto *RD = In->getBaseClass()->getAsCXXRecordDecl()) Io["base"] = qname(RD); }
        else if (In->isDelegatingInitializer()) Io["deleg"] = true;
        Io["w"] = In->isWritten();
        Io["l"] = loc(In->getSourceLocation());
        Io["e"] = expr(In->getInit());
        I.push_back(std::move(Io));
      }
      O["inits"] = std::move(I);
    }
    CurFn = qname(F);
    if (F->getBody()) { O["body"] = stmt(F->getBody()); narrowing(F->getBody()); }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F))
      for (auto *In : C->inits()) narrowing(In->getInit());
    Functions.push_back(std::move(O));
  }
  // conversions of non-constant values to a narrower arithmetic type
  void narrowing(const Stmt *S) {
    if (!S || isa<LambdaExpr>(S)) return;
    if (auto *X = dyn_cast<CastExpr>(S)) {
      CastKind K = X->getCastKind();
      if (K == CK_IntegralCast || K == CK_FloatingCast || K == CK_FloatingToIntegral || K == CK_IntegralToFloating) {
        QualType A = X->getSubExpr()->getType(), B = X->getType();
        if (!B->isDependentType() && !A->isDependentType() && !A->isBooleanType() && !B->isBooleanType()) {
          Expr::EvalResult R;
          if (Ctx.getTypeSize(B) < Ctx.getTypeSize(A) &&
              !(!X->isValueDependent() && X->getSubExpr()->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects)) {
            PrintingPolicy PP(Ctx.getLangOpts());
            J::Object O;
            O["fn"] = CurFn;
            O["l"] = loc(X->getBeginLoc());
            O["from"] = A.getCanonicalType().getAsString(PP);
            O["to"] = B.getCanonicalType().getAsString(PP);
            Narrow.push_back(std::move(O));
          }
        }
      }
    }
    for (auto *C : S->children()) narrowing(C);
  }
  void drain() {
    for (size_t I = 0; I < Queue.size(); ++I) function(Queue[I]);
  }
  void finish() {
    J::Object Top;
    J::Array FA;
    for (auto &F : Files) FA.push_back(F);
    Top["files"] = std::move(FA);
    Top["types"] = std::move(Types);
    Top["functions"] = std::move(Functions);
    Top["records"] = std::move(Records);
    Top["enums"] = std::move(Enums);
    Top["globals"] = std::move(Globals);
    Top["narrow"] = std::move(Narrow);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << J::Value(std::move(Top));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  explicit Visitor(Dumper &D) : D(D) {}
  Dumper &D;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext()) D.enqueue(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition()) D.addRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inScope(E->getLocation())) return true;
    J::Object O;
    O["q"] = Dumper::qname(E);
    O["l"] = D.loc(E->getLocation());
    J::Array A;
    for (auto *C : E->enumerators()) {
      llvm::SmallString<16> S;
      C->getInitVal().toString(S, 10);
      A.push_back(J::Object{{"n", C->getNameAsString()}, {"v", std::string(S)}});
    }
    O["e"] = std::move(A);
    D.Enums.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->getDeclContext()->isDependentContext()) return true;
    if (!D.inScope(V->getLocation())) return true;
    J::Object O;
    O["q"] = Dumper::qname(V);
    O["l"] = D.loc(V->getLocation());
    O["t"] = D.typeId(V->getType());
    O["id"] = D.declId(V);
    if (V->getInit() && !V->getInit()->isValueDependent()) O["init"] = D.expr(V->getInit());
    O["const"] = V->getType().isConstQualified() || V->isConstexpr();
    O["local"] = V->isStaticLocal();
    O["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    O["inline"] = V->isInline();
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) O["decl"] = true;
    if (V->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) O["tmpl"] = true;
    O["internal"] = V->getFormalLinkage() == Linkage::Internal;
    D.Globals.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    D.drain();
    D.finish();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, char **argv) {
  if (argc < 4) { llvm::errs() << "usage: comma-extract OUT PREFIX[,..] FILE -- args\n"; return 2; }
  OutPath = argv[1];
  std::string P = argv[2];
  for (size_t I = 0; I <= P.size();) {
    size_t J2 = P.find(',', I);
    if (J2 == std::string::npos) J2 = P.size();
    Prefixes.push_back(P.substr(I, J2 - I));
    I = J2 + 1;
  }
  std::string File = argv[3];
  std::vector<std::string> Args;
  for (int I = 4; I < argc; ++I)
    if (std::string(argv[I]) != "--") Args.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
