// cxxfacts: exports the resolved, typed program of the translation units given on the command line as JSON.
// usage: cxxfacts --root=<dir> --out=<file> -- <clang args> <source>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Basic/FileManager.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Path.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string gRoot, gOut;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  explicit Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  Object Functions, Records, Globals;
  Array Types;
  Array Enums;

  ASTContext &Ctx;
  SourceManager &SM;
  std::map<std::string, int> TypeIdx;

  static std::string fixUtf8(llvm::StringRef S) {
    return json::isUTF8(S) ? S.str() : json::fixUTF8(S);
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFilename(L);
    llvm::SmallString<256> P(F);
    llvm::sys::fs::make_absolute(P);
    llvm::sys::path::remove_dots(P, true);
    return std::string(P.str());
  }
  unsigned lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    std::string F = fileOf(L);
    return !F.empty() && llvm::StringRef(F).starts_with(gRoot);
  }
  std::string locId(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "?";
    std::string F = fileOf(L);
    if (llvm::StringRef(F).starts_with(gRoot)) F = F.substr(gRoot.size());
    return F + ":" + std::to_string(SM.getFileOffset(L));
  }

  std::string qname(const NamedDecl *D) {
    std::string S;
    std::vector<std::string> Parts;
    auto nameOf = [&](const NamedDecl *N) -> std::string {
      if (auto *C = dyn_cast<CXXConstructorDecl>(N)) return C->getParent()->getNameAsString();
      if (isa<CXXDestructorDecl>(N)) return "~" + cast<CXXDestructorDecl>(N)->getParent()->getNameAsString();
      if (auto *R = dyn_cast<CXXRecordDecl>(N))
        if (R->isLambda()) return "lambda@" + locId(R->getLocation());
      return N->getNameAsString();
    };
    Parts.push_back(nameOf(D));
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (NS->isInline()) continue;
        Parts.push_back(NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        Parts.push_back(nameOf(R));
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        Parts.push_back(F->getNameAsString() + "()");
      }
    }
    for (auto I = Parts.rbegin(); I != Parts.rend(); ++I) {
      if (!S.empty()) S += "::";
      S += *I;
    }
    return fixUtf8(S);
  }

  std::string lambdaKey(const CXXRecordDecl *R) { return "lambda@" + locId(R->getLocation()); }

  std::string keyOf(const FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda() && M->getOverloadedOperator() == OO_Call) {
        std::string K = lambdaKey(M->getParent());
        if (F->isTemplateInstantiation()) {
          K += "<";
          for (auto *P : F->parameters()) K += P->getType().getCanonicalType().getAsString() + ",";
          K += ">";
        }
        return K;
      }
    llvm::SmallString<128> B;
    if (auto *CF = dyn_cast<FunctionDecl>(F->getCanonicalDecl())) F = CF;
    if (index::generateUSRForDecl(F, B)) return qname(F) + "@" + locId(F->getLocation());
    return std::string(B.str());
  }

  int type(QualType Q) {
    if (Q.isNull()) return -1;
    Q = Q.getCanonicalType();
    bool Const = Q.isConstQualified();
    std::string S = Q.getAsString();
    if (auto *RT = Q->getAs<RecordType>())
      if (auto *R = dyn_cast<CXXRecordDecl>(RT->getDecl()))
        if (R->isLambda()) S = (Const ? "const " : "") + lambdaKey(R);
    auto It = TypeIdx.find(S);
    if (It != TypeIdx.end()) return It->second;
    int Idx = (int)Types.size();
    TypeIdx[S] = Idx;
    Types.push_back(nullptr);
    Object O;
    O["s"] = fixUtf8(S);
    if (Const) O["c"] = 1;
    QualType U = Q.getUnqualifiedType();
    const clang::Type *T = U.getTypePtr();
    if (T->isBooleanType()) { O["k"] = "int"; O["w"] = 1; O["u"] = 1; O["b"] = 1; }
    else if (T->isEnumeralType()) {
      O["k"] = "int"; O["w"] = (int)Ctx.getTypeSize(U); O["u"] = T->isUnsignedIntegerOrEnumerationType() ? 1 : 0;
      O["enum"] = qname(T->castAs<EnumType>()->getDecl());
    } else if (T->isIntegerType()) {
      O["k"] = "int"; O["w"] = (int)Ctx.getTypeSize(U); O["u"] = T->isUnsignedIntegerType() ? 1 : 0;
      if (T->isAnyCharacterType()) O["ch"] = 1;
    } else if (T->isFloatingType()) O["k"] = "float";
    else if (T->isVoidType()) O["k"] = "void";
    else if (T->isNullPtrType()) O["k"] = "nullptr";
    else if (auto *PT = T->getAs<PointerType>()) { O["k"] = "ptr"; O["to"] = type(PT->getPointeeType()); }
    else if (auto *RT = T->getAs<ReferenceType>()) { O["k"] = "ref"; O["to"] = type(RT->getPointeeType()); if (T->isRValueReferenceType()) O["rv"] = 1; }
    else if (auto *MT = T->getAs<MemberPointerType>()) { O["k"] = "mptr"; O["fn"] = MT->isMemberFunctionPointer() ? 1 : 0; }
    else if (auto *AT = Ctx.getAsConstantArrayType(U)) { O["k"] = "arr"; O["to"] = type(AT->getElementType()); O["n"] = (int64_t)AT->getSize().getZExtValue(); }
    else if (auto *AT = Ctx.getAsArrayType(U)) { O["k"] = "arr"; O["to"] = type(AT->getElementType()); }
    else if (auto *RT = T->getAs<RecordType>()) {
      O["k"] = "rec";
      O["q"] = qname(RT->getDecl());
      if (auto *R = dyn_cast<CXXRecordDecl>(RT->getDecl())) {
        if (R->isLambda()) O["lam"] = lambdaKey(R);
        if (R->hasDefinition()) {
          O["repo"] = inRoot(R->getLocation()) ? 1 : 0;
          if (R->isUnion()) O["union"] = 1;
        }
        if (auto *SD = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
          Array A;
          for (auto &TA : SD->getTemplateArgs().asArray()) {
            if (TA.getKind() == TemplateArgument::Type) A.push_back(type(TA.getAsType()));
            else if (TA.getKind() == TemplateArgument::Integral) A.push_back(Object{{"v", (int64_t)TA.getAsIntegral().getExtValue()}});
            else A.push_back(nullptr);
          }
          O["ta"] = std::move(A);
        }
      }
    } else if (T->isFunctionType()) O["k"] = "fn";
    else O["k"] = "other";
    Types[Idx] = std::move(O);
    return Idx;
  }

  std::string varId(const ValueDecl *V) {
    V = cast<ValueDecl>(V->getCanonicalDecl());
    if (auto *VD = dyn_cast<VarDecl>(V))
      if (VD->hasGlobalStorage() && !VD->isStaticLocal()) return "g:" + qname(VD) + (VD->getStorageClass() == SC_Static && !VD->isStaticDataMember() ? "@" + locId(VD->getLocation()) : "");
    return V->getNameAsString() + "@" + locId(V->getLocation());
  }

  Value ex(const Expr *E) {
    if (!E) return nullptr;
    Object O = exO(E);
    O["l"] = (int64_t)lineOf(E->getExprLoc());
    if (!O.get("t")) O["t"] = type(E->getType());
    if (E->isGLValue()) O["g"] = 1;
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
      Expr::EvalResult R;
      if (!E->HasSideEffects(Ctx) && E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
        auto &V = R.Val.getInt();
        if (V.isUnsigned() && V.getActiveBits() > 63) O["cvs"] = llvm::toString(V, 10);
        else O["cv"] = V.isUnsigned() ? (int64_t)V.getZExtValue() : V.getExtValue();
      }
    }
    return O;
  }
  Array exs(llvm::ArrayRef<const Expr *> Es) {
    Array A;
    for (auto *E : Es) A.push_back(ex(E));
    return A;
  }
  Array args(const CallExpr *C, unsigned From = 0) {
    Array A;
    for (unsigned I = From; I < C->getNumArgs(); ++I) A.push_back(ex(C->getArg(I)));
    return A;
  }
  void calleeInfo(Object &O, const FunctionDecl *F) {
    O["q"] = qname(F);
    O["fn"] = fixUtf8(keyOf(F));
    if (inRoot(F->getLocation())) O["repo"] = 1;
    Array PT;
    for (auto *P : F->parameters()) PT.push_back(type(P->getType()));
    O["pt"] = std::move(PT);
    if (F->isNoReturn()) O["noret"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isStatic()) O["static"] = 1;
      if (M->isConst()) O["const"] = 1;
    }
  }

  Object exO(const Expr *E) {
    Object O;
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: { auto V = ex(cast<ParenExpr>(E)->getSubExpr()); return *V.getAsObject(); }
    case Stmt::ConstantExprClass: { auto V = ex(cast<ConstantExpr>(E)->getSubExpr()); return *V.getAsObject(); }
    case Stmt::SubstNonTypeTemplateParmExprClass: { auto V = ex(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement()); return *V.getAsObject(); }
    case Stmt::CXXDefaultArgExprClass: { auto V = ex(cast<CXXDefaultArgExpr>(E)->getExpr()); return *V.getAsObject(); }
    case Stmt::CXXDefaultInitExprClass: { auto V = ex(cast<CXXDefaultInitExpr>(E)->getExpr()); return *V.getAsObject(); }
    case Stmt::CXXRewrittenBinaryOperatorClass: { auto V = ex(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm()); return *V.getAsObject(); }
    case Stmt::OpaqueValueExprClass: { auto *S = cast<OpaqueValueExpr>(E)->getSourceExpr(); if (S) { auto V = ex(S); return *V.getAsObject(); } break; }
    case Stmt::ChooseExprClass: { auto V = ex(cast<ChooseExpr>(E)->getChosenSubExpr()); return *V.getAsObject(); }
    case Stmt::GenericSelectionExprClass: { auto V = ex(cast<GenericSelectionExpr>(E)->getResultExpr()); return *V.getAsObject(); }
    case Stmt::IntegerLiteralClass: {
      O["k"] = "int";
      return O;
    }
    case Stmt::CharacterLiteralClass: O["k"] = "int"; return O;
    case Stmt::CXXBoolLiteralExprClass: O["k"] = "int"; return O;
    case Stmt::FloatingLiteralClass: O["k"] = "float"; O["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble(); return O;
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: O["k"] = "null"; return O;
    case Stmt::StringLiteralClass: {
      auto *S = cast<StringLiteral>(E);
      O["k"] = "str";
      std::string Hex;
      if (S->getCharByteWidth() == 1) {
        static const char *H = "0123456789abcdef";
        for (unsigned char C : S->getBytes()) { Hex += H[C >> 4]; Hex += H[C & 15]; }
        O["x"] = Hex;
      } else O["wide"] = 1;
      return O;
    }
    case Stmt::PredefinedExprClass: {
      auto *S = cast<PredefinedExpr>(E)->getFunctionName();
      if (S) { auto V = ex(S); return *V.getAsObject(); }
      break;
    }
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E);
      auto *VD = D->getDecl();
      O["k"] = "ref";
      if (auto *F = dyn_cast<FunctionDecl>(VD)) { O["dk"] = "fn"; calleeInfo(O, F); if (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isVirtual()) O["virt"] = 1; return O; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) { O["dk"] = "enum"; O["n"] = EC->getNameAsString(); return O; }
      if (auto *V = dyn_cast<VarDecl>(VD)) {
        O["dk"] = V->hasGlobalStorage() ? "glob" : "var";
        O["d"] = varId(V);
        O["n"] = fixUtf8(V->getNameAsString());
        if (V->hasGlobalStorage()) O["q"] = qname(V);
        if (V->getType()->isReferenceType()) O["isref"] = 1;
        O["vt"] = type(V->getType());
        return O;
      }
      if (auto *B = dyn_cast<BindingDecl>(VD)) {
        O["dk"] = "bind";
        if (B->getBinding()) O["b"] = ex(B->getBinding());
        O["d"] = varId(B);
        O["n"] = B->getNameAsString();
        return O;
      }
      break;
    }
    case Stmt::CXXThisExprClass: O["k"] = "this"; return O;
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {  // static data member
        O["k"] = "ref"; O["dk"] = "glob"; O["d"] = varId(V); O["n"] = V->getNameAsString(); O["q"] = qname(V); O["vt"] = type(V->getType());
        return O;
      }
      O["k"] = "mem";
      O["b"] = ex(M->getBase());
      if (M->isArrow()) O["arrow"] = 1;
      O["f"] = fixUtf8(M->getMemberDecl()->getNameAsString());
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        O["cls"] = qname(F->getParent());
        if (F->getType()->isReferenceType()) O["isref"] = 1;
        O["vt"] = type(F->getType());
        if (F->isAnonymousStructOrUnion()) O["anon"] = 1;
      }
      return O;
    }
    case Stmt::CallExprClass: {
      auto *C = cast<CallExpr>(E);
      O["k"] = "call";
      if (auto *F = C->getDirectCallee()) calleeInfo(O, F);
      else O["callee"] = ex(C->getCallee());
      O["args"] = args(C);
      return O;
    }
    case Stmt::UserDefinedLiteralClass: {
      auto *C = cast<UserDefinedLiteral>(E);
      O["k"] = "call";
      if (auto *F = C->getDirectCallee()) calleeInfo(O, F);
      O["args"] = args(C);
      return O;
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *C = cast<CXXMemberCallExpr>(E);
      const Expr *Callee = C->getCallee()->IgnoreParens();
      if (auto *BO = dyn_cast<BinaryOperator>(Callee)) {
        O["k"] = "pmcall";
        O["obj"] = ex(BO->getLHS());
        O["arrow"] = BO->getOpcode() == BO_PtrMemI ? 1 : 0;
        O["ptr"] = ex(BO->getRHS());
        O["args"] = args(C);
        return O;
      }
      O["k"] = "mcall";
      if (auto *M = C->getMethodDecl()) {
        calleeInfo(O, M);
        O["cls"] = qname(M->getParent());
        auto *ME = dyn_cast<MemberExpr>(Callee);
        if (M->isVirtual() && !(ME && ME->hasQualifier())) O["virt"] = 1;
        if (ME) { O["obj"] = ex(ME->getBase()); if (ME->isArrow()) O["arrow"] = 1; }
      }
      O["args"] = args(C);
      return O;
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *C = cast<CXXOperatorCallExpr>(E);
      auto *F = C->getDirectCallee();
      if (!F) break;
      O["op"] = getOperatorSpelling(C->getOperator());
      if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) {
        O["k"] = "mcall";
        calleeInfo(O, F);
        O["cls"] = qname(M->getParent());
        if (M->isVirtual()) O["virt"] = 1;
        O["obj"] = ex(C->getArg(0));
        O["args"] = args(C, 1);
      } else {
        O["k"] = "call";
        calleeInfo(O, F);
        O["args"] = args(C);
      }
      return O;
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *C = cast<CXXConstructExpr>(E);
      O["k"] = "ctor";
      calleeInfo(O, C->getConstructor());
      O["cls"] = qname(C->getConstructor()->getParent());
      if (C->getConstructor()->isCopyConstructor()) O["copy"] = 1;
      if (C->getConstructor()->isMoveConstructor()) O["move"] = 1;
      if (C->getConstructor()->isDefaultConstructor()) O["deflt"] = 1;
      if (C->isElidable()) O["elide"] = 1;
      if (C->isStdInitListInitialization()) O["il"] = 1;
      if (C->requiresZeroInitialization()) O["zero"] = 1;
      Array A;
      for (auto *X : C->arguments()) A.push_back(ex(X));
      O["args"] = std::move(A);
      return O;
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      auto *C = cast<CXXInheritedCtorInitExpr>(E);
      O["k"] = "ctor";
      calleeInfo(O, C->getConstructor());
      O["cls"] = qname(C->getConstructor()->getParent());
      O["inh"] = 1;
      O["args"] = Array();
      return O;
    }
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(E);
      O["k"] = "new";
      O["et"] = type(N->getAllocatedType());
      if (N->isArray() && N->getArraySize()) O["n"] = ex(*N->getArraySize());
      if (N->hasInitializer()) O["init"] = ex(N->getInitializer());
      if (N->getNumPlacementArgs()) { Array A; for (unsigned I = 0; I < N->getNumPlacementArgs(); ++I) A.push_back(ex(N->getPlacementArg(I))); O["place"] = std::move(A); }
      return O;
    }
    case Stmt::CXXDeleteExprClass: {
      auto *D = cast<CXXDeleteExpr>(E);
      O["k"] = "delete";
      O["arr"] = D->isArrayForm() ? 1 : 0;
      O["et"] = type(D->getDestroyedType());
      O["e"] = ex(D->getArgument());
      return O;
    }
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) O["post"] = 1;
      if (U->getOpcode() == UO_AddrOf) {
        if (auto *D = dyn_cast<DeclRefExpr>(U->getSubExpr()->IgnoreParens()))
          if (auto *M = dyn_cast<CXXMethodDecl>(D->getDecl()); M && !M->isStatic()) {
            O["k"] = "memfn"; calleeInfo(O, M); if (M->isVirtual()) O["virt"] = 1;
            O["cls"] = qname(M->getParent());
            return O;
          }
      }
      O["e"] = ex(U->getSubExpr());
      return O;
    }
    case Stmt::BinaryOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      O["k"] = "bin";
      O["op"] = B->getOpcodeStr().str();
      O["a"] = ex(B->getLHS());
      O["b"] = ex(B->getRHS());
      return O;
    }
    case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<CompoundAssignOperator>(E);
      O["k"] = "cassign";
      O["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(B->getOpcode())).str();
      O["a"] = ex(B->getLHS());
      O["b"] = ex(B->getRHS());
      O["ct"] = type(B->getComputationResultType());
      return O;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *C = cast<ConditionalOperator>(E);
      O["k"] = "cond";
      O["c"] = ex(C->getCond()); O["a"] = ex(C->getTrueExpr()); O["b"] = ex(C->getFalseExpr());
      return O;
    }
    case Stmt::BinaryConditionalOperatorClass: {
      auto *C = cast<BinaryConditionalOperator>(E);
      O["k"] = "elvis";
      O["a"] = ex(C->getCommon()); O["b"] = ex(C->getFalseExpr());
      return O;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto *A = cast<ArraySubscriptExpr>(E);
      O["k"] = "sub";
      O["b"] = ex(A->getBase()); O["i"] = ex(A->getIdx());
      return O;
    }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      auto *C = cast<CastExpr>(E);
      auto K = C->getCastKind();
      if (K == CK_ConstructorConversion || K == CK_UserDefinedConversion || K == CK_NoOp || K == CK_FunctionToPointerDecay || K == CK_BuiltinFnToFnPtr) {
        auto V = ex(C->getSubExpr());
        Object S = *V.getAsObject();
        if (K == CK_NoOp) S["t"] = type(E->getType());
        return S;
      }
      O["k"] = "cast";
      O["ck"] = C->getCastKindName();
      O["e"] = ex(C->getSubExpr());
      if (K == CK_DerivedToBase || K == CK_UncheckedDerivedToBase || K == CK_BaseToDerived) {
        Array P;
        for (auto *B : C->path()) P.push_back(type(B->getType()));
        O["path"] = std::move(P);
      }
      return O;
    }
    case Stmt::MaterializeTemporaryExprClass: {
      auto *M = cast<MaterializeTemporaryExpr>(E);
      O["k"] = "mat";
      O["e"] = ex(M->getSubExpr());
      if (M->getExtendingDecl()) O["ext"] = 1;
      return O;
    }
    case Stmt::CXXBindTemporaryExprClass: { auto V = ex(cast<CXXBindTemporaryExpr>(E)->getSubExpr()); return *V.getAsObject(); }
    case Stmt::ExprWithCleanupsClass: O["k"] = "clean"; O["e"] = ex(cast<ExprWithCleanups>(E)->getSubExpr()); return O;
    case Stmt::CXXStdInitializerListExprClass: O["k"] = "stdil"; O["e"] = ex(cast<CXXStdInitializerListExpr>(E)->getSubExpr()); return O;
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(E);
      if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
      O["k"] = "ilist";
      Array A;
      for (auto *X : I->inits()) A.push_back(ex(X));
      O["e"] = std::move(A);
      if (I->hasArrayFiller()) O["fill"] = 1;
      if (auto *RT = E->getType()->getAs<RecordType>()) {
        Array FN;
        if (auto *CR = dyn_cast<CXXRecordDecl>(RT->getDecl()))
          for (auto &B : CR->bases()) FN.push_back(Object{{"base", type(B.getType())}});
        for (auto *F : RT->getDecl()->fields()) FN.push_back(Object{{"f", F->getNameAsString()}, {"cls", qname(F->getParent())}, {"t", type(F->getType())}});
        O["fields"] = std::move(FN);
      }
      return O;
    }
    case Stmt::CXXParenListInitExprClass: O["k"] = "unsup"; O["c"] = "CXXParenListInit"; return O;
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: O["k"] = "zero"; return O;
    case Stmt::UnaryExprOrTypeTraitExprClass: O["k"] = "int"; return O;
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E);
      O["k"] = "lambda";
      O["key"] = lambdaKey(L->getLambdaClass());
      Array Caps;
      auto InitIt = L->capture_init_begin();
      for (auto &C : L->captures()) {
        Object CO;
        if (C.capturesThis()) { CO["v"] = "this"; if (C.getCaptureKind() == LCK_StarThis) CO["copy"] = 1; }
        else if (C.capturesVariable()) {
          auto *V = C.getCapturedVar();
          CO["v"] = varId(V);
          CO["byref"] = C.getCaptureKind() == LCK_ByRef ? 1 : 0;
          CO["t"] = type(V->getType());
          if (*InitIt) CO["init"] = ex(*InitIt);
        }
        Caps.push_back(std::move(CO));
        ++InitIt;
      }
      O["caps"] = std::move(Caps);
      auto *Op = L->getCallOperator();
      Array Ks;
      if (auto *FT = Op->getDescribedFunctionTemplate()) {
        for (auto *S : FT->specializations()) Ks.push_back(fixUtf8(keyOf(S)));
      } else Ks.push_back(fixUtf8(keyOf(Op)));
      O["ops"] = std::move(Ks);
      return O;
    }
    case Stmt::CXXThrowExprClass: {
      auto *T = cast<CXXThrowExpr>(E);
      O["k"] = "throw";
      if (T->getSubExpr()) { O["e"] = ex(T->getSubExpr()); O["tt"] = type(T->getSubExpr()->getType()); }
      return O;
    }
    case Stmt::StmtExprClass: O["k"] = "stmtexpr"; O["s"] = st(cast<StmtExpr>(E)->getSubStmt()); return O;
    case Stmt::CXXPseudoDestructorExprClass: O["k"] = "nop"; return O;
    default: break;
    }
    O["k"] = "unsup";
    O["c"] = E->getStmtClassName();
    return O;
  }

  Object varDecl(const VarDecl *V) {
    Object D;
    D["id"] = varId(V);
    D["n"] = fixUtf8(V->getNameAsString());
    D["t"] = type(V->getType());
    if (V->isStaticLocal()) D["static"] = 1;
    if (V->getInit()) D["init"] = ex(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (auto *BD : DD->bindings()) {
        Object X{{"id", varId(BD)}, {"n", BD->getNameAsString()}};
        if (BD->getBinding()) X["b"] = ex(BD->getBinding());
        if (auto *HV = BD->getHoldingVar()) X["hold"] = varDecl(HV);
        B.push_back(std::move(X));
      }
      D["bind"] = std::move(B);
    }
    D["l"] = (int64_t)lineOf(V->getLocation());
    return D;
  }

  Value st(const Stmt *S) {
    if (!S) return nullptr;
    Object O;
    O["l"] = (int64_t)lineOf(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) { O["k"] = "expr"; O["e"] = ex(E); return O; }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      O["k"] = "block"; Array A;
      for (auto *X : cast<CompoundStmt>(S)->body()) A.push_back(st(X));
      O["s"] = std::move(A);
      O["el"] = (int64_t)lineOf(S->getEndLoc());
      return O;
    }
    case Stmt::DeclStmtClass: {
      O["k"] = "decl"; Array A;
      for (auto *D : cast<DeclStmt>(S)->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["v"] = std::move(A); return O;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      if (auto CE = I->isConstexpr() ? I->getNondiscardedCase(Ctx) : std::nullopt) {
        if (*CE) return st(*CE);
        O["k"] = "nop"; return O;
      }
      O["k"] = "if";
      if (I->getInit()) O["init"] = st(I->getInit());
      if (I->getConditionVariableDeclStmt()) O["cv"] = st(I->getConditionVariableDeclStmt());
      O["c"] = ex(I->getCond()); O["a"] = st(I->getThen()); O["b"] = st(I->getElse());
      return O;
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S); O["k"] = "while";
      if (W->getConditionVariableDeclStmt()) O["cv"] = st(W->getConditionVariableDeclStmt());
      O["c"] = ex(W->getCond()); O["s"] = st(W->getBody()); return O;
    }
    case Stmt::DoStmtClass: { auto *W = cast<DoStmt>(S); O["k"] = "do"; O["c"] = ex(W->getCond()); O["s"] = st(W->getBody()); return O; }
    case Stmt::ForStmtClass: {
      auto *W = cast<ForStmt>(S); O["k"] = "for";
      O["init"] = st(W->getInit());
      if (W->getConditionVariableDeclStmt()) O["cv"] = st(W->getConditionVariableDeclStmt());
      O["c"] = ex(W->getCond()); O["inc"] = ex(W->getInc()); O["s"] = st(W->getBody()); return O;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *W = cast<CXXForRangeStmt>(S); O["k"] = "range";
      if (W->getInit()) O["init"] = st(W->getInit());
      O["range"] = ex(W->getRangeInit());
      O["var"] = varDecl(W->getLoopVariable());
      O["s"] = st(W->getBody()); return O;
    }
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S); O["k"] = "switch";
      if (W->getInit()) O["init"] = st(W->getInit());
      if (W->getConditionVariableDeclStmt()) O["cv"] = st(W->getConditionVariableDeclStmt());
      O["c"] = ex(W->getCond()); O["s"] = st(W->getBody()); return O;
    }
    case Stmt::CaseStmtClass: {
      auto *C = cast<CaseStmt>(S); O["k"] = "case"; O["v"] = ex(C->getLHS()); if (C->getRHS()) O["hi"] = ex(C->getRHS());
      O["s"] = st(C->getSubStmt()); return O;
    }
    case Stmt::DefaultStmtClass: O["k"] = "default"; O["s"] = st(cast<DefaultStmt>(S)->getSubStmt()); return O;
    case Stmt::BreakStmtClass: O["k"] = "break"; return O;
    case Stmt::ContinueStmtClass: O["k"] = "continue"; return O;
    case Stmt::ReturnStmtClass: O["k"] = "ret"; O["e"] = ex(cast<ReturnStmt>(S)->getRetValue()); return O;
    case Stmt::NullStmtClass: O["k"] = "nop"; return O;
    case Stmt::AttributedStmtClass: return st(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: O["k"] = "label"; O["n"] = cast<LabelStmt>(S)->getDecl()->getNameAsString(); O["s"] = st(cast<LabelStmt>(S)->getSubStmt()); return O;
    case Stmt::GotoStmtClass: O["k"] = "goto"; O["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString(); return O;
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S); O["k"] = "try"; O["s"] = st(T->getTryBlock());
      Array H;
      for (unsigned I = 0; I < T->getNumHandlers(); ++I) {
        auto *C = T->getHandler(I); Object HO;
        if (C->getExceptionDecl()) { HO["v"] = varDecl(C->getExceptionDecl()); HO["t"] = type(C->getCaughtType()); }
        HO["s"] = st(C->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H); return O;
    }
    default: break;
    }
    O["k"] = "unsup"; O["c"] = S->getStmtClassName();
    return O;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !inRoot(F->getLocation())) return true;
    if (F->isTemplated()) return true;
    bool Def = F->doesThisDeclarationHaveABody() && F->getBody();
    bool Declared = F->isDefaulted() || F->isDeleted() || F->isPureVirtual();
    if (!Def && !Declared) return true;
    std::string K = fixUtf8(keyOf(F));
    if (Functions.get(K)) return true;
    Object O;
    O["q"] = qname(F);
    O["n"] = fixUtf8(F->getNameAsString());
    std::string File = fileOf(F->getLocation());
    O["file"] = File.substr(gRoot.size());
    O["line"] = (int64_t)lineOf(F->getBeginLoc());
    O["el"] = (int64_t)lineOf(F->getEndLoc());
    O["ret"] = type(F->getReturnType());
    if (F->isDefaulted()) O["defaulted"] = 1;
    if (F->isDeleted()) O["deleted"] = 1;
    if (F->isPureVirtual()) O["pure"] = 1;
    if (F->isImplicit()) O["implicit"] = 1;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) O["noexcept"] = 1;
    Array Ps;
    for (auto *P : F->parameters()) Ps.push_back(Object{{"id", varId(P)}, {"n", fixUtf8(P->getNameAsString())}, {"t", type(P->getType())}});
    O["params"] = std::move(Ps);
    const char *Kind = "func";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      Kind = "method";
      O["cls"] = qname(M->getParent());
      if (M->getParent()->isLambda()) { Kind = "lambda"; }
      if (M->isStatic()) O["static"] = 1;
      if (M->isConst()) O["const"] = 1;
      if (M->isVirtual()) O["virt"] = 1;
      switch (M->getAccess()) { case AS_public: O["acc"] = "public"; break; case AS_protected: O["acc"] = "protected"; break; default: O["acc"] = "private"; }
      if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
        Kind = "ctor";
        if (C->isCopyConstructor()) O["copy"] = 1;
        if (C->isMoveConstructor()) O["move"] = 1;
        if (C->isDefaultConstructor()) O["deflt"] = 1;
        if (Def) {
          Array In;
          for (auto *I : C->inits()) {
            Object IO;
            if (I->isBaseInitializer()) { IO["base"] = type(QualType(I->getBaseClass(), 0)); }
            else if (I->isDelegatingInitializer()) IO["deleg"] = 1;
            else if (I->isAnyMemberInitializer()) { IO["f"] = fixUtf8(I->getAnyMember()->getNameAsString()); IO["cls"] = qname(cast<RecordDecl>(I->getAnyMember()->getDeclContext())); IO["t"] = type(I->getAnyMember()->getType()); }
            IO["e"] = ex(I->getInit());
            IO["l"] = (int64_t)lineOf(I->getSourceLocation());
            In.push_back(std::move(IO));
          }
          O["inits"] = std::move(In);
        }
      } else if (isa<CXXDestructorDecl>(F)) Kind = "dtor";
      else if (isa<CXXConversionDecl>(F)) Kind = "conv";
      else if (M->isCopyAssignmentOperator()) O["cassign"] = 1;
      else if (M->isMoveAssignmentOperator()) O["massign"] = 1;
      Array Ov;
      for (auto *X : M->overridden_methods()) Ov.push_back(fixUtf8(keyOf(X)));
      O["over"] = std::move(Ov);
    } else {
      if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace()) O["static"] = 1;
    }
    O["kind"] = Kind;
    if (Def) O["body"] = st(F->getBody());
    Functions[K] = std::move(O);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !inRoot(R->getLocation())) return true;
    Object O;
    O["q"] = qname(R);
    std::string File = fileOf(R->getLocation());
    O["file"] = File.substr(gRoot.size());
    O["line"] = (int64_t)lineOf(R->getLocation());
    Array Fs, Bs, Ms;
    for (auto *F : R->fields()) {
      Object FO{{"n", F->getNameAsString()}, {"t", type(F->getType())}, {"l", (int64_t)lineOf(F->getLocation())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = ex(F->getInClassInitializer());
      if (F->isMutable()) FO["mutable"] = 1;
      Fs.push_back(std::move(FO));
    }
    for (auto &B : R->bases()) Bs.push_back(Object{{"q", B.getType()->getAsCXXRecordDecl() ? qname(B.getType()->getAsCXXRecordDecl()) : std::string("?")}, {"acc", (int)B.getAccessSpecifier()}});
    auto addM = [&](const CXXMethodDecl *M) {
      Object MO{{"key", fixUtf8(keyOf(M))}, {"n", fixUtf8(M->getNameAsString())}, {"np", (int64_t)M->getNumParams()}};
      if (M->isVirtual()) MO["virt"] = 1;
      if (M->isPureVirtual()) MO["pure"] = 1;
      if (M->isStatic()) MO["static"] = 1;
      if (M->isConst()) MO["const"] = 1;
      if (M->isDefaulted()) MO["defaulted"] = 1;
      if (M->isDeleted()) MO["deleted"] = 1;
      if (M->isImplicit()) MO["implicit"] = 1;
      MO["ret"] = type(M->getReturnType());
      Array PT; for (auto *P : M->parameters()) PT.push_back(type(P->getType()));
      MO["pt"] = std::move(PT);
      MO["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      const char *K = "method";
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) { K = "ctor"; if (C->isCopyConstructor()) MO["copy"] = 1; if (C->isMoveConstructor()) MO["move"] = 1; }
      else if (isa<CXXDestructorDecl>(M)) K = "dtor";
      else if (isa<CXXConversionDecl>(M)) K = "conv";
      else if (M->isCopyAssignmentOperator()) MO["cassign"] = 1;
      else if (M->isMoveAssignmentOperator()) MO["massign"] = 1;
      MO["kind"] = K;
      Array Ov;
      for (auto *X : M->overridden_methods()) Ov.push_back(fixUtf8(keyOf(X)));
      MO["over"] = std::move(Ov);
      Ms.push_back(std::move(MO));
    };
    for (auto *M : R->methods()) addM(M);
    O["fields"] = std::move(Fs); O["bases"] = std::move(Bs); O["methods"] = std::move(Ms);
    if (R->isAbstract()) O["abstract"] = 1;
    if (R->needsImplicitDestructor() || (R->getDestructor() && R->getDestructor()->isImplicit())) O["impldtor"] = 1;
    if (R->needsImplicitCopyConstructor()) O["implcopy"] = 1;
    if (R->needsImplicitMoveConstructor()) O["implmove"] = 1;
    Records[qname(R)] = std::move(O);
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->getDeclContext()->isDependentContext() || !inRoot(V->getLocation())) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !V->isStaticDataMember()) return true;
    Object O;
    O["q"] = qname(V);
    O["t"] = type(V->getType());
    QualType B = Ctx.getBaseElementType(V->getType());
    O["const"] = (B.isConstQualified() || V->isConstexpr() || V->getType()->isReferenceType()) ? 1 : 0;
    if (V->getType()->isPointerType()) O["ptrconst"] = V->getType()->getPointeeType().isConstQualified() ? 1 : 0;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = 1;
    if (V->isStaticLocal()) O["local"] = 1;
    std::string File = fileOf(V->getLocation());
    O["file"] = File.substr(gRoot.size());
    O["line"] = (int64_t)lineOf(V->getLocation());
    if (V->getInit()) O["init"] = ex(V->getInit());
    if (V->getType()->isIntegralOrEnumerationType() && V->getInit() && V->getType().isConstQualified()) {
      if (auto *AP = V->evaluateValue()) if (AP->isInt()) O["cv"] = AP->getInt().getExtValue();
    }
    Globals[varId(V)] = std::move(O);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!inRoot(D->getLocation())) return true;
    Object O; O["q"] = qname(D); Array A;
    for (auto *C : D->enumerators()) A.push_back(Object{{"n", C->getNameAsString()}, {"v", C->getInitVal().getExtValue()}});
    O["c"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "cxxfacts: errors in translation unit\n"; Failed = true; return; }
    Exporter X(C);
    X.TraverseDecl(C.getTranslationUnitDecl());
    Object O;
    O["functions"] = std::move(X.Functions);
    O["records"] = std::move(X.Records);
    O["globals"] = std::move(X.Globals);
    O["enums"] = std::move(X.Enums);
    O["types"] = std::move(X.Types);
    std::error_code EC;
    llvm::raw_fd_ostream OS(gOut, EC);
    if (EC) { llvm::errs() << EC.message() << "\n"; Failed = true; return; }
    OS << Value(std::move(O)) << "\n";
  }
  static bool Failed;
};
bool Consumer::Failed = false;

class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
}  // namespace

int main(int argc, const char **argv) {
  std::vector<std::string> Args;
  std::string Src;
  bool After = false;
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    if (After) Args.push_back(A);
    else if (A == "--") After = true;
    else if (A.rfind("--root=", 0) == 0) gRoot = A.substr(7);
    else if (A.rfind("--out=", 0) == 0) gOut = A.substr(6);
    else Src = A;
  }
  if (!gRoot.empty() && gRoot.back() != '/') gRoot += '/';
  Args.push_back("-fsyntax-only");
  Args.push_back(Src);
  std::vector<std::string> Cmd{"clang++"};
  Cmd.insert(Cmd.end(), Args.begin(), Args.end());
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(Cmd, std::make_unique<Action>(), FM.get());
  bool Ok = Inv.run();
  return Ok && !Consumer::Failed ? 0 : 1;
}
