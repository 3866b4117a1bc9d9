// hxdump: a clang plugin that serialises the resolved AST of the project's own functions, records,
// enums and namespace-scope variables to compact JSON.  It makes no decision; all rules live in the
// Python modules next to it.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C;
  SourceManager &SM;
  std::string Root;
  PrintingPolicy PP;
  json::Array Functions, Records, Enums, Vars;
  std::set<const void *> SeenFn, SeenRec, SeenEnum, SeenVar;
  std::map<const Decl *, int> Ids;
  std::map<std::string, int> TypeIds;
  json::Array Types;

  Dumper(ASTContext &C, std::string Root)
      : C(C), SM(C.getSourceManager()), Root(std::move(Root)), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end())
      return It->second;
    int N = (int)Ids.size() + 1;
    Ids[D] = N;
    return N;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid())
      return "";
    return SM.getFilename(L).str();
  }
  bool inRoot(SourceLocation L) {
    std::string F = fileOf(L);
    return F.rfind(Root, 0) == 0;
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L);
  }
  std::string typeStr(QualType T) {
    if (T.isNull())
      return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  int ty(QualType T) {
    std::string S = typeStr(T);
    auto It = TypeIds.find(S);
    if (It != TypeIds.end())
      return It->second;
    int N = (int)Types.size();
    TypeIds[S] = N;
    Types.push_back(S);
    return N;
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string fkey(const FunctionDecl *F) {
    std::string S = qn(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      S += "<";
      for (unsigned i = 0; i < TA->size(); i++) {
        if (i)
          S += ",";
        S += targ(TA->get(i));
      }
      S += ">";
    }
    S += "(";
    for (unsigned i = 0; i < F->getNumParams(); i++) {
      if (i)
        S += ",";
      S += typeStr(F->getParamDecl(i)->getType());
    }
    S += ")";
    return S;
  }
  std::string targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      return typeStr(A.getAsType());
    case TemplateArgument::Integral: {
      llvm::SmallString<16> Sx;
      A.getAsIntegral().toString(Sx, 10);
      return Sx.str().str();
    }
    default: {
      std::string S;
      llvm::raw_string_ostream OS(S);
      A.print(PP, OS, true);
      return OS.str();
    }
    }
  }
  json::Array targs(const FunctionDecl *F) {
    json::Array R;
    if (auto *TA = F->getTemplateSpecializationArgs())
      for (unsigned i = 0; i < TA->size(); i++)
        R.push_back(targ(TA->get(i)));
    return R;
  }

  void constVal(const Expr *E, json::Object &O) {
    if (E->isValueDependent() || E->isTypeDependent())
      return;
    QualType T = E->getType();
    if (T.isNull())
      return;
    if (T->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
        llvm::SmallString<24> Sx;
        R.Val.getInt().toString(Sx, 10);
        long long V = 0;
        if (!llvm::StringRef(Sx).getAsInteger(10, V))
          O["cv"] = V;
        else
          O["cvs"] = Sx.str().str();
      }
    } else if (T->isRealFloatingType()) {
      llvm::APFloat F(0.0);
      if (E->EvaluateAsFloat(F, C, Expr::SE_NoSideEffects)) {
        bool li;
        F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        double D = F.convertToDouble();
        if (std::isfinite(D))
          O["cv"] = D;
      }
    }
  }

  json::Value expr(const Expr *E) {
    if (!E)
      return nullptr;
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = X->getSemanticForm(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_IntegralCast:
        case CK_IntegralToFloating:
        case CK_FloatingToIntegral:
        case CK_FloatingCast:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
          break;
        default:
          E = X->getSubExpr();
          continue;
        }
      }
      break;
    }
    json::Object O;
    O["l"] = line(E->getExprLoc());
    O["t"] = ty(E->getType());
    auto kids = [&](auto Range) {
      json::Array A;
      for (auto *S : Range)
        A.push_back(node(S));
      return A;
    };
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "lit"; constVal(E, O);
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "lit"; O["cv"] = X->getValueAsApproximateDouble();
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "lit"; O["cv"] = X->getValue() ? 1 : 0; O["b"] = true;
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "lit"; O["cv"] = (int64_t)X->getValue();
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      O["k"] = "str";
      std::string S = X->getCharByteWidth() == 1 ? X->getString().str() : std::string("?");
      O["v"] = json::fixUTF8(S);
    } else if (isa<CXXNullPtrLiteralExpr>(E)) {
      O["k"] = "null";
    } else if (isa<CXXThisExpr>(E)) {
      O["k"] = "this";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      O["k"] = "ref"; O["n"] = qn(D); O["id"] = id(D);
      if (auto *P = dyn_cast<ParmVarDecl>(D)) { (void)P; O["dk"] = "parm"; }
      else if (auto *V = dyn_cast<VarDecl>(D)) O["dk"] = V->isLocalVarDecl() ? (V->isStaticLocal() ? "slocal" : "local") : "global";
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "func"; O["fk"] = fkey(F); }
      else if (isa<EnumConstantDecl>(D)) O["dk"] = "enumc";
      else O["dk"] = "other";
      constVal(E, O);
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      O["k"] = "mem"; O["n"] = X->getMemberDecl()->getNameAsString(); O["q"] = qn(X->getMemberDecl());
      O["a"] = json::Array{expr(X->getBase())};
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) O["fk"] = fkey(F);
      constVal(E, O);
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "opcall"; O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { O["f"] = qn(F); O["fk"] = fkey(F); }
      O["a"] = kids(X->arguments());
      constVal(E, O);
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "mcall";
      if (auto *F = X->getMethodDecl()) { O["f"] = qn(F); O["fk"] = fkey(F); O["m"] = F->getNameAsString(); O["ta"] = targs(F); O["cm"] = F->isConst(); }
      O["o"] = expr(X->getImplicitObjectArgument());
      O["a"] = kids(X->arguments());
      constVal(E, O);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = X->getDirectCallee()) {
        O["f"] = qn(F); O["fk"] = fkey(F); O["ta"] = targs(F);
      } else O["fe"] = expr(X->getCallee());
      O["a"] = kids(X->arguments());
      constVal(E, O);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *CD = X->getConstructor();
      if (CD->isCopyOrMoveConstructor() && X->getNumArgs() >= 1) {
        O["k"] = "copy"; O["mv"] = CD->isMoveConstructor();
      } else { O["k"] = "ctor"; O["f"] = qn(CD->getParent()); O["fk"] = fkey(CD); O["li"] = X->isListInitialization(); if (X->requiresZeroInitialization()) O["zi"] = true; }
      O["a"] = kids(X->arguments());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = "bin"; O["op"] = X->getOpcodeStr().str();
      O["a"] = json::Array{expr(X->getLHS()), expr(X->getRHS())};
      if (!X->isAssignmentOp()) constVal(E, O);
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["a"] = json::Array{expr(X->getSubExpr())};
      constVal(E, O);
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      O["k"] = "cond";
      O["a"] = json::Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())};
      constVal(E, O);
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "cast"; O["ck"] = X->getCastKindName(); O["ex"] = isa<ExplicitCastExpr>(X);
      O["a"] = json::Array{expr(X->getSubExpr())};
      constVal(E, O);
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      O["k"] = "idx"; O["a"] = json::Array{expr(X->getBase()), expr(X->getIdx())};
      constVal(E, O);
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *I = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      O["k"] = "ilist"; O["a"] = kids(I->inits());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda";
      json::Array Ps;
      for (auto *P : X->getCallOperator()->parameters()) Ps.push_back(param(P));
      O["params"] = std::move(Ps);
      json::Array Cs;
      for (auto &Cp : X->captures())
        if (Cp.capturesVariable()) Cs.push_back(json::Object{{"id", id(Cp.getCapturedVar())}, {"n", Cp.getCapturedVar()->getNameAsString()}, {"ref", Cp.getCaptureKind() == LCK_ByRef}});
      O["caps"] = std::move(Cs);
      O["fk"] = fkey(X->getCallOperator());
      O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) {
      O["k"] = "lit"; O["cv"] = 0;
    } else if (isa<ImplicitValueInitExpr>(E)) {
      O["k"] = "lit"; O["cv"] = 0;
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      O["k"] = "throw"; O["a"] = json::Array{expr(X->getSubExpr())};
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      O["k"] = "sizeof"; constVal(E, O);
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "new"; O["a"] = json::Array{X->isArray() && X->getArraySize() ? expr(*X->getArraySize()) : json::Value(nullptr), expr(X->getInitializer())};
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      O["k"] = "delete"; O["a"] = json::Array{expr(X->getArgument())};
    } else {
      O["k"] = "other"; O["cls"] = E->getStmtClassName();
      json::Array A;
      for (auto *S : const_cast<Expr *>(E)->children()) A.push_back(S ? node(S) : json::Value(nullptr));
      O["a"] = std::move(A);
      constVal(E, O);
    }
    return json::Value(std::move(O));
  }

  json::Value node(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    return stmt(S);
  }

  json::Object param(const ParmVarDecl *P) {
    return json::Object{{"n", P->getNameAsString()}, {"id", id(P)}, {"t", ty(P->getType())}};
  }

  json::Object var(const VarDecl *V) {
    json::Object O{{"n", V->getNameAsString()}, {"id", id(V)}, {"t", ty(V->getType())}, {"l", line(V->getLocation())}};
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->isConstexpr()) O["cx"] = true;
    if (V->getType().isConstQualified()) O["const"] = true;
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *Bd : D->bindings()) B.push_back(json::Object{{"n", Bd->getNameAsString()}, {"id", id(Bd)}, {"b", Bd->getBinding() ? expr(Bd->getBinding()) : json::Value(nullptr)}});
      O["bind"] = std::move(B);
    }
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    json::Object O;
    O["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "blk";
      json::Array A;
      for (auto *T : X->body()) A.push_back(stmt(T));
      O["s"] = std::move(A); O["le"] = line(X->getEndLoc());
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "decl";
      json::Array A;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
      O["vars"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      O["k"] = "if";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cvar"] = var(X->getConditionVariable());
      O["c"] = expr(X->getCond()); O["th"] = stmt(X->getThen()); O["el"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "for"; O["init"] = stmt(X->getInit()); O["c"] = expr(X->getCond()); O["inc"] = expr(X->getInc()); O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "while"; O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      O["k"] = "do"; O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "rfor"; O["var"] = var(X->getLoopVariable()); O["range"] = expr(X->getRangeInit()); O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "ret"; O["a"] = json::Array{expr(X->getRetValue())};
    } else if (isa<BreakStmt>(S)) O["k"] = "break";
    else if (isa<ContinueStmt>(S)) O["k"] = "cont";
    else if (isa<NullStmt>(S)) O["k"] = "nop";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "switch";
      if (X->getInit()) O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond()); O["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "case"; O["v"] = expr(X->getLHS()); O["sub"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "default"; O["sub"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "try"; O["body"] = stmt(X->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *Hd = X->getHandler(i);
        H.push_back(json::Object{{"t", Hd->getCaughtType().isNull() ? json::Value("...") : json::Value(typeStr(Hd->getCaughtType()))}, {"body", stmt(Hd->getHandlerBlock())}});
      }
      O["h"] = std::move(H);
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else {
      O["k"] = "ostmt"; O["cls"] = S->getStmtClassName();
      json::Array A;
      for (auto *T : const_cast<Stmt *>(S)->children()) A.push_back(T ? node(T) : json::Value(nullptr));
      O["a"] = std::move(A);
    }
    return json::Value(std::move(O));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (F->isImplicit() || F->isDefaulted()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (!SeenFn.insert(F).second) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    json::Object O;
    O["q"] = qn(F); O["fk"] = fkey(F); O["n"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation()); O["line"] = line(F->getLocation());
    O["ret"] = ty(F->getReturnType()); O["ta"] = targs(F);
    O["inst"] = F->isTemplateInstantiation();
    json::Array Ps;
    for (auto *P : F->parameters()) Ps.push_back(param(P));
    O["params"] = std::move(Ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cls"] = qn(M->getParent()); O["static"] = M->isStatic(); O["const"] = M->isConst(); O["access"] = (int)M->getAccess(); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      json::Array I;
      for (auto *In : K->inits())
        if (In->isMemberInitializer())
          I.push_back(json::Object{{"f", In->getMember()->getNameAsString()}, {"e", expr(In->getInit())}, {"w", In->isWritten()}});
      O["inits"] = std::move(I);
    }
    O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isLambda() || R->isDependentContext()) return true;
    if (!inRoot(R->getLocation()) || !SeenRec.insert(R).second) return true;
    json::Object O{{"q", qn(R)}, {"file", fileOf(R->getLocation())}, {"line", line(R->getLocation())}};
    json::Array Fs, Ms;
    for (auto *F : R->fields()) {
      json::Object FO{{"n", F->getNameAsString()}, {"t", ty(F->getType())}, {"l", line(F->getLocation())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    for (auto *M : R->methods())
      if (!M->isImplicit()) Ms.push_back(json::Object{{"n", M->getNameAsString()}, {"fk", fkey(M)}, {"ret", ty(M->getReturnType())}, {"access", (int)M->getAccess()}, {"static", M->isStatic()}});
    O["fields"] = std::move(Fs); O["methods"] = std::move(Ms);
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation()) || !SeenEnum.insert(E).second) return true;
    json::Array A;
    for (auto *K : E->enumerators()) A.push_back(json::Object{{"n", K->getNameAsString()}, {"v", (int64_t)K->getInitVal().getExtValue()}});
    Enums.push_back(json::Object{{"q", qn(E)}, {"u", typeStr(E->getIntegerType())}, {"file", fileOf(E->getLocation())}, {"line", line(E->getLocation())}, {"e", std::move(A)}});
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDecl() || isa<ParmVarDecl>(V) || V->getDeclContext()->isDependentContext()) return true;
    if (!inRoot(V->getLocation()) || !V->hasGlobalStorage() || !SeenVar.insert(V).second) return true;
    if (V->isStaticLocal()) return true;
    json::Object O = var(V);
    O["q"] = qn(V); O["file"] = fileOf(V->getLocation());
    if (V->getInit() && !V->getInit()->isValueDependent()) {
      QualType T = V->getType();
      if (T->isIntegralOrEnumerationType() || T->isRealFloatingType()) {
        if (auto *AV = V->evaluateValue()) {
          if (AV->isInt()) O["cv"] = AV->getInt().getExtValue();
          else if (AV->isFloat()) { llvm::APFloat F = AV->getFloat(); bool li; F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); O["cv"] = F.convertToDouble(); }
        }
      }
    }
    Vars.push_back(std::move(O));
    return true;
  }
};

std::string OutFile, RootDir = "/repo/source/";

class Consumer : public ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C, RootDir);
    D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O{{"functions", std::move(D.Functions)}, {"records", std::move(D.Records)}, {"enums", std::move(D.Enums)}, {"vars", std::move(D.Vars)}, {"types", std::move(D.Types)}, {"errors", (int)C.getDiagnostics().getClient()->getNumErrors()}};
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << json::Value(std::move(O));
  }
};
class Action : public PluginASTAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &A) override {
    for (auto &S : A) {
      if (S.rfind("out=", 0) == 0) OutFile = S.substr(4);
      if (S.rfind("root=", 0) == 0) RootDir = S.substr(5);
    }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};
} // namespace
static FrontendPluginRegistry::Add<Action> X("hxdump", "dump project AST as JSON");
