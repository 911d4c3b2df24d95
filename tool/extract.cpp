// placo-extract: dumps the resolved, type-checked program (functions, records, enums) of the
// translation units it is given as JSON.  Nothing is executed; this is only clang's front end.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;  // path prefixes whose functions are dumped
static std::string OutPath;

struct Dumper
{
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  Array Types;
  std::map<const void*, int> TypeIds;
  std::map<const Decl*, int> DeclIds;
  std::set<std::string> DoneFunctions, DoneRecords, DoneEnums;
  std::set<std::string> Files;
  Object Functions, Records, Enums, Globals;

  Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressInlineNamespace = true;
    PP.TerseOutput = true;
    PP.Bool = true;
  }

  std::string fileOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid())
      return "";
    return P.getFilename();
  }
  int lineOf(SourceLocation L)
  {
    return SM.getExpansionLineNumber(L);
  }
  bool inRepo(SourceLocation L)
  {
    std::string F = fileOf(L);
    for (auto& R : Roots)
      if (F.rfind(R, 0) == 0)
        return true;
    return false;
  }
  std::string loc(SourceLocation L)
  {
    return fileOf(L) + ":" + std::to_string(lineOf(L));
  }
  int declId(const Decl* D)
  {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end())
      return it->second;
    int id = DeclIds.size() + 1;
    DeclIds[D] = id;
    return id;
  }

  static bool findEnum(const CXXRecordDecl* R, StringRef Name, long& Out, int depth = 0)
  {
    if (!R || depth > 12)
      return false;
    R = R->getDefinition();
    if (!R)
      return false;
    for (auto* D : R->decls())
      if (auto* E = dyn_cast<EnumDecl>(D))
        for (auto* K : E->enumerators())
          if (K->getName() == Name)
          {
            Out = K->getInitVal().getExtValue();
            return true;
          }
    for (auto& B : R->bases())
      if (findEnum(B.getType()->getAsCXXRecordDecl(), Name, Out, depth + 1))
        return true;
    return false;
  }

  std::string recName(const CXXRecordDecl* R)
  {
    std::string S;
    llvm::raw_string_ostream OS(S);
    R->printQualifiedName(OS, PP);
    return OS.str();
  }

  int typeId(QualType T)
  {
    if (T.isNull())
      return -1;
    T = T.getCanonicalType();
    auto key = T.getAsOpaquePtr();
    auto it = TypeIds.find(key);
    if (it != TypeIds.end())
      return it->second;
    int id = Types.size();
    Types.push_back(nullptr);
    TypeIds[key] = id;
    Object O;
    if (T->isReferenceType())
    {
      O["k"] = T->isRValueReferenceType() ? "rref" : "ref";
      O["t"] = typeId(T->getPointeeType());
    }
    else if (T->isPointerType())
    {
      O["k"] = "ptr";
      O["t"] = typeId(T->getPointeeType());
    }
    else if (auto* R = T->getAsCXXRecordDecl())
    {
      O["k"] = "rec";
      O["n"] = recName(R);
      if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(R))
      {
        Array A;
        for (auto& Arg : TS->getTemplateArgs().asArray())
        {
          if (Arg.getKind() == TemplateArgument::Type)
            A.push_back(typeId(Arg.getAsType()));
          else if (Arg.getKind() == TemplateArgument::Integral)
            A.push_back(Object{ { "v", Arg.getAsIntegral().getExtValue() } });
          else
            A.push_back(nullptr);
        }
        O["a"] = std::move(A);
      }
      if (T.isConstQualified())
        O["const"] = true;
      std::string N = recName(R);
      if (N.rfind("Eigen::", 0) == 0 && R->hasDefinition())
      {
        long r, c;
        if (findEnum(R, "RowsAtCompileTime", r) && findEnum(R, "ColsAtCompileTime", c))
        {
          O["rows"] = (int64_t)r;
          O["cols"] = (int64_t)c;
        }
      }
    }
    else if (auto* E = T->getAs<EnumType>())
    {
      O["k"] = "enum";
      O["n"] = E->getDecl()->getQualifiedNameAsString();
    }
    else if (T->isBooleanType())
      O["k"] = "bool";
    else if (T->isFloatingType())
      O["k"] = "float";
    else if (T->isIntegerType())
    {
      O["k"] = "int";
      O["s"] = T->isSignedIntegerType();
    }
    else if (T->isVoidType())
      O["k"] = "void";
    else if (auto* A = C.getAsConstantArrayType(T))
    {
      O["k"] = "array";
      O["t"] = typeId(A->getElementType());
      O["size"] = (int64_t)A->getSize().getZExtValue();
    }
    else
    {
      O["k"] = "other";
      O["n"] = T.getAsString(PP);
    }
    if (T.isConstQualified())
      O["const"] = true;
    Types[id] = std::move(O);
    return id;
  }

  std::string funcKey(const FunctionDecl* F)
  {
    std::string S;
    llvm::raw_string_ostream OS(S);
    F->getNameForDiagnostic(OS, PP, true);
    OS << "(";
    bool first = true;
    for (auto* P : F->parameters())
    {
      if (!first)
        OS << ", ";
      first = false;
      OS << shortType(P->getType());
    }
    OS << ")";
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst())
        OS << " const";
    return OS.str();
  }
  std::string shortType(QualType T)
  {
    T = T.getCanonicalType();
    std::string S;
    if (T->isReferenceType())
      return shortType(T->getPointeeType()) + (T->isRValueReferenceType() ? "&&" : "&");
    if (T->isPointerType())
      return shortType(T->getPointeeType()) + "*";
    if (T.isConstQualified())
      S = "const ";
    if (auto* R = T->getAsCXXRecordDecl())
    {
      std::string N = recName(R);
      if (N.rfind("std::basic_string", 0) == 0)
        return S + "string";
      if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(R))
      {
        if (N.rfind("Eigen::Matrix", 0) == 0 || N.rfind("Eigen::Transform", 0) == 0)
        {
          long r, c;
          std::string B = R->getName().str();
          if (B == "Matrix" && findEnum(R, "RowsAtCompileTime", r) && findEnum(R, "ColsAtCompileTime", c))
            return S + "Matrix<" + std::to_string(r) + "," + std::to_string(c) + ">";
          if (B == "Transform")
            return S + "Transform";
        }
        std::string A;
        int n = 0;
        for (auto& Arg : TS->getTemplateArgs().asArray())
        {
          if (Arg.getKind() == TemplateArgument::Type)
          {
            std::string X = shortType(Arg.getAsType());
            if (X.find("std::allocator") != std::string::npos || X.find("std::less") != std::string::npos)
              continue;
            if (n++)
              A += ",";
            A += X;
          }
        }
        return S + TS->getQualifiedNameAsString() + "<" + A + ">";
      }
      return S + N;
    }
    return S + T.getUnqualifiedType().getAsString(PP);
  }

  // ---------------------------------------------------------------- expressions
  Value expr(const Expr* E)
  {
    if (!E)
      return nullptr;
    // transparent wrappers
    for (;;)
    {
      if (auto* X = dyn_cast<ParenExpr>(E))
        E = X->getSubExpr();
      else if (auto* X = dyn_cast<ExprWithCleanups>(E))
        E = X->getSubExpr();
      else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E))
        E = X->getSubExpr();
      else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E))
        E = X->getSubExpr();
      else if (auto* X = dyn_cast<ConstantExpr>(E))
        E = X->getSubExpr();
      else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
        E = X->getReplacement();
      else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E))
        E = X->getExpr();
      else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E))
        E = X->getExpr();
      else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E))
        E = X->getSubExpr();
      else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E))
        E = X->getSemanticForm();
      else
        break;
    }
    Object O;
    O["l"] = lineOf(E->getExprLoc());
    O["t"] = typeId(E->getType());
    if (auto* X = dyn_cast<CastExpr>(E))
    {
      switch (X->getCastKind())
      {
        case CK_FloatingToIntegral:
          O["k"] = "f2i";
          O["e"] = expr(X->getSubExpr());
          return O;
        case CK_IntegralToFloating:
          O["k"] = "i2f";
          O["e"] = expr(X->getSubExpr());
          return O;
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
          O["k"] = "tobool";
          O["e"] = expr(X->getSubExpr());
          return O;
        case CK_Dynamic:
          O["k"] = "dyncast";
          O["e"] = expr(X->getSubExpr());
          return O;
        case CK_NullToPointer:
          O["k"] = "null";
          return O;
        case CK_ToVoid:
          O["k"] = "tovoid";
          O["e"] = expr(X->getSubExpr());
          return O;
        case CK_BaseToDerived:
          O["k"] = "downcast";
          O["e"] = expr(X->getSubExpr());
          return O;
        default:
          return expr(X->getSubExpr());
      }
    }
    if (auto* X = dyn_cast<IntegerLiteral>(E))
    {
      O["k"] = "int";
      O["v"] = (int64_t)X->getValue().getSExtValue();
    }
    else if (auto* X = dyn_cast<FloatingLiteral>(E))
    {
      O["k"] = "float";
      llvm::SmallString<40> S;
      X->getValue().toString(S);
      O["v"] = S.str().str();
    }
    else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E))
    {
      O["k"] = "bool";
      O["v"] = X->getValue();
    }
    else if (auto* X = dyn_cast<StringLiteral>(E))
    {
      O["k"] = "str";
      std::string S = X->getBytes().str();
      O["v"] = llvm::json::fixUTF8(S);
    }
    else if (auto* X = dyn_cast<CharacterLiteral>(E))
    {
      O["k"] = "int";
      O["v"] = (int64_t)X->getValue();
    }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
    {
      O["k"] = "null";
    }
    else if (isa<CXXThisExpr>(E))
    {
      O["k"] = "this";
    }
    else if (auto* X = dyn_cast<DeclRefExpr>(E))
    {
      const ValueDecl* D = X->getDecl();
      O["k"] = "ref";
      O["n"] = D->getNameAsString();
      if (auto* F = dyn_cast<FunctionDecl>(D))
      {
        O["d"] = "func";
        O["f"] = funcKey(F);
        O["q"] = F->getQualifiedNameAsString();
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
          O["method"] = !M->isStatic();
        O["rt"] = typeId(F->getReturnType());
      }
      else if (auto* K = dyn_cast<EnumConstantDecl>(D))
      {
        O["d"] = "enum";
        O["q"] = K->getQualifiedNameAsString();
        O["v"] = (int64_t)K->getInitVal().getExtValue();
      }
      else if (auto* P = dyn_cast<ParmVarDecl>(D))
      {
        O["d"] = "var";
        O["id"] = declId(P);
      }
      else if (auto* V = dyn_cast<VarDecl>(D))
      {
        if (V->hasGlobalStorage() && !V->isStaticLocal())
        {
          O["d"] = "global";
          O["q"] = V->getQualifiedNameAsString();
          if (V->getAnyInitializer() && inRepo(V->getLocation()))
            dumpGlobal(V);
        }
        else
        {
          O["d"] = "var";
          O["id"] = declId(V);
          if (V->isStaticLocal())
            O["static"] = true;
        }
      }
      else if (auto* B = dyn_cast<BindingDecl>(D))
      {
        if (B->getHoldingVar())
        {
          O["d"] = "var";
          O["id"] = declId(B->getHoldingVar());
        }
        else if (B->getBinding())
          return expr(B->getBinding());
        else
          O["d"] = "binding";
      }
      else if (auto* FD = dyn_cast<FieldDecl>(D))
      {
        O["d"] = "field";
        O["q"] = FD->getQualifiedNameAsString();
      }
      else
        O["d"] = "other";
    }
    else if (auto* X = dyn_cast<MemberExpr>(E))
    {
      if (auto* V = dyn_cast<VarDecl>(X->getMemberDecl()))
      {
        O["k"] = "ref";
        O["d"] = "global";
        O["q"] = V->getQualifiedNameAsString();
        O["n"] = V->getNameAsString();
      }
      else if (auto* F = dyn_cast<FunctionDecl>(X->getMemberDecl()))
      {
        O["k"] = "memfunc";
        O["f"] = funcKey(F);
        O["b"] = expr(X->getBase());
      }
      else
      {
        O["k"] = "mem";
        O["n"] = X->getMemberDecl()->getNameAsString();
        if (auto* FD = dyn_cast<FieldDecl>(X->getMemberDecl()))
          O["q"] = FD->getParent()->getQualifiedNameAsString();
        O["b"] = expr(X->getBase());
        if (X->isArrow())
          O["a"] = true;
      }
    }
    else if (auto* X = dyn_cast<CXXConstructExpr>(E))
    {
      auto* K = X->getConstructor();
      O["k"] = "ctor";
      O["c"] = recName(K->getParent());
      O["f"] = funcKey(K);
      if (K->isCopyOrMoveConstructor())
        O["copy"] = true;
      if (K->isDefaultConstructor())
        O["def"] = true;
      if (K->isExplicit())
        O["expl"] = true;
      if (X->isListInitialization())
        O["list"] = true;
      Array A, PT;
      for (unsigned i = 0; i < X->getNumArgs(); i++)
      {
        A.push_back(expr(X->getArg(i)));
        if (i < K->getNumParams())
          PT.push_back(typeId(K->getParamDecl(i)->getType()));
      }
      O["args"] = std::move(A);
      O["pt"] = std::move(PT);
    }
    else if (auto* X = dyn_cast<CallExpr>(E))
    {
      O["k"] = "call";
      const FunctionDecl* F = X->getDirectCallee();
      Array A, PT;
      unsigned start = 0;
      if (auto* OC = dyn_cast<CXXOperatorCallExpr>(X))
      {
        O["op"] = getOperatorSpelling(OC->getOperator());
        if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic())
        {
          O["obj"] = expr(X->getArg(0));
          start = 1;
        }
      }
      if (auto* MC = dyn_cast<CXXMemberCallExpr>(X))
      {
        O["obj"] = expr(MC->getImplicitObjectArgument());
        if (auto* ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens()))
          if (ME->isArrow())
            O["arrow"] = true;
      }
      if (F)
      {
        O["f"] = funcKey(F);
        O["q"] = F->getQualifiedNameAsString();
        O["n"] = F->getNameAsString();
        O["rt"] = typeId(F->getReturnType());
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
          O["m"] = true;
          if (M->isConst())
            O["mconst"] = true;
          if (M->isStatic())
            O["mstatic"] = true;
          if (M->isVirtual())
          {
            bool qual = false;
            if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
              qual = ME->hasQualifier();
            if (!qual)
              O["virt"] = true;
          }
          if (isa<CXXConversionDecl>(M))
            O["conv"] = true;
          O["c"] = recName(M->getParent());
        }
        if (auto* TA = F->getTemplateSpecializationArgs())
        {
          Array T;
          for (auto& Arg : TA->asArray())
          {
            if (Arg.getKind() == TemplateArgument::Type)
              T.push_back(typeId(Arg.getAsType()));
            else if (Arg.getKind() == TemplateArgument::Integral)
              T.push_back(Object{ { "v", Arg.getAsIntegral().getExtValue() } });
            else
              T.push_back(nullptr);
          }
          O["ta"] = std::move(T);
        }
      }
      else
        O["callee"] = expr(X->getCallee());
      for (unsigned i = start; i < X->getNumArgs(); i++)
      {
        A.push_back(expr(X->getArg(i)));
        if (F && i - start < F->getNumParams())
          PT.push_back(typeId(F->getParamDecl(i - start)->getType()));
      }
      O["args"] = std::move(A);
      O["pt"] = std::move(PT);
    }
    else if (auto* X = dyn_cast<UnaryOperator>(E))
    {
      O["k"] = "un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      if (X->isPostfix())
        O["post"] = true;
      O["e"] = expr(X->getSubExpr());
    }
    else if (auto* X = dyn_cast<BinaryOperator>(E))
    {
      O["k"] = X->isAssignmentOp() ? "asg" : "bin";
      O["op"] = X->getOpcodeStr();
      O["a"] = expr(X->getLHS());
      O["b"] = expr(X->getRHS());
    }
    else if (auto* X = dyn_cast<ConditionalOperator>(E))
    {
      O["k"] = "cond";
      O["c"] = expr(X->getCond());
      O["a"] = expr(X->getTrueExpr());
      O["b"] = expr(X->getFalseExpr());
    }
    else if (auto* X = dyn_cast<ArraySubscriptExpr>(E))
    {
      O["k"] = "sub";
      O["a"] = expr(X->getBase());
      O["b"] = expr(X->getIdx());
    }
    else if (auto* X = dyn_cast<CXXNewExpr>(E))
    {
      O["k"] = "new";
      O["ct"] = typeId(X->getAllocatedType());
      O["e"] = expr(X->getInitializer());
      if (X->isArray())
        O["arr"] = true;
    }
    else if (auto* X = dyn_cast<CXXDeleteExpr>(E))
    {
      O["k"] = "delete";
      O["e"] = expr(X->getArgument());
    }
    else if (auto* X = dyn_cast<CXXThrowExpr>(E))
    {
      O["k"] = "throw";
      O["e"] = expr(X->getSubExpr());
    }
    else if (auto* X = dyn_cast<LambdaExpr>(E))
    {
      O["k"] = "lambda";
      Array Ps;
      for (auto* P : X->getCallOperator()->parameters())
        Ps.push_back(param(P));
      O["params"] = std::move(Ps);
      Array Cs;
      auto init = X->capture_init_begin();
      for (auto& Cap : X->captures())
      {
        Object CO;
        if (Cap.capturesThis())
          CO["this"] = true;
        else if (Cap.capturesVariable())
        {
          CO["id"] = declId(Cap.getCapturedVar());
          CO["byref"] = Cap.getCaptureKind() == LCK_ByRef;
          if (auto* VD = dyn_cast<VarDecl>(Cap.getCapturedVar()))
            if (VD->isInitCapture())
              CO["init"] = expr(VD->getInit());
        }
        ++init;
        Cs.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cs);
      O["mut"] = X->isMutable();
      O["lrt"] = typeId(X->getCallOperator()->getReturnType());
      O["body"] = stmt(X->getBody());
    }
    else if (auto* X = dyn_cast<InitListExpr>(E))
    {
      O["k"] = "initlist";
      Array A;
      for (unsigned i = 0; i < X->getNumInits(); i++)
        A.push_back(expr(X->getInit(i)));
      O["args"] = std::move(A);
    }
    else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
    {
      O["k"] = "zero";
    }
    else if (auto* X = dyn_cast<CXXTypeidExpr>(E))
    {
      O["k"] = "typeid";
    }
    else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
    {
      Expr::EvalResult R;
      O["k"] = "int";
      if (X->EvaluateAsInt(R, C))
        O["v"] = (int64_t)R.Val.getInt().getExtValue();
      else
        O["v"] = 0;
      O["sizeof"] = true;
    }
    else if (auto* X = dyn_cast<ArrayInitLoopExpr>(E))
    {
      return expr(X->getCommonExpr()->getSourceExpr());
    }
    else if (auto* X = dyn_cast<OpaqueValueExpr>(E))
    {
      return expr(X->getSourceExpr());
    }
    else
    {
      O["k"] = "unk";
      O["n"] = E->getStmtClassName();
    }
    return O;
  }

  Value param(const ParmVarDecl* P)
  {
    Object O;
    O["n"] = P->getNameAsString();
    O["id"] = declId(P);
    O["t"] = typeId(P->getType());
    return O;
  }

  Value var(const VarDecl* V)
  {
    Object O;
    O["n"] = V->getNameAsString();
    O["id"] = declId(V);
    O["t"] = typeId(V->getType());
    O["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal())
      O["static"] = true;
    if (V->hasInit())
      O["init"] = expr(V->getInit());
    if (auto* DD = dyn_cast<DecompositionDecl>(V))
    {
      Array A;
      for (auto* B : DD->bindings())
      {
        Object BO;
        BO["n"] = B->getNameAsString();
        if (B->getHoldingVar())
        {
          BO["id"] = declId(B->getHoldingVar());
          BO["t"] = typeId(B->getHoldingVar()->getType());
          if (B->getHoldingVar()->hasInit())
            BO["init"] = expr(B->getHoldingVar()->getInit());
        }
        A.push_back(std::move(BO));
      }
      O["bindings"] = std::move(A);
    }
    return O;
  }

  // ---------------------------------------------------------------- statements
  Value stmt(const Stmt* S)
  {
    if (!S)
      return nullptr;
    if (auto* E = dyn_cast<Expr>(S))
    {
      Object O;
      O["k"] = "expr";
      O["l"] = lineOf(E->getExprLoc());
      O["e"] = expr(E);
      return O;
    }
    Object O;
    O["l"] = lineOf(S->getBeginLoc());
    if (auto* X = dyn_cast<CompoundStmt>(S))
    {
      O["k"] = "block";
      Array A;
      for (auto* B : X->body())
        A.push_back(stmt(B));
      O["b"] = std::move(A);
    }
    else if (auto* X = dyn_cast<DeclStmt>(S))
    {
      O["k"] = "decl";
      Array A;
      for (auto* D : X->decls())
        if (auto* V = dyn_cast<VarDecl>(D))
          A.push_back(var(V));
      O["v"] = std::move(A);
    }
    else if (auto* X = dyn_cast<IfStmt>(S))
    {
      O["k"] = "if";
      O["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt())
        O["cv"] = stmt(X->getConditionVariableDeclStmt());
      O["c"] = expr(X->getCond());
      O["a"] = stmt(X->getThen());
      O["b"] = stmt(X->getElse());
    }
    else if (auto* X = dyn_cast<ForStmt>(S))
    {
      O["k"] = "for";
      O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["body"] = stmt(X->getBody());
    }
    else if (auto* X = dyn_cast<WhileStmt>(S))
    {
      O["k"] = "while";
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
    }
    else if (auto* X = dyn_cast<DoStmt>(S))
    {
      O["k"] = "do";
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
    }
    else if (auto* X = dyn_cast<CXXForRangeStmt>(S))
    {
      O["k"] = "rangefor";
      O["v"] = var(X->getLoopVariable());
      O["range"] = expr(X->getRangeInit());
      O["body"] = stmt(X->getBody());
    }
    else if (auto* X = dyn_cast<ReturnStmt>(S))
    {
      O["k"] = "return";
      O["e"] = expr(X->getRetValue());
    }
    else if (isa<BreakStmt>(S))
      O["k"] = "break";
    else if (isa<ContinueStmt>(S))
      O["k"] = "continue";
    else if (isa<NullStmt>(S))
      O["k"] = "null";
    else if (auto* X = dyn_cast<SwitchStmt>(S))
    {
      O["k"] = "switch";
      O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["body"] = stmt(X->getBody());
    }
    else if (auto* X = dyn_cast<CaseStmt>(S))
    {
      O["k"] = "case";
      O["c"] = expr(X->getLHS());
      O["b"] = stmt(X->getSubStmt());
    }
    else if (auto* X = dyn_cast<DefaultStmt>(S))
    {
      O["k"] = "default";
      O["b"] = stmt(X->getSubStmt());
    }
    else if (auto* X = dyn_cast<CXXTryStmt>(S))
    {
      O["k"] = "try";
      O["b"] = stmt(X->getTryBlock());
      Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); i++)
      {
        Object H;
        auto* K = X->getHandler(i);
        if (K->getExceptionDecl())
        {
          H["t"] = typeId(K->getCaughtType());
          H["v"] = var(K->getExceptionDecl());
        }
        H["b"] = stmt(K->getHandlerBlock());
        A.push_back(std::move(H));
      }
      O["h"] = std::move(A);
    }
    else if (auto* X = dyn_cast<AttributedStmt>(S))
      return stmt(X->getSubStmt());
    else
    {
      O["k"] = "unk";
      O["n"] = S->getStmtClassName();
    }
    return O;
  }

  // ---------------------------------------------------------------- declarations
  void dumpGlobal(const VarDecl* V)
  {
    std::string Q = V->getQualifiedNameAsString();
    if (Globals.find(Q) != Globals.end())
      return;
    Globals[Q] = nullptr;
    Object O;
    O["t"] = typeId(V->getType());
    if (auto* I = V->getAnyInitializer())
      O["init"] = expr(I);
    O["loc"] = loc(V->getLocation());
    Globals[Q] = std::move(O);
  }

  void dumpFunction(const FunctionDecl* F)
  {
    if (!F->doesThisDeclarationHaveABody() && !(F->isDefaulted()))
      return;
    if (F->isDependentContext() || !inRepo(F->getLocation()))
      return;
    if (F->isImplicit())
      return;
    std::string K = funcKey(F);
    if (!DoneFunctions.insert(K).second)
      return;
    Object O;
    O["q"] = F->getQualifiedNameAsString();
    O["n"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation());
    O["line"] = lineOf(F->getLocation());
    O["rt"] = typeId(F->getReturnType());
    Array Ps;
    for (auto* P : F->parameters())
      Ps.push_back(param(P));
    O["params"] = std::move(Ps);
    if (F->isStatic())
      O["static"] = true;
    for (auto* A : F->redecls())
      for (auto* At : A->specific_attrs<AnnotateAttr>())
      {
        O["annot"] = At->getAnnotation().str();
      }
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
    {
      O["cls"] = recName(M->getParent());
      if (M->isConst())
        O["const"] = true;
      if (M->isVirtual())
        O["virtual"] = true;
      if (M->isStatic())
        O["mstatic"] = true;
      Array Ov;
      for (auto* OM : M->overridden_methods())
        Ov.push_back(funcKey(OM));
      O["overrides"] = std::move(Ov);
      O["access"] = (int)M->getAccess();
    }
    if (auto* K = dyn_cast<CXXConstructorDecl>(F))
    {
      O["ctor"] = true;
      Array I;
      for (auto* In : K->inits())
      {
        Object IO;
        if (In->isAnyMemberInitializer())
          IO["n"] = In->getAnyMember()->getNameAsString();
        else if (In->isBaseInitializer())
          IO["base"] = typeId(QualType(In->getBaseClass(), 0));
        else
          IO["deleg"] = true;
        IO["w"] = In->isWritten();
        IO["e"] = expr(In->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F))
      O["dtor"] = true;
    O["end"] = lineOf(F->getEndLoc());
    O["body"] = stmt(F->getBody());
    Functions[K] = std::move(O);
  }

  void dumpRecord(const CXXRecordDecl* R)
  {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda())
      return;
    if (!inRepo(R->getLocation()))
      return;
    std::string N = recName(R);
    if (!DoneRecords.insert(N).second)
      return;
    Object O;
    O["loc"] = loc(R->getLocation());
    Array B;
    for (auto& X : R->bases())
      if (auto* D = X.getType()->getAsCXXRecordDecl())
        B.push_back(recName(D));
    O["bases"] = std::move(B);
    Array Fs;
    for (auto* F : R->fields())
    {
      Object FO;
      FO["n"] = F->getNameAsString();
      FO["t"] = typeId(F->getType());
      FO["line"] = lineOf(F->getLocation());
      FO["access"] = (int)F->getAccess();
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    Array Ms;
    for (auto* M : R->methods())
    {
      if (M->isImplicit())
        continue;
      Object MO;
      MO["f"] = funcKey(M);
      MO["n"] = M->getNameAsString();
      MO["virt"] = M->isVirtual();
      MO["pure"] = M->isPureVirtual();
      MO["access"] = (int)M->getAccess();
      MO["static"] = M->isStatic();
      MO["rt"] = typeId(M->getReturnType());
      Array Ps;
      for (auto* P : M->parameters())
        Ps.push_back(param(P));
      MO["params"] = std::move(Ps);
      MO["const"] = M->isConst();
      MO["line"] = lineOf(M->getLocation());
      MO["file"] = fileOf(M->getLocation());
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    if (auto* D = R->getDestructor())
      O["vdtor"] = D->isVirtual();
    Records[N] = std::move(O);
  }

  void dumpEnum(const EnumDecl* E)
  {
    if (!inRepo(E->getLocation()))
      return;
    std::string N = E->getQualifiedNameAsString();
    if (!DoneEnums.insert(N).second)
      return;
    Object O;
    O["loc"] = loc(E->getLocation());
    Array A;
    for (auto* K : E->enumerators())
      A.push_back(Object{ { "n", K->getNameAsString() }, { "v", (int64_t)K->getInitVal().getExtValue() } });
    O["c"] = std::move(A);
    Enums[N] = std::move(O);
  }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
  Dumper& D;
  Visitor(Dumper& D) : D(D)
  {
  }
  bool shouldVisitTemplateInstantiations() const
  {
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl* F)
  {
    D.dumpFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R)
  {
    D.dumpRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E)
  {
    D.dumpEnum(E);
    return true;
  }
  // Do not descend in functions/namespaces that are not ours: cheap pruning on namespaces
  bool TraverseNamespaceDecl(NamespaceDecl* N)
  {
    StringRef S = N->getName();
    if (S == "std" || S == "Eigen" || S == "boost" || S == "pinocchio" || S == "coal" || S == "hpp" ||
        S == "__gnu_cxx" || S == "urdf" || S == "eiquadprog" || S == "Json" || S == "octomap")
      return true;
    return RecursiveASTVisitor<Visitor>::TraverseNamespaceDecl(N);
  }
};

struct Consumer : ASTConsumer
{
  void HandleTranslationUnit(ASTContext& C) override
  {
    if (C.getDiagnostics().hasErrorOccurred())
      return;
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    Object O;
    O["functions"] = std::move(D.Functions);
    O["records"] = std::move(D.Records);
    O["enums"] = std::move(D.Enums);
    O["globals"] = std::move(D.Globals);
    O["types"] = std::move(D.Types);
    OS << Value(std::move(O));
  }
};

struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

// usage: placo-extract OUT.json FILE ROOT[,ROOT...] -- compiler flags
int main(int argc, const char** argv)
{
  if (argc < 5)
  {
    llvm::errs() << "usage: placo-extract OUT FILE ROOTS -- flags\n";
    return 2;
  }
  OutPath = argv[1];
  std::string File = argv[2];
  std::string R = argv[3];
  size_t p = 0;
  while (p <= R.size())
  {
    size_t q = R.find(',', p);
    if (q == std::string::npos)
      q = R.size();
    if (q > p)
      Roots.push_back(R.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> Args;
  for (int i = 5; i < argc; i++)
    Args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, { File });
  Tool.setPrintErrorMessage(true);
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
