// wpextract: prints, as JSON, the type-checked program of one translation unit restricted to the
// library's own code: functions (with template instantiations and lambdas), classes, globals.
//   wpextract SOURCE ROOT_PREFIX -- compiler flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
namespace js = llvm::json;

static std::string gRoot;

struct Extractor {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const FunctionDecl *, int> fids;
  std::vector<const FunctionDecl *> flist;
  std::map<const void *, int> tids;
  std::vector<js::Value> types;
  std::map<const Decl *, int> vids;
  std::map<std::string, int> files;
  std::vector<std::string> fileList;
  std::deque<const FunctionDecl *> todo;
  std::set<const FunctionDecl *> queued;

  Extractor(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  bool inRepo(const Decl *D) {
    if (!D) return false;
    std::string f = fileOf(D->getLocation());
    if (f.empty()) return false;
    llvm::SmallString<256> real;
    std::string p = f;
    if (!llvm::sys::fs::real_path(f, real)) p = real.str().str();
    if (p.compare(0, gRoot.size(), gRoot) != 0) return false;
    if (p.find("libs/json.hpp") != std::string::npos) return false;
    for (const DeclContext *DC = D->getDeclContext(); DC; DC = DC->getParent())
      if (auto *N = dyn_cast<NamespaceDecl>(DC))
        if (N->getName() == "nlohmann") return false;
    if (auto *N = dyn_cast<NamespaceDecl>(D)) if (N->getName() == "nlohmann") return false;
    return true;
  }
  js::Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return js::Array{-1, 0};
    std::string f = SM.getFilename(L).str();
    llvm::SmallString<256> real;
    if (!llvm::sys::fs::real_path(f, real)) f = real.str().str();
    auto it = files.find(f);
    int id;
    if (it == files.end()) { id = fileList.size(); files[f] = id; fileList.push_back(f); }
    else id = it->second;
    return js::Array{id, (int)SM.getExpansionLineNumber(L)};
  }
  int vid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = vids.find(D);
    if (it != vids.end()) return it->second;
    int n = vids.size(); vids[D] = n; return n;
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    D->printQualifiedName(os, P2);
    os.flush();
    return s;
  }
  int ty(QualType T) {
    T = T.getCanonicalType();
    const void *key = T.getAsOpaquePtr();
    auto it = tids.find(key);
    if (it != tids.end()) return it->second;
    int id = types.size();
    tids[key] = id;
    types.push_back(nullptr);
    js::Object o;
    o["n"] = T.getAsString(PP);
    if (T.isConstQualified()) o["c"] = true;
    const Type *t = T.getTypePtr();
    if (t->isBooleanType()) o["k"] = "bool";
    else if (t->isEnumeralType()) o["k"] = "enum";
    else if (t->isIntegerType()) {
      o["k"] = "int"; o["bits"] = (int)C.getTypeSize(T); o["s"] = t->isSignedIntegerType();
      if (t->isAnyCharacterType()) o["char"] = true;
    } else if (t->isRealFloatingType()) { o["k"] = "float"; o["bits"] = (int)C.getTypeSize(T); }
    else if (t->isVoidType()) o["k"] = "void";
    else if (t->isPointerType()) { o["k"] = "ptr"; o["e"] = ty(t->getPointeeType()); }
    else if (t->isReferenceType()) { o["k"] = "ref"; o["e"] = ty(t->getPointeeType()); o["r"] = t->isRValueReferenceType(); }
    else if (t->isMemberPointerType()) o["k"] = "mptr";
    else if (t->isFunctionType()) o["k"] = "fn";
    else if (auto *A = C.getAsArrayType(T)) {
      o["k"] = "arr"; o["e"] = ty(A->getElementType());
      if (auto *CA = dyn_cast<ConstantArrayType>(A)) o["len"] = (int64_t)CA->getSize().getZExtValue();
    } else if (t->isNullPtrType()) o["k"] = "null";
    else if (auto *R = t->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["q"] = qname(R);
      o["repo"] = inRepo(R);
      if (R->isLambda()) { o["lambda"] = true; }
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        js::Array a;
        for (auto &TA : S->getTemplateArgs().asArray()) tmplArg(TA, a);
        o["a"] = std::move(a);
      }
    } else o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }
  void tmplArg(const TemplateArgument &TA, js::Array &a) {
    switch (TA.getKind()) {
    case TemplateArgument::Type: a.push_back(ty(TA.getAsType())); break;
    case TemplateArgument::Integral: a.push_back(js::Object{{"v", TA.getAsIntegral().getExtValue()}}); break;
    case TemplateArgument::Pack: for (auto &X : TA.pack_elements()) tmplArg(X, a); break;
    default: a.push_back(nullptr);
    }
  }
  int fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = fids.find(F);
    if (it != fids.end()) return it->second;
    int n = flist.size(); fids[F] = n; flist.push_back(F);
    return n;
  }

  // ---------------------------------------------------------------- expressions
  js::Value exprs(ArrayRef<const Expr *> es) {
    js::Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }
  template <class It> js::Value args(It b, It e) {
    js::Array a;
    for (; b != e; ++b) a.push_back(expr(*b));
    return a;
  }
  js::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      js::Value v = expr(X->getExpr());
      if (auto *o = v.getAsObject()) (*o)["dflt"] = true;
      return v;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      js::Value v = expr(X->getSubExpr());
      if (auto *o = v.getAsObject()) { (*o)["stdil"] = true; (*o)["t"] = ty(E->getType()); }
      return v;
    }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
      case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
        return expr(X->getSubExpr());
      default: break;
      }
    }
    js::Object o;
    o["t"] = ty(E->getType());
    o["l"] = loc(E->getExprLoc());
    if (E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent() && !isa<IntegerLiteral>(E) &&
        !isa<CXXBoolLiteralExpr>(E) && !isa<CharacterLiteral>(E) && E->isPRValue()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) o["cv"] = toI64(R.Val.getInt());
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; o["v"] = toI64(llvm::APSInt(X->getValue(), X->getType()->isUnsignedIntegerType())); }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "int"; o["v"] = (int64_t)X->getValue(); }
    else if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = (int64_t)X->getValue(); }
    else if (auto *X = dyn_cast<FloatingLiteral>(E)) { o["k"] = "flt"; o["v"] = X->getValueAsApproximateDouble(); }
    else if (auto *X = dyn_cast<clang::StringLiteral>(E)) { o["k"] = "str"; o["v"] = js::fixUTF8(X->getBytes()); o["len"] = (int64_t)X->getLength(); }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) o["k"] = "null";
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fn"; o["f"] = fid(F); }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "var"; o["id"] = vid(V); o["n"] = V->getNameAsString();
        if (V->hasGlobalStorage()) { o["g"] = qname(V); o["repo"] = inRepo(V); }
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["k"] = "int"; o["v"] = toI64(EC->getInitVal()); }
      else { o["k"] = "unk"; o["cls"] = "DeclRef"; }
    }
    else if (isa<CXXThisExpr>(E)) o["k"] = "this";
    else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "var"; o["id"] = vid(V); o["n"] = V->getNameAsString(); o["g"] = qname(V); o["repo"] = inRepo(V); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "mfn"; o["f"] = fid(F); o["o"] = expr(X->getBase()); }
      else { o["k"] = "mem"; o["o"] = expr(X->getBase()); o["fld"] = D->getNameAsString(); if (X->isArrow()) o["arrow"] = true;
        if (auto *FD = dyn_cast<FieldDecl>(D)) o["cls"] = qname(FD->getParent()); }
    }
    else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) { o["f"] = fid(F); enqueue(F); }
      o["args"] = args(X->arg_begin(), X->arg_end());
    }
    else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      if (auto *F = X->getMethodDecl()) { o["f"] = fid(F); enqueue(F); }
      const Expr *Callee = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(Callee)) { o["o"] = expr(ME->getBase()); if (ME->isArrow()) o["arrow"] = true; if (ME->hasQualifier()) o["qual"] = true; }
      else o["callee"] = expr(Callee);
      o["args"] = args(X->arg_begin(), X->arg_end());
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X->getDirectCallee()) { o["f"] = fid(F); enqueue(F); }
      else o["callee"] = expr(X->getCallee());
      o["args"] = args(X->arg_begin(), X->arg_end());
    }
    else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; o["f"] = fid(X->getConstructor()); enqueue(X->getConstructor());
      o["args"] = args(X->arg_begin(), X->arg_end());
      if (X->isListInitialization()) o["list"] = true;
      if (X->isStdInitListInitialization()) o["stdlist"] = true;
      if (X->requiresZeroInitialization()) o["zero"] = true;
    }
    else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "unk"; o["cls"] = "InheritedCtor"; (void)X; }
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["at"] = ty(X->getAllocatedType()); o["init"] = expr(X->getInitializer());
      if (X->isArray()) o["arr"] = true;
    }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delete"; o["x"] = expr(X->getArgument()); }
    else if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "il"; js::Array a;
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm() ? X->getSemanticForm() : X;
      for (auto *e : S->inits()) a.push_back(expr(e));
      o["e"] = std::move(a);
    }
    else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["x"] = expr(X->getSubExpr()); }
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["f"] = fid(X->getCallOperator()); enqueue(X->getCallOperator());
      js::Array caps;
      auto init = X->capture_init_begin();
      for (auto &cap : X->captures()) {
        js::Object co;
        if (cap.capturesThis()) { co["this"] = true; co["copy"] = cap.getCaptureKind() == LCK_StarThis; }
        else if (cap.capturesVariable()) {
          co["id"] = vid(cap.getCapturedVar()); co["n"] = cap.getCapturedVar()->getNameAsString(); co["byref"] = cap.getCaptureKind() == LCK_ByRef;
          if (init != X->capture_init_end()) co["init"] = expr(*init);
        }
        if (init != X->capture_init_end()) ++init;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
    }
    else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "cond"; o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
    }
    else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "post" + op;
      o["op"] = op; 
      if (X->getOpcode() == UO_AddrOf)
        if (auto *DR = dyn_cast<DeclRefExpr>(X->getSubExpr()->IgnoreParens()))
          if (auto *F = dyn_cast<FunctionDecl>(DR->getDecl())) { o["k"] = "fn"; o["f"] = fid(F); enqueue(F); return o; }
      o["x"] = expr(X->getSubExpr());
    }
    else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      o["ct"] = ty(X->getComputationResultType());
    }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
    }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); }
    else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["x"] = expr(X->getSubExpr());
      if (auto *EC = dyn_cast<ExplicitCastExpr>(X)) { o["ex"] = true; o["wr"] = EC->getTypeAsWritten().getAsString(PP); }
    }
    else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) o["k"] = "zero";
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "sizeof"; if (X->isArgumentType()) o["of"] = ty(X->getArgumentType()); else o["of"] = ty(X->getArgumentExpr()->getType()); }
    else {
      o["k"] = "unk"; o["cls"] = E->getStmtClassName();
      js::Array ch;
      for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
      o["ch"] = std::move(ch);
    }
    return o;
  }
  int64_t toI64(const llvm::APSInt &v) { return v.getBitWidth() <= 64 ? (v.isUnsigned() ? (int64_t)v.getZExtValue() : v.getSExtValue()) : 0; }

  // ---------------------------------------------------------------- statements
  js::Value varDecl(const VarDecl *V) {
    js::Object o;
    o["id"] = vid(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["l"] = loc(V->getLocation());
    o["init"] = expr(V->getInit());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType().isConstQualified()) o["const"] = true;
    return o;
  }
  js::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { js::Object o; o["k"] = "expr"; o["x"] = expr(E); o["l"] = loc(S->getBeginLoc()); return o; }
    js::Object o;
    o["l"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; js::Array a; for (auto *s : X->body()) a.push_back(stmt(s)); o["b"] = std::move(a); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; js::Array a;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
    }
    else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if"; o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse());
    }
    else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for"; o["init"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
    }
    else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
    }
    else if (auto *X = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor"; o["r"] = expr(X->getRangeInit()); o["v"] = varDecl(X->getLoopVariable()); o["b"] = stmt(X->getBody());
    }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; o["x"] = expr(X->getRetValue()); }
    else if (isa<BreakStmt>(S)) o["k"] = "break";
    else if (isa<ContinueStmt>(S)) o["k"] = "continue";
    else if (isa<NullStmt>(S)) o["k"] = "null";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["s"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = stmt(X->getTryBlock()); js::Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        const CXXCatchStmt *H = X->getHandler(i); js::Object ho;
        if (H->getExceptionDecl()) ho["v"] = varDecl(H->getExceptionDecl());
        ho["b"] = stmt(H->getHandlerBlock()); ho["l"] = loc(H->getBeginLoc());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
    }
    else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    else { o["k"] = "unk"; o["cls"] = S->getStmtClassName(); }
    return o;
  }

  // ---------------------------------------------------------------- declarations
  void enqueue(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) {
      if (auto *P = F->getTemplateInstantiationPattern()) (void)P;
    }
    F = F->getCanonicalDecl();
    if (queued.insert(F).second) todo.push_back(F);
  }
  js::Value func(const FunctionDecl *Canon) {
    const FunctionDecl *D = nullptr;
    bool hasBody = Canon->hasBody(D) && D;
    const FunctionDecl *F = hasBody ? D : Canon;
    js::Object o;
    o["id"] = fid(Canon);
    o["q"] = qname(Canon);
    o["n"] = Canon->getNameAsString();
    o["ret"] = ty(Canon->getReturnType());
    o["l"] = loc(F->getLocation());
    bool repo = inRepo(F);
    // functions of std/json/pybind templates instantiated over our types are not ours
    o["repo"] = repo;
    js::Array ps;
    for (auto *p : F->parameters()) ps.push_back(js::Object{{"id", vid(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}, {"dflt", p->hasDefaultArg()}});
    o["params"] = std::move(ps);
    if (Canon->isVariadic()) o["variadic"] = true;
    auto *FPT = Canon->getType()->getAs<FunctionProtoType>();
    if (FPT && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) o["nothrow"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(Canon)) {
      o["cls"] = qname(M->getParent());
      o["clst"] = ty(C.getRecordType(M->getParent()));
      o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isImplicit()) o["implicit"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
      if (isa<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        auto *CD = cast<CXXConstructorDecl>(M);
        if (CD->isCopyConstructor()) o["copy"] = true;
        if (CD->isMoveConstructor()) o["move"] = true;
        if (CD->isDefaultConstructor()) o["default"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
      if (M->getParent()->isLambda()) o["lambda"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
    }
    if (auto *TA = Canon->getTemplateSpecializationArgs()) { js::Array a; for (auto &X : TA->asArray()) tmplArg(X, a); o["ta"] = std::move(a); }
    if (repo && hasBody && !F->isDependentContext()) {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        js::Array in;
        for (auto *I : CD->inits()) {
          js::Object io;
          if (I->isAnyMemberInitializer()) io["fld"] = I->getAnyMember()->getNameAsString();
          else if (I->isDelegatingInitializer()) io["deleg"] = true;
          else io["base"] = ty(QualType(I->getBaseClass(), 0));
          io["x"] = expr(I->getInit()); io["written"] = I->isWritten(); io["l"] = loc(I->getSourceLocation());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      o["body"] = stmt(F->getBody());
    }
    return o;
  }
  js::Value record(const CXXRecordDecl *R) {
    js::Object o;
    o["q"] = qname(R); o["t"] = ty(C.getRecordType(R)); o["l"] = loc(R->getLocation());
    js::Array fs;
    for (auto *f : R->fields())
      fs.push_back(js::Object{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"acc", f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private"},
        {"mutable", f->isMutable()}, {"init", f->hasInClassInitializer() ? expr(f->getInClassInitializer()) : js::Value(nullptr)}, {"l", loc(f->getLocation())}});
    o["fields"] = std::move(fs);
    js::Array bs;
    for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    js::Array ba;
    for (auto &b : R->bases()) ba.push_back(b.getAccessSpecifier() == AS_public);
    o["pubbases"] = std::move(ba);
    js::Array ms;
    for (auto *m : R->methods()) if (!m->isDependentContext()) ms.push_back(fid(m));
    for (auto *d : R->decls()) if (auto *FT = dyn_cast<FunctionTemplateDecl>(d)) for (auto *s : FT->specializations()) ms.push_back(fid(s));
    o["methods"] = std::move(ms);
    if (R->hasUserDeclaredCopyConstructor()) o["ucopy"] = true;
    if (R->hasUserDeclaredCopyAssignment()) o["uassign"] = true;
    if (R->hasUserDeclaredDestructor()) o["udtor"] = true;
    if (R->isLambda()) o["lambda"] = true;
    return o;
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Extractor &X;
  std::vector<const CXXRecordDecl *> recs;
  std::vector<const VarDecl *> globals;
  std::set<const void *> seen;
  Visitor(Extractor &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !X.inRepo(F)) return true;
    X.fid(F); X.enqueue(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && X.inRepo(R) && seen.insert(R).second) recs.push_back(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && X.inRepo(V) && !V->getDeclContext()->isDependentContext() && seen.insert(V).second) globals.push_back(V);
    return true;
  }
  bool TraverseDecl(Decl *D) {   // do not walk system headers, pybind11 or the JSON library
    if (D && !isa<TranslationUnitDecl>(D)) {
      auto *DC = D->getDeclContext();
      if (DC && DC->isTranslationUnit()) {
        if (!X.inRepo(D) && !isa<NamespaceDecl>(D)) return true;
        if (auto *N = dyn_cast<NamespaceDecl>(D)) if (!X.inRepo(N)) return true;
      }
      if (auto *N = dyn_cast<NamespaceDecl>(D)) if (N->getName() == "nlohmann") return true;
    }
    return RecursiveASTVisitor<Visitor>::TraverseDecl(D);
  }
};

struct Consumer : ASTConsumer {
  bool *ok;
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Extractor X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    js::Array funcs;
    std::set<const FunctionDecl *> done;
    js::Array recs, globs;
    for (auto *R : V.recs) recs.push_back(X.record(R));
    for (auto *G : V.globals) {
      js::Object o;
      o["id"] = X.vid(G); o["q"] = X.qname(G); o["t"] = X.ty(G->getType()); o["const"] = G->getType().isConstQualified() || G->isConstexpr();
      o["static_local"] = G->isStaticLocal(); o["l"] = X.loc(G->getLocation());
      const VarDecl *D = nullptr; o["init"] = X.expr(G->getAnyInitializer(D));
      bool isDef = G->isThisDeclarationADefinition() == VarDecl::Definition; o["def"] = isDef;
      if (G->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
      globs.push_back(std::move(o));
    }
    std::map<int, js::Value> out;
    while (true) {
      bool progress = false;
      while (!X.todo.empty()) {
        auto *F = X.todo.front(); X.todo.pop_front();
        if (done.insert(F).second) { out.insert_or_assign(X.fid(F), X.func(F)); progress = true; }
      }
      for (size_t i = 0; i < X.flist.size(); i++)
        if (done.insert(X.flist[i]).second) { out.insert_or_assign((int)i, X.func(X.flist[i])); progress = true; }
      if (!progress) break;
    }
    for (auto &kv : out) funcs.push_back(std::move(kv.second));
    js::Array fl;
    for (auto &f : X.fileList) fl.push_back(f);
    js::Object root{{"functions", std::move(funcs)}, {"records", std::move(recs)}, {"globals", std::move(globs)},
                    {"types", js::Array(X.types)}, {"files", std::move(fl)}};
    llvm::outs() << js::Value(std::move(root)) << "\n";
    llvm::outs().flush();
    *ok = true;
  }
};
static bool gOk = false;
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    auto c = std::make_unique<Consumer>(); c->ok = &gOk; return c;
  }
};
int main(int argc, char **argv) {
  if (argc < 3) { llvm::errs() << "usage: wpextract SOURCE ROOT -- flags\n"; return 2; }
  gRoot = argv[2];
  std::vector<std::string> flags;
  for (int i = 3; i < argc; i++) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  flags.push_back("-Wno-everything");
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool t(db, {std::string(argv[1])});
  int rc = t.run(tooling::newFrontendActionFactory<Action>().get());
  return rc ? 3 : gOk ? 0 : 3;
}
