// astx: dumps the type-checked syntax tree of every function that lives under the given source roots as compact JSON.
// usage: astx OUT.json ROOT[:ROOT...] MAIN.cpp -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Comment.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const void *, int> ids;
  std::map<std::string, int> types;
  std::vector<std::string> typeList;
  std::map<std::string, int> files;
  std::vector<std::string> fileList;
  std::set<const Decl *> recSeen;
  std::deque<const CXXRecordDecl *> recQueue;
  std::set<const VarDecl *> gvarSeen;
  std::deque<const VarDecl *> gvarQueue;
  std::set<const FunctionDecl *> fnSeen;
  std::deque<const FunctionDecl *> fnQueue;
  J::Array functions, records, gvars, enums;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }
  int id(const void *p) {
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[p] = n;
    return n;
  }
  int did(const Decl *d) { return id(d->getCanonicalDecl()); }
  int type(QualType q) {
    if (q.isNull()) return -1;
    std::string s = q.getCanonicalType().getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int n = typeList.size();
    typeList.push_back(s);
    types[s] = n;
    return n;
  }
  std::string fileOf(SourceLocation l) {
    if (l.isInvalid()) return "";
    l = SM.getExpansionLoc(l);
    auto p = SM.getPresumedLoc(l);
    if (p.isInvalid()) return "";
    return p.getFilename();
  }
  int file(SourceLocation l) {
    std::string s = fileOf(l);
    auto it = files.find(s);
    if (it != files.end()) return it->second;
    int n = fileList.size();
    fileList.push_back(s);
    files[s] = n;
    return n;
  }
  int line(SourceLocation l) { return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l); }
  bool inRoots(const Decl *d) {
    std::string f = fileOf(d->getLocation());
    for (auto &r : gRoots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    P2.SuppressUnwrittenScope = true;
    d->printQualifiedName(os, P2);
    os.flush();
    return s;
  }
  // fully qualified name with template arguments of the enclosing records
  std::string recName(const CXXRecordDecl *r) {
    if (r->isLambda()) return "(lambda)";
    return C.getTypeDeclType(r).getCanonicalType().getAsString(PP);
  }

  J::Value typedNode(const char *k, const Expr *e, J::Object o = {}) {
    o["k"] = k;
    o["t"] = type(e->getType());
    return J::Value(std::move(o));
  }
  J::Value nul() { return J::Value(nullptr); }

  void noteRecord(const CXXRecordDecl *r) {
    if (!r) return;
    r = r->getDefinition() ? r->getDefinition() : r;
    if (!recSeen.insert(r->getCanonicalDecl()).second) return;
    recQueue.push_back(r);
  }
  void noteFn(const FunctionDecl *f) {
    if (!f) return;
    if (!fnSeen.insert(f->getCanonicalDecl()).second) return;
    fnQueue.push_back(f);
  }
  std::string srcText(SourceRange r) {
    return Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(r.getBegin()), SM.getSpellingLoc(r.getEnd())), SM,
                                C.getLangOpts())
        .str();
  }
  J::Value constOf(const Expr *e) {
    if (e->isValueDependent() || e->isTypeDependent()) return nul();
    QualType t = e->getType();
    if (t.isNull()) return nul();
    if (t->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        int64_t v;
        if (!llvm::StringRef(s).getAsInteger(10, v)) return J::Value(v);
      }
    }
    return nul();
  }
  void fnRef(J::Object &o, const FunctionDecl *f) {
    const FunctionDecl *def = nullptr;
    f->hasBody(def);
    if (!def) def = f->getTemplateInstantiationPattern() && f->isTemplateInstantiation() ? f : f;
    o["f"] = did(f);
    o["fn"] = qname(f);
    if (inRoots(f)) {
      noteFn(def ? def : f);
      o["r"] = 1;
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = recName(m->getParent());
      if (m->isVirtual()) o["virt"] = 1;
      if (m->isStatic()) o["static"] = 1;
      if (m->isConst()) o["mconst"] = 1;
    }
    // parameter passing kinds: r=non-const ref, c=const ref, p=pointer to non-const, v=value
    std::string pk;
    for (auto *p : f->parameters()) {
      QualType q = p->getType();
      if (q->isReferenceType())
        pk += q->getPointeeType().isConstQualified() ? 'c' : (q->isRValueReferenceType() ? 'm' : 'r');
      else if (q->isPointerType())
        pk += q->getPointeeType().isConstQualified() ? 'q' : 'p';
      else
        pk += 'v';
    }
    o["pk"] = pk;
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      J::Array a;
      for (unsigned i = 0; i < ta->size(); i++) a.push_back(targ(ta->get(i)));
      o["ta"] = std::move(a);
    }
  }
  J::Value targ(const TemplateArgument &t) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (t.getKind() == TemplateArgument::Type)
      os << t.getAsType().getCanonicalType().getAsString(PP);
    else
      t.print(PP, os, false);
    os.flush();
    return s;
  }
  J::Array stmts(Stmt::const_child_range r) {
    J::Array a;
    for (auto *s : r) a.push_back(S(s));
    return a;
  }
  J::Value var(const VarDecl *v) {
    J::Object o;
    o["k"] = "var";
    o["id"] = did(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->getType().isConstQualified()) o["const"] = 1;
    if (v->getType()->isReferenceType()) {
      o["ref"] = 1;
      if (v->getType()->getPointeeType().isConstQualified()) o["cref"] = 1;
    }
    if (v->hasInit() && v->getInit()) {
      o["i"] = S(v->getInit());
      if (v->getInitStyle() == VarDecl::ListInit) o["list"] = 1;
    }
    noteRecord(v->getType().getCanonicalType()->getAsCXXRecordDecl());
    return J::Value(std::move(o));
  }
  J::Value S(const Stmt *s) {
    if (!s) return nul();
    if (auto *e = dyn_cast<Expr>(s)) return E(e);
    J::Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      o["c"] = stmts(x->children());
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      J::Array a;
      for (auto *d : x->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d))
          a.push_back(var(v));
        else if (auto *r = dyn_cast<CXXRecordDecl>(d))
          noteRecord(r);
      }
      o["c"] = std::move(a);
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cv"] = S(x->getConditionVariableDeclStmt());
      o["cond"] = S(x->getCond());
      o["then"] = S(x->getThen());
      o["else"] = S(x->getElse());
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = S(x->getInit());
      o["cond"] = S(x->getCond());
      o["inc"] = S(x->getInc());
      o["body"] = S(x->getBody());
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      o["cond"] = S(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["cond"] = S(x->getCond());
      o["body"] = S(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "forrange";
      o["range"] = S(x->getRangeInit());
      if (x->getLoopVariable()) o["var"] = var(x->getLoopVariable());
      o["body"] = S(x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      o["cond"] = S(x->getCond());
      o["body"] = S(x->getBody());
      if (!x->getCond()->getType().isNull())
        o["ct"] = type(x->getCond()->IgnoreParenImpCasts()->getType());
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = constOf(x->getLHS());
      o["lhs"] = S(x->getLHS());
      o["body"] = S(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["body"] = S(x->getSubStmt());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      o["e"] = S(x->getRetValue());
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["body"] = S(x->getTryBlock());
      J::Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        J::Object h;
        auto *hs = x->getHandler(i);
        h["k"] = "catch";
        h["all"] = hs->getExceptionDecl() == nullptr;
        if (hs->getExceptionDecl()) h["t"] = type(hs->getExceptionDecl()->getType());
        h["body"] = S(hs->getHandlerBlock());
        h["l"] = line(hs->getBeginLoc());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a);
    } else {
      o["k"] = std::string("stmt:") + s->getStmtClassName();
      o["c"] = stmts(s->children());
    }
    return J::Value(std::move(o));
  }
  J::Value ref(const ValueDecl *d, const Expr *e) {
    J::Object o;
    o["k"] = "ref";
    o["id"] = did(d);
    o["n"] = d->getNameAsString();
    o["t"] = type(e->getType());
    o["l"] = line(e->getBeginLoc());
    if (auto *f = dyn_cast<FunctionDecl>(d)) {
      o["dk"] = "func";
      fnRef(o, f);
    } else if (isa<ParmVarDecl>(d))
      o["dk"] = "parm";
    else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      o["dk"] = "enum";
      o["v"] = (int64_t)ec->getInitVal().getExtValue();
      o["qn"] = qname(ec);
    } else if (auto *v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDecl() && !v->isStaticLocal())
        o["dk"] = "local";
      else {
        o["dk"] = v->isStaticLocal() ? "slocal" : "global";
        o["qn"] = qname(v);
        J::Value c = constOf(e);
        if (c.kind() != J::Value::Null && (v->isConstexpr() || v->getType().isConstQualified())) o["v"] = std::move(c);
        const VarDecl *vd = v->getDefinition() ? v->getDefinition() : v;
        if (gvarSeen.insert(vd->getCanonicalDecl()).second) gvarQueue.push_back(vd);
      }
    } else if (isa<NonTypeTemplateParmDecl>(d))
      o["dk"] = "nttp";
    else
      o["dk"] = d->getDeclKindName();
    return J::Value(std::move(o));
  }
  J::Value E(const Expr *e) {
    if (!e) return nul();
    // transparent wrappers
    if (auto *x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<FullExpr>(e)) return E(x->getSubExpr());
    J::Object o;
    o["t"] = type(e->getType());
    o["l"] = line(e->getBeginLoc());
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float";
      o["v"] = x->getValueAsApproximateDouble();
      std::string tx = srcText(x->getSourceRange());
      o["s"] = llvm::json::isUTF8(tx) ? tx : "";
    } else if (auto *x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      std::string b = x->isOrdinary() || x->isUTF8() ? x->getString().str() : "";
      o["v"] = llvm::json::isUTF8(b) ? b : llvm::json::fixUTF8(b);
    } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "char";
      o["v"] = (int64_t)x->getValue();
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "nullptr";
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      return ref(x->getDecl(), x);
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
      o["k"] = "member";
      o["n"] = x->getMemberDecl()->getNameAsString();
      o["id"] = did(x->getMemberDecl());
      o["arrow"] = x->isArrow();
      o["b"] = E(x->getBase());
      if (x->isImplicitAccess()) o["impl"] = 1;
      if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["dk"] = "static";
        J::Value c = constOf(x);
        if (c.kind() != J::Value::Null) o["v"] = std::move(c);
        const VarDecl *vd = v->getDefinition() ? v->getDefinition() : v;
        if (gvarSeen.insert(vd->getCanonicalDecl()).second) gvarQueue.push_back(vd);
      } else if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["dk"] = "field";
        if (f->isMutable()) o["mut"] = 1;
        if (auto *r = dyn_cast<CXXRecordDecl>(f->getParent())) o["cls"] = recName(r);
      } else
        o["dk"] = "method";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
      if (cast<CXXThisExpr>(e)->isImplicit()) o["impl"] = 1;
    } else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "assign";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "assign" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = E(x->getLHS());
      o["b"] = E(x->getRHS());
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["post"] = x->isPostfix();
      o["a"] = E(x->getSubExpr());
    } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["cond"] = E(x->getCond());
      o["a"] = E(x->getTrueExpr());
      o["b"] = E(x->getFalseExpr());
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "index";
      o["a"] = E(x->getBase());
      o["b"] = E(x->getIdx());
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      auto *cls = x->getLambdaClass();
      auto *op = x->getCallOperator();
      o["id"] = did(op);
      J::Array caps;
      for (auto &c : x->captures()) {
        J::Object co;
        if (c.capturesThis()) {
          co["k"] = "this";
          co["star"] = c.getCaptureKind() == LCK_StarThis;
        } else if (c.capturesVariable()) {
          co["k"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          co["id"] = did(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["t"] = type(c.getCapturedVar()->getType());
          if (auto *iv = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (iv->isInitCapture() && iv->getInit()) {
              co["init"] = E(iv->getInit());
              if (iv->getType()->isReferenceType()) co["k"] = "ref";
            }
        }
        co["impl"] = c.isImplicit();
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      J::Array ps;
      for (auto *p : op->parameters()) ps.push_back(var(p));
      o["ps"] = std::move(ps);
      o["mutable"] = x->isMutable();
      if (!x->isGenericLambda()) o["ret"] = type(op->getReturnType());
      o["body"] = S(op->getBody());
      o["dcap"] = x->getCaptureDefault() == LCD_ByCopy ? "=" : (x->getCaptureDefault() == LCD_ByRef ? "&" : "");
      (void)cls;
      // generic lambdas: instantiated call operators
      if (x->isGenericLambda()) {
        J::Array insts;
        if (auto *ft = op->getDescribedFunctionTemplate())
          for (auto *sp : ft->specializations())
            if (sp->hasBody()) insts.push_back(fnNode(sp));
        o["insts"] = std::move(insts);
      }
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto *cd = x->getConstructor();
      o["k"] = "ctor";
      o["cls"] = recName(cd->getParent());
      o["copy"] = cd->isCopyOrMoveConstructor();
      o["list"] = x->isListInitialization();
      o["elid"] = x->isElidable();
      fnRef(o, cd);
      o["cls"] = recName(cd->getParent());
      noteRecord(cd->getParent());
      J::Array a;
      for (auto *y : x->arguments()) a.push_back(E(y));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"] = "expr:InheritedCtor";
      (void)x;
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto *oc = dyn_cast<CXXOperatorCallExpr>(x)) {
        o["oper"] = getOperatorSpelling(oc->getOperator());
      }
      const FunctionDecl *f = x->getDirectCallee();
      if (f) {
        fnRef(o, f);
      }
      J::Array a;
      unsigned i0 = 0;
      if (auto *mc = dyn_cast<CXXMemberCallExpr>(x)) {
        o["obj"] = E(mc->getImplicitObjectArgument());
        if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow();
        if (!f) o["callee"] = E(x->getCallee());
      } else if (isa<CXXOperatorCallExpr>(x) && f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
        o["obj"] = E(x->getArg(0));
        i0 = 1;
      } else if (!f) {
        o["callee"] = E(x->getCallee());
      }
      for (unsigned i = i0; i < x->getNumArgs(); i++) a.push_back(E(x->getArg(i)));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["at"] = type(x->getAllocatedType());
      o["array"] = x->isArray();
      o["i"] = x->hasInitializer() ? E(x->getInitializer()) : nul();
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["array"] = x->isArrayForm();
      o["a"] = E(x->getArgument());
    } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      o["a"] = E(x->getSubExpr());
    } else if (auto *x = dyn_cast<CastExpr>(e)) {
      // keep only the conversions that change the value or the category
      switch (x->getCastKind()) {
      case CK_LValueToRValue:
      case CK_NoOp:
      case CK_FunctionToPointerDecay:
      case CK_ArrayToPointerDecay:
      case CK_BuiltinFnToFnPtr:
      case CK_ConstructorConversion:
      case CK_UserDefinedConversion:
      case CK_DerivedToBase:
      case CK_UncheckedDerivedToBase:
      case CK_NullToPointer:
        return E(x->getSubExpr());
      case CK_IntegralToFloating:
      case CK_FloatingCast:
        // digits are lost only in single precision
        if (!x->getType()->isSpecificBuiltinType(BuiltinType::Float) ||
            x->getSubExpr()->getType()->isSpecificBuiltinType(BuiltinType::Float))
          return E(x->getSubExpr());
        break;
      default: break;
      }
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      o["expl"] = isa<ExplicitCastExpr>(x);
      o["a"] = E(x->getSubExpr());
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      if (x->isTransparent() && x->getNumInits() == 1) return E(x->getInit(0));
      o["k"] = "list";
      J::Array a;
      for (auto *y : x->inits()) a.push_back(E(y));
      o["a"] = std::move(a);
      if (x->hasArrayFiller()) o["fill"] = E(x->getArrayFiller());
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = "sizeof";
      J::Value c = constOf(x);
      if (c.kind() != J::Value::Null) o["v"] = std::move(c);
      if (!x->isArgumentType()) o["a"] = E(x->getArgumentExpr());
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
    } else if (auto *x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      o["k"] = "dmember";
      o["n"] = x->getMember().getAsString();
      if (!x->isImplicitAccess()) o["b"] = E(x->getBase());
    } else if (auto *x = dyn_cast<UnresolvedMemberExpr>(e)) {
      o["k"] = "dmember";
      o["n"] = x->getMemberName().getAsString();
      if (!x->isImplicitAccess()) o["b"] = E(x->getBase());
    } else if (auto *x = dyn_cast<UnresolvedLookupExpr>(e)) {
      o["k"] = "dref";
      o["n"] = x->getName().getAsString();
    } else if (auto *x = dyn_cast<DependentScopeDeclRefExpr>(e)) {
      o["k"] = "dref";
      o["n"] = x->getDeclName().getAsString();
    } else if (auto *x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
      o["k"] = "dctor";
      J::Array a;
      for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(E(x->getArg(i)));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "arrcopy";
      o["a"] = E(x->getCommonExpr()->getSourceExpr());
    } else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) return E(x->getSourceExpr());
      o["k"] = "opaque";
    } else if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(e)) {
      o["k"] = "expr:PseudoDtor";
      (void)x;
    } else {
      o["k"] = std::string("expr:") + e->getStmtClassName();
      o["c"] = stmts(e->children());
    }
    return J::Value(std::move(o));
  }
  J::Value fnNode(const FunctionDecl *f) {
    J::Object o;
    o["id"] = did(f);
    o["fn"] = qname(f);
    o["n"] = f->getNameAsString();
    o["file"] = file(f->getLocation());
    o["l"] = line(f->getLocation());
    o["ret"] = type(f->getReturnType());
    o["dep"] = f->isDependentContext();
    if (f->isTemplateInstantiation()) o["inst"] = 1;
    if (f->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) o["espec"] = 1;
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      J::Array a;
      for (unsigned i = 0; i < ta->size(); i++) a.push_back(targ(ta->get(i)));
      o["ta"] = std::move(a);
    }
    J::Array ps;
    for (auto *p : f->parameters()) ps.push_back(var(p));
    o["ps"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = recName(m->getParent());
      o["clsid"] = did(m->getParent());
      o["const"] = m->isConst();
      o["virt"] = m->isVirtual();
      o["static"] = m->isStatic();
      o["access"] = (int)m->getAccess();
      noteRecord(m->getParent());
      if (m->isVirtual()) {
        J::Array ov;
        for (auto *b : m->overridden_methods()) ov.push_back(did(b));
        o["over"] = std::move(ov);
      }
    }
    o["kind"] = isa<CXXConstructorDecl>(f) ? "ctor" : isa<CXXDestructorDecl>(f) ? "dtor" : isa<CXXMethodDecl>(f) ? "method" : "func";
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      J::Array in;
      for (auto *i : c->inits()) {
        J::Object io;
        if (i->isMemberInitializer()) {
          io["m"] = i->getMember()->getNameAsString();
          io["id"] = did(i->getMember());
        } else if (i->isBaseInitializer())
          io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer())
          io["deleg"] = 1;
        io["w"] = i->isWritten();
        io["e"] = E(i->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
      o["copyctor"] = c->isCopyOrMoveConstructor();
    }
    if (f->isDefaulted()) o["defaulted"] = 1;
    if (f->isDeleted()) o["deleted"] = 1;
    if (f->isNoReturn()) o["noret"] = 1;
    if (f->doesThisDeclarationHaveABody() || f->hasBody()) {
      const FunctionDecl *d = nullptr;
      if (f->hasBody(d)) o["body"] = S(d->getBody());
    }
    if (auto *rc = C.getRawCommentForDeclNoCache(f)) {
      std::string t = rc->getRawText(SM).str();
      o["doc"] = llvm::json::isUTF8(t) ? t : llvm::json::fixUTF8(t);
    } else if (auto *pt = f->getTemplateInstantiationPattern()) {
      if (auto *rc = C.getRawCommentForDeclNoCache(pt)) {
        std::string t = rc->getRawText(SM).str();
        o["doc"] = llvm::json::isUTF8(t) ? t : llvm::json::fixUTF8(t);
      }
    }
    return J::Value(std::move(o));
  }
  void dumpRecord(const CXXRecordDecl *r) {
    const CXXRecordDecl *d = r->getDefinition();
    if (!d) return;
    bool in = inRoots(d);
    J::Object o;
    o["id"] = did(d);
    o["n"] = recName(d);
    o["file"] = file(d->getLocation());
    o["l"] = line(d->getLocation());
    o["r"] = in;
    if (!in) return;
    J::Array fs;
    for (auto *f : d->fields()) {
      J::Object fo;
      fo["id"] = did(f);
      fo["n"] = f->getNameAsString();
      fo["t"] = type(f->getType());
      fo["mut"] = f->isMutable();
      fo["l"] = line(f->getLocation());
      if (f->getType()->isReferenceType()) fo["ref"] = 1;
      if (f->getType().isConstQualified()) fo["const"] = 1;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = E(f->getInClassInitializer());
      noteRecord(f->getType().getCanonicalType()->getAsCXXRecordDecl());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    J::Array bs;
    for (auto &b : d->bases()) {
      J::Object bo;
      bo["t"] = type(b.getType());
      if (auto *br = b.getType()->getAsCXXRecordDecl()) {
        bo["id"] = did(br);
        noteRecord(br);
      }
      bs.push_back(std::move(bo));
    }
    o["bases"] = std::move(bs);
    o["dep"] = d->isDependentContext();
    if (!d->isDependentContext()) {
      o["userdtor"] = d->hasUserDeclaredDestructor();
      o["usercopy"] = d->hasUserDeclaredCopyConstructor();
      o["usercopyassign"] = d->hasUserDeclaredCopyAssignment();
      if (d->getDestructor()) o["virtdtor"] = d->getDestructor()->isVirtual();
      o["abstract"] = d->isAbstract();
      o["poly"] = d->isPolymorphic();
    }
    if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
      J::Array a;
      for (unsigned i = 0; i < sp->getTemplateArgs().size(); i++) a.push_back(targ(sp->getTemplateArgs().get(i)));
      o["ta"] = std::move(a);
    }
    // static constexpr integral members
    J::Object sc;
    if (!d->isDependentContext())
      for (auto *m : d->decls())
        if (auto *v = dyn_cast<VarDecl>(m))
          if (v->isStaticDataMember() && v->getType()->isIntegralOrEnumerationType()) {
            const VarDecl *vv = v;
            const Expr *init = vv->getAnyInitializer(vv);
            if (!init) {  // not instantiated yet
              if (auto *ip = v->getTemplateInstantiationPattern()) (void)ip;
              continue;
            }
            if (init->isValueDependent()) continue;
            Expr::EvalResult er;
            if (init->EvaluateAsInt(er, C)) sc[v->getNameAsString()] = er.Val.getInt().getExtValue();
          }
    o["consts"] = std::move(sc);
    if (!d->isDependentContext())
      for (auto *m : d->methods()) {
        if (m->isImplicit()) continue;
        const FunctionDecl *def = nullptr;
        if (m->hasBody(def)) noteFn(def);
      }
    records.push_back(std::move(o));
  }
  void drain() {
    while (!fnQueue.empty() || !recQueue.empty() || !gvarQueue.empty()) {
      if (!fnQueue.empty()) {
        auto *f = fnQueue.front();
        fnQueue.pop_front();
        functions.push_back(fnNode(f));
      } else if (!recQueue.empty()) {
        auto *r = recQueue.front();
        recQueue.pop_front();
        dumpRecord(r);
      } else {
        auto *v = gvarQueue.front();
        gvarQueue.pop_front();
        J::Object o;
        o["id"] = did(v);
        o["n"] = v->getNameAsString();
        o["qn"] = qname(v);
        o["t"] = type(v->getType());
        o["const"] = v->getType().isConstQualified() || v->isConstexpr();
        o["r"] = inRoots(v);
        o["file"] = file(v->getLocation());
        o["l"] = line(v->getLocation());
        o["slocal"] = v->isStaticLocal();
        if (inRoots(v)) {
          const VarDecl *vv = v;
          if (auto *in = v->getAnyInitializer(vv)) o["i"] = E(in);
        }
        gvars.push_back(std::move(o));
      }
    }
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *d) {
    if (!d) return true;
    // skip whole top-level declarations outside the roots unless they are namespaces
    return RecursiveASTVisitor::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (!D.inRoots(f)) return true;
    if (!f->isThisDeclarationADefinition()) return true;
    D.noteFn(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isLambda() || !D.inRoots(r)) return true;
    if (r->isThisDeclarationADefinition()) D.noteRecord(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!D.inRoots(e) || !e->isThisDeclarationADefinition()) return true;
    J::Object o;
    o["n"] = D.qname(e);
    J::Array a;
    for (auto *c : e->enumerators()) {
      J::Object co;
      co["n"] = c->getNameAsString();
      co["v"] = (int64_t)c->getInitVal().getExtValue();
      a.push_back(std::move(co));
    }
    o["c"] = std::move(a);
    o["file"] = D.file(e->getLocation());
    o["l"] = D.line(e->getLocation());
    o["t"] = D.type(D.C.getTypeDeclType(e));
    D.enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!D.inRoots(v)) return true;
    if ((v->hasGlobalStorage()) && !v->getDeclContext()->isDependentContext()) {
      const VarDecl *vd = v->getDefinition() ? v->getDefinition() : v;
      if (D.gvarSeen.insert(vd->getCanonicalDecl()).second) D.gvarQueue.push_back(vd);
    }
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    Visitor V(D);
    // only traverse top-level decls that are in the roots or namespaces holding such
    for (auto *d : C.getTranslationUnitDecl()->decls()) {
      std::string f = D.fileOf(d->getLocation());
      bool in = false;
      for (auto &r : gRoots)
        if (f.compare(0, r.size(), r) == 0) in = true;
      if (in) V.TraverseDecl(d);
    }
    D.drain();
    J::Object o;
    o["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    J::Array ta;
    for (auto &t : D.typeList) ta.push_back(t);
    J::Array fa;
    for (auto &t : D.fileList) fa.push_back(t);
    o["types"] = std::move(ta);
    o["files"] = std::move(fa);
    o["functions"] = std::move(D.functions);
    o["records"] = std::move(D.records);
    o["gvars"] = std::move(D.gvars);
    o["enums"] = std::move(D.enums);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << J::Value(std::move(o));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
int main(int argc, char **argv) {
  if (argc < 5) return 3;
  gOut = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(':', p);
    if (q == std::string::npos) q = roots.size();
    if (q > p) gRoots.push_back(roots.substr(p, q - p));
    p = q + 1;
  }
  std::string mainf = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", args);
  clang::tooling::ClangTool tool(db, {mainf});
  struct F : clang::tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } fac;
  return tool.run(&fac);
}
