// heu-extract: dumps the resolved (template-instantiated) program of a translation unit as JSON.
// Only functions whose body lives below one of the given roots are dumped; callees are resolved.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Dumper {
  ASTContext &C;
  const SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, std::string> ids;
  std::map<const void *, int> typeIds;
  std::vector<json::Value> types;
  std::set<const FunctionDecl *> done;
  std::vector<const FunctionDecl *> queue;
  json::Object functions;
  json::Object records;
  std::set<const CXXRecordDecl *> recDone;
  json::Object fdecls;

  explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string loc(SourceLocation L) {
    if (L.isInvalid()) return "?";
    L = SM.getExpansionLoc(L);
    return (SM.getFilename(L) + ":" + llvm::Twine(SM.getExpansionLineNumber(L))).str();
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef f = SM.getFilename(L);
    for (auto &r : Roots)
      if (f.starts_with(r)) return true;
    return false;
  }
  std::string id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    std::string s = "d" + std::to_string(ids.size());
    ids[D] = s;
    return s;
  }
  static std::string qname(const NamedDecl *D) {
    // qualified name without template arguments
    std::string s;
    std::vector<std::string> parts;
    parts.push_back(D->getDeclName().isIdentifier() || true ? D->getNameAsString() : "");
    const DeclContext *dc = D->getDeclContext();
    while (dc) {
      if (auto *nd = dyn_cast<NamespaceDecl>(dc)) {
        if (!nd->isAnonymousNamespace() && !nd->isInline()) parts.push_back(nd->getNameAsString());
      } else if (auto *rd = dyn_cast<RecordDecl>(dc)) {
        parts.push_back(rd->getNameAsString());
      } else if (auto *fd = dyn_cast<FunctionDecl>(dc)) {
        parts.push_back(fd->getNameAsString() + "()");
      }
      dc = dc->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
      if (!s.empty()) s += "::";
      s += *it;
    }
    return s;
  }
  json::Value targ(const TemplateArgument &a) {
    switch (a.getKind()) {
    case TemplateArgument::Type: return json::Object{{"t", type(a.getAsType())}};
    case TemplateArgument::Integral: {
      auto v = a.getAsIntegral();
      return json::Object{{"i", v.isSigned() || v.getActiveBits() < 63 ? json::Value((int64_t)v.getExtValue()) : json::Value(llvm::toString(v,10))},{"t", type(a.getIntegralType())}};
    }
    case TemplateArgument::Declaration: return json::Object{{"d", qname(a.getAsDecl())}, {"id", id(a.getAsDecl())}};
    case TemplateArgument::NullPtr: return json::Object{{"null", true}};
    case TemplateArgument::Pack: {
      json::Array arr;
      for (auto &x : a.pack_elements()) arr.push_back(targ(x));
      return json::Object{{"pack", std::move(arr)}};
    }
    default: return json::Object{{"o", "?"}};
    }
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    void *key = T.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int n = types.size();
    typeIds[key] = n;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = T.getAsString(PP);
    if (T.isConstQualified()) o["const"] = true;
    const Type *t = T.getTypePtr();
    if (auto *r = dyn_cast<ReferenceType>(t)) {
      o["k"] = isa<RValueReferenceType>(t) ? "rref" : "ref";
      o["to"] = type(r->getPointeeType());
    } else if (auto *p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr";
      o["to"] = type(p->getPointeeType());
    } else if (auto *bt = dyn_cast<BuiltinType>(t)) {
      if (bt->isBooleanType()) o["k"] = "bool";
      else if (bt->isFloatingPoint()) o["k"] = "float";
      else if (bt->isUnsignedInteger()) o["k"] = "uint";
      else if (bt->isInteger()) o["k"] = "int";
      else o["k"] = bt->isVoidType() ? "void" : "other";
      if (bt->isInteger() || bt->isFloatingPoint()) o["bits"] = (int64_t)C.getTypeSize(T);
    } else if (auto *et = dyn_cast<EnumType>(t)) {
      o["k"] = "enum";
      o["rec"] = qname(et->getDecl());
    } else if (auto *rt = dyn_cast<RecordType>(t)) {
      o["k"] = "rec";
      o["rec"] = qname(rt->getDecl());
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rt->getDecl())) {
        json::Array ta;
        for (auto &a : sp->getTemplateArgs().asArray()) ta.push_back(targ(a));
        o["targs"] = std::move(ta);
      }
      if (auto *crd = dyn_cast<CXXRecordDecl>(rt->getDecl())) {
        if (crd->isLambda()) { o["lambda"] = true; if (auto *op = crd->getLambdaCallOperator()) { o["op"] = id(op); } }
        record(crd);
        o["rid"] = id(crd);
      }
    } else if (auto *at = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr";
      o["to"] = type(at->getElementType());
      o["n"] = (int64_t)at->getSize().getZExtValue();
    } else if (isa<FunctionProtoType>(t)) {
      o["k"] = "fn";
    } else
      o["k"] = "other";
    types[n] = std::move(o);
    return n;
  }
  void record(const CXXRecordDecl *R) {
    if (!R->hasDefinition()) return;
    R = R->getDefinition();
    if (!recDone.insert(R).second) return;
    json::Object o;
    o["name"] = qname(R);
    o["loc"] = loc(R->getLocation());
    bool mine = inRoots(R->getLocation());
    o["mine"] = mine;
    json::Array bases;
    for (auto &b : R->bases()) {
      if (auto *br = b.getType()->getAsCXXRecordDecl()) {
        bases.push_back(id(br));
        record(br);
        auto bn = qname(br);
        if (bn == "std::vector" || bn == "std::list" || bn == "std::array" || bn == "std::deque") o["vecbase"] = type(b.getType());
      }
    }
    o["bases"] = std::move(bases);
    if (mine) {
      json::Array fs;
      for (auto *f : R->fields())
        fs.push_back(json::Object{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"q", qname(f)}, {"access", (int)f->getAccess()}, {"init", f->hasInClassInitializer()}});
      o["fields"] = std::move(fs);
      json::Array ms;
      for (auto *m : R->methods()) ms.push_back(json::Object{{"n", m->getNameAsString()}, {"id", id(m)}, {"access", (int)m->getAccess()}, {"implicit", m->isImplicit()}, {"deleted", m->isDeleted()}, {"defaulted", m->isDefaulted()}, {"const", m->isConst()}});
      o["methods"] = std::move(ms);
    }
    records[id(R)] = std::move(o);
  }

  const FunctionDecl *bodyOf(const FunctionDecl *F) {
    const FunctionDecl *def = nullptr;
    if (F->hasBody(def)) return def;
    return nullptr;
  }
  void want(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *def = bodyOf(F);
    std::string i = id(F);
    if (!fdecls.get(i)) {
      json::Object o;
      o["q"] = qname(F);
      if (F->isNoReturn()) o["noreturn"] = true;
      json::Array ps;
      for (auto *p : F->parameters()) ps.push_back(type(p->getType()));
      o["pt"] = std::move(ps);
      o["rt"] = type(F->getReturnType());
      if (auto *m = dyn_cast<CXXMethodDecl>(F)) {
        o["const"] = m->isConst();
        o["static"] = m->isStatic();
        o["cls"] = id(m->getParent());
        if (isa<CXXConstructorDecl>(m)) o["ctor"] = true;
        if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
      }
      if (def) o["mine"] = inRoots(def->getLocation());
      fdecls[i] = std::move(o);
    }
    if (def && inRoots(def->getLocation()) && !def->isDependentContext()) queue.push_back(def);
  }

  // ---------- expressions
  json::Value ex(const Expr *E) {
    if (!E) return nullptr;
    while (true) {
      if (auto *x = dyn_cast<ExprWithCleanups>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) { E = x->getSubExpr(); continue; }
      break;
    }
    QualType T = E->getType();
    if (!E->isValueDependent() && !E->isTypeDependent()) {
      bool intlike = T->isIntegralOrEnumerationType();
      if (intlike && !E->isGLValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          auto v = R.Val.getInt();
          json::Object o;
          o["k"] = "int";
          if (v.isSigned() || v.getActiveBits() < 63) o["v"] = (int64_t)v.getExtValue();
          else o["v"] = llvm::toString(v, 10);
          o["t"] = type(T);
          return std::move(o);
        }
      }
      if (T->isRealFloatingType() && !E->isGLValue()) {
        llvm::APFloat F(0.0);
        if (E->EvaluateAsFloat(F, C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> s;
          F.toString(s, 17);
          json::Object o{{"k", "float"}, {"v", std::string(s.str())}, {"t", type(T)}};
          return std::move(o);
        }
      }
    }
    json::Object o;
    if (auto *x = dyn_cast<ConstantExpr>(E)) return ex(x->getSubExpr());
    o["t"] = type(T);
    if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl();
      if (auto *f = dyn_cast<FunctionDecl>(D)) {
        want(f);
        o["k"] = "fn"; o["id"] = id(f); o["q"] = qname(f);
      } else if (auto *b = dyn_cast<BindingDecl>(D)) {
        const auto *D = dyn_cast_or_null<VarDecl>(b->getDecomposedDecl());
        if (D && !b->getHoldingVar() && b->getBinding()) return ex(b->getBinding());
        QualType DT = D ? D->getType().getNonReferenceType() : QualType();
        auto *rd = D ? DT->getAsCXXRecordDecl() : nullptr;
        int n = 0, k = -1;
        if (D) for (auto *y : cast<DecompositionDecl>(D)->bindings()) { if (y == b) k = n; n++; }
        if (rd && rd->getQualifiedNameAsString() == "std::pair" && n == 2) {
          json::Object v;
          v["k"] = "var"; v["id"] = id(D); v["n"] = D->getNameAsString(); v["t"] = type(DT);
          if (D->getType()->isReferenceType()) v["isref"] = true;
          o["k"] = "mem"; o["b"] = std::move(v); o["arrow"] = false; o["f"] = k == 0 ? "first" : "second";
          o["q"] = std::string("std::pair::") + (k == 0 ? "first" : "second"); o["fr"] = id(rd);
        } else {
          o["k"] = "other"; o["cls"] = "BindingDecl";
        }
      } else {
        o["k"] = "var"; o["id"] = id(D); o["n"] = D->getNameAsString();
        if (auto *v = dyn_cast<VarDecl>(D)) {
          if (v->hasGlobalStorage()) { o["global"] = true; o["q"] = qname(v); }
          if (v->getType()->isReferenceType()) o["isref"] = true;
        }
      }
      return std::move(o);
    }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return std::move(o); }
    if (auto *x = dyn_cast<MemberExpr>(E)) {
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["k"] = "mem"; o["b"] = ex(x->getBase()); o["arrow"] = x->isArrow();
        o["f"] = f->getNameAsString(); o["q"] = qname(f); o["fr"] = id(f->getParent());
        if (f->getType()->isReferenceType()) o["isref"] = true;
        return std::move(o);
      }
      if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["k"] = "var"; o["id"] = id(v); o["n"] = v->getNameAsString(); o["global"] = true; o["q"] = qname(v);
        return std::move(o);
      }
      if (auto *m = dyn_cast<CXXMethodDecl>(x->getMemberDecl())) {
        want(m); o["k"] = "fn"; o["id"] = id(m); o["q"] = qname(m);
        return std::move(o);
      }
    }
    if (auto *x = dyn_cast<CastExpr>(E)) {
      switch (x->getCastKind()) {
      case CK_NoOp: case CK_FunctionToPointerDecay: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
      case CK_BaseToDerived: case CK_BuiltinFnToFnPtr: case CK_ConstructorConversion: case CK_UserDefinedConversion:
        return ex(x->getSubExpr());
      case CK_LValueToRValue:
        o["k"] = "load"; o["e"] = ex(x->getSubExpr()); return std::move(o);
      default:
        o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = ex(x->getSubExpr());
        o["l"] = loc(E->getExprLoc());
        return std::move(o);
      }
    }
    if (auto *x = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; o["l"] = loc(E->getExprLoc());
      const FunctionDecl *F = x->getDirectCallee();
      json::Array args;
      unsigned start = 0;
      if (F) {
        want(F);
        o["id"] = id(F); o["q"] = qname(F);
        if (auto *m = dyn_cast<CXXMethodDecl>(F)) {
          if (auto *mc = dyn_cast<CXXMemberCallExpr>(x)) {
            const Expr *obj = mc->getImplicitObjectArgument();
            if (!m->isStatic()) {
              o["obj"] = ex(obj);
              if (obj && obj->getType()->isPointerType()) o["arrow"] = true;
            }
          } else if (isa<CXXOperatorCallExpr>(x) && !m->isStatic()) {
            o["obj"] = ex(x->getArg(0));
            start = 1;
          }
        }
        if (auto *ta = F->getTemplateSpecializationArgs()) {
          json::Array tas;
          for (auto &a : ta->asArray()) tas.push_back(targ(a));
          o["targs"] = std::move(tas);
        }
      } else {
        o["fe"] = ex(x->getCallee());
      }
      for (unsigned i = start; i < x->getNumArgs(); i++) args.push_back(ex(x->getArg(i)));
      o["a"] = std::move(args);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      auto *c = x->getConstructor();
      want(c);
      o["k"] = "ctor"; o["id"] = id(c); o["l"] = loc(E->getExprLoc());
      if (c->isCopyOrMoveConstructor()) o["copy"] = true;
      if (c->isMoveConstructor()) o["move"] = true;
      if (c->isDefaultConstructor()) o["def"] = true;
      if (x->requiresZeroInitialization()) o["zero"] = true;
      json::Array args;
      for (auto *a : x->arguments()) args.push_back(ex(a));
      o["a"] = std::move(args);
      return std::move(o);
    }
    if (auto *x = dyn_cast<BinaryOperator>(E)) {
      o["k"] = x->isAssignmentOp() ? (x->isCompoundAssignmentOp() ? "cassign" : "assign") : "bin";
      o["op"] = x->isCompoundAssignmentOp() ? BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str() : x->getOpcodeStr().str();
      if (auto *ca = dyn_cast<CompoundAssignOperator>(x)) o["ct"] = type(ca->getComputationResultType());
      o["a"] = ex(x->getLHS()); o["b"] = ex(x->getRHS()); o["l"] = loc(E->getExprLoc());
      return std::move(o);
    }
    if (auto *x = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = ex(x->getSubExpr()); o["l"] = loc(E->getExprLoc());
      return std::move(o);
    }
    if (auto *x = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond"; o["c"] = ex(x->getCond()); o["a"] = ex(x->getTrueExpr()); o["b"] = ex(x->getFalseExpr());
      return std::move(o);
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx"; o["a"] = ex(x->getBase()); o["b"] = ex(x->getIdx()); o["l"] = loc(E->getExprLoc());
      return std::move(o);
    }
    if (auto *x = dyn_cast<InitListExpr>(E)) {
      o["k"] = "ilist"; json::Array a;
      for (auto *i : x->inits()) a.push_back(ex(i));
      o["a"] = std::move(a); return std::move(o);
    }
    if (auto *x = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; want(x->getCallOperator()); o["id"] = id(x->getCallOperator());
      json::Array caps;
      for (auto &c : x->captures()) {
        if (c.capturesVariable()) caps.push_back(json::Object{{"id", id(c.getCapturedVar())}, {"byref", c.getCaptureKind() == LCK_ByRef}});
        else if (c.capturesThis()) caps.push_back(json::Object{{"this", true}});
      }
      o["caps"] = std::move(caps);
      return std::move(o);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return std::move(o); }
    if (auto *x = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; if (x->isOrdinary()) o["v"] = json::fixUTF8(x->getString()); return std::move(o); }
    if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["at"] = type(x->getAllocatedType()); if (x->isArray() && x->getArraySize()) o["n"] = ex(*x->getArraySize());
      if (x->getNumPlacementArgs()) { o["place"] = ex(x->getPlacementArg(0)); }
      if (x->getInitializer()) o["init"] = ex(x->getInitializer()); o["l"] = loc(E->getExprLoc());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delete"; o["e"] = ex(x->getArgument()); o["arr"] = x->isArrayForm(); o["l"] = loc(E->getExprLoc()); return std::move(o); }
    if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(E)) { o["k"] = "pseudodtor"; o["e"] = ex(x->getBase()); return std::move(o); }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; return std::move(o); }
    if (auto *x = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; return std::move(o); }
    if (auto *x = dyn_cast<OpaqueValueExpr>(E)) { if (x->getSourceExpr()) return ex(x->getSourceExpr()); }
    o["k"] = "other"; o["cls"] = E->getStmtClassName();
    json::Array ch;
    for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) ch.push_back(ex(ce));
    o["a"] = std::move(ch);
    return std::move(o);
  }

  // ---------- statements
  json::Value vardecl(const VarDecl *v) {
    json::Object o{{"k", "decl"}, {"id", id(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = ex(v->getInit());
    o["l"] = loc(v->getLocation());
    return std::move(o);
  }
  json::Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      return json::Object{{"k", "expr"}, {"e", ex(E)}, {"l", loc(E->getExprLoc())}};
    }
    json::Object o;
    o["l"] = loc(S->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block"; json::Array a;
      for (auto *c : x->body()) a.push_back(st(c));
      o["s"] = std::move(a); return std::move(o);
    }
    if (auto *x = dyn_cast<DeclStmt>(S)) {
      json::Array a;
      for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      o["k"] = "decls"; o["s"] = std::move(a); return std::move(o);
    }
    if (auto *x = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
      o["c"] = ex(x->getCond()); o["a"] = st(x->getThen()); o["b"] = st(x->getElse());
      if (x->isConstexpr()) o["constexpr"] = true;
      return std::move(o);
    }
    if (auto *x = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<ForStmt>(S)) {
      o["k"] = "for"; o["init"] = st(x->getInit()); o["c"] = ex(x->getCond()); o["inc"] = ex(x->getInc()); o["b"] = st(x->getBody());
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "forrange"; o["range"] = ex(x->getRangeInit());
      const VarDecl *lv = x->getLoopVariable();
      o["var"] = json::Object{{"id", id(lv)}, {"n", lv->getNameAsString()}, {"t", type(lv->getType())}};
      o["rt"] = type(x->getRangeInit()->getType());
      if (auto *rd = x->getRangeInit()->getType().getNonReferenceType()->getAsCXXRecordDecl())
        if (!rd->isInStdNamespace() && rd->getQualifiedNameAsString().rfind("Eigen::", 0) != 0 && x->getBeginStmt() && x->getEndStmt() && x->getRangeStmt()) {
          auto init = [](const DeclStmt *d) { return cast<VarDecl>(d->getSingleDecl())->getInit(); };
          o["rv"] = id(cast<VarDecl>(x->getRangeStmt()->getSingleDecl()));
          o["bi"] = ex(init(x->getBeginStmt())); o["ei"] = ex(init(x->getEndStmt()));
        }
      o["b"] = st(x->getBody()); return std::move(o);
    }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return std::move(o); }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return std::move(o); }
    if (auto *x = dyn_cast<ReturnStmt>(S)) { o["k"] = "return"; if (x->getRetValue()) o["e"] = ex(x->getRetValue()); return std::move(o); }
    if (isa<NullStmt>(S)) { o["k"] = "null"; return std::move(o); }
    if (auto *x = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = ex(x->getLHS()); o["b"] = st(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["b"] = st(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<AttributedStmt>(S)) return st(x->getSubStmt());
    if (auto *x = dyn_cast<CapturedStmt>(S)) return st(x->getCapturedStmt());
    if (auto *x = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "omp"; o["dir"] = llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str();
      json::Array cl;
      for (auto *c : x->clauses()) {
        json::Object co; co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        if (auto *s = dyn_cast<OMPScheduleClause>(c)) {
          co["sched"] = getOpenMPSimpleClauseTypeName(llvm::omp::OMPC_schedule, s->getScheduleKind());
          if (s->getChunkSize()) co["chunk"] = ex(s->getChunkSize());
        } else if (auto *s = dyn_cast<OMPNumThreadsClause>(c)) {
          co["e"] = ex(s->getNumThreads());
        } else {
          json::Array ch;
          for (auto *k : c->children()) if (auto *ke = dyn_cast_or_null<Expr>(k)) ch.push_back(ex(ke));
          co["a"] = std::move(ch);
        }
        if (c->isImplicit()) co["implicit"] = true;
        cl.push_back(std::move(co));
      }
      if (auto *pi = x->getDirectiveKind() == llvm::omp::OMPD_unknown ? nullptr : x->getAssociatedStmt()) o["b"] = st(pi);
      if (auto *ld = dyn_cast<OMPLoopDirective>(x)) {
        // pre-init statements (captured chunk expression) - dump as declarations
        if (auto *pi = ld->getPreInits()) o["pre"] = st(pi);
      }
      for (auto *c : x->clauses()) if (auto *wp = OMPClauseWithPreInit::get(c)) if (wp->getPreInitStmt()) { o["pre2"] = st(wp->getPreInitStmt()); }
      o["clauses"] = std::move(cl);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXTryStmt>(S)) { return st(x->getTryBlock()); }
    o["k"] = "other"; o["cls"] = S->getStmtClassName();
    return std::move(o);
  }

  void dumpFn(const FunctionDecl *F) {
    if (!done.insert(F).second) return;
    json::Object o;
    o["q"] = qname(F);
    o["l"] = loc(F->getLocation());
    json::Array ps;
    for (auto *p : F->parameters())
      ps.push_back(json::Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
    o["params"] = std::move(ps);
    o["rt"] = type(F->getReturnType());
    if (F->isNoReturn()) o["noreturn"] = true;
    o["internal"] = !F->isExternallyVisible();
    o["inline"] = F->isInlined();
    o["implicit"] = F->isImplicit();
    o["defaulted"] = F->isDefaulted();
    o["constexpr"] = F->isConstexpr();
    o["templated"] = F->isTemplateInstantiation() || F->isTemplated();
    if (auto *ta = F->getTemplateSpecializationArgs()) {
      json::Array tas;
      for (auto &a : ta->asArray()) tas.push_back(targ(a));
      o["targs"] = std::move(tas);
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = id(m->getParent());
      o["clsname"] = qname(m->getParent());
      o["clst"] = type(C.getRecordType(m->getParent()));
      o["static"] = m->isStatic();
      o["const"] = m->isConst();
      o["access"] = (int)m->getAccess();
      record(m->getParent());
    }
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      json::Array inits;
      for (auto *i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); io["fr"] = id(cast<Decl>(i->getAnyMember()->getDeclContext())); io["q"] = qname(i->getAnyMember()); io["ft"] = type(i->getAnyMember()->getType()); }
        else if (i->isBaseInitializer()) io["base"] = id(i->getBaseClass()->getAsCXXRecordDecl());
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = i->isWritten();
        io["e"] = ex(i->getInit());
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = st(F->getBody());
    functions[id(F)] = std::move(o);
  }
  void drain() {
    while (!queue.empty()) {
      auto *f = queue.back();
      queue.pop_back();
      dumpFn(f);
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  json::Array globals;
  explicit V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (F->isTemplated() && !F->isTemplateInstantiation() && F->getDescribedFunctionTemplate()) return true;
    if (D.inRoots(F->getLocation()) && F->doesThisDeclarationHaveABody()) { D.want(F); D.drain(); }
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->isFileVarDecl() && D.inRoots(v->getLocation()) && !v->isTemplated() ) {
      json::Object o{{"q", Dumper::qname(v)}, {"id", D.id(v)}, {"l", D.loc(v->getLocation())}, {"internal", !v->isExternallyVisible()}, {"inline", v->isInline()}, {"const", v->getType().isConstQualified()}, {"constexpr", v->isConstexpr()}, {"t", D.type(v->getType())}, {"def", v->isThisDeclarationADefinition() == VarDecl::Definition}, {"member", v->isStaticDataMember()}, {"tmpl", isa<VarTemplateSpecializationDecl>(v)}};
      if (v->hasInit() && !v->getType()->isDependentType() && !v->getInit()->isValueDependent()) o["init"] = D.ex(v->getInit());
      globals.push_back(std::move(o));
    }
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!D.inRoots(e->getLocation())) return true;
    json::Array a;
    for (auto *c : e->enumerators()) a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", (int64_t)c->getInitVal().getExtValue()}});
    enums[Dumper::qname(e)] = std::move(a);
    return true;
  }
  json::Object enums;
};

struct Con : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    json::Object o;
    o["functions"] = std::move(D.functions);
    o["fdecls"] = std::move(D.fdecls);
    o["records"] = std::move(D.records);
    o["types"] = json::Array(std::move(D.types));
    o["globals"] = std::move(v.globals);
    o["enums"] = std::move(v.enums);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << json::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(); }
};

// usage: extract out.json file.cpp root1:root2 -- flags...
int main(int argc, const char **argv) {
  OutFile = argv[1];
  std::string file = argv[2];
  StringRef r(argv[3]);
  llvm::SmallVector<StringRef, 4> parts;
  r.split(parts, ':');
  for (auto p : parts) Roots.push_back(p.str());
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool t(db, {file});
  return t.run(tooling::newFrontendActionFactory<Act>().get());
}
