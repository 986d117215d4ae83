// Writes the functions and classes defined under a root directory as JSON: resolved callees, types, conversions.
//   extract ROOT OUT -- compiler arguments...
// Nothing is executed; this is the front end of the analyses in ../sa.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>

using namespace clang;
namespace J = llvm::json;

static std::string Root;
static std::string OutFile;

namespace {

class Ex {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::set<const Decl *> done;
  J::Array funs, classes;

  Ex(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
  }

  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }

  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto p = SM.getPresumedLoc(l, false);
    if (p.isInvalid()) return "";
    return p.getFilename();
  }
  int line(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    return SM.getPresumedLineNumber(l);
  }
  bool inRoot(SourceLocation l) {
    std::string f = file(l);
    if (f.compare(0, Root.size(), Root) != 0) return false;
    return true;
  }
  std::string rel(SourceLocation l) {
    std::string f = file(l);
    if (f.compare(0, Root.size(), Root) == 0) return f.substr(Root.size() + 1);
    return f;
  }

  // ---- types -------------------------------------------------------------
  std::string tname(QualType t) {
    t = t.getCanonicalType();
    return t.getAsString(PP);
  }

  static bool derives(const CXXRecordDecl *d, StringRef name, int depth = 0) {
    if (!d || depth > 12) return false;
    d = d->getDefinition();
    if (!d) return false;
    if (d->getName() == name) return true;
    for (auto &b : d->bases()) {
      auto *r = b.getType()->getAsCXXRecordDecl();
      if (derives(r, name, depth + 1)) return true;
    }
    return false;
  }

  bool enumValue(const CXXRecordDecl *d, StringRef name, long &v, int depth = 0) {
    if (!d || depth > 12) return false;
    d = d->getDefinition();
    if (!d) return false;
    for (auto *x : d->decls()) {
      if (auto *e = dyn_cast<EnumDecl>(x))
        for (auto *k : e->enumerators())
          if (k->getName() == name) { v = k->getInitVal().getExtValue(); return true; }
      if (auto *vd = dyn_cast<VarDecl>(x))
        if (vd->getName() == name && vd->hasInit()) {
          Expr::EvalResult r;
          if (!vd->getInit()->isValueDependent() && vd->getInit()->EvaluateAsInt(r, C)) { v = r.Val.getInt().getExtValue(); return true; }
        }
    }
    for (auto &b : d->bases())
      if (enumValue(b.getType()->getAsCXXRecordDecl(), name, v, depth + 1)) return true;
    return false;
  }

  // short kind of a type: what the analyses need to know about it
  std::string kind(QualType t) {
    t = t.getNonReferenceType().getCanonicalType().getUnqualifiedType();
    if (t->isBooleanType()) return "b";
    if (t->isUnsignedIntegerType()) return "u";
    if (t->isIntegerType()) return "i";
    if (t->isFloatingType()) return "d";
    if (t->isVoidType()) return "v";
    if (t->isPointerType()) return "*" + kind(t->getPointeeType());
    auto *r = t->getAsCXXRecordDecl();
    if (!r) return tname(t);
    if (r->isLambda()) return "lambda";
    bool eig = false;
    const DeclContext *dc = r->getDeclContext();
    while (dc) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) if (ns->getName() == "Eigen") eig = true;
      dc = dc->getParent();
    }
    if (eig) {
      bool arr = derives(r, "ArrayBase");
      bool mat = derives(r, "MatrixBase");
      bool sp = derives(r, "SparseMatrixBase");
      bool dg = derives(r, "DiagonalBase");
      if (arr || mat || sp) {
        long cols = -1, rows = -1;
        enumValue(r, "ColsAtCompileTime", cols);
        enumValue(r, "RowsAtCompileTime", rows);
        std::string s = arr ? "EA" : sp ? "ES" : "EM";
        if (cols == 1) s += "1";
        else if (rows == 1) s += "r";
        else s += "2";
        // owning storage, or an expression over other objects?
        bool plain = r->getName() == "Matrix" || r->getName() == "Array" || r->getName() == "SparseMatrix";
        if (!plain) s += "x";
        return s;
      }
      if (dg) return "ED";
      return "E:" + r->getNameAsString();
    }
    return tname(t);
  }

  // ---- expressions ---------------------------------------------------------
  J::Value none() { return J::Value(nullptr); }

  J::Object node(const char *k, const Stmt *s) {
    J::Object o;
    o["k"] = k;
    if (s) {
      SourceLocation l = s->getBeginLoc();
      o["l"] = line(l);
    }
    if (auto *e = dyn_cast_or_null<Expr>(s)) o["t"] = kind(e->getType());
    return o;
  }

  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    return os.str();
  }

  bool project(const FunctionDecl *f) {
    if (!f) return false;
    const FunctionDecl *d = nullptr;
    if (f->hasBody(d) && d) {
      if (inRoot(d->getLocation())) return true;
    }
    if (auto *p = f->getTemplateInstantiationPattern()) if (inRoot(p->getLocation())) return true;
    return inRoot(f->getLocation());
  }

  // signature used to tell overloads apart
  std::string sig(const FunctionDecl *f) {
    std::string s = qname(f);
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      s += "<";
      for (unsigned i = 0; i < ta->size(); ++i) {
        std::string a;
        llvm::raw_string_ostream os(a);
        ta->get(i).print(PP, os, true);
        s += (i ? "," : "") + os.str();
      }
      s += ">";
    }
    s += "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) {
      if (i) s += ",";
      s += ptype(f->getParamDecl(i)->getType());
    }
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "c";
    return s;
  }

  std::string ptype(QualType t) {
    std::string s = kind(t);
    if (t->isReferenceType()) {
      QualType p = t->getPointeeType();
      s += p.isConstQualified() ? "" : "&";
    }
    return s;
  }

  J::Object callee(const FunctionDecl *f) {
    J::Object o;
    o["n"] = f->getNameAsString();
    o["q"] = qname(f);
    if (project(f)) { o["s"] = sig(f); o["p"] = true; }
    else if (o["n"] == "selfadjointView" || o["n"] == "triangularView") {
      if (auto *ta = f->getTemplateSpecializationArgs())
        if (ta->size() == 1 && ta->get(0).getKind() == TemplateArgument::Integral)
          o["ta"] = (int64_t)ta->get(0).getAsIntegral().getExtValue();
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["c"] = qname(m->getParent());
      if (m->isConst()) o["const"] = true;
      if (m->isVirtual()) o["virt"] = true;
      if (m->isStatic()) o["static"] = true;
    }
    return o;
  }

  J::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> as) {
    J::Array a;
    for (auto *x : as) a.push_back(expr(x));
    return a;
  }

  static const Expr *strip(const Expr *e) {
    while (e) {
      if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else break;
    }
    return e;
  }

  // make_shared<T>(args): the constructor that is meant, where only one fits
  bool construction(const CallExpr *x, const FunctionDecl *f, J::Object &out) {
    auto *ta = f->getTemplateSpecializationArgs();
    if (!ta || ta->size() < 1 || ta->get(0).getKind() != TemplateArgument::Type) return false;
    auto *r = ta->get(0).getAsType()->getAsCXXRecordDecl();
    if (!r || !(r = r->getDefinition())) return false;
    std::vector<const CXXConstructorDecl *> fit[2];
    unsigned n = x->getNumArgs();
    for (auto *c : r->ctors()) {
      if (c->isDeleted() || n > c->getNumParams() || n < c->getMinRequiredArguments()) continue;
      bool same = true, could = true;
      for (unsigned i = 0; i < n; ++i) {
        QualType p = c->getParamDecl(i)->getType().getNonReferenceType().getCanonicalType().getUnqualifiedType();
        QualType a = x->getArg(i)->getType().getNonReferenceType().getCanonicalType().getUnqualifiedType();
        if (p == a) continue;
        same = false;
        if (!(p->isArithmeticType() && a->isArithmeticType())) could = could && p->isRecordType() && a->isRecordType() && n > 1;
      }
      if (same) fit[0].push_back(c);
      else if (could) fit[1].push_back(c);
    }
    auto &v = fit[0].empty() ? fit[1] : fit[0];
    if (v.size() != 1) return false;
    const CXXConstructorDecl *c = v[0];
    J::Object o = node("ctor", x);
    o["t"] = kind(ta->get(0).getAsType());
    o["f"] = callee(c);
    o["c"] = qname(r);
    J::Array a;
    for (unsigned i = 0; i < c->getNumParams(); ++i) {
      if (i < n) a.push_back(expr(x->getArg(i)));
      else if (c->getParamDecl(i)->hasDefaultArg() && !c->getParamDecl(i)->hasUninstantiatedDefaultArg()) {
        J::Object d = node("dflt", x);
        d["t"] = kind(c->getParamDecl(i)->getType());
        d["e"] = expr(c->getParamDecl(i)->getDefaultArg());
        a.push_back(std::move(d));
      }
    }
    o["a"] = std::move(a);
    out = node("new", x);
    out["of"] = kind(ta->get(0).getAsType());
    out["e"] = std::move(o);
    return true;
  }

  J::Value expr(const Expr *e) {
    e = strip(e);
    if (!e) return none();
    if (auto *x = dyn_cast<ImplicitCastExpr>(e)) return castTo(x);
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
      J::Object o = node("dflt", e);
      o["e"] = expr(x->getExpr());
      return o;
    }
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      J::Object o = node("int", e);
      o["v"] = (int64_t)x->getValue().getSExtValue();
      return o;
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      J::Object o = node("flt", e);
      llvm::SmallString<40> s;
      x->getValue().toString(s, 20);
      o["v"] = s.str().str();
      // as written, so that 0.1 is one tenth
      bool inv = false;
      StringRef src = Lexer::getSourceText(CharSourceRange::getTokenRange(x->getSourceRange()), SM, C.getLangOpts(), &inv);
      if (!inv && !src.empty()) o["src"] = src.str();
      return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      J::Object o = node("bool", e);
      o["v"] = x->getValue();
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      J::Object o = node("str", e);
      if (x->isOrdinary() || x->isUTF8()) o["v"] = J::fixUTF8(x->getString());
      return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      J::Object o = node("int", e);
      o["v"] = (int64_t)x->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return node("null", e);
    if (isa<CXXThisExpr>(e)) return node("this", e);
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      J::Object o = node("ref", e);
      o["n"] = d->getNameAsString();
      if (auto *v = dyn_cast<VarDecl>(d)) {
        o["id"] = id(d);
        o["d"] = isa<ParmVarDecl>(d) ? "parm" : v->isLocalVarDecl() ? (v->isStaticLocal() ? "slocal" : "local") : "global";
        if (!v->isLocalVarDecl() && !isa<ParmVarDecl>(d)) {
          o["q"] = qname(v);
          if (inRoot(v->getLocation())) o["p"] = true;
        }
      } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["d"] = "fn";
        o["f"] = callee(f);
      } else if (auto *k = dyn_cast<EnumConstantDecl>(d)) {
        o["d"] = "enum";
        o["v"] = (int64_t)k->getInitVal().getExtValue();
        o["q"] = qname(k);
      } else {
        o["d"] = "other";
        o["id"] = id(d);
      }
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      J::Object o = node("mem", e);
      o["n"] = x->getMemberDecl()->getNameAsString();
      o["b"] = expr(x->getBase());
      if (x->isArrow()) o["arrow"] = true;
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["c"] = qname(f->getParent());
        if (inRoot(f->getLocation())) o["p"] = true;
      } else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["k"] = "ref"; o["d"] = "global"; o["q"] = qname(v); o["id"] = id(v);
        if (inRoot(v->getLocation())) o["p"] = true;
      }
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      const CXXMethodDecl *m = x->getMethodDecl();
      J::Object o = node("mcall", e);
      if (e->isGLValue() && e->getType()->isRecordType()) o["lv"] = true;
      if (m) {
        o["f"] = callee(m);
        if (isa<CXXConversionDecl>(m)) o["conv"] = true;
      }
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        o["o"] = expr(me->getBase());
        if (me->isArrow()) o["arrow"] = true;
        if (me->hasQualifier()) o["nonvirt"] = true;
      } else o["callee"] = expr(x->getCallee());
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      J::Object o = node("op", e);
      if (e->isGLValue() && e->getType()->isRecordType()) o["lv"] = true;
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *f = x->getDirectCallee()) o["f"] = callee(f);
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      if (auto *f = x->getDirectCallee())
        if (f->isInStdNamespace() && (f->getNameAsString() == "make_shared" || f->getNameAsString() == "make_unique")) {
          J::Object made;
          if (construction(x, f, made)) return made;
        }
      J::Object o = node("call", e);
      if (e->isGLValue() && e->getType()->isRecordType()) o["lv"] = true;
      if (auto *f = x->getDirectCallee()) o["f"] = callee(f);
      else o["callee"] = expr(x->getCallee());
      o["a"] = args(x->arguments());
      return o;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      (void)x;
      return node("unk", e);
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {   // includes CXXTemporaryObjectExpr
      const CXXConstructorDecl *c = x->getConstructor();
      if (c->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) {
        J::Object o = node("copy", e);
        o["e"] = expr(x->getArg(0));
        if (project(c) && !c->isDefaulted()) o["f"] = callee(c);
        return o;
      }
      J::Object o = node("ctor", e);
      o["f"] = callee(c);
      o["c"] = qname(c->getParent());
      J::Array a;
      for (auto *y : x->arguments()) a.push_back(expr(y));
      o["a"] = std::move(a);
      if (x->isListInitialization()) o["list"] = true;
      if (x->isStdInitListInitialization()) o["sil"] = true;
      if (c->isImplicit() || c->isDefaulted()) o["implicit"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      J::Object o = node("ilist", e);
      J::Array a;
      for (auto *y : x->inits()) a.push_back(expr(y));
      o["a"] = std::move(a);
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return node("zero", e);
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      J::Object o = node("new", e);
      o["of"] = kind(x->getAllocatedType());
      if (x->getInitializer()) o["e"] = expr(x->getInitializer());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      J::Object o = node("delete", e);
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      J::Object o = node("throw", e);
      if (x->getSubExpr()) o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) return lambda(x);
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      J::Object o = node(x->isAssignmentOp() ? "asg" : "bin", e);
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      if (auto *ca = dyn_cast<CompoundAssignOperator>(x)) o["ct"] = kind(ca->getComputationResultType());
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      J::Object o = node("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      J::Object o = node("cond", e);
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      J::Object o = node("subs", e);
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
      return o;
    }
    if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
      J::Object o = node("cast", e);
      o["ck"] = x->getCastKindName();
      o["e"] = expr(x->getSubExpr());
      if (auto *f = dyn_cast_or_null<FunctionDecl>(x->getConversionFunction())) o["f"] = callee(f);
      return o;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      (void)x;
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C)) {
        J::Object o = node("int", e);
        o["v"] = (int64_t)r.Val.getInt().getExtValue();
        return o;
      }
    }
    J::Object o = node("unk", e);
    o["w"] = e->getStmtClassName();
    J::Array a;
    for (auto *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
    o["a"] = std::move(a);
    return o;
  }

  J::Value castTo(const ImplicitCastExpr *x) {
    switch (x->getCastKind()) {
    case CK_FloatingToIntegral:
    case CK_IntegralToFloating:
    case CK_IntegralToBoolean:
    case CK_FloatingToBoolean:
    case CK_PointerToBoolean: {
      J::Object o = node("cast", x);
      o["ck"] = x->getCastKindName();
      o["imp"] = true;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    default:
      return expr(x->getSubExpr());
    }
  }

  J::Value lambda(const LambdaExpr *x) {
    J::Object o = node("lambda", x);
    J::Array caps;
    for (auto &c : x->captures()) {
      J::Object k;
      if (c.capturesThis()) { k["this"] = true; k["byref"] = c.getCaptureKind() == LCK_This; }
      else if (c.capturesVariable()) {
        k["n"] = c.getCapturedVar()->getNameAsString();
        k["id"] = id(c.getCapturedVar());
        k["byref"] = c.getCaptureKind() == LCK_ByRef;
        if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar())) {
          if (vd->getType()->isReferenceType()) k["isref"] = true;
          k["t"] = kind(vd->getType());
        }
      }
      caps.push_back(std::move(k));
    }
    o["caps"] = std::move(caps);
    const CXXMethodDecl *m = x->getCallOperator();
    o["params"] = params(m);
    o["ret"] = ptype(m->getReturnType());
    o["body"] = stmt(x->getBody());
    o["line"] = line(x->getBeginLoc());
    if (x->isMutable()) o["mutable"] = true;
    return o;
  }

  J::Array params(const FunctionDecl *f) {
    J::Array a;
    for (auto *p : f->parameters()) {
      J::Object o;
      o["n"] = p->getNameAsString();
      o["id"] = id(p);
      o["t"] = kind(p->getType());
      QualType t = p->getType();
      if (t->isReferenceType()) { o["ref"] = true; if (!t->getPointeeType().isConstQualified()) o["mut"] = true; }
      if (t->isPointerType() && !t->getPointeeType().isConstQualified()) o["mutptr"] = true;
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["dflt"] = expr(p->getDefaultArg());
      a.push_back(std::move(o));
    }
    return a;
  }

  J::Object var(const VarDecl *v) {
    J::Object o;
    o["k"] = "var";
    o["l"] = line(v->getBeginLoc());
    o["n"] = v->getNameAsString();
    o["id"] = id(v);
    o["t"] = kind(v->getType());
    if (v->getType()->isReferenceType()) {
      o["ref"] = true;
      if (v->getType()->getPointeeType().isConstQualified()) o["cref"] = true;
    }
    if (v->getType().isConstQualified()) o["const"] = true;
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getType()->getContainedAutoType()) o["auto"] = true;
    o["full"] = tname(v->getType()).substr(0, 300);
    if (v->hasInit()) o["init"] = expr(v->getInit());
    return o;
  }

  // ---- statements ------------------------------------------------------------
  J::Value stmt(const Stmt *s) {
    if (!s) return none();
    if (auto *x = dyn_cast<Expr>(s)) {
      J::Object o;
      o["k"] = "expr";
      o["l"] = line(s->getBeginLoc());
      o["e"] = expr(x);
      return o;
    }
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      J::Object o = node("blk", s);
      J::Array a;
      for (auto *y : x->body()) a.push_back(stmt(y));
      o["s"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      J::Object o = node("decl", s);
      J::Array a;
      for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["v"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      J::Object o = node("if", s);
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
      o["c"] = expr(x->getCond());
      o["a"] = stmt(x->getThen());
      if (x->getElse()) o["b"] = stmt(x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      J::Object o = node("for", s);
      o["init"] = stmt(x->getInit());
      o["c"] = x->getCond() ? expr(x->getCond()) : none();
      o["inc"] = x->getInc() ? expr(x->getInc()) : none();
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      J::Object o = node("rfor", s);
      o["v"] = var(x->getLoopVariable());
      o["r"] = expr(x->getRangeInit());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      J::Object o = node("while", s);
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) {
      J::Object o = node("do", s);
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<ReturnStmt>(s)) {
      J::Object o = node("ret", s);
      if (x->getRetValue()) o["e"] = expr(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) return node("break", s);
    if (isa<ContinueStmt>(s)) return node("cont", s);
    if (isa<NullStmt>(s)) return node("nop", s);
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      J::Object o = node("try", s);
      o["body"] = stmt(x->getTryBlock());
      J::Array a;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        J::Object h;
        auto *c = x->getHandler(i);
        if (c->getExceptionDecl()) h["v"] = var(c->getExceptionDecl());
        h["body"] = stmt(c->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      J::Object o = node("switch", s);
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) {
      J::Object o = node("case", s);
      o["v"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) {
      J::Object o = node("default", s);
      o["s"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    J::Object o = node("unk", s);
    o["w"] = s->getStmtClassName();
    return o;
  }

  // ---- definitions --------------------------------------------------------------
  void function(const FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return;
    if (f->isDefaulted() || f->isDeleted()) return;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
    if (!inRoot(f->getLocation())) {
      auto *p = f->getTemplateInstantiationPattern();
      if (!p || !inRoot(p->getLocation())) return;
    }
    if (!done.insert(f->getCanonicalDecl()).second) return;
    J::Object o;
    o["n"] = f->getNameAsString();
    o["q"] = qname(f);
    o["s"] = sig(f);
    o["file"] = rel(f->getLocation());
    o["line"] = line(f->getLocation());
    o["endline"] = line(f->getEndLoc());
    o["params"] = params(f);
    o["ret"] = kind(f->getReturnType());
    if (f->getReturnType()->isReferenceType()) o["retref"] = true;
    o["autoret"] = f->getReturnType()->getContainedAutoType() != nullptr;
    if (f->getLinkageInternal() == Linkage::Internal || f->isInAnonymousNamespace()) o["static"] = true;
    if (f->getTemplateSpecializationArgs()) o["tmpl"] = true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["c"] = qname(m->getParent());
      if (m->isConst()) o["const"] = true;
      if (m->isVirtual()) o["virt"] = true;
      if (m->isStatic()) o["smeth"] = true;
      o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
        o["ctor"] = true;
        J::Array a;
        for (auto *i : c->inits()) {
          J::Object k;
          if (i->isAnyMemberInitializer()) k["m"] = i->getAnyMember()->getNameAsString();
          else if (i->isBaseInitializer()) k["base"] = kind(QualType(i->getBaseClass(), 0));
          else if (i->isDelegatingInitializer()) k["dele"] = true;
          k["written"] = i->isWritten();
          k["e"] = expr(i->getInit());
          k["l"] = line(i->getSourceLocation());
          a.push_back(std::move(k));
        }
        o["inits"] = std::move(a);
      }
      if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
    }
    o["body"] = stmt(f->getBody());
    funs.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return;
    if (!inRoot(r->getLocation())) return;
    if (!done.insert(r).second) return;
    J::Object o;
    o["n"] = qname(r);
    o["file"] = rel(r->getLocation());
    o["line"] = line(r->getLocation());
    J::Array fs;
    for (auto *f : r->fields()) {
      J::Object k;
      k["n"] = f->getNameAsString();
      k["t"] = kind(f->getType());
      k["full"] = tname(f->getType()).substr(0, 300);
      k["line"] = line(f->getLocation());
      if (f->isMutable()) k["mutable"] = true;
      if (f->getType()->isReferenceType()) k["ref"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer()) k["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(k));
    }
    o["fields"] = std::move(fs);
    J::Array bs;
    for (auto &b : r->bases()) bs.push_back(kind(b.getType()));
    o["bases"] = std::move(bs);
    J::Array ms;
    for (auto *m : r->methods()) {
      if (m->isImplicit()) continue;
      J::Object k;
      k["s"] = sig(m);
      k["n"] = m->getNameAsString();
      if (m->isVirtual()) k["virt"] = true;
      if (m->isPureVirtual()) k["pure"] = true;
      J::Array ov;
      for (auto *x : m->overridden_methods()) ov.push_back(sig(x));
      k["over"] = std::move(ov);
      ms.push_back(std::move(k));
    }
    o["methods"] = std::move(ms);
    if (r->hasUserDeclaredCopyConstructor() || r->hasUserDeclaredCopyAssignment()) o["usercopy"] = true;
    classes.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Ex &X;
  V(Ex &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *d) {
    // skip the bodies of headers outside the root
    if (d && (isa<FunctionDecl>(d) || isa<CXXRecordDecl>(d) || isa<ClassTemplateDecl>(d) || isa<VarDecl>(d)) && d->getLocation().isValid() && !X.inRoot(d->getLocation()))
      return true;
    return RecursiveASTVisitor<V>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl *f) { X.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { X.record(r); return true; }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Ex x(c);
    V v(x);
    v.TraverseDecl(c.getTranslationUnitDecl());
    J::Object o;
    o["functions"] = std::move(x.funs);
    o["classes"] = std::move(x.classes);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << J::Value(std::move(o));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "extract ROOT OUT FILE args...\n"; return 2; }
  Root = argv[1];
  OutFile = argv[2];
  std::string src = argv[3];
  std::vector<std::string> a;
  for (int i = 4; i < argc; ++i) a.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", a);
  tooling::ClangTool tool(db, {src});
  tool.clearArgumentsAdjusters();
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
