// Dumps the functions of the repository that a translation unit defines, as
// JSON: a simplified syntax tree with resolved names and types.  One line per
// function.  Usage: extract ROOT FILE... -- FLAGS
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclFriend.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include <map>
#include <set>
#include <sstream>
using namespace clang;
static std::string Root;

struct Dump {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::string o;
  std::map<const Decl *, int> ids;
  std::set<const Decl *> done;
  explicit Dump(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
    PP.TerseOutput = true;
    PP.AnonymousTagLocations = false;
  }
  bool mine(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = SM.getFilename(l);
    return f.starts_with(Root);
  }
  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }
  void s(StringRef x) {
    o += '"';
    for (unsigned char c : x) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
    o += '"';
  }
  void key(const char *k) { o += ",\""; o += k; o += "\":"; }
  void kv(const char *k, StringRef v) { key(k); s(v); }
  void kn(const char *k, long v) { key(k); o += std::to_string(v); }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  std::string ty(QualType t) {
    if (t.isNull()) return "?";
    return t.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *d) {
    std::string r;
    llvm::raw_string_ostream os(r);
    d->printQualifiedName(os, PP);
    return r;
  }
  void targs(const FunctionDecl *f) {
    const TemplateArgumentList *a = f->getTemplateSpecializationArgs();
    std::string r;
    llvm::raw_string_ostream os(r);
    if (a)
      for (unsigned i = 0; i < a->size(); i++) { if (i) os << ", "; a->get(i).print(PP, os, true); }
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) {
        os << "|";
        auto &l = sp->getTemplateArgs();
        for (unsigned i = 0; i < l.size(); i++) { if (i) os << ", "; l.get(i).print(PP, os, true); }
      }
    if (!r.empty()) kv("ta", r);
  }
  void list(const char *k, ArrayRef<const Stmt *> xs) {
    key(k);
    o += '[';
    bool first = true;
    for (auto *x : xs) { if (!first) o += ','; first = false; st(x); }
    o += ']';
  }
  void sub(const char *k, const Stmt *x) { if (x) { key(k); st(x); } }
  void open(const char *k, const Stmt *x) {
    o += "{\"k\":\"";
    o += k;
    o += "\"";
    kn("l", line(x->getBeginLoc()));
    if (!nar.empty()) { std::string t; t.swap(nar); kv("nar", t); }
  }
  // Conversions of values that lose some of them: "double>float", with a
  // leading '!' where they are written out.
  std::string nar;
  void lossy(QualType f, QualType t, bool is_explicit, const Expr *e) {
    f = f.getCanonicalType().getUnqualifiedType(); t = t.getCanonicalType().getUnqualifiedType();
    if (f->isDependentType() || t->isDependentType() || e->isValueDependent() || e->isTypeDependent()) return;
    if (!f->isArithmeticType() || !t->isArithmeticType() || f->isBooleanType() || t->isBooleanType()) return;
    if (f->isEnumeralType() || t->isEnumeralType()) return;
    uint64_t a = C.getTypeSize(f), b = C.getTypeSize(t);
    bool ff = f->isRealFloatingType(), tf = t->isRealFloatingType(), loses = false;
    if (ff && tf) loses = a > b;
    else if (!ff && tf) loses = a >= b && a >= 32;
    else if (ff && !tf) loses = true;
    else loses = a > b && a >= 32;
    if (!loses) return;
    Expr::EvalResult r;
    if (e->EvaluateAsRValue(r, C)) return;
    nar = (is_explicit ? "!" : "") + f.getAsString(PP) + ">" + t.getAsString(PP);
  }
  void var(const VarDecl *d) {
    o += "{\"k\":\"var\"";
    kn("l", line(d->getLocation()));
    kv("n", d->getName());
    kn("d", id(d));
    kv("t", ty(d->getType()));
    if (d->isStaticLocal()) kn("static", 1);
    if (d->getTLSKind() != VarDecl::TLS_None) kn("tls", 1);
    if (d->hasInit()) sub("i", d->getInit());
    o += '}';
  }
  void args(const char *k, Expr *const *a, unsigned n) {
    key(k);
    o += '[';
    for (unsigned i = 0; i < n; i++) {
      if (i) o += ',';
      st(a[i]);
    }
    o += ']';
  }
  void callee(const Expr *f) {
    f = f->IgnoreParenImpCasts();
    if (auto *r = dyn_cast<DeclRefExpr>(f)) {
      if (auto *fd = dyn_cast<FunctionDecl>(r->getDecl())) { kv("f", qn(fd)); targs(fd); kn("fd", id(pat(fd))); return; }
      sub("c", f);
      return;
    }
    if (auto *m = dyn_cast<MemberExpr>(f)) {
      if (auto *fd = dyn_cast<FunctionDecl>(m->getMemberDecl())) {
        kv("f", qn(fd)); targs(fd); kn("fd", id(pat(fd)));
        sub("o", m->getBase());
        if (m->isArrow()) kn("arrow", 1);
        return;
      }
    }
    if (auto *u = dyn_cast<UnresolvedLookupExpr>(f)) { kv("f", u->getName().getAsString()); kn("dep", 1); return; }
    if (auto *u = dyn_cast<UnresolvedMemberExpr>(f)) {
      kv("f", u->getMemberName().getAsString()); kn("dep", 1);
      if (!u->isImplicitAccess()) { sub("o", u->getBase()); if (u->isArrow()) kn("arrow", 1); }
      return;
    }
    if (auto *u = dyn_cast<CXXDependentScopeMemberExpr>(f)) {
      kv("f", u->getMember().getAsString()); kn("dep", 1);
      if (!u->isImplicitAccess()) { sub("o", u->getBase()); if (u->isArrow()) kn("arrow", 1); }
      return;
    }
    if (auto *u = dyn_cast<DependentScopeDeclRefExpr>(f)) { kv("f", u->getDeclName().getAsString()); kn("dep", 1); return; }
    sub("c", f);
  }
  const FunctionDecl *pat(const FunctionDecl *f) {
    if (auto *p = f->getTemplateInstantiationPattern()) return p;
    return f;
  }
  // Expression or statement.
  void st(const Stmt *x) {
    if (!x) { o += "null"; return; }
    if (auto *e = dyn_cast<Expr>(x)) {
      for (;;) {
        const Expr *b = e;
        e = e->IgnoreParens();
        if (auto *i = dyn_cast<ImplicitCastExpr>(e)) {
          auto k = i->getCastKind();
          if (k == CK_NullToPointer) { open("null", e); o += '}'; return; }
          if (k == CK_IntegralToBoolean || k == CK_PointerToBoolean || k == CK_FloatingToBoolean) {
            open("bool", e); sub("e", i->getSubExpr()); o += '}'; return;
          }
          if (k == CK_FloatingCast || k == CK_IntegralToFloating || k == CK_IntegralCast || k == CK_FloatingToIntegral)
            lossy(i->getSubExpr()->getType(), i->getType(), i->isPartOfExplicitCast(), i->getSubExpr());
          e = i->getSubExpr();
        } else if (auto *i = dyn_cast<FullExpr>(e)) e = i->getSubExpr();
        else if (auto *i = dyn_cast<MaterializeTemporaryExpr>(e)) e = i->getSubExpr();
        else if (auto *i = dyn_cast<CXXBindTemporaryExpr>(e)) e = i->getSubExpr();
        else if (auto *i = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = i->getReplacement();
        else if (auto *i = dyn_cast<CXXDefaultArgExpr>(e)) { open("dflt", e); sub("e", i->getExpr()); o += '}'; return; }
        else if (auto *i = dyn_cast<CXXDefaultInitExpr>(e)) e = i->getExpr();
        if (e == b) break;
      }
      ex(e);
      return;
    }
    switch (x->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      open("blk", x);
      kn("e", line(x->getEndLoc()));
      key("b"); o += '[';
      bool f = true;
      for (auto *y : cast<CompoundStmt>(x)->body()) { if (!f) o += ','; f = false; st(y); }
      o += "]}";
      return;
    }
    case Stmt::DeclStmtClass: {
      open("decl", x);
      key("b"); o += '[';
      bool f = true;
      for (auto *d : cast<DeclStmt>(x)->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) { if (!f) o += ','; f = false; var(v); }
      }
      o += "]}";
      return;
    }
    case Stmt::IfStmtClass: {
      auto *i = cast<IfStmt>(x);
      open("if", x); if (i->isConstexpr()) kn("constexpr", 1); sub("init", i->getInit());
      if (i->getConditionVariable()) { key("cv"); var(i->getConditionVariable()); }
      sub("c", i->getCond()); sub("t", i->getThen()); sub("f", i->getElse()); o += '}';
      return;
    }
    case Stmt::ForStmtClass: {
      auto *i = cast<ForStmt>(x);
      open("for", x); sub("i", i->getInit()); sub("c", i->getCond()); sub("s", i->getInc()); sub("b", i->getBody()); o += '}';
      return;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *i = cast<CXXForRangeStmt>(x);
      open("range", x); key("v"); var(i->getLoopVariable()); sub("r", i->getRangeInit());
      if (i->getRangeInit()) kv("rt", ty(i->getRangeInit()->getType()));
      sub("b", i->getBody()); o += '}';
      return;
    }
    case Stmt::WhileStmtClass: {
      auto *i = cast<WhileStmt>(x);
      open("while", x); sub("c", i->getCond()); sub("b", i->getBody()); o += '}';
      return;
    }
    case Stmt::DoStmtClass: {
      auto *i = cast<DoStmt>(x);
      open("do", x); sub("b", i->getBody()); sub("c", i->getCond()); o += '}';
      return;
    }
    case Stmt::SwitchStmtClass: {
      auto *i = cast<SwitchStmt>(x);
      open("switch", x); sub("c", i->getCond()); sub("b", i->getBody()); o += '}';
      return;
    }
    case Stmt::CaseStmtClass: {
      auto *i = cast<CaseStmt>(x);
      open("case", x); sub("v", i->getLHS()); sub("b", i->getSubStmt()); o += '}';
      return;
    }
    case Stmt::DefaultStmtClass: open("default", x); sub("b", cast<DefaultStmt>(x)->getSubStmt()); o += '}'; return;
    case Stmt::BreakStmtClass: open("break", x); o += '}'; return;
    case Stmt::ContinueStmtClass: open("continue", x); o += '}'; return;
    case Stmt::NullStmtClass: open("nop", x); o += '}'; return;
    case Stmt::ReturnStmtClass: open("ret", x); sub("e", cast<ReturnStmt>(x)->getRetValue()); o += '}'; return;
    case Stmt::CXXTryStmtClass: {
      auto *t = cast<CXXTryStmt>(x);
      open("try", x); sub("b", t->getTryBlock());
      key("h"); o += '[';
      for (unsigned i = 0; i < t->getNumHandlers(); i++) { if (i) o += ','; st(t->getHandler(i)->getHandlerBlock()); }
      o += "]}";
      return;
    }
    case Stmt::AttributedStmtClass: st(cast<AttributedStmt>(x)->getSubStmt()); return;
    case Stmt::LabelStmtClass: st(cast<LabelStmt>(x)->getSubStmt()); return;
    default: break;
    }
    open("stmt", x);
    kv("n", x->getStmtClassName());
    std::vector<const Stmt *> ch;
    for (auto *y : x->children()) if (y) ch.push_back(y);
    list("b", ch);
    o += '}';
  }
  void ex(const Expr *e) {
    if (auto *r = dyn_cast<DeclRefExpr>(e)) {
      auto *d = r->getDecl();
      open("ref", e);
      if (isa<ParmVarDecl>(d)) kv("dk", "param");
      else if (auto *v = dyn_cast<VarDecl>(d)) kv("dk", v->isLocalVarDecl() ? "local" : "global");
      else if (isa<EnumConstantDecl>(d)) kv("dk", "enum");
      else if (isa<FunctionDecl>(d)) kv("dk", "func");
      else if (isa<BindingDecl>(d)) kv("dk", "bind");
      else kv("dk", d->getDeclKindName());
      kv("n", isa<ParmVarDecl>(d) || (isa<VarDecl>(d) && cast<VarDecl>(d)->isLocalVarDecl()) ? d->getName().str() : qn(d));
      if (auto *c = dyn_cast<EnumConstantDecl>(d)) kn("v", c->getInitVal().getExtValue());
      kn("d", id(d));
      kv("t", ty(e->getType()));
      o += '}';
      return;
    }
    if (auto *m = dyn_cast<MemberExpr>(e)) {
      open("mem", e);
      kv("n", m->getMemberDecl()->getDeclName().getAsString());
      if (isa<VarDecl>(m->getMemberDecl())) kn("static", 1);
      if (m->isArrow()) kn("arrow", 1);
      kv("t", ty(e->getType()));
      sub("o", m->getBase());
      o += '}';
      return;
    }
    if (auto *l = dyn_cast<LambdaExpr>(e)) {
      open("lambda", e);
      key("cap"); o += '[';
      bool f = true;
      for (auto &c : l->captures()) {
        if (!f) o += ',';
        f = false;
        o += "{\"k\":\"cap\"";
        if (c.capturesThis()) kn("this", 1);
        else if (c.capturesVariable()) {
          kv("n", c.getCapturedVar()->getName()); kn("d", id(c.getCapturedVar())); kv("t", ty(c.getCapturedVar()->getType()));
          if (auto *v = dyn_cast<VarDecl>(c.getCapturedVar())) if (v->isInitCapture() && v->getInit()) sub("i", v->getInit());
        }
        if (c.getCaptureKind() == LCK_ByRef) kn("ref", 1);
        o += '}';
      }
      o += ']';
      params(l->getCallOperator());
      kv("ret", ty(l->getCallOperator()->getReturnType()));
      sub("b", l->getBody());
      o += '}';
      return;
    }
    if (auto *c = dyn_cast<CXXOperatorCallExpr>(e)) {
      open("opcall", e);
      kv("op", getOperatorSpelling(c->getOperator()));
      if (auto *fd = c->getDirectCallee()) { kv("f", qn(fd)); targs(fd); kn("fd", id(pat(fd))); if (auto *m = dyn_cast<CXXMethodDecl>(fd)) if (m->isConst()) kn("const", 1); }
      kv("t", ty(e->getType()));
      args("a", const_cast<CXXOperatorCallExpr *>(c)->getArgs(), c->getNumArgs());
      o += '}';
      return;
    }
    if (auto *c = dyn_cast<CallExpr>(e)) {
      open("call", e);
      callee(c->getCallee());
      kv("t", ty(e->getType()));
      args("a", const_cast<CallExpr *>(c)->getArgs(), c->getNumArgs());
      o += '}';
      return;
    }
    if (auto *c = dyn_cast<CXXConstructExpr>(e)) {
      auto *d = c->getConstructor();
      if (c->isElidable() && c->getNumArgs() == 1) { st(c->getArg(0)); return; }
      open("ctor", e);
      kv("t", ty(e->getType().getUnqualifiedType()));
      if (d->isCopyConstructor()) kn("copy", 1);
      if (d->isMoveConstructor()) kn("move", 1);
      if (c->requiresZeroInitialization()) kn("zero", 1);
      kn("fd", id(pat(d)));
      kv("f", qn(d));
      args("a", const_cast<CXXConstructExpr *>(c)->getArgs(), c->getNumArgs());
      o += '}';
      return;
    }
    if (auto *c = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
      open("ctor", e); kv("t", ty(c->getTypeAsWritten())); kn("dep", 1);
      key("a"); o += '[';
      for (unsigned i = 0; i < c->getNumArgs(); i++) { if (i) o += ','; st(c->getArg(i)); }
      o += "]}";
      return;
    }
    if (auto *c = dyn_cast<CXXTemporaryObjectExpr>(e)) { (void)c; }
    if (auto *b = dyn_cast<BinaryOperator>(e)) {
      if (auto *ca = dyn_cast<CompoundAssignOperator>(b))
        if (nar.empty()) lossy(ca->getComputationResultType(), ca->getLHS()->getType(), false, b->getRHS());
      open("bin", e); kv("op", b->getOpcodeStr()); kv("t", ty(e->getType())); sub("a", b->getLHS()); sub("b", b->getRHS()); o += '}';
      return;
    }
    if (auto *u = dyn_cast<UnaryOperator>(e)) {
      open("un", e); kv("op", UnaryOperator::getOpcodeStr(u->getOpcode())); if (u->isPostfix()) kn("post", 1); kv("t", ty(e->getType())); sub("e", u->getSubExpr()); o += '}';
      return;
    }
    if (auto *a = dyn_cast<ArraySubscriptExpr>(e)) {
      open("idx", e); kv("t", ty(e->getType())); sub("a", a->getLHS()); sub("i", a->getRHS()); o += '}';
      return;
    }
    if (auto *c = dyn_cast<ConditionalOperator>(e)) {
      open("cond", e); sub("c", c->getCond()); sub("t", c->getTrueExpr()); sub("f", c->getFalseExpr()); o += '}';
      return;
    }
    if (auto *c = dyn_cast<ExplicitCastExpr>(e)) {
      if (nar.empty() && (c->getCastKind() == CK_FloatingCast || c->getCastKind() == CK_IntegralToFloating || c->getCastKind() == CK_IntegralCast || c->getCastKind() == CK_FloatingToIntegral))
        lossy(c->getSubExpr()->getType(), c->getType(), true, c->getSubExpr());
      open("cast", e); kv("t", ty(c->getTypeAsWritten())); sub("e", c->getSubExpr()); o += '}';
      return;
    }
    if (auto *i = dyn_cast<IntegerLiteral>(e)) { open("int", e); key("v"); o += llvm::toString(i->getValue(), 10, i->getType()->isSignedIntegerType()); o += '}'; return; }
    if (auto *i = dyn_cast<FloatingLiteral>(e)) { open("flt", e); key("v"); o += '"'; llvm::SmallString<32> b; i->getValue().toString(b); o += b.str(); o += "\"}"; return; }
    if (auto *i = dyn_cast<CXXBoolLiteralExpr>(e)) { open("boolean", e); kn("v", i->getValue()); o += '}'; return; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { open("null", e); o += '}'; return; }
    if (auto *i = dyn_cast<StringLiteral>(e)) { open("str", e); kv("v", i->isOrdinary() || i->isUTF8() ? i->getString() : StringRef("?")); o += '}'; return; }
    if (auto *i = dyn_cast<CharacterLiteral>(e)) { open("int", e); kn("v", i->getValue()); o += '}'; return; }
    if (isa<CXXThisExpr>(e)) { open("this", e); kv("t", ty(e->getType())); o += '}'; return; }
    if (auto *i = dyn_cast<InitListExpr>(e)) {
      open("list", e); kv("t", ty(e->getType()));
      key("a"); o += '[';
      for (unsigned k = 0; k < i->getNumInits(); k++) { if (k) o += ','; st(i->getInit(k)); }
      o += "]}";
      return;
    }
    if (auto *i = dyn_cast<CXXStdInitializerListExpr>(e)) { st(i->getSubExpr()); return; }
    if (auto *i = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      open("sizeof", e); kv("t", ty(i->getTypeOfArgument())); o += '}';
      return;
    }
    if (auto *n = dyn_cast<CXXNewExpr>(e)) {
      open("new", e); kv("t", ty(n->getAllocatedType()));
      if (n->getArraySize()) sub("n", *n->getArraySize());
      sub("e", n->getInitializer()); o += '}';
      return;
    }
    if (auto *n = dyn_cast<CXXDeleteExpr>(e)) { open("del", e); sub("e", n->getArgument()); o += '}'; return; }
    if (auto *n = dyn_cast<CXXThrowExpr>(e)) { open("throw", e); sub("e", n->getSubExpr()); o += '}'; return; }
    if (auto *d = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
      open("mem", e); kv("n", d->getMember().getAsString()); kn("dep", 1); if (d->isArrow()) kn("arrow", 1);
      if (!d->isImplicitAccess()) sub("o", d->getBase());
      o += '}';
      return;
    }
    if (auto *d = dyn_cast<PseudoObjectExpr>(e)) { st(d->getSyntacticForm()); return; }
    open("expr", e);
    kv("n", e->getStmtClassName());
    kv("t", ty(e->getType()));
    if (auto *u = dyn_cast<UnresolvedLookupExpr>(e)) kv("nm", u->getName().getAsString());
    std::vector<const Stmt *> ch;
    for (auto *y : e->children()) if (y) ch.push_back(y);
    list("b", ch);
    o += '}';
  }
  void params(const FunctionDecl *f) {
    key("p");
    o += '[';
    bool first = true;
    for (auto *p : f->parameters()) {
      if (!first) o += ',';
      first = false;
      o += "{\"n\":";
      s(p->getName());
      kn("d", id(p));
      kv("t", ty(p->getType()));
      // the default may be on another declaration
      if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) { sub("v", p->getDefaultArg()); }
      else if (p->hasDefaultArg()) kn("dflt", 1);
      o += '}';
    }
    o += ']';
  }
  void func(const FunctionDecl *f) {
    const FunctionDecl *def = nullptr;
    if (!f->hasBody(def) || !def) return;
    f = def;
    if (!f->doesThisDeclarationHaveABody() || f->isImplicit() || f->isDefaulted()) return;
    if (!mine(f->getLocation())) return;
    if (!done.insert(f).second) return;
    o += "{\"k\":\"func\"";
    kv("f", qn(f));
    kn("fd", id(pat(f)));
    kn("l", line(f->getLocation()));
    kn("el", line(f->getEndLoc()));
    kv("file", SM.getFilename(SM.getExpansionLoc(f->getLocation())).substr(Root.size()));
    kv("ret", ty(f->getReturnType()));
    targs(f);
    if (f->isTemplateInstantiation()) kn("inst", 1);
    if (f->isDependentContext()) kn("dep", 1);
    if (f->isVariadic()) kn("variadic", 1);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      kv("cls", qn(m->getParent()));
      if (m->isConst()) kn("const", 1);
      if (m->isStatic()) kn("static", 1);
    }
    // Parameters: names from the definition, default values from any declaration.
    const FunctionDecl *first = f->getCanonicalDecl();
    params(f);
    if (first != f) { o += ",\"decl\":{\"k\":\"d\""; params(first); kv("file", SM.getFilename(SM.getExpansionLoc(first->getLocation()))); o += '}'; }
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      kn("ctor", 1);
      key("inits"); o += '[';
      bool fi = true;
      for (auto *i : c->inits()) {
        if (!i->isWritten() && !i->isMemberInitializer()) continue;
        if (!i->getInit()) continue;
        if (!fi) o += ',';
        fi = false;
        o += "{\"k\":\"init\"";
        if (i->isAnyMemberInitializer()) kv("n", i->getAnyMember()->getName());
        else kv("n", "");
        sub("e", i->getInit());
        o += '}';
      }
      o += ']';
    }
    if (isa<CXXDestructorDecl>(f)) kn("dtor", 1);
    sub("b", f->getBody());
    o += "}\n";
  }
  void record(const CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || !mine(r->getLocation()) || r->isLambda()) return;
    if (!done.insert(r).second) return;
    o += "{\"k\":\"record\"";
    kv("f", qn(r));
    kn("l", line(r->getLocation()));
    kv("file", SM.getFilename(SM.getExpansionLoc(r->getLocation())).substr(Root.size()));
    if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      (void)sp;
      kn("inst", 1);
    }
    if (r->isDependentContext()) kn("dep", 1);
    key("fields"); o += '[';
    bool first = true;
    for (auto *fd : r->fields()) {
      if (!first) o += ',';
      first = false;
      o += "{\"n\":"; s(fd->getName()); kv("t", ty(fd->getType())); kn("l", line(fd->getLocation()));
      if (fd->hasInClassInitializer() && fd->getInClassInitializer()) sub("i", fd->getInClassInitializer());
      o += '}';
    }
    o += "]}\n";
  }
  std::set<const Decl *> seen;
  void decl(const Decl *d) {
    if (!seen.insert(d).second) return;
    if (auto *n = dyn_cast<NamespaceDecl>(d)) { for (auto *x : n->decls()) decl(x); return; }
    if (auto *n = dyn_cast<LinkageSpecDecl>(d)) { for (auto *x : n->decls()) decl(x); return; }
    if (auto *t = dyn_cast<FunctionTemplateDecl>(d)) {
      func(t->getTemplatedDecl());
      for (auto *sp : t->specializations()) func(sp);
      return;
    }
    if (auto *t = dyn_cast<ClassTemplateDecl>(d)) {
      decl(t->getTemplatedDecl());
      for (auto *sp : t->specializations()) decl(sp);
      return;
    }
    if (auto *r = dyn_cast<CXXRecordDecl>(d)) {
      if (r->isImplicit()) return;
      record(r);
      for (auto *x : r->decls()) decl(x);
      return;
    }
    if (auto *f = dyn_cast<FunctionDecl>(d)) { func(f); return; }
    if (auto *f = dyn_cast<FriendDecl>(d)) { if (f->getFriendDecl()) decl(f->getFriendDecl()); return; }
    if (auto *v = dyn_cast<VarDecl>(d)) {
      if (mine(v->getLocation()) && done.insert(v).second) {
        o += "{\"k\":\"gvar\"";
        kv("f", qn(v)); kn("l", line(v->getLocation())); kv("file", SM.getFilename(SM.getExpansionLoc(v->getLocation())).substr(Root.size())); kv("t", ty(v->getType()));
        if (v->getTLSKind() != VarDecl::TLS_None) kn("tls", 1);
        if (v->hasInit()) sub("i", v->getInit());
        o += "}\n";
      }
    }
  }
};

struct Cons : ASTConsumer {
  bool shouldSkipFunctionBody(Decl *D) override {
    auto &SM = D->getASTContext().getSourceManager();
    return !SM.getFilename(SM.getExpansionLoc(D->getLocation())).starts_with(Root);
  }
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dump d(C);
    for (auto *x : C.getTranslationUnitDecl()->decls()) d.decl(x);
    llvm::outs() << d.o;
    llvm::outs().flush();
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getFrontendOpts().SkipFunctionBodies = true;
    return std::make_unique<Cons>();
  }
};
int main(int argc, char **argv) {
  std::string err;
  auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, const_cast<const char *const *>(argv), err);
  if (!db || argc < 3) { llvm::errs() << "usage\n"; return 2; }
  Root = argv[1];
  std::vector<std::string> src(argv + 2, argv + argc);
  tooling::ClangTool T(*db, src);
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
