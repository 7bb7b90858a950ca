// mmlx: extracts the resolved program (typed AST) of the MML headers as JSON lines.
// One line per entity: functions (with body tree), records, enums, variables, includes.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Sema/Template.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace clang;
using llvm::raw_string_ostream;
using std::string;

static string g_root;      // e.g. /repo/
static FILE *g_out;

struct J { // tiny append-only JSON writer
  string s;
  bool first = true;
  void sep() { if (!first) s += ','; first = false; }
  void key(const char *k) { sep(); s += '"'; s += k; s += "\":"; }
  static void esc(string &o, llvm::StringRef v) {
    o += '"';
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += c;
    }
    o += '"';
  }
  void str(const char *k, llvm::StringRef v) { key(k); esc(s, v); }
  void num(const char *k, long long v) { key(k); s += std::to_string(v); }
  void raw(const char *k, const string &v) { key(k); s += v; }
  string done() { return "{" + s + "}"; }
};

struct Ex {
  ASTContext &C; SourceManager &SM; LangOptions LO; PrintingPolicy PP;
  std::unordered_map<string, int> types; std::vector<string> typeNames;
  std::unordered_map<const Decl *, int> ids;
  std::set<const void *> seenRec;
  Ex(ASTContext &c) : C(c), SM(c.getSourceManager()), LO(c.getLangOpts()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.TerseOutput = true;
  }
  int tid(QualType t) {
    string n = t.isNull() ? "?" : t.getAsString(PP);
    string c = t.isNull() ? "?" : t.getCanonicalType().getAsString(PP);
    string k = n == c ? n : n + "\x01" + c;
    auto it = types.find(k); if (it != types.end()) return it->second;
    int i = typeNames.size(); types[k] = i; typeNames.push_back(k); return i;
  }
  int did(const Decl *d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int i = ids.size() + 1; ids[d] = i; return i; }
  PresumedLoc ploc(SourceLocation L) { return SM.getPresumedLoc(SM.getExpansionLoc(L)); }
  int line(SourceLocation L) { if (L.isInvalid()) return 0; auto p = ploc(L); return p.isValid() ? p.getLine() : 0; }
  string file(SourceLocation L) {
    if (L.isInvalid()) return "";
    auto p = ploc(L); if (p.isInvalid()) return "";
    string f = p.getFilename();
    if (f.compare(0, g_root.size(), g_root) == 0) return f.substr(g_root.size());
    return "!" + f;
  }
  bool inRepo(SourceLocation L) { string f = file(L); return !f.empty() && f[0] != '!'; }
  string qname(const NamedDecl *d) { string s; raw_string_ostream o(s); d->printQualifiedName(o, PP); o.flush(); return s; }
  const FunctionDecl *pattern(const FunctionDecl *f) { if (auto *p = f->getTemplateInstantiationPattern()) return p; return f; }
  string key(const FunctionDecl *f) {
    const FunctionDecl *p = pattern(f);
    const FunctionDecl *d = nullptr; 
    if (p->hasBody(d) && d) p = d;
    string fl = file(p->getLocation());
    if (fl.empty() || fl[0] == '!') return "";
    auto pl = ploc(p->getLocation());
    return fl + ":" + std::to_string(pl.getLine()) + ":" + std::to_string(pl.getColumn());
  }
  string recKey(const CXXRecordDecl *r) {
    if (!r) return "";
    if (auto *p = r->getTemplateInstantiationPattern()) r = p;
    return qname(r);
  }
  // ------- expressions
  string kids(std::initializer_list<const Stmt *> l) { string s = "["; bool f = true; for (auto *x : l) { if (!f) s += ','; f = false; s += st(x); } return s + "]"; }
  template <class R> string list(R &&r) { string s = "["; bool f = true; for (auto *x : r) { if (!f) s += ','; f = false; s += st(x); } return s + "]"; }
  void constVal(J &j, const Expr *e) {
    if (e->isValueDependent() || e->isTypeDependent() || e->containsErrors()) return;
    QualType t = e->getType(); if (t.isNull()) return;
    if (!t->isIntegralOrEnumerationType() && !t->isRealFloatingType()) return;
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects) return;
    if (r.Val.isInt()) { llvm::SmallString<24> b; r.Val.getInt().toString(b, 10); j.str("cv", b); }
    else if (r.Val.isFloat()) { llvm::SmallString<40> b; r.Val.getFloat().toString(b, 25); j.str("cv", b); }
  }
  void calleeInfo(J &j, const FunctionDecl *f) {
    j.str("fn", qname(f)); string k = key(f); if (!k.empty()) j.str("ck", k);
    if (f->getNumParams()) { string s = "["; for (unsigned i = 0; i < f->getNumParams(); i++) { if (i) s += ','; s += std::to_string(tid(f->getParamDecl(i)->getType())); } j.raw("pt", s + "]"); }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) { if (m->isConst()) j.num("cst", 1); if (m->isVirtual()) j.num("vrt", 1); if (m->isStatic()) j.num("stc", 1); j.str("cls", recKey(m->getParent())); }
    if (auto *p = f->getType()->getAs<FunctionProtoType>()) { auto es = p->getExceptionSpecType(); if (!isUnresolvedExceptionSpec(es) && p->canThrow() == CT_Cannot) j.num("nx", 1); }
  }
  string lambda(const LambdaExpr *L, int mt) {
    J j; j.str("k", "Lambda"); if (mt) j.num("mt", mt); j.num("l", line(L->getBeginLoc()));
    string s = "["; bool f = true;
    for (auto &c : L->captures()) {
      J q; if (c.capturesThis()) { q.str("n", "this"); q.num("id", 0); } else if (c.capturesVariable()) { q.str("n", c.getCapturedVar()->getName()); q.num("id", did(c.getCapturedVar())); if (c.isImplicit()) q.num("imp", 1);}
      q.num("ref", c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This);
      if (!f) s += ','; f = false; s += q.done();
    }
    j.raw("caps", s + "]");
    if (L->isMutable()) j.num("mut", 1);
    j.num("dflt", L->getCaptureDefault());
    auto *op = L->getCallOperator(); j.raw("params", params(op));
    // capture inits
    string ci = "["; f = true; for (auto it = L->capture_init_begin(); it != L->capture_init_end(); ++it) { if (!f) ci += ','; f = false; ci += st(*it); } j.raw("ci", ci + "]");
    j.raw("body", st(L->getBody()));
    return j.done();
  }
  string params(const FunctionDecl *f) {
    string s = "["; bool first = true;
    for (auto *p : f->parameters()) { if (!first) s += ','; first = false; J j; j.num("id", did(p)); j.str("n", p->getName()); j.num("t", tid(p->getType()));
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) j.raw("def", st(p->getDefaultArg()));
      s += j.done(); }
    return s + "]";
  }
  string varDecl(const VarDecl *v) {
    J j; j.str("k", "Var"); j.num("l", line(v->getLocation())); j.num("id", did(v)); j.str("n", v->getName()); j.num("t", tid(v->getType()));
    if (v->isStaticLocal()) j.num("static", 1);
    if (v->getTSCSpec() != TSCS_unspecified) j.num("tls", 1);
    if (v->isConstexpr()) j.num("cexpr", 1);
    if (v->getInit()) {
      if (auto *dd = dyn_cast<DecompositionDecl>(v)) { string s = "["; bool f = true; for (auto *b : dd->bindings()) { if (!f) s += ','; f = false; J q; q.num("id", did(b)); q.str("n", b->getName()); q.num("t", tid(b->getType())); s += q.done(); } j.raw("binds", s + "]"); }
      j.num("isx", v->getInitStyle()); j.raw("c", kids({v->getInit()}));
    }
    return j.done();
  }
  string st(const Stmt *S) {
    if (!S) return "null";
    if (auto *e = dyn_cast<Expr>(S)) return ex(e);
    J j;
    auto base = [&](const char *k) { j.str("k", k); j.num("l", line(S->getBeginLoc())); };
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: { base("Block"); j.num("el", line(S->getEndLoc())); j.raw("c", list(cast<CompoundStmt>(S)->body())); return j.done(); }
    case Stmt::DeclStmtClass: {
      base("Decl"); string s = "["; bool f = true;
      for (auto *d : cast<DeclStmt>(S)->decls()) if (auto *v = dyn_cast<VarDecl>(d)) { if (!f) s += ','; f = false; s += varDecl(v); }
      j.raw("c", s + "]"); return j.done(); }
    case Stmt::IfStmtClass: { auto *i = cast<IfStmt>(S); base("If"); if (i->isConstexpr()) j.num("cexpr", 1); if (i->getInit()) j.raw("init", st(i->getInit())); if (i->getConditionVariable()) j.raw("cv_", varDecl(i->getConditionVariable()));
      j.raw("cond", st(i->getCond())); j.raw("then", st(i->getThen())); j.raw("else", st(i->getElse())); return j.done(); }
    case Stmt::ForStmtClass: { auto *i = cast<ForStmt>(S); base("For"); j.raw("init", st(i->getInit())); j.raw("cond", st(i->getCond())); j.raw("inc", st(i->getInc())); j.raw("body", st(i->getBody())); return j.done(); }
    case Stmt::WhileStmtClass: { auto *i = cast<WhileStmt>(S); base("While"); if (i->getConditionVariable()) j.raw("cv_", varDecl(i->getConditionVariable())); j.raw("cond", st(i->getCond())); j.raw("body", st(i->getBody())); return j.done(); }
    case Stmt::DoStmtClass: { auto *i = cast<DoStmt>(S); base("Do"); j.raw("cond", st(i->getCond())); j.raw("body", st(i->getBody())); return j.done(); }
    case Stmt::CXXForRangeStmtClass: { auto *i = cast<CXXForRangeStmt>(S); base("RFor"); j.raw("var", varDecl(i->getLoopVariable())); j.raw("range", st(i->getRangeInit())); j.raw("body", st(i->getBody())); return j.done(); }
    case Stmt::SwitchStmtClass: { auto *i = cast<SwitchStmt>(S); base("Switch"); if (i->getInit()) j.raw("init", st(i->getInit())); j.num("ct", tid(i->getCond()->IgnoreParenImpCasts()->getType())); j.raw("cond", st(i->getCond())); j.raw("body", st(i->getBody())); return j.done(); }
    case Stmt::CaseStmtClass: { auto *i = cast<CaseStmt>(S); base("Case"); j.raw("v", st(i->getLHS())); j.raw("c", kids({i->getSubStmt()})); return j.done(); }
    case Stmt::DefaultStmtClass: { base("Default"); j.raw("c", kids({cast<DefaultStmt>(S)->getSubStmt()})); return j.done(); }
    case Stmt::BreakStmtClass: base("Break"); return j.done();
    case Stmt::ContinueStmtClass: base("Continue"); return j.done();
    case Stmt::ReturnStmtClass: { base("Return"); auto *r = cast<ReturnStmt>(S); if (r->getRetValue()) j.raw("c", kids({r->getRetValue()})); return j.done(); }
    case Stmt::NullStmtClass: base("Null"); return j.done();
    case Stmt::CXXTryStmtClass: { auto *t = cast<CXXTryStmt>(S); base("Try"); j.raw("body", st(t->getTryBlock())); string s = "["; for (unsigned i = 0; i < t->getNumHandlers(); i++) { if (i) s += ','; s += st(t->getHandler(i)); } j.raw("h", s + "]"); return j.done(); }
    case Stmt::CXXCatchStmtClass: { auto *c = cast<CXXCatchStmt>(S); base("Catch"); if (c->getExceptionDecl()) { j.num("t", tid(c->getCaughtType())); j.num("id", did(c->getExceptionDecl())); } else j.num("all", 1); j.raw("body", st(c->getHandlerBlock())); return j.done(); }
    case Stmt::GotoStmtClass: base("Goto"); j.str("n", cast<GotoStmt>(S)->getLabel()->getName()); return j.done();
    case Stmt::LabelStmtClass: base("Label"); j.str("n", cast<LabelStmt>(S)->getName()); j.raw("c", kids({cast<LabelStmt>(S)->getSubStmt()})); return j.done();
    case Stmt::AttributedStmtClass: return st(cast<AttributedStmt>(S)->getSubStmt());
    default: { base("Other"); j.str("cls", S->getStmtClassName()); j.raw("c", list(S->children())); return j.done(); }
    }
  }
  string ex(const Expr *E) {
    // transparent wrappers; mt: the value is materialised into a temporary (1: dies with the full expression, 2: lifetime extended)
    int mt = 0;
    for (;;) {
      if (auto *p = dyn_cast<ParenExpr>(E)) { E = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<ExprWithCleanups>(E)) { E = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<MaterializeTemporaryExpr>(E)) { mt = p->getExtendingDecl() ? 2 : 1; E = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<CXXBindTemporaryExpr>(E)) { E = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = p->getReplacement(); continue; }
      if (auto *p = dyn_cast<ConstantExpr>(E)) { E = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<CXXStdInitializerListExpr>(E)) { E = p->getSubExpr(); continue; }
      if (auto *p = dyn_cast<ImplicitCastExpr>(E)) {
        auto ck = p->getCastKind();
        if (ck == CK_IntegralToFloating || ck == CK_FloatingToIntegral || ck == CK_UserDefinedConversion || ck == CK_FloatingToBoolean || ck == CK_IntegralCast || ck == CK_FloatingCast || ck == CK_PointerToBoolean || ck == CK_IntegralToBoolean) {
          if (ck == CK_UserDefinedConversion) { E = p->getSubExpr(); continue; }
          if (isa<IntegerLiteral>(p->getSubExpr()->IgnoreParens()) && ck == CK_IntegralCast) { E = p->getSubExpr(); continue; }
          J j; j.str("k", "ICast"); if (mt) j.num("mt", mt); j.num("l", line(E->getBeginLoc())); j.num("t", tid(E->getType())); j.str("ck", CastExpr::getCastKindName(ck)); j.raw("c", kids({p->getSubExpr()})); return j.done();
        }
        E = p->getSubExpr(); continue;
      }
      break;
    }
    J j;
    auto base = [&](const char *k) { j.str("k", k); if (mt) j.num("mt", mt); j.num("l", line(E->getExprLoc())); j.num("t", tid(E->getType())); };
    switch (E->getStmtClass()) {
    case Stmt::IntegerLiteralClass: { base("Int"); llvm::SmallString<24> b; cast<IntegerLiteral>(E)->getValue().toString(b, 10, false); j.str("v", b); return j.done(); }
    case Stmt::FloatingLiteralClass: { base("Float"); auto *f = cast<FloatingLiteral>(E); llvm::SmallString<40> b; f->getValue().toString(b, 25); j.str("v", b);
      j.str("s", Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(f->getBeginLoc()), SM.getSpellingLoc(f->getEndLoc())), SM, LO)); return j.done(); }
    case Stmt::StringLiteralClass: { base("Str"); auto *s = cast<StringLiteral>(E); if (s->isOrdinary() || s->isUTF8()) j.str("v", s->getString()); return j.done(); }
    case Stmt::CharacterLiteralClass: base("Char"); j.num("v", cast<CharacterLiteral>(E)->getValue()); return j.done();
    case Stmt::CXXBoolLiteralExprClass: base("Bool"); j.num("v", cast<CXXBoolLiteralExpr>(E)->getValue()); return j.done();
    case Stmt::CXXNullPtrLiteralExprClass: base("Null"); return j.done();
    case Stmt::CXXThisExprClass: base("This"); return j.done();
    case Stmt::DeclRefExprClass: {
      auto *r = cast<DeclRefExpr>(E); auto *d = r->getDecl(); base("Ref"); j.str("n", d->getNameAsString());
      if (auto *f = dyn_cast<FunctionDecl>(d)) { j.str("dk", "fn"); calleeInfo(j, f); }
      else if (isa<EnumConstantDecl>(d)) { j.str("dk", "enum"); j.str("q", qname(d)); constVal(j, E); }
      else if (isa<ParmVarDecl>(d)) { j.str("dk", "parm"); j.num("id", did(d)); }
      else if (auto *v = dyn_cast<VarDecl>(d)) { bool loc = v->isLocalVarDecl(); j.str("dk", loc ? (v->isStaticLocal() ? "slocal" : "local") : "global"); j.num("id", did(d)); if (!loc) j.str("q", qname(d)); constVal(j, E); }
      else if (isa<BindingDecl>(d)) { j.str("dk", "bind"); j.num("id", did(d)); }
      else { j.str("dk", "other"); j.str("q", qname(d)); }
      return j.done(); }
    case Stmt::MemberExprClass: {
      auto *m = cast<MemberExpr>(E); auto *d = m->getMemberDecl(); base("Mem"); j.str("n", d->getNameAsString());
      if (auto *f = dyn_cast<FieldDecl>(d)) { j.str("dk", "field"); j.str("own", recKey(dyn_cast<CXXRecordDecl>(f->getParent()))); if (f->isMutable()) j.num("mut", 1); }
      else if (auto *f = dyn_cast<FunctionDecl>(d)) { j.str("dk", "fn"); calleeInfo(j, f); }
      else { j.str("dk", "var"); j.str("q", qname(d)); constVal(j, E); }
      if (m->isArrow()) j.num("arrow", 1);
      j.raw("c", kids({m->getBase()})); return j.done(); }
    case Stmt::CXXMemberCallExprClass: {
      auto *c = cast<CXXMemberCallExpr>(E); base("Call"); auto *md = c->getMethodDecl();
      if (md) calleeInfo(j, md);
      if (auto *o = c->getImplicitObjectArgument()) { j.raw("obj", st(o)); }
      if (auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) { if (me->hasQualifier()) j.num("qualcall", 1); }
      j.raw("c", list(c->arguments())); return j.done(); }
    case Stmt::CXXOperatorCallExprClass: {
      auto *c = cast<CXXOperatorCallExpr>(E); base("Call"); j.str("op", getOperatorSpelling(c->getOperator()));
      auto *f = c->getDirectCallee(); if (f) calleeInfo(j, f);
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) { j.raw("obj", st(c->getArg(0))); string s = "["; for (unsigned i = 1; i < c->getNumArgs(); i++) { if (i > 1) s += ','; s += st(c->getArg(i)); } j.raw("c", s + "]"); }
      else j.raw("c", list(c->arguments()));
      return j.done(); }
    case Stmt::CallExprClass: {
      auto *c = cast<CallExpr>(E); base("Call");
      if (auto *f = c->getDirectCallee()) calleeInfo(j, f); else j.raw("callee", st(c->getCallee()));
      j.raw("c", list(c->arguments())); constVal(j, E); return j.done(); }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *c = cast<CXXConstructExpr>(E); base("Ctor"); auto *d = c->getConstructor();
      if (d->isCopyConstructor()) j.str("cp", "copy"); else if (d->isMoveConstructor()) j.str("cp", "move");
      if (d->isDefaulted()) j.num("dft", 1);
      if (c->isListInitialization()) j.num("li", 1);
      if (c->requiresZeroInitialization()) j.num("zi", 1);
      calleeInfo(j, d); j.raw("c", list(c->arguments())); return j.done(); }
    case Stmt::CXXInheritedCtorInitExprClass: base("Ctor"); return j.done();
    case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: { auto *b = cast<BinaryOperator>(E); base("Bin"); j.str("op", b->getOpcodeStr()); j.raw("c", kids({b->getLHS(), b->getRHS()})); if (!b->isAssignmentOp()) constVal(j, E); return j.done(); }
    case Stmt::UnaryOperatorClass: { auto *u = cast<UnaryOperator>(E); base("Un"); string o = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); if (u->isPostfix()) o = "p" + o; j.str("op", o); j.raw("c", kids({u->getSubExpr()})); if (!u->isIncrementDecrementOp()) constVal(j, E); return j.done(); }
    case Stmt::ConditionalOperatorClass: { auto *c = cast<ConditionalOperator>(E); base("Cond"); j.raw("c", kids({c->getCond(), c->getTrueExpr(), c->getFalseExpr()})); return j.done(); }
    case Stmt::ArraySubscriptExprClass: { auto *a = cast<ArraySubscriptExpr>(E); base("Idx"); j.raw("c", kids({a->getBase(), a->getIdx()})); return j.done(); }
    case Stmt::CXXStaticCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *c = cast<ExplicitCastExpr>(E); base("Cast"); j.str("ck", c->getCastKindName()); j.str("cs", E->getStmtClassName());
      const Expr *sub = c->getSubExpr(); if (auto *ic = dyn_cast<ImplicitCastExpr>(sub)) if (ic->isPartOfExplicitCast()) { j.str("ick", ic->getCastKindName()); sub = ic->getSubExpr(); }
      j.raw("c", kids({sub})); constVal(j, E); return j.done(); }
    case Stmt::CXXThrowExprClass: { auto *t = cast<CXXThrowExpr>(E); base("Throw"); if (t->getSubExpr()) { j.num("tt", tid(t->getSubExpr()->getType())); j.raw("c", kids({t->getSubExpr()})); } else j.num("re", 1); return j.done(); }
    case Stmt::CXXNewExprClass: { auto *n = cast<CXXNewExpr>(E); base("New"); if (n->isArray()) j.num("arr", 1); string s = "["; if (n->isArray() && n->getArraySize()) s += st(*n->getArraySize()); if (n->getInitializer()) { if (s.size() > 1) s += ','; s += st(n->getInitializer()); } j.raw("c", s + "]"); return j.done(); }
    case Stmt::CXXDeleteExprClass: { auto *n = cast<CXXDeleteExpr>(E); base("Delete"); if (n->isArrayForm()) j.num("arr", 1); j.raw("c", kids({n->getArgument()})); return j.done(); }
    case Stmt::LambdaExprClass: return lambda(cast<LambdaExpr>(E), mt);
    case Stmt::InitListExprClass: { auto *i = cast<InitListExpr>(E); if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm(); base("InitList"); j.raw("c", list(i->inits())); return j.done(); }
    case Stmt::CXXDefaultArgExprClass: { base("DefArg"); j.raw("c", kids({cast<CXXDefaultArgExpr>(E)->getExpr()})); return j.done(); }
    case Stmt::CXXDefaultInitExprClass: { base("DefInit"); j.raw("c", kids({cast<CXXDefaultInitExpr>(E)->getExpr()})); return j.done(); }
    case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: base("ZeroInit"); return j.done();
    case Stmt::UnaryExprOrTypeTraitExprClass: { base("SizeOf"); constVal(j, E); return j.done(); }
    case Stmt::ArrayInitLoopExprClass: base("ArrCopy"); j.raw("c", list(E->children())); return j.done();
    case Stmt::UnresolvedLookupExprClass: case Stmt::UnresolvedMemberExprClass: { auto *o = cast<OverloadExpr>(E); base("DepRef"); j.str("n", o->getName().getAsString()); if (auto *um = dyn_cast<UnresolvedMemberExpr>(E)) if (!um->isImplicitAccess()) j.raw("c", kids({um->getBase()})); return j.done(); }
    case Stmt::CXXDependentScopeMemberExprClass: { auto *m = cast<CXXDependentScopeMemberExpr>(E); base("DepMem"); j.str("n", m->getMember().getAsString()); if (!m->isImplicitAccess()) j.raw("c", kids({m->getBase()})); return j.done(); }
    case Stmt::DependentScopeDeclRefExprClass: { base("DepRef"); j.str("n", cast<DependentScopeDeclRefExpr>(E)->getDeclName().getAsString()); return j.done(); }
    case Stmt::CXXUnresolvedConstructExprClass: { base("DepCtor"); auto *u = cast<CXXUnresolvedConstructExpr>(E); string s = "["; for (unsigned i = 0; i < u->getNumArgs(); i++) { if (i) s += ','; s += st(u->getArg(i)); } j.raw("c", s + "]"); return j.done(); }
    case Stmt::PackExpansionExprClass: return ex(cast<PackExpansionExpr>(E)->getPattern());
    default: { base("Other"); j.str("cls", E->getStmtClassName()); j.raw("c", list(E->children())); constVal(j, E); return j.done(); }
    }
  }
  void emit(const string &s) { fwrite(s.data(), 1, s.size(), g_out); fputc('\n', g_out); }
  // ------- declarations
  std::map<string, std::vector<const FunctionDecl *>> fns;
  void addFn(const FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() && !(f->isDefaulted() && f->isThisDeclarationADefinition()) && !f->isDeleted()) return;
    if (!inRepo(f->getLocation())) return;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
    if (f->isImplicit()) return;
    string k = key(f); if (k.empty()) return;
    fns[k].push_back(f);
  }
  void emitFn(const string &k, const FunctionDecl *f, int ninst) {
    J j; j.str("k", "fn"); j.str("key", k); j.str("q", qname(f)); j.str("n", f->getNameAsString()); j.str("f", file(f->getLocation()));
    const FunctionDecl *pd = pattern(f);
    j.num("l", line(pd->getLocation())); j.num("el", line(pd->getEndLoc())); j.num("ret", tid(f->getReturnType()));
    const DeclContext *dc = pd->getDeclContext(); 
    if (auto *r = dyn_cast<CXXRecordDecl>(f->getDeclContext())) { j.str("cls", recKey(r)); }
    (void)dc;
    j.num("ninst", ninst);
    if (f->isTemplateInstantiation()) j.num("inst", 1); else if (f->isDependentContext()) j.num("dep", 1);
    if (f->isDefaulted()) j.num("dft", 1);
    if (f->isDeleted()) j.num("del", 1);
    if (isa<CXXConstructorDecl>(f)) { j.str("kind", "ctor"); auto *c = cast<CXXConstructorDecl>(f); if (c->isCopyConstructor()) j.str("cp", "copy"); if (c->isMoveConstructor()) j.str("cp", "move"); if (c->isExplicit()) j.num("explicit", 1); }
    else if (isa<CXXDestructorDecl>(f)) j.str("kind", "dtor");
    else if (isa<CXXConversionDecl>(f)) j.str("kind", "conv");
    else if (isa<CXXMethodDecl>(f)) j.str("kind", "method"); else j.str("kind", "func");
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) { if (m->isConst()) j.num("cst", 1); if (m->isVirtual()) j.num("vrt", 1); if (m->isStatic()) j.num("stc", 1); if (m->isCopyAssignmentOperator()) j.str("as", "copy"); if (m->isMoveAssignmentOperator()) j.str("as", "move");
      string s = "["; bool ff = true; for (auto *o : m->overridden_methods()) { if (!ff) s += ','; ff = false; J::esc(s, qname(o)); } if (!ff) j.raw("ovr", s + "]"); }
    const char *acc[] = {"public", "protected", "private", "none"}; j.str("acc", acc[f->getAccess()]);
    if (f->isInlined()) j.num("inl", 1);
    if (f->isConstexpr()) j.num("cexpr", 1);
    if (f->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(f)) j.num("internal", 1);
    if (f->getLinkageInternal() == Linkage::Internal || f->isInAnonymousNamespace()) j.num("intlink", 1);
    if (auto *p = f->getType()->getAs<FunctionProtoType>()) { auto es = p->getExceptionSpecType(); if (isNoexceptExceptionSpec(es)) j.num("nxspec", 1); if (!isUnresolvedExceptionSpec(es) && !f->isDependentContext() && p->canThrow() == CT_Cannot) j.num("nx", 1); }
    if (f->hasAttr<WarnUnusedResultAttr>()) j.num("nodiscard", 1);
    if (auto *ta = f->getTemplateSpecializationArgs()) { string s; raw_string_ostream o(s); printTemplateArgumentList(o, ta->asArray(), PP); o.flush(); j.str("targs", s); }
    j.raw("params", params(f));
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      string s = "["; bool first = true;
      for (auto *i : c->inits()) {
        J q; if (i->isMemberInitializer()) q.str("m", i->getMember()->getName()); else if (i->isBaseInitializer()) { q.num("b", tid(QualType(i->getBaseClass(), 0))); if (auto*rd=i->getBaseClass()->getAsCXXRecordDecl()) q.str("bq", recKey(rd)); } else if (i->isDelegatingInitializer()) q.num("dele", 1);
        if (i->isWritten()) q.num("w", 1);
        q.num("l", line(i->getSourceLocation()));
        if (i->getInit()) q.raw("c", kids({i->getInit()}));
        if (!first) s += ','; first = false; s += q.done();
      }
      j.raw("inits", s + "]");
    }
    if (f->getBody()) j.raw("body", st(f->getBody()));
    emit(j.done());
  }
  void emitRec(const CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda() || !inRepo(r->getLocation()) || r->isImplicit()) return;
    string kk = recKey(r); bool inst = r->getTemplateInstantiationPattern() != nullptr;
    bool dep = r->isDependentContext();
    J j; j.str("k", "rec"); j.str("q", qname(r)); j.str("key", kk); j.str("f", file(r->getLocation())); j.num("l", line(r->getLocation()));
    if (inst) j.num("inst", 1); if (dep) j.num("dep", 1); if (r->isUnion()) j.num("union", 1);
    if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(r)) { string o; raw_string_ostream os(o); printTemplateArgumentList(os, s->getTemplateArgs().asArray(), PP); os.flush(); j.str("targs", o); }
    string b = "["; bool f = true;
    for (auto &x : r->bases()) { if (!f) b += ','; f = false; J q; q.num("t", tid(x.getType())); if (auto *br = x.getType()->getAsCXXRecordDecl()) q.str("q", recKey(br)); else if (auto *ts = x.getType()->getAs<TemplateSpecializationType>()) { if (auto *td = ts->getTemplateName().getAsTemplateDecl()) q.str("q", qname(td)); } if (x.isVirtual()) q.num("v", 1); q.num("acc", x.getAccessSpecifier()); b += q.done(); }
    j.raw("bases", b + "]");
    string s = "["; f = true;
    for (auto *fd : r->fields()) { if (!f) s += ','; f = false; J q; q.str("n", fd->getName()); q.num("t", tid(fd->getType())); q.num("l", line(fd->getLocation())); if (fd->isMutable()) q.num("mut", 1); if (fd->getAccess() == AS_public) q.num("pub", 1);
      QualType T = fd->getType(); q.num("sc", !T->isDependentType() && (T->isArithmeticType() || T->isPointerType() || T->isEnumeralType())); if (T->isReferenceType()) q.num("ref", 1); if (fd->getAccess() == AS_public) q.num("pub", 1);
      if (auto *fr = T->getAsCXXRecordDecl()) { q.str("rq", recKey(fr)); }
      if (fd->hasInClassInitializer()) { q.num("ini", 1); if (fd->getInClassInitializer()) q.raw("c", kids({fd->getInClassInitializer()})); }
      s += q.done(); }
    j.raw("fields", s + "]");
    { // special members: 0 absent or deleted, 1 implicit or defaulted, 2 user-provided
      int sm[4] = {r->needsImplicitCopyConstructor() && !r->needsOverloadResolutionForCopyConstructor() && !dep && r->defaultedCopyConstructorIsDeleted() ? 0 : r->needsImplicitCopyConstructor(), r->needsImplicitMoveConstructor() && !r->needsOverloadResolutionForMoveConstructor() && !dep && r->defaultedMoveConstructorIsDeleted() ? 0 : r->needsImplicitMoveConstructor(), r->needsImplicitCopyAssignment(), r->needsImplicitMoveAssignment()};
      for (auto *m : r->methods()) { int w = -1; if (auto *c = dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) w = 0; else if (c->isMoveConstructor()) w = 1; } else if (m->isCopyAssignmentOperator()) w = 2; else if (m->isMoveAssignmentOperator()) w = 3; if (w >= 0) sm[w] = m->isDeleted() ? 0 : m->isUserProvided() ? 2 : 1; }
      j.raw("sm", "[" + std::to_string(sm[0]) + "," + std::to_string(sm[1]) + "," + std::to_string(sm[2]) + "," + std::to_string(sm[3]) + "]"); }
    if (!dep) {
      if (r->isPolymorphic()) j.num("poly", 1); if (r->isAbstract()) j.num("abs", 1); if (auto *d = r->getDestructor()) { if (d->isVirtual()) j.num("vdtor", 1); if (d->isUserProvided()) j.num("udtor", 1); if (d->getAccess() != AS_public) j.num("npdtor", 1);} if (r->hasUserDeclaredCopyConstructor()) j.num("ucopy", 1); if (r->hasUserDeclaredCopyAssignment()) j.num("uassign", 1); if (r->hasUserDeclaredMoveConstructor()) j.num("umove", 1); if (r->hasUserDeclaredMoveAssignment()) j.num("umassign",1); if (r->hasUserDeclaredDestructor()) j.num("uddtor", 1);
      if (r->isAggregate()) j.num("agg", 1); if (r->needsImplicitDefaultConstructor() ) j.num("idc", 1); if (r->hasDefaultConstructor()) j.num("hdc", 1); if (r->isEffectivelyFinal()) j.num("final",1); if (r->hasSimpleCopyConstructor() || r->needsImplicitCopyConstructor()) j.num("icopy",1); }
    // methods declared
    string m = "["; f = true;
    for (auto *md : r->methods()) { if (md->isImplicit()) continue; if (!f) m += ','; f = false; J q; q.str("n", md->getNameAsString()); q.str("ck", key(md)); q.num("t", tid(md->getType())); q.num("l", line(md->getLocation())); if (md->isVirtual()) q.num("vrt", 1); if (md->isPureVirtual()) q.num("pure", 1); if (md->isConst()) q.num("cst", 1); if (md->isStatic()) q.num("stc", 1); if (md->isDeleted()) q.num("del", 1); if (md->getAccess() == AS_public) q.num("pub", 1); if (md->hasAttr<OverrideAttr>()) q.num("ovr", 1); m += q.done(); }
    j.raw("methods", m + "]");
    emit(j.done());
  }
  void emitEnum(const EnumDecl *e) {
    if (!e->isThisDeclarationADefinition() || !inRepo(e->getLocation())) return;
    J j; j.str("k", "enum"); j.str("q", qname(e)); j.str("f", file(e->getLocation())); j.num("l", line(e->getLocation())); if (e->isScoped()) j.num("sc", 1);
    string s = "["; bool f = true; for (auto *c : e->enumerators()) { if (!f) s += ','; f = false; J q; q.str("n", c->getName()); llvm::SmallString<24> b; c->getInitVal().toString(b, 10); q.str("v", b); s += q.done(); }
    j.raw("c", s + "]"); emit(j.done());
  }
  void emitVar(const VarDecl *v) {
    if (isa<ParmVarDecl>(v) || v->isLocalVarDecl() || !inRepo(v->getLocation())) return;
    J j; j.str("k", "var"); j.str("q", qname(v)); j.str("f", file(v->getLocation())); j.num("l", line(v->getLocation())); j.num("t", tid(v->getType())); j.num("id", did(v));
    if (v->isConstexpr()) j.num("cexpr", 1); if (v->getType().isConstQualified()) j.num("const", 1); if (v->isInline()) j.num("inl", 1); if (v->getTSCSpec() != TSCS_unspecified) j.num("tls", 1); if (v->isStaticDataMember()) j.num("smem", 1); if (v->getStorageClass() == SC_Static) j.num("static", 1);
    if (v->getType()->isReferenceType()) j.num("ref", 1);
    if (v->isThisDeclarationADefinition()) j.num("defn", 1);
    if (v->getDescribedVarTemplate() || isa<VarTemplateSpecializationDecl>(v)) j.num("tmpl", 1);
    if (v->getInit()) j.raw("c", kids({v->getInit()}));
    emit(j.done());
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Ex &X; Vis(Ex &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) { X.addFn(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { X.emitRec(r); return true; }
  bool VisitEnumDecl(EnumDecl *e) { X.emitEnum(e); return true; }
  bool VisitVarDecl(VarDecl *v) { X.emitVar(v); return true; }
};

// Instantiates every function template that is still only a pattern with representative arguments.
struct TmplVis : RecursiveASTVisitor<TmplVis> {
  std::vector<FunctionTemplateDecl *> L; Ex &X; TmplVis(Ex &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl *d) { if (X.inRepo(d->getLocation()) && !d->getDeclContext()->isDependentContext()) L.push_back(d); return true; }
};
static int g_inst_ok = 0, g_inst_fail = 0;
static std::set<const FunctionDecl *> g_late;   // defined only because the extractor asked for it
static void instantiateAll(Sema &S, ASTContext &C, Ex &X) {
  std::map<string, QualType> named;
  for (auto *d : C.getTranslationUnitDecl()->decls()) if (auto *ns = dyn_cast<NamespaceDecl>(d)) if (ns->getName() == "mmlx") for (auto *t : ns->decls()) if (auto *td = dyn_cast<TypedefNameDecl>(t)) named[td->getName().str()] = td->getUnderlyingType();
  TmplVis v(X); v.TraverseDecl(C.getTranslationUnitDecl());
  S.getDiagnostics().setSuppressAllDiagnostics(true);
  for (auto *F : v.L) {
    auto *canon = F->getCanonicalDecl(); if (canon != F->getCanonicalDecl()) continue;
    bool has = false; for (auto *s : F->specializations()) if (s->hasBody() || s->isDefined()) has = true;
    if (has) continue;
    llvm::SmallVector<TemplateArgument, 4> A; bool ok = true;
    string fq = F->getNameAsString();
    for (auto *p : *F->getTemplateParameters()) {
      if (auto *t = dyn_cast<TemplateTypeParmDecl>(p)) {
        if (t->isParameterPack()) { A.push_back(TemplateArgument(ArrayRef<TemplateArgument>())); continue; }
        auto it = named.find("arg_" + fq + "_" + t->getNameAsString()); if (it == named.end()) it = named.find("arg_" + t->getNameAsString());
        A.push_back(TemplateArgument(it != named.end() ? it->second : C.DoubleTy));
      } else if (auto *n = dyn_cast<NonTypeTemplateParmDecl>(p)) {
        QualType ty = n->getType(); if (!ty->isIntegralOrEnumerationType()) { ok = false; break; }
        uint64_t val = ty->isEnumeralType() ? 0 : 3; llvm::APSInt I(llvm::APInt(C.getIntWidth(ty), val), ty->isUnsignedIntegerOrEnumerationType());
        A.push_back(TemplateArgument(C, I, ty));
      } else ok = false;
    }
    if (!ok) { g_inst_fail++; continue; }
    auto *TAL = TemplateArgumentList::CreateCopy(C, A);
    FunctionDecl *fd = S.InstantiateFunctionDeclaration(F, TAL, F->getLocation());
    if (!fd || fd->isInvalidDecl()) { g_inst_fail++; continue; }
    S.InstantiateFunctionDefinition(F->getLocation(), fd, true, false, true);
    if (fd->isDefined() && !fd->isInvalidDecl()) g_inst_ok++; else g_inst_fail++;
  }
  S.PerformPendingInstantiations();
  // members and inline friends of class instances that nothing has used so far
  struct SpecVis : RecursiveASTVisitor<SpecVis> {
    std::vector<CXXRecordDecl *> L; Ex &X; SpecVis(Ex &x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *d) { auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(d); if (sp && !isa<ClassTemplatePartialSpecializationDecl>(d) && d->isCompleteDefinition() && !d->isDependentContext() && X.inRepo(sp->getSpecializedTemplate()->getLocation())) L.push_back(d); return true; }
  };
  std::set<const FunctionDecl *> done;
  for (int round = 0; round < 2; round++) {
    SpecVis sv(X); sv.TraverseDecl(C.getTranslationUnitDecl());
    auto def = [&](FunctionDecl *f) {
      if (!f || f->isDefined() || f->isInvalidDecl() || f->isDependentContext() || f->isDeleted() || !done.insert(f).second) return;
      auto *p = f->getTemplateInstantiationPattern(); if (!p || !p->isDefined()) return;
      S.InstantiateFunctionDefinition(f->getLocation(), f, true, false, true);
      if (f->isDefined() && !f->isInvalidDecl()) { g_inst_ok++; g_late.insert(f); } else { g_inst_fail++; if (getenv("MMLX_DBG")) fprintf(stderr, "FAIL %s def=%d inv=%d\n", f->getQualifiedNameAsString().c_str(), (int)f->isDefined(), (int)f->isInvalidDecl()); }
    };
    for (auto *d : sv.L) {
      for (auto *m : d->methods()) if (!m->isImplicit()) def(m);
      for (auto *fr : d->friends()) if (auto *nd = fr->getFriendDecl()) if (auto *f = dyn_cast<FunctionDecl>(nd)) def(f);
    }
    S.PerformPendingInstantiations();
  }
}
struct Cons : SemaConsumer {
  Sema *S = nullptr;
  void InitializeSema(Sema &s) override { S = &s; }
  void ForgetSema() override { S = nullptr; }
  void HandleTranslationUnit(ASTContext &C) override {
    unsigned errs = C.getDiagnostics().getClient()->getNumErrors();
    Ex X(C); if (S) instantiateAll(*S, C, X);
    { J j; j.str("k", "meta"); j.num("errors", errs); j.num("inst_ok", g_inst_ok); j.num("inst_fail", g_inst_fail); X.emit(j.done()); } Vis v(X); v.TraverseDecl(C.getTranslationUnitDecl());
    for (auto &kv : X.fns) {
      auto &L = kv.second; const FunctionDecl *best = nullptr; int bs = -100; int ninst = 0;
      std::set<const FunctionDecl*> uniq;
      for (auto *f : L) {
        if (!uniq.insert(f).second) continue;
        int sc; if (f->isTemplateInstantiation()) { ninst++; string q; raw_string_ostream o(q); o << f->getType().getCanonicalType().getAsString(X.PP); if (auto *r = dyn_cast<CXXRecordDecl>(f->getDeclContext())) r->getNameForDiagnostic(o, X.PP, true); if (auto *ta = f->getTemplateSpecializationArgs()) printTemplateArgumentList(o, ta->asArray(), X.PP); o.flush();
          sc = q.find("complex") != string::npos ? 2 : q.find("double") != string::npos ? 4 : 3; if (q.find("float") != string::npos) sc = 2; if (q.find(", 3") != string::npos) sc += 1; sc *= 2; if (auto *r = dyn_cast<CXXRecordDecl>(f->getDeclContext())) { string rn; raw_string_ostream ro(rn); r->getNameForDiagnostic(ro, X.PP, true); ro.flush(); if (rn.find(", 3, 3") != string::npos || rn.find(", 2, 2") != string::npos) sc++; }
          if (g_late.count(f)) { sc -= 10; string n; raw_string_ostream no(n); if (auto *r = dyn_cast<CXXRecordDecl>(f->getLexicalDeclContext())) r->getNameForDiagnostic(no, X.PP, true); no.flush(); auto lt = n.find('<'); if (lt != string::npos && (n.find('<', lt + 1) != string::npos || n.find('(', lt) != string::npos || n.find('*', lt) != string::npos)) sc -= 10; } }
        else sc = f->isDependentContext() || f->getLexicalDeclContext()->isDependentContext() ? -40 : 20;
        if (sc > bs) { bs = sc; best = f; }
      }
      X.emitFn(kv.first, best, ninst);
    }
    for (size_t i = 0; i < X.typeNames.size(); i++) {
      J j; j.str("k", "ty"); j.num("i", i); auto &s = X.typeNames[i]; auto p = s.find('\x01'); j.str("n", p == string::npos ? s : s.substr(0, p)); if (p != string::npos) j.str("c", s.substr(p + 1)); X.emit(j.done());
    }
  }
};
struct Inc : PPCallbacks {
  SourceManager &SM; Inc(SourceManager &s) : SM(s) {}
  static string rel(llvm::StringRef f) { string s = f.str(); if (s.compare(0, g_root.size(), g_root) == 0) return s.substr(g_root.size()); return "!" + s; }
  void InclusionDirective(SourceLocation H, const Token &, StringRef name, bool ang, CharSourceRange, OptionalFileEntryRef F, StringRef, StringRef, const clang::Module *, SrcMgr::CharacteristicKind) override {
    string from = rel(SM.getFilename(H)); if (from.empty() || from[0] == '!') return;
    J j; j.str("k", "inc"); j.str("from", from); j.str("to", F ? rel(F->getFileEntry().tryGetRealPathName()) : "?"); j.str("name", name); j.num("l", SM.getSpellingLineNumber(H)); string s = j.done(); fwrite(s.data(), 1, s.size(), g_out); fputc('\n', g_out);
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getPreprocessor().addPPCallbacks(std::make_unique<Inc>(CI.getSourceManager()));
    return std::make_unique<Cons>();
  }
};
int main(int argc, char **argv) {
  // mmlx ROOT OUT FILE -- flags...
  if (argc < 5) { fprintf(stderr, "usage: mmlx ROOT OUT FILE -- flags\n"); return 2; }
  g_root = argv[1]; if (g_root.back() != '/') g_root += '/';
  g_out = fopen(argv[2], "w"); if (!g_out) { perror(argv[2]); return 2; }
  setvbuf(g_out, nullptr, _IOFBF, 1 << 20);
  std::vector<string> flags; for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {string(argv[3])});
  int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
  fclose(g_out);
  return rc;
}
