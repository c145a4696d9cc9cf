// AST exporter: parses one translation unit of the code base with the Clang front end and writes the
// resolved program (records, functions, template instantiations with types and callees resolved) as JSON.
// Nothing of the code base is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Basic/SourceManager.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <memory>
using namespace clang;

static std::string ROOT = "/repo/";   // sources whose definitions are exported
static std::string ROOT2 = "";        // additional root (instantiation unit)
static std::string OUT;
static std::string jesc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
  }
  return o + "\"";
}

struct Ex {
  ASTContext &C; SourceManager &SM; llvm::raw_ostream &O; PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const void*, int> ids; int nid = 0;
  Ex(ASTContext &C, llvm::raw_ostream &O) : C(C), SM(C.getSourceManager()), O(O), PP(C.getLangOpts()), MC(C.createMangleContext()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.UseVoidForZeroParams = true; PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true; PP.SuppressInlineNamespace = true;
  }
  int id(const Decl *d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; return ids[d] = ++nid; }
  std::string ty(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(PP);
  }
  std::string loc(SourceLocation l) {
    if (l.isInvalid()) return "";
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    if (p.isInvalid()) return "";
    return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
  }
  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    if (p.isInvalid()) return false;
    llvm::StringRef f(p.getFilename());
    return f.starts_with(ROOT) || (!ROOT2.empty() && f.starts_with(ROOT2));
  }
  std::string qn(const NamedDecl *d) {
    std::string s; llvm::raw_string_ostream os(s);
    if (auto *fd = dyn_cast<FunctionDecl>(d)) {
      // class template args are printed with the qualifier
      if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
        os << rec(md->getParent()) << "::";
        if (isa<CXXConstructorDecl>(fd)) os << "(ctor)";
        else if (isa<CXXDestructorDecl>(fd)) os << "(dtor)";
        else if (isa<CXXConversionDecl>(fd)) os << "(conv)";
        else os << fd->getDeclName().getAsString();
        return os.str();
      }
      fd->printQualifiedName(os, PP);
      return os.str();
    }
    d->printQualifiedName(os, PP); return os.str();
  }
  std::string rec(const CXXRecordDecl *r) {
    if (r->isLambda()) return "(lambda)";
    return ty(C.getRecordType(r));
  }
  std::string key(const FunctionDecl *f) {
    f = f->getCanonicalDecl();
    std::string s; 
    if (auto *md = dyn_cast<CXXMethodDecl>(f)) if (md->getParent()->isLambda()) return "lambda#" + loc(md->getParent()->getBeginLoc()) + "#" + std::to_string(id(md->getParent()));
    llvm::raw_string_ostream os(s);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c, Ctor_Complete), os);
    else if (auto *d = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(d, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), os);
    else os << f->getNameAsString();
    os.flush();
    // internal-linkage functions may repeat over units
    if (f->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(f)) s += "@" + loc(f->getLocation());
    return s;
  }
  // ---------------------------------------------------------------- expressions
  const Expr *strip(const Expr *e) {
    while (e) {
      if (auto *p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
      else if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
      else if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<GenericSelectionExpr>(e)) e = p->getResultExpr();
      else if (auto *p = dyn_cast<UnaryOperator>(e); p && (p->getOpcode() == UO_Extension || p->getOpcode() == UO_Plus)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<CastExpr>(e)) {
        switch (p->getCastKind()) {
          case CK_ArrayToPointerDecay:
            if (!isa<StringLiteral>(p->getSubExpr()->IgnoreParens()) && !isa<PredefinedExpr>(p->getSubExpr()->IgnoreParens())) return e;
            e = p->getSubExpr(); break;
          case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay:
          case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion:
          case CK_BuiltinFnToFnPtr: case CK_LValueBitCast:
            e = p->getSubExpr(); break;
          case CK_BitCast: if (isa<ImplicitCastExpr>(p)) { e = p->getSubExpr(); break; } return e;
          default: return e;
        }
      } else return e;
    }
    return e;
  }
  void list(llvm::ArrayRef<const Expr*> v) { O << "["; bool f = true; for (auto *e : v) { if (!f) O << ","; f = false; expr(e); } O << "]"; }
  template<class R> void args(R r) { O << "["; bool f = true; for (auto *e : r) { if (!f) O << ","; f = false; expr(e); } O << "]"; }
  void head(const char *k, const Expr *e) { O << "{\"k\":\"" << k << "\",\"t\":" << jesc(ty(e->getType())) << ",\"l\":" << SM.getExpansionLineNumber(e->getExprLoc().isValid() ? e->getExprLoc() : e->getBeginLoc()); }
  void callee(const FunctionDecl *f) {
    O << ",\"fn\":" << jesc(key(f)) << ",\"q\":" << jesc(qn(f)) << ",\"n\":" << jesc(f->getNameAsString());
    if (auto *tl = f->getTemplateSpecializationArgs()) {
      O << ",\"ta\":["; bool first = true;
      for (auto &a : tl->asArray()) {
        auto one = [&](const TemplateArgument &x) { if (!first) O << ","; first = false; std::string s; llvm::raw_string_ostream os(s); if (x.getKind() == TemplateArgument::Type) os << ty(x.getAsType()); else x.print(PP, os, true); O << jesc(os.str()); };
        if (a.getKind() == TemplateArgument::Pack) for (auto &p : a.pack_elements()) one(p); else one(a);
      }
      O << "]";
    }
    O << ",\"pt\":["; bool first = true;
    for (auto *p : f->parameters()) { if (!first) O << ","; first = false; O << jesc(ty(p->getType())); }
    O << "]";
  }
  void expr(const Expr *e0) {
    const Expr *e = strip(e0);
    if (!e) { O << "null"; return; }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { head("int", e); llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); O << ",\"v\":" << jesc(s) << "}"; return; }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { head("flt", e); llvm::SmallString<32> s; x->getValue().toString(s); O << ",\"v\":" << jesc(s) << "}"; return; }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { head("bool", e); O << ",\"v\":" << (x->getValue() ? "true" : "false") << "}"; return; }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { head("chr", e); O << ",\"v\":" << x->getValue() << "}"; return; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { head("null", e); O << "}"; return; }
    if (auto *x = dyn_cast<clang::StringLiteral>(e)) { head("str", e); O << ",\"v\":" << jesc(x->isOrdinary() || x->isUTF8() || x->isUnevaluated() ? x->getString() : llvm::StringRef("?")) << "}"; return; }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) { head("str", e); O << ",\"v\":" << jesc(x->getFunctionName() ? x->getFunctionName()->getString() : llvm::StringRef("")) << "}"; return; }
    if (isa<CXXThisExpr>(e)) { head("this", e); O << "}"; return; }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { head("int", e); llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); O << ",\"v\":" << jesc(s) << ",\"en\":" << jesc(qn(ec)) << "}"; return; }
      if (auto *b = dyn_cast<BindingDecl>(d)) { if (b->getBinding()) { expr(b->getBinding()); return; } }
      head("ref", e);
      O << ",\"id\":" << id(d) << ",\"n\":" << jesc(d->getNameAsString());
      if (auto *f = dyn_cast<FunctionDecl>(d)) { O << ",\"dk\":\"func\""; callee(f); }
      else if (auto *v = dyn_cast<VarDecl>(d)) {
        if (v->hasGlobalStorage()) O << ",\"dk\":\"global\",\"q\":" << jesc(qn(v)); else O << ",\"dk\":\"local\"";
        if (v->isConstexpr() || (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType())) {
          Expr::EvalResult r; if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); O << ",\"cv\":" << jesc(s); }
        }
      } else O << ",\"dk\":\"other\"";
      O << "}"; return;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *d = x->getMemberDecl();
      if (auto *v = dyn_cast<VarDecl>(d)) { head("ref", e); O << ",\"id\":" << id(v) << ",\"n\":" << jesc(v->getNameAsString()) << ",\"dk\":\"global\",\"q\":" << jesc(qn(v)) << "}"; return; }
      head("mem", e); O << ",\"f\":" << jesc(d->getNameAsString());
      if (auto *f = dyn_cast<FieldDecl>(d)) O << ",\"own\":" << jesc(ty(C.getRecordType(f->getParent()))) << ",\"ref\":" << (f->getType()->isReferenceType() ? "true" : "false");
      O << ",\"a\":" << (x->isArrow() ? "true" : "false") << ",\"b\":"; expr(x->getBase()); O << "}"; return;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      head("mcall", e);
      if (auto *m = x->getMethodDecl()) {
        callee(m);
        auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
        bool virt = m->isVirtual() && !(me && me->hasQualifier());
        O << ",\"virt\":" << (virt ? "true" : "false") << ",\"ret\":" << jesc(ty(m->getReturnType())) << ",\"cm\":" << (m->isConst() ? "true" : "false");
        O << ",\"a\":" << (x->getImplicitObjectArgument() && x->getImplicitObjectArgument()->getType()->isPointerType() ? "true" : "false");
        O << ",\"ot\":" << jesc(ty(x->getObjectType()));
        O << ",\"o\":"; expr(x->getImplicitObjectArgument());
      } else { O << ",\"fe\":"; expr(x->getCallee()); }
      O << ",\"args\":"; args(x->arguments()); O << "}"; return;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      head("opcall", e); O << ",\"op\":" << jesc(getOperatorSpelling(x->getOperator()));
      if (auto *f = x->getDirectCallee()) { callee(f); O << ",\"m\":" << (isa<CXXMethodDecl>(f) ? "true" : "false") << ",\"ret\":" << jesc(ty(f->getReturnType())); if (auto *m = dyn_cast<CXXMethodDecl>(f)) O << ",\"lam\":" << (m->getParent()->isLambda() ? "true":"false") << ",\"cm\":" << (m->isConst() ? "true" : "false"); }
      else { O << ",\"fe\":"; expr(x->getCallee()); }
      O << ",\"args\":"; args(x->arguments()); O << "}"; return;
    }
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { expr(x->getSemanticForm()); return; }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      head("call", e);
      if (auto *f = x->getDirectCallee()) { callee(f); O << ",\"ret\":" << jesc(ty(f->getReturnType())); }
      else { O << ",\"fe\":"; expr(x->getCallee()); }
      O << ",\"args\":"; args(x->arguments()); O << "}"; return;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto *c = x->getConstructor();
      head("ctor", e); O << ",\"cls\":" << jesc(rec(c->getParent())); callee(c);
      O << ",\"copy\":" << (c->isCopyConstructor() ? "true" : "false") << ",\"move\":" << (c->isMoveConstructor() ? "true" : "false") << ",\"dflt\":" << (c->isDefaultConstructor() ? "true" : "false")
        << ",\"il\":" << (x->isStdInitListInitialization() ? "true" : "false") << ",\"impl\":" << (c->isUserProvided() ? "false" : "true");
      if (auto *vt = dyn_cast<CXXTemporaryObjectExpr>(e)) { (void)vt; O << ",\"tmp\":true"; }
      O << ",\"args\":"; args(x->arguments()); O << "}"; return;
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { head("ctor", e); O << ",\"cls\":" << jesc(rec(x->getConstructor()->getParent())); callee(x->getConstructor()); O << ",\"inh\":true,\"args\":[]}"; return; }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isTransparent()) { expr(x->getInit(0)); return; }
      head("ilist", e);
      if (auto *r = x->getType()->getAsCXXRecordDecl()) { O << ",\"flds\":["; bool f = true; for (auto *fd : r->fields()) { if (!f) O << ","; f = false; O << jesc(fd->getNameAsString()); } O << "]"; }
      O << ",\"c\":"; args(x->inits()); O << "}"; return;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) { head("un", e); O << ",\"op\":" << jesc(UnaryOperator::getOpcodeStr(x->getOpcode())) << ",\"post\":" << (x->isPostfix() ? "true" : "false") << ",\"c\":"; expr(x->getSubExpr()); O << "}"; return; }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) { head("casg", e); O << ",\"op\":" << jesc(BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode()))) << ",\"ct\":" << jesc(ty(x->getComputationResultType())) << ",\"lhs\":"; expr(x->getLHS()); O << ",\"rhs\":"; expr(x->getRHS()); O << "}"; return; }
    if (auto *x = dyn_cast<BinaryOperator>(e)) { head(x->isAssignmentOp() ? "asg" : "bin", e); O << ",\"op\":" << jesc(x->getOpcodeStr()) << ",\"lhs\":"; expr(x->getLHS()); O << ",\"rhs\":"; expr(x->getRHS()); O << "}"; return; }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
      head("cond", e);
      if (auto *b = dyn_cast<BinaryConditionalOperator>(e)) { O << ",\"cnd\":"; expr(b->getCommon()); O << ",\"x\":"; expr(b->getCommon()); O << ",\"y\":"; expr(b->getFalseExpr()); O << "}"; return; }
      O << ",\"cnd\":"; expr(x->getCond()); O << ",\"x\":"; expr(x->getTrueExpr()); O << ",\"y\":"; expr(x->getFalseExpr()); O << "}"; return; }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { expr(x->getSourceExpr()); return; }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { head("sub", e); O << ",\"b\":"; expr(x->getBase()); O << ",\"i\":"; expr(x->getIdx()); O << "}"; return; }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { head("throw", e); O << ",\"tt\":" << jesc(x->getSubExpr() ? ty(x->getSubExpr()->getType()) : "") << ",\"c\":"; expr(x->getSubExpr()); O << "}"; return; }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) { head("newx", e); O << ",\"at\":" << jesc(ty(x->getAllocatedType())) << ",\"arr\":" << (x->isArray() ? "true" : "false") << ",\"n\":"; if (x->isArray() && x->getArraySize()) expr(*x->getArraySize()); else O << "null"; O << ",\"init\":"; expr(x->getInitializer()); O << "}"; return; }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { head("delx", e); O << ",\"arr\":" << (x->isArrayForm() ? "true" : "false") << ",\"c\":"; expr(x->getArgument()); O << "}"; return; }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      head("lambda", e); O << ",\"fn\":" << jesc(key(x->getCallOperator())) << ",\"caps\":[";
      bool f = true;
      for (auto &c : x->captures()) {
        if (!f) O << ","; f = false;
        if (c.capturesThis()) O << "{\"th\":true,\"star\":" << (c.getCaptureKind() == LCK_StarThis ? "true" : "false") << "}";
        else if (c.capturesVariable()) {
          auto *vd = c.getCapturedVar();
          O << "{\"id\":" << id(vd) << ",\"n\":" << jesc(vd->getNameAsString()) << ",\"byref\":" << (c.getCaptureKind() == LCK_ByRef ? "true" : "false");
          if (auto *v = dyn_cast<VarDecl>(vd)) if (v->isInitCapture()) { O << ",\"init\":"; expr(v->getInit()); }
          O << "}";
        } else O << "{}";
      }
      O << "],\"def\":" << (int)x->getCaptureDefault() << ",\"f\":"; fn(x->getCallOperator());
      if (auto *t = x->getCallOperator()->getDescribedFunctionTemplate()) {
        O << ",\"fs\":["; bool g = true;
        for (auto *s : t->specializations()) { if (!s->getBody()) continue; if (!g) O << ","; g = false; fn(s); }
        O << "]";
      }
      O << "}"; return;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) { head("int", e); llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); O << ",\"v\":" << jesc(s) << ",\"szof\":" << jesc(ty(x->isArgumentType() ? x->getArgumentType() : x->getArgumentExpr()->getType())) << "}"; return; }
      head("unk", e); O << ",\"d\":\"sizeof\"}"; return;
    }
    if (auto *x = dyn_cast<CastExpr>(e)) { head("cast", e); O << ",\"ck\":" << jesc(x->getCastKindName()) << ",\"ex\":" << (isa<ImplicitCastExpr>(x) ? "false" : "true") << ",\"c\":"; expr(x->getSubExpr()); O << "}"; return; }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { head("zero", e); O << "}"; return; }
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) { head("typeid", e); if (x->isTypeOperand()) O << ",\"tt\":" << jesc(ty(x->getTypeOperand(C))); else { O << ",\"c\":"; expr(x->getExprOperand()); } O << "}"; return; }
    if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(e)) { (void)x; head("unk", e); O << ",\"d\":\"pseudodtor\"}"; return; }
    if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) { head("bool", e); O << ",\"v\":" << (x->getValue() ? "true" : "false") << "}"; return; }
    if (auto *x = dyn_cast<TypeTraitExpr>(e)) { head("bool", e); O << ",\"v\":" << (x->getValue() ? "true" : "false") << "}"; return; }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { head("unk", e); O << ",\"d\":\"arrayinitloop\",\"c\":["; expr(x->getCommonExpr()); O << "]}"; return; }
    if (auto *x = dyn_cast<StmtExpr>(e)) { head("stmtx", e); O << ",\"c\":"; stmt(x->getSubStmt()); O << "}"; return; }
    if (auto *x = dyn_cast<CompoundLiteralExpr>(e)) { expr(x->getInitializer()); return; }
    head("unk", e); O << ",\"d\":" << jesc(e->getStmtClassName()) << ",\"c\":["; bool f = true;
    for (auto *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) { if (!f) O << ","; f = false; expr(ce); }
    O << "]}";
  }
  // ---------------------------------------------------------------- statements
  void var(const VarDecl *v) {
    O << "{\"id\":" << id(v) << ",\"n\":" << jesc(v->getNameAsString()) << ",\"t\":" << jesc(ty(v->getType())) << ",\"static\":" << (v->isStaticLocal() ? "true" : "false") << ",\"l\":" << SM.getExpansionLineNumber(v->getLocation());
    O << ",\"init\":"; if (v->getInit()) expr(v->getInit()); else O << "null";
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) { O << ",\"binds\":["; bool f = true; for (auto *b : dd->bindings()) { if (!f) O << ","; f = false; if (auto *hv = b->getHoldingVar()) var(hv); else O << "null"; } O << "]"; }
    O << "}";
  }
  void sh(const char *k, const Stmt *s) { O << "{\"s\":\"" << k << "\",\"l\":" << SM.getExpansionLineNumber(s->getBeginLoc()); }
  void stmt(const Stmt *s) {
    if (!s) { O << "null"; return; }
    if (auto *e = dyn_cast<Expr>(s)) { sh("expr", s); O << ",\"e\":"; expr(e); O << "}"; return; }
    if (auto *x = dyn_cast<CompoundStmt>(s)) { sh("comp", s); O << ",\"c\":["; bool f = true; for (auto *c : x->body()) { if (!f) O << ","; f = false; stmt(c); } O << "]}"; return; }
    if (auto *x = dyn_cast<DeclStmt>(s)) { sh("decl", s); O << ",\"vars\":["; bool f = true; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) { if (!f) O << ","; f = false; var(v); } O << "]}"; return; }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      if (x->isConsteval()) { sh("null", s); O << "}"; return; }
      if (x->isConstexpr()) { Expr::EvalResult r; if (!x->getCond()->isValueDependent() && x->getCond()->EvaluateAsInt(r, C)) { bool b = r.Val.getInt().getBoolValue(); const Stmt *t = b ? x->getThen() : x->getElse(); if (t) stmt(t); else { sh("null", s); O << "}"; } return; } }
      sh("if", s); O << ",\"init\":"; stmt(x->getInit()); O << ",\"cv\":"; if (x->getConditionVariable()) var(x->getConditionVariable()); else O << "null"; O << ",\"cnd\":"; expr(x->getCond()); O << ",\"then\":"; stmt(x->getThen()); O << ",\"else\":"; stmt(x->getElse()); O << "}"; return; }
    if (auto *x = dyn_cast<ForStmt>(s)) { sh("for", s); O << ",\"init\":"; stmt(x->getInit()); O << ",\"cnd\":"; expr(x->getCond()); O << ",\"inc\":"; expr(x->getInc()); O << ",\"body\":"; stmt(x->getBody()); O << "}"; return; }
    if (auto *x = dyn_cast<WhileStmt>(s)) { sh("while", s); O << ",\"cv\":"; if (x->getConditionVariable()) var(x->getConditionVariable()); else O << "null"; O << ",\"cnd\":"; expr(x->getCond()); O << ",\"body\":"; stmt(x->getBody()); O << "}"; return; }
    if (auto *x = dyn_cast<DoStmt>(s)) { sh("do", s); O << ",\"cnd\":"; expr(x->getCond()); O << ",\"body\":"; stmt(x->getBody()); O << "}"; return; }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { sh("rfor", s); O << ",\"var\":"; var(x->getLoopVariable()); O << ",\"rng\":"; expr(x->getRangeInit()); O << ",\"body\":"; stmt(x->getBody()); O << "}"; return; }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { sh("ret", s); O << ",\"e\":"; expr(x->getRetValue()); O << "}"; return; }
    if (isa<BreakStmt>(s)) { sh("break", s); O << "}"; return; }
    if (isa<ContinueStmt>(s)) { sh("cont", s); O << "}"; return; }
    if (auto *x = dyn_cast<SwitchStmt>(s)) { sh("switch", s); O << ",\"cnd\":"; expr(x->getCond()); O << ",\"body\":"; stmt(x->getBody()); O << "}"; return; }
    if (auto *x = dyn_cast<CaseStmt>(s)) { sh("case", s); O << ",\"v\":"; expr(x->getLHS()); O << ",\"c\":"; stmt(x->getSubStmt()); O << "}"; return; }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { sh("dflt", s); O << ",\"c\":"; stmt(x->getSubStmt()); O << "}"; return; }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) { sh("try", s); O << ",\"body\":"; stmt(x->getTryBlock()); O << ",\"h\":["; for (unsigned i = 0; i < x->getNumHandlers(); i++) { if (i) O << ","; auto *h = x->getHandler(i); O << "{\"t\":" << jesc(h->getExceptionDecl() ? ty(h->getCaughtType()) : "...") << ",\"id\":" << (h->getExceptionDecl() ? id(h->getExceptionDecl()) : 0) << ",\"body\":"; stmt(h->getHandlerBlock()); O << "}"; } O << "]}"; return; }
    if (auto *x = dyn_cast<AttributedStmt>(s)) { stmt(x->getSubStmt()); return; }
    if (isa<NullStmt>(s)) { sh("null", s); O << "}"; return; }
    sh("unk", s); O << ",\"d\":" << jesc(s->getStmtClassName()) << "}";
  }
  // ---------------------------------------------------------------- functions
  void fn(const FunctionDecl *f) {
    const FunctionDecl *def = nullptr; f->getBody(def); if (!def) def = f;
    O << "{\"key\":" << jesc(key(f)) << ",\"q\":" << jesc(qn(f)) << ",\"n\":" << jesc(f->getNameAsString()) << ",\"loc\":" << jesc(loc(def->getLocation())) << ",\"end\":" << SM.getExpansionLineNumber(def->getEndLoc()) << ",\"ret\":" << jesc(ty(f->getReturnType()));
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      O << ",\"cls\":" << jesc(rec(m->getParent())) << ",\"const\":" << (m->isConst() ? "true" : "false") << ",\"static\":" << (m->isStatic() ? "true" : "false") << ",\"virt\":" << (m->isVirtual() ? "true" : "false") << ",\"acc\":" << (int)m->getAccess();
      O << ",\"ov\":["; bool ff = true; for (auto *o : m->overridden_methods()) { if (!ff) O << ","; ff = false; O << jesc(key(o)); } O << "]";
      O << ",\"kind\":" << jesc(isa<CXXConstructorDecl>(m) ? "ctor" : isa<CXXDestructorDecl>(m) ? "dtor" : m->isCopyAssignmentOperator() ? "cpasg" : m->isMoveAssignmentOperator() ? "mvasg" : "m");
      if (auto *c = dyn_cast<CXXConstructorDecl>(m)) O << ",\"cc\":" << (c->isCopyConstructor() ? "true" : "false") << ",\"mc\":" << (c->isMoveConstructor() ? "true" : "false");
      O << ",\"dfl\":" << (m->isDefaulted() ? "true" : "false") << ",\"del\":" << (m->isDeleted() ? "true" : "false");
      if (auto *mi = m->getTemplateInstantiationPattern()) O << ",\"pat\":" << jesc(loc(mi->getLocation()));
    }
    if (auto *tl = f->getTemplateSpecializationArgs()) { O << ",\"targs\":["; bool first = true; for (auto &a : tl->asArray()) { if (!first) O << ","; first = false; std::string s; llvm::raw_string_ostream os(s); if (a.getKind() == TemplateArgument::Type) os << ty(a.getAsType()); else a.print(PP, os, true); O << jesc(os.str()); } O << "]"; }
    O << ",\"params\":["; bool ff = true;
    for (auto *p : def->parameters()) { if (!ff) O << ","; ff = false; O << "{\"id\":" << id(p) << ",\"n\":" << jesc(p->getNameAsString()) << ",\"t\":" << jesc(ty(p->getType())) << "}"; }
    O << "]";
    if (auto *c = dyn_cast<CXXConstructorDecl>(def)) {
      O << ",\"inits\":["; bool f2 = true;
      for (auto *i : c->inits()) {
        if (!f2) O << ","; f2 = false;
        O << "{\"w\":" << (i->isWritten() ? "true" : "false") << ",\"l\":" << SM.getExpansionLineNumber(i->getSourceLocation().isValid() ? i->getSourceLocation() : c->getLocation());
        if (i->isMemberInitializer()) O << ",\"f\":" << jesc(i->getMember()->getNameAsString()) << ",\"ft\":" << jesc(ty(i->getMember()->getType()));
        else if (i->isBaseInitializer()) O << ",\"base\":" << jesc(ty(QualType(i->getBaseClass(), 0)));
        else if (i->isDelegatingInitializer()) O << ",\"dlg\":true";
        O << ",\"e\":"; expr(i->getInit()); O << "}";
      }
      O << "]";
    }
    O << ",\"body\":"; if (def->getBody() ) stmt(def->getBody()); else O << "null";
    O << "}";
  }
  void record(const CXXRecordDecl *r) {
    O << "{\"name\":" << jesc(rec(r)) << ",\"loc\":" << jesc(loc(r->getLocation())) << ",\"short\":" << jesc(r->getNameAsString()) << ",\"bases\":[";
    bool f = true; for (auto &b : r->bases()) { if (!f) O << ","; f = false; O << jesc(ty(b.getType())); }
    O << "],\"fields\":["; f = true;
    for (auto *x : r->fields()) { if (!f) O << ","; f = false; O << "{\"n\":" << jesc(x->getNameAsString()) << ",\"t\":" << jesc(ty(x->getType())) << ",\"init\":"; if (x->hasInClassInitializer() && x->getInClassInitializer()) expr(x->getInClassInitializer()); else O << "null"; O << ",\"acc\":" << (int)x->getAccess() << "}"; }
    O << "],\"methods\":["; f = true;
    for (auto *m : r->methods()) { if (isa<CXXMethodDecl>(m) && m->isImplicit() && m->isDeleted()) {} if (!f) O << ","; f = false;
      O << "{\"key\":" << jesc(key(m)) << ",\"n\":" << jesc(m->getNameAsString()) << ",\"virt\":" << (m->isVirtual() ? "true" : "false") << ",\"impl\":" << (m->isImplicit() ? "true" : "false") << ",\"del\":" << (m->isDeleted() ? "true" : "false") << ",\"dfl\":" << (m->isDefaulted() ? "true" : "false") << ",\"acc\":" << (int)m->getAccess() << ",\"static\":" << (m->isStatic() ? "true" : "false")
        << ",\"kind\":" << jesc(isa<CXXConstructorDecl>(m) ? (cast<CXXConstructorDecl>(m)->isCopyConstructor() ? "cc" : cast<CXXConstructorDecl>(m)->isMoveConstructor() ? "mc" : cast<CXXConstructorDecl>(m)->isDefaultConstructor() ? "dc" : "ctor") : isa<CXXDestructorDecl>(m) ? "dtor" : m->isCopyAssignmentOperator() ? "cpasg" : m->isMoveAssignmentOperator() ? "mvasg" : "m");
      O << ",\"ret\":" << jesc(ty(m->getReturnType())) << ",\"params\":["; bool g = true; for (auto *p : m->parameters()) { if (!g) O << ","; g = false; O << jesc(ty(p->getType())); } O << "]";
      O << ",\"ov\":["; g = true; for (auto *o : m->overridden_methods()) { if (!g) O << ","; g = false; O << jesc(key(o)); } O << "]}";
    }
    O << "]}";
  }
};

struct V : RecursiveASTVisitor<V> {
  Ex &X; std::vector<const FunctionDecl*> fns; std::vector<const CXXRecordDecl*> recs; std::vector<const VarDecl*> gl; std::set<const void*> seen;
  V(Ex &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isDependentContext() || f->getType()->isDependentType()) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (!f->isThisDeclarationADefinition()) return true;
    if (!X.inRoot(f->getLocation())) return true;
    if (!f->getBody() && !f->isDefaulted()) return true;
    if (!seen.insert(f->getCanonicalDecl()).second) return true;
    fns.push_back(f); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isDependentContext() || !r->isThisDeclarationADefinition() || r->isLambda()) return true;
    if (!X.inRoot(r->getLocation())) return true;
    if (!seen.insert(r->getCanonicalDecl()).second) return true;
    recs.push_back(r); return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!v->isFileVarDecl() && !v->isStaticDataMember()) return true;
    if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true;
    if (!X.inRoot(v->getLocation()) || !v->hasInit()) return true;
    gl.push_back(v); return true;
  }
};
// errors of the unit: "line message"
static std::vector<std::string> ERRS;
struct Diag : DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic &d) override {
    DiagnosticConsumer::HandleDiagnostic(l, d);
    if (l < DiagnosticsEngine::Error) return;
    llvm::SmallString<256> m; d.FormatDiagnostic(m);
    std::string at = "?:0";
    if (d.hasSourceManager() && d.getLocation().isValid()) {
      auto &SM = d.getSourceManager(); auto p = SM.getPresumedLoc(SM.getExpansionLoc(d.getLocation()));
      if (p.isValid()) at = std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
    }
    ERRS.push_back(at + "\t" + m.str().str());
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code ec; llvm::raw_fd_ostream O(OUT, ec);
    Ex X(C, O); V v(X); v.TraverseDecl(C.getTranslationUnitDecl());
    O << "{\"errors\":["; bool f = true; for (auto &e : ERRS) { if (!f) O << ","; f = false; O << jesc(e); }
    O << "],\n\"records\":["; f = true; for (auto *r : v.recs) { if (!f) O << ",\n"; f = false; X.record(r); }
    O << "],\n\"globals\":["; f = true; for (auto *g : v.gl) { if (!f) O << ",\n"; f = false; O << "{\"q\":" << jesc(X.qn(g)) << ",\"v\":"; X.var(g); O << "}"; }
    O << "],\n\"functions\":["; f = true; for (auto *r : v.fns) { if (!f) O << ",\n"; f = false; X.fn(r); }
    O << "]}\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, char **argv) {
  // export OUT ROOT ROOT2 FILE -- flags...
  if (argc < 6) { llvm::errs() << "usage: export OUT ROOT ROOT2 FILE -- flags\n"; return 2; }
  OUT = argv[1]; ROOT = argv[2]; ROOT2 = argv[3]; std::string file = argv[4];
  std::vector<std::string> flags; for (int i = 6; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool T(db, {file});
  Diag D; T.setDiagnosticConsumer(&D);
  int r = T.run(tooling::newFrontendActionFactory<Act>().get());
  return r;
}
