// Clang plugin: dumps every function definition located under a source prefix (including template
// instantiations, constructors, lambdas) as JSON with canonical types and resolved callees.
#include <map>
#include <set>
#include <string>
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace json = llvm::json;
namespace {

struct Exporter {
  ASTContext& C;
  std::string prefix;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  json::Array funcs, recs, enums, gvars;
  json::Object tds;
  std::set<const Decl*> seen;
  Exporter(ASTContext& c, std::string p) : C(c), prefix(p), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.adjustForCPlusPlus();
    PP.PrintCanonicalTypes = true;
  }
  int id(const Decl* d) {
    if (!d) return -1;
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1; ids[d] = n; return n;
  }
  std::string ty(QualType q) {
    if (q.isNull()) return "";
    return q.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl* d) {
    if (!d) return "";
    std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os, PP); return os.str();
  }
  std::string recType(const CXXRecordDecl* r) { return r ? ty(C.getRecordType(r)) : ""; }
  std::pair<std::string,int> loc(SourceLocation l) {
    auto& SM = C.getSourceManager();
    l = SM.getExpansionLoc(l);
    auto P = SM.getPresumedLoc(l);
    if (P.isInvalid()) return {"", 0};
    return {P.getFilename(), (int)P.getLine()};
  }
  bool inScope(const Decl* d) {
    auto L = loc(d->getLocation());
    return L.first.compare(0, prefix.size(), prefix) == 0;
  }
  json::Value expr(const Stmt* s) { return stmt(s); }
  json::Array args(const CallExpr* e, unsigned from = 0) {
    json::Array a; for (unsigned i = from; i < e->getNumArgs(); ++i) a.push_back(stmt(e->getArg(i))); return a;
  }
  void tmpl(json::Object& o, const FunctionDecl* f) {
    if (!f) return;
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& x : ta->asArray()) { std::string s; llvm::raw_string_ostream os(s); x.print(PP, os, true); a.push_back(os.str()); }
      o["targs"] = std::move(a);
    }
  }
  void callee(json::Object& o, const FunctionDecl* f) {
    if (!f) return;
    o["q"] = qn(f); o["fn"] = f->getNameAsString(); o["fid"] = id(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = recType(m->getParent()); o["isvirt"] = m->isVirtual(); o["isstatic"]=m->isStatic(); }
    tmpl(o, f);
  }
  json::Value vardecl(const VarDecl* v) {
    json::Object o; o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getInit()) o["init"] = stmt(v->getInit());
    return std::move(o);
  }
  json::Value stmt(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* e = dyn_cast<ParenExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<ExprWithCleanups>(s)) return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) {
      json::Object o; o["k"]="Temp"; o["t"]=ty(e->getType()); json::Array c; c.push_back(stmt(e->getSubExpr())); o["c"]=std::move(c); return std::move(o);
    }
    if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(e->getReplacement());
    if (auto* e = dyn_cast<ConstantExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) return stmt(e->getExpr());
    if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) return stmt(e->getExpr());
    if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) return stmt(e->getSubExpr());
    if (auto* e = dyn_cast<ImplicitCastExpr>(s)) {
      if (e->getCastKind() == CK_NoOp || e->getCastKind() == CK_FunctionToPointerDecay) return stmt(e->getSubExpr());
    }
    json::Object o;
    o["k"] = s->getStmtClassName();
    o["l"] = loc(s->getBeginLoc()).second;
    if (auto* e = dyn_cast<Expr>(s)) {
      o["t"] = ty(e->getType());
      if (e->isLValue()) o["lv"] = true;
      if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !e->isLValue()) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C) && !r.HasSideEffects) {
          o["cv"] = (int64_t)r.Val.getInt().getExtValue();
        }
      }
    }
    json::Array c;
    if (auto* e = dyn_cast<DeclRefExpr>(s)) {
      auto* d = e->getDecl(); o["d"] = id(d); o["n"] = d->getNameAsString(); o["q"] = qn(d); o["dk"] = d->getDeclKindName();
      if (auto* f = dyn_cast<FunctionDecl>(d)) callee(o, f);
    } else if (auto* e = dyn_cast<MemberExpr>(s)) {
      o["n"] = e->getMemberDecl()->getNameAsString(); o["q"] = qn(e->getMemberDecl()); o["arrow"] = e->isArrow();
      o["d"] = id(e->getMemberDecl());
      o["dk"] = e->getMemberDecl()->getDeclKindName();
      if (auto* fd = dyn_cast<FieldDecl>(e->getMemberDecl())) o["cls"] = recType(dyn_cast<CXXRecordDecl>(fd->getParent()));
      c.push_back(stmt(e->getBase()));
    } else if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
      callee(o, e->getDirectCallee()); o["op"] = getOperatorSpelling(e->getOperator());
      o["args"] = args(e);
    } else if (auto* e = dyn_cast<CXXMemberCallExpr>(s)) {
      callee(o, e->getMethodDecl());
      if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) { o["arrow"] = me->isArrow(); o["obj"] = stmt(me->getBase()); o["qualified"] = me->hasQualifier(); }
      else o["obj"] = stmt(e->getImplicitObjectArgument());
      o["args"] = args(e);
    } else if (auto* e = dyn_cast<CallExpr>(s)) {
      callee(o, e->getDirectCallee());
      if (!e->getDirectCallee()) o["callee"] = stmt(e->getCallee());
      o["args"] = args(e);
    } else if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
      callee(o, e->getConstructor());
      json::Array a; for (auto* x : e->arguments()) a.push_back(stmt(x));
      o["args"] = std::move(a); o["elidable"] = e->isElidable(); o["listinit"] = e->isListInitialization();
      auto* cd = e->getConstructor();
      o["copy"] = cd->isCopyConstructor(); o["move"] = cd->isMoveConstructor(); o["default"] = cd->isDefaultConstructor();
      o["trivial"] = cd->isTrivial(); o["defaulted"] = cd->isDefaulted();
      o["zeroinit"] = e->requiresZeroInitialization();
    } else if (auto* e = dyn_cast<IntegerLiteral>(s)) {
      o["v"] = std::to_string(e->getValue().getSExtValue());
    } else if (auto* e = dyn_cast<FloatingLiteral>(s)) {
      llvm::SmallString<64> b; e->getValue().toString(b, 30, 0); o["v"] = b.str().str();
    } else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
      o["v"] = e->getValue();
    } else if (auto* e = dyn_cast<StringLiteral>(s)) {
      if (e->isOrdinary()) { std::string v = e->getString().str(); if (!json::isUTF8(v)) v = json::fixUTF8(v); o["v"] = v; }
    } else if (auto* e = dyn_cast<CharacterLiteral>(s)) {
      o["v"] = std::to_string(e->getValue());
    } else if (auto* e = dyn_cast<CastExpr>(s)) {
      o["ck"] = e->getCastKindName(); c.push_back(stmt(e->getSubExpr()));
    } else if (auto* e = dyn_cast<UnaryOperator>(s)) {
      o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str(); o["postfix"] = e->isPostfix(); c.push_back(stmt(e->getSubExpr()));
    } else if (auto* e = dyn_cast<BinaryOperator>(s)) {
      o["op"] = e->getOpcodeStr().str(); c.push_back(stmt(e->getLHS())); c.push_back(stmt(e->getRHS()));
    } else if (auto* e = dyn_cast<LambdaExpr>(s)) {
      json::Array caps;
      auto ci = e->capture_init_begin();
      for (auto& cap : e->captures()) {
        json::Object co;
        if (cap.capturesThis()) co["this"] = true;
        else if (cap.capturesVariable()) { co["id"] = id(cap.getCapturedVar()); co["n"] = cap.getCapturedVar()->getNameAsString(); }
        co["byref"] = cap.getCaptureKind() == LCK_ByRef;
        co["init"] = stmt(*ci);
        if (cap.capturesVariable()) if (auto* vd = dyn_cast<VarDecl>(cap.getCapturedVar())) if (vd->isInitCapture()) co["initcap"] = true;
        ++ci; caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      auto* op = e->getCallOperator();
      json::Array ps; for (auto* p : op->parameters()) ps.push_back(vardecl(p));
      o["params"] = std::move(ps); o["body"] = e->isGenericLambda() ? json::Value(nullptr) : stmt(op->getBody()); o["ret"] = ty(op->getReturnType());
      o["fid"] = id(op);
      if (auto* ft = e->getLambdaClass()->getDependentLambdaCallOperator()) {
        json::Array sp;
        for (auto* x : ft->specializations()) {
          const FunctionDecl* xd = nullptr; if (!x->hasBody(xd)) continue;
          json::Object so; json::Array xp; for (auto* p : xd->parameters()) xp.push_back(vardecl(p));
          so["fid"] = id(x); so["params"] = std::move(xp); so["body"] = stmt(xd->getBody()); so["ret"] = ty(xd->getReturnType());
          sp.push_back(std::move(so));
        }
        o["specs"] = std::move(sp);
      }
    } else if (auto* d = dyn_cast<DeclStmt>(s)) {
      json::Array vs; for (auto* x : d->decls()) if (auto* v = dyn_cast<VarDecl>(x)) vs.push_back(vardecl(v));
      o["vars"] = std::move(vs);
    } else if (auto* i = dyn_cast<IfStmt>(s)) {
      o["init"] = stmt(i->getInit());
      if (i->getConditionVariable()) o["condvar"] = vardecl(i->getConditionVariable());
      o["cond"] = stmt(i->getCond()); o["then"] = stmt(i->getThen()); o["else"] = stmt(i->getElse());
    } else if (auto* f = dyn_cast<ForStmt>(s)) {
      o["init"] = stmt(f->getInit()); o["cond"] = stmt(f->getCond()); o["inc"] = stmt(f->getInc()); o["body"] = stmt(f->getBody());
    } else if (auto* w = dyn_cast<WhileStmt>(s)) {
      o["cond"] = stmt(w->getCond()); o["body"] = stmt(w->getBody());
    } else if (auto* w = dyn_cast<DoStmt>(s)) {
      o["cond"] = stmt(w->getCond()); o["body"] = stmt(w->getBody());
    } else if (auto* r = dyn_cast<CXXForRangeStmt>(s)) {
      o["range"] = stmt(r->getRangeInit()); o["var"] = vardecl(r->getLoopVariable()); o["body"] = stmt(r->getBody());
    } else if (auto* w = dyn_cast<SwitchStmt>(s)) {
      o["cond"] = stmt(w->getCond()); o["body"] = stmt(w->getBody());
    } else if (auto* w = dyn_cast<CaseStmt>(s)) {
      o["val"] = stmt(w->getLHS()); o["sub"] = stmt(w->getSubStmt());
    } else if (auto* w = dyn_cast<DefaultStmt>(s)) {
      o["sub"] = stmt(w->getSubStmt());
    } else if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      (void)u;
    } else {
      for (auto* x : s->children()) c.push_back(stmt(x));
    }
    if (!c.empty()) o["c"] = std::move(c);
    return std::move(o);
  }
  void func(const FunctionDecl* f) {
    if (f->isDependentContext()) return;
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def) || def != f) {
      // pure virtual / declared only: emit signature
      if (!(isa<CXXMethodDecl>(f) && (f->isPureVirtual() || (f->isDefaulted() )))) return;
      if (f->isDefined()) { if (!f->isDefaulted()) return; }
    }
    if (!inScope(f)) return;
    const Decl* key = f;
    if (!seen.insert(key).second) return;
    json::Object o;
    callee(o, f);
    auto L = loc(f->getLocation()); o["file"] = L.first; o["line"] = L.second;
    json::Array ps; for (auto* p : f->parameters()) { json::Object po; po["id"] = id(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = stmt(p->getDefaultArg());
      ps.push_back(std::move(po)); }
    o["params"] = std::move(ps); o["ret"] = ty(f->getReturnType());
    o["pure"] = f->isPureVirtual(); o["defaulted"] = f->isDefaulted(); o["deleted"] = f->isDeleted(); o["kind"] = f->Decl::getDeclKindName();
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["const"] = m->isConst(); o["access"] = (int)m->getAccess();
      json::Array ov; for (auto* b : m->overridden_methods()) ov.push_back(id(b)); o["over"] = std::move(ov);
      if (m->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (m->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      o["copy"] = cd->isCopyConstructor(); o["move"] = cd->isMoveConstructor();
      for (auto* i : cd->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) { io["field"] = i->getAnyMember()->getNameAsString(); io["t"] = ty(i->getAnyMember()->getType()); }
        else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = i->isWritten();
        io["init"] = stmt(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (f->doesThisDeclarationHaveABody() ) o["body"] = stmt(f->getBody());
    funcs.push_back(std::move(o));
  }
  void rec(const CXXRecordDecl* r) {
    if (!r->isCompleteDefinition() || r->isDependentContext() || r->isLambda()) return;
    const CXXRecordDecl* pat = r->getTemplateInstantiationPattern();
    if (!inScope(r) && !(pat && inScope(pat))) return;
    if (!seen.insert(r).second) return;
    json::Object o; o["name"] = recType(r); o["q"] = qn(r);
    json::Array fs;
    for (auto* f : r->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); if (f->hasInClassInitializer()&& f->getInClassInitializer()) fo["init"] = stmt(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    json::Array bs; for (auto& b : r->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    o["poly"] = r->isPolymorphic();
    auto L = loc(r->getLocation()); o["file"] = L.first; o["line"] = L.second;
    recs.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Exporter& E; explicit V(Exporter& e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* f) { E.func(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { E.rec(r); return true; }
  bool VisitVarDecl(VarDecl* v) {
    if (v->isFileVarDecl() && !v->getDeclContext()->isDependentContext() && E.inScope(v) && v->hasInit()) E.gvars.push_back(E.vardecl(v));
    return true;
  }
  bool VisitTypedefNameDecl(TypedefNameDecl* d) {
    auto* r = dyn_cast<CXXRecordDecl>(d->getDeclContext());
    if (!r || r->isDependentContext() || !E.inScope(d) || d->getUnderlyingType()->isDependentType()) return true;
    E.tds[E.recType(r) + "::" + d->getNameAsString()] = E.ty(d->getUnderlyingType()); return true;
  }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!E.inScope(e) || e->isDependentContext()) return true;
    json::Object o; o["q"] = E.qn(e); json::Object vs;
    for (auto* c : e->enumerators()) vs[c->getNameAsString()] = (int64_t)c->getInitVal().getExtValue();
    o["v"] = std::move(vs); E.enums.push_back(std::move(o)); return true;
  }
};
struct Cons : ASTConsumer {
  std::string out, prefix;
  Cons(std::string o, std::string p) : out(o), prefix(p) {}
  void HandleTranslationUnit(ASTContext& C) override {
    Exporter E(C, prefix); V v(E); v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o; o["funcs"] = std::move(E.funcs); o["recs"] = std::move(E.recs); o["enums"] = std::move(E.enums); o["vars"] = std::move(E.gvars); o["typedefs"] = std::move(E.tds);
    std::error_code ec; llvm::raw_fd_ostream os(out, ec);
    os << json::Value(std::move(o));
  }
};
struct Act : PluginASTAction {
  std::string out = "ast.json", prefix = "/repo/";
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(out, prefix); }
  bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& a) override {
    for (auto& s : a) { if (s.rfind("out=", 0) == 0) out = s.substr(4); if (s.rfind("prefix=", 0) == 0) prefix = s.substr(7); }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};
}  // namespace
static FrontendPluginRegistry::Add<Act> X("altrovc", "export AST");
