// kast: dumps the type-resolved, fully instantiated program of the functions that are
// written in the analysed source tree as compact JSON (one syntax tree per function), for the
// analyses in /verif/kvf.  Usage: kast OUT.json PREFIX[,PREFIX...] -- clang-args... FILE
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string out_path;
static std::vector<std::string> prefixes;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  explicit Dumper(ASTContext& ctx) : ctx_(ctx), sm_(ctx.getSourceManager()), pol_(ctx.getLangOpts()) {
    pol_.SuppressTagKeyword = true;
    pol_.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  bool VisitFunctionDecl(FunctionDecl* fd) {
    consider(fd);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr* e) {
    consider_lambda(e);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
    if (rd->isThisDeclarationADefinition() && !rd->isDependentContext() && in_repo(rec_loc(rd)) &&
        !rd->isLambda()) {
      if (seen_records_.insert(rd).second) records_.push_back(record(rd));
    }
    return true;
  }
  bool VisitVarDecl(VarDecl* vd) {
    if (vd->hasGlobalStorage() && in_repo(vd->getLocation()) && !vd->getDeclContext()->isDependentContext() &&
        !vd->isStaticLocal() && vd->isThisDeclarationADefinition()) {
      if (seen_vars_.insert(vd->getCanonicalDecl()).second) {
        json::Object o = var(vd);
        o["qn"] = vd->getQualifiedNameAsString();
        globals_.push_back(std::move(o));
      }
    }
    return true;
  }

  void run() {
    TraverseDecl(ctx_.getTranslationUnitDecl());
    // Functions only reachable through serialised bodies (generic lambdas, implicit instantiations).
    while (!pending_.empty()) {
      auto* fd = pending_.back();
      pending_.pop_back();
      functions_.push_back(function(fd));
    }
    json::Array files;
    for (auto& f : files_) files.push_back(f);
    json::Array types;
    for (auto& t : types_) types.push_back(std::move(t));
    json::Object top{{"functions", std::move(functions_)},
                     {"records", std::move(records_)},
                     {"globals", std::move(globals_)},
                     {"files", std::move(files)},
                     {"types", std::move(types)}};
    std::error_code ec;
    llvm::raw_fd_ostream os(out_path, ec);
    os << json::Value(std::move(top));
  }

 private:
  // An explicit instantiation is located where it is requested; its text is the template's.
  static SourceLocation rec_loc(const CXXRecordDecl* rd) {
    if (const auto* p = rd->getTemplateInstantiationPattern()) return p->getLocation();
    return rd->getLocation();
  }

  bool in_repo(SourceLocation loc) {
    loc = sm_.getExpansionLoc(loc);
    if (loc.isInvalid()) return false;
    auto name = sm_.getFilename(loc);
    for (auto& p : prefixes) {
      if (name.starts_with(p)) return true;
    }
    return false;
  }

  int file_id(llvm::StringRef name) {
    auto [it, ins] = file_ids_.try_emplace(name.str(), (int)files_.size());
    if (ins) files_.push_back(name.str());
    return it->second;
  }

  void consider(FunctionDecl* fd) {
    const FunctionDecl* def = nullptr;
    if (!fd->hasBody(def) || def == nullptr) return;
    auto* d = const_cast<FunctionDecl*>(def);
    if (d->isDependentContext() || d->isTemplated()) return;
    if (d->isDefaulted() && !d->isUserProvided()) return;
    if (!in_repo(d->getLocation())) return;
    if (!seen_.insert(d->getCanonicalDecl()).second) return;
    pending_.push_back(d);
  }

  std::vector<FunctionDecl*> lambda_ops(const LambdaExpr* e) {
    std::vector<FunctionDecl*> r;
    auto* op = e->getCallOperator();
    if (auto* ftd = op->getDescribedFunctionTemplate()) {
      for (auto* s : ftd->specializations()) {
        const FunctionDecl* def = nullptr;
        if (s->hasBody(def)) r.push_back(const_cast<FunctionDecl*>(def));
      }
    } else {
      const FunctionDecl* def = nullptr;
      if (op->hasBody(def)) r.push_back(const_cast<FunctionDecl*>(def));
    }
    return r;
  }

  void consider_lambda(const LambdaExpr* e) {
    for (auto* f : lambda_ops(e)) consider(f);
  }

  int64_t id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto [it, ins] = ids_.try_emplace(d, (int64_t)ids_.size() + 1);
    return it->second;
  }

  int type(QualType qt) {
    if (qt.isNull()) return -1;
    qt = qt.getCanonicalType();
    auto key = qt.getAsOpaquePtr();
    auto it = type_ids_.find(key);
    if (it != type_ids_.end()) return it->second;
    int idx = (int)types_.size();
    type_ids_[key] = idx;
    types_.push_back(nullptr);
    json::Object o;
    auto s = qt.getAsString(pol_);
    if (s.size() > 400) s = s.substr(0, 400);
    o["s"] = s;
    if (qt.isConstQualified()) o["const"] = true;
    const Type* t = qt.getTypePtr();
    std::string cat = "other";
    if (t->isReferenceType()) {
      cat = "ref";
      o["to"] = type(t->getPointeeType());
      if (t->isRValueReferenceType()) o["rv"] = true;
    } else if (t->isPointerType()) {
      cat = "ptr";
      o["to"] = type(t->getPointeeType());
    } else if (t->isBooleanType()) {
      cat = "bool";
    } else if (t->isEnumeralType()) {
      cat = "enum";
      auto* ed = t->castAs<EnumType>()->getDecl();
      o["base"] = ed->getQualifiedNameAsString();
      json::Object vals;
      for (auto* ec : ed->enumerators()) {
        vals[ec->getNameAsString()] = ec->getInitVal().getExtValue();
      }
      o["vals"] = std::move(vals);
      if (in_repo(ed->getLocation())) o["repo"] = true;
    } else if (t->isIntegerType()) {
      cat = "int";
      if (!t->isDependentType()) {
        o["bits"] = (int64_t)ctx_.getTypeSize(qt);
        o["sg"] = t->isSignedIntegerType();
      }
    } else if (t->isRealFloatingType()) {
      cat = "float";
    } else if (t->isVoidType()) {
      cat = "void";
    } else if (t->isFunctionType()) {
      cat = "fn";
    } else if (auto* rd = t->getAsCXXRecordDecl()) {
      cat = "rec";
      o["base"] = rd->getQualifiedNameAsString();
      o["rid"] = id(rd);
      if (rd->isLambda()) o["lambda"] = true;
      if (in_repo(rec_loc(rd))) o["repo"] = true;
      if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        json::Array a;
        for (auto& ta : sp->getTemplateArgs().asArray()) targ(a, ta);
        o["ta"] = std::move(a);
      }
    } else if (auto* at = dyn_cast<ConstantArrayType>(t)) {
      cat = "arr";
      o["n"] = (int64_t)at->getSize().getZExtValue();
      o["to"] = type(at->getElementType());
    }
    o["c"] = cat;
    types_[idx] = std::move(o);
    return idx;
  }

  void targ(json::Array& a, const TemplateArgument& ta) {
    switch (ta.getKind()) {
      case TemplateArgument::Type:
        a.push_back(json::Object{{"t", type(ta.getAsType())}});
        break;
      case TemplateArgument::Integral:
        a.push_back(json::Object{{"v", ta.getAsIntegral().getExtValue()}});
        break;
      case TemplateArgument::Pack:
        for (auto& p : ta.pack_elements()) targ(a, p);
        break;
      default:
        a.push_back(json::Object{{"o", 1}});
    }
  }

  json::Object record(CXXRecordDecl* rd) {
    json::Object o;
    o["id"] = id(rd);
    o["qn"] = rd->getQualifiedNameAsString();
    o["t"] = type(ctx_.getRecordType(rd));
    loc(o, rec_loc(rd), true);
    json::Array fields;
    for (auto* f : rd->fields()) {
      json::Object fo{{"n", f->getNameAsString()}, {"t", type(f->getType())}};
      if (f->isMutable()) fo["mut"] = true;
      if (f->hasInClassInitializer() && f->getInClassInitializer() != nullptr) {
        fo["init"] = expr(f->getInClassInitializer());
      }
      fo["line"] = (int64_t)sm_.getExpansionLineNumber(f->getLocation());
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    json::Array bases;
    for (auto& b : rd->bases()) bases.push_back(type(b.getType()));
    o["bases"] = std::move(bases);
    json::Array ms;
    for (auto* m : rd->methods()) {
      json::Object mo{{"n", m->getNameAsString()}, {"id", id(m)}};
      if (m->isDeleted()) mo["deleted"] = true;
      if (m->isDefaulted()) mo["defaulted"] = true;
      if (m->isUserProvided()) mo["user"] = true;
      if (m->isImplicit()) mo["implicit"] = true;
      if (m->isConst()) mo["const"] = true;
      if (m->isStatic()) mo["static"] = true;
      mo["acc"] = (int64_t)m->getAccess();
      special(mo, m);
      mo["rt"] = type(m->getReturnType());
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    return o;
  }

  void special(json::Object& o, const CXXMethodDecl* m) {
    if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
      o["sp"] = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : c->isDefaultConstructor() ? "defctor" : "ctor";
    } else if (isa<CXXDestructorDecl>(m)) {
      o["sp"] = "dtor";
    } else if (m->isCopyAssignmentOperator()) {
      o["sp"] = "copyassign";
    } else if (m->isMoveAssignmentOperator()) {
      o["sp"] = "moveassign";
    }
  }

  void loc(json::Object& o, SourceLocation l, bool with_file) {
    l = sm_.getExpansionLoc(l);
    if (l.isInvalid()) return;
    o["l"] = (int64_t)sm_.getExpansionLineNumber(l);
    auto fn = sm_.getFilename(l);
    if (with_file || fn != cur_file_) o["f"] = file_id(fn);
  }

  json::Object fnref(const FunctionDecl* fd) {
    json::Object o;
    consider(const_cast<FunctionDecl*>(fd));
    o["id"] = id(fd);
    o["n"] = fd->getNameAsString();
    o["qn"] = fd->getQualifiedNameAsString();
    if (in_repo(fd->getLocation())) o["repo"] = true;
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = md->getParent()->getQualifiedNameAsString();
      if (md->isStatic()) o["static"] = true;
      if (md->isConst()) o["const"] = true;
      if (md->getParent()->isLambda()) o["lambda"] = true;
      if (md->isVirtual()) o["virtual"] = true;
      special(o, md);
    }
    json::Array pts;
    for (auto* p : fd->parameters()) pts.push_back(type(p->getType()));
    o["pt"] = std::move(pts);
    if (auto* ta = fd->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto& x : ta->asArray()) targ(a, x);
      o["ta"] = std::move(a);
    }
    return o;
  }

  json::Object function(FunctionDecl* fd) {
    json::Object o = fnref(fd);
    cur_file_ = "";
    loc(o, fd->getLocation(), true);
    cur_file_ = sm_.getFilename(sm_.getExpansionLoc(fd->getLocation()));
    o["rt"] = type(fd->getReturnType());
    std::string full;
    {
      llvm::raw_string_ostream os(full);
      fd->getNameForDiagnostic(os, pol_, true);
    }
    if (full.size() > 500) full = full.substr(0, 500);
    o["full"] = full;
    if (auto* ft = fd->getType()->getAs<FunctionProtoType>()) {
      if (ft->isNothrow()) o["noexcept"] = true;
    }
    json::Array ps;
    for (auto* p : fd->parameters()) {
      json::Object po{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}};
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      o["rid"] = id(md->getParent());
      o["rt_cls"] = type(ctx_.getRecordType(md->getParent()));
    }
    if (auto* cd = dyn_cast<CXXConstructorDecl>(fd)) {
      json::Array inits;
      for (auto* i : cd->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) {
          io["m"] = i->getAnyMember()->getNameAsString();
        } else if (i->isDelegatingInitializer()) {
          io["deleg"] = true;
        } else {
          io["b"] = type(QualType(i->getBaseClass(), 0));
        }
        io["e"] = expr(i->getInit());
        if (i->isWritten()) io["w"] = true;
        inits.push_back(std::move(io));
      }
      o["inits"] = std::move(inits);
    }
    o["body"] = stmt(fd->getBody());
    return o;
  }

  json::Object var(const VarDecl* v) {
    json::Object o{{"id", id(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}};
    loc(o, v->getLocation(), false);
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (v->isStaticLocal() || v->isStaticDataMember()) o["static"] = true;
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array bs;
      for (auto* b : dd->bindings()) bs.push_back(json::Object{{"id", id(b)}, {"n", b->getNameAsString()}});
      o["binds"] = std::move(bs);
    }
    if (v->getInit() != nullptr) {
      o["init"] = expr(v->getInit());
      if (v->getInitStyle() == VarDecl::ListInit) o["li"] = true;
    }
    return o;
  }

  json::Value stmt(const Stmt* s) {
    if (s == nullptr) return nullptr;
    json::Object o;
    loc(o, s->getBeginLoc(), false);
    if (auto* e = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = expr(e);
      return o;
    }
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o["k"] = "block";
        json::Array a;
        for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
        o["b"] = std::move(a);
        loc_end(o, s);
        return o;
      }
      case Stmt::DeclStmtClass: {
        o["k"] = "decl";
        json::Array a;
        for (auto* d : cast<DeclStmt>(s)->decls()) {
          if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
        }
        o["v"] = std::move(a);
        return o;
      }
      case Stmt::IfStmtClass: {
        auto* x = cast<IfStmt>(s);
        o["k"] = "if";
        if (x->getInit()) o["init"] = stmt(x->getInit());
        if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
        if (x->isConstexpr() && x->getNondiscardedCase(ctx_)) {
          auto nd = *x->getNondiscardedCase(ctx_);
          o["k"] = "block";
          json::Array a;
          if (nd) a.push_back(stmt(nd));
          o["b"] = std::move(a);
          return o;
        }
        o["c"] = expr(x->getCond());
        o["then"] = stmt(x->getThen());
        if (x->getElse()) o["else"] = stmt(x->getElse());
        return o;
      }
      case Stmt::ForStmtClass: {
        auto* x = cast<ForStmt>(s);
        o["k"] = "for";
        o["init"] = stmt(x->getInit());
        o["c"] = x->getCond() ? expr(x->getCond()) : json::Value(nullptr);
        o["inc"] = x->getInc() ? expr(x->getInc()) : json::Value(nullptr);
        o["body"] = stmt(x->getBody());
        return o;
      }
      case Stmt::WhileStmtClass: {
        auto* x = cast<WhileStmt>(s);
        o["k"] = "while";
        if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
        o["c"] = expr(x->getCond());
        o["body"] = stmt(x->getBody());
        return o;
      }
      case Stmt::DoStmtClass: {
        auto* x = cast<DoStmt>(s);
        o["k"] = "do";
        o["c"] = expr(x->getCond());
        o["body"] = stmt(x->getBody());
        return o;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* x = cast<CXXForRangeStmt>(s);
        o["k"] = "rfor";
        if (x->getInit()) o["init"] = stmt(x->getInit());
        o["r"] = expr(x->getRangeInit());
        o["v"] = var(x->getLoopVariable());
        o["body"] = stmt(x->getBody());
        return o;
      }
      case Stmt::SwitchStmtClass: {
        auto* x = cast<SwitchStmt>(s);
        o["k"] = "switch";
        if (x->getInit()) o["init"] = stmt(x->getInit());
        if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
        o["c"] = expr(x->getCond());
        o["body"] = stmt(x->getBody());
        return o;
      }
      case Stmt::CaseStmtClass: {
        auto* x = cast<CaseStmt>(s);
        o["k"] = "case";
        o["e"] = expr(x->getLHS());
        if (x->getRHS()) o["hi"] = expr(x->getRHS());
        o["s"] = stmt(x->getSubStmt());
        return o;
      }
      case Stmt::DefaultStmtClass: {
        o["k"] = "default";
        o["s"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
        return o;
      }
      case Stmt::ReturnStmtClass: {
        o["k"] = "return";
        if (auto* e = cast<ReturnStmt>(s)->getRetValue()) o["e"] = expr(e);
        return o;
      }
      case Stmt::BreakStmtClass:
        o["k"] = "break";
        return o;
      case Stmt::ContinueStmtClass:
        o["k"] = "continue";
        return o;
      case Stmt::NullStmtClass:
        o["k"] = "null";
        return o;
      case Stmt::AttributedStmtClass:
        return stmt(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::CXXTryStmtClass: {
        auto* x = cast<CXXTryStmt>(s);
        o["k"] = "try";
        o["body"] = stmt(x->getTryBlock());
        json::Array hs;
        for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
          auto* h = x->getHandler(i);
          json::Object ho;
          loc(ho, h->getBeginLoc(), false);
          if (h->getExceptionDecl()) ho["v"] = var(h->getExceptionDecl());
          if (!h->getCaughtType().isNull()) ho["t"] = type(h->getCaughtType());
          ho["body"] = stmt(h->getHandlerBlock());
          hs.push_back(std::move(ho));
        }
        o["h"] = std::move(hs);
        return o;
      }
      default:
        o["k"] = "stmt?";
        o["cls"] = s->getStmtClassName();
        json::Array a;
        for (auto* c : s->children()) a.push_back(stmt(c));
        o["b"] = std::move(a);
        return o;
    }
  }

  void loc_end(json::Object& o, const Stmt* s) {
    auto l = sm_.getExpansionLoc(s->getEndLoc());
    if (l.isValid()) o["le"] = (int64_t)sm_.getExpansionLineNumber(l);
  }

  json::Array exprs(llvm::ArrayRef<const Expr*> es) {
    json::Array a;
    for (auto* e : es) a.push_back(expr(e));
    return a;
  }

  template <class R>
  json::Array args(R&& range) {
    json::Array a;
    for (auto* e : range) a.push_back(expr(e));
    return a;
  }

  json::Value expr(const Expr* e) {
    if (e == nullptr) return nullptr;
    // Transparent wrappers.
    for (;;) {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; } }
      if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        auto ck = x->getCastKind();
        if (ck == CK_IntegralCast || ck == CK_IntegralToBoolean || ck == CK_PointerToBoolean ||
            ck == CK_IntegralToFloating || ck == CK_FloatingToIntegral || ck == CK_FloatingToBoolean || ck == CK_FloatingCast || ck == CK_BitCast) {
          break;
        }
        e = x->getSubExpr();
        continue;
      }
      break;
    }
    json::Object o;
    loc(o, e->getExprLoc().isValid() ? e->getExprLoc() : e->getBeginLoc(), false);
    o["t"] = type(e->getType());

    if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<CXXBoolLiteralExpr>(e) && e->isPRValue()) {
      Expr::EvalResult r;
      if (!isa<DeclRefExpr>(e) && e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
        auto v = r.Val.getInt();
        if (e->getType()->isBooleanType()) {
          o["k"] = "bool";
          o["v"] = v.getBoolValue();
        } else {
          o["k"] = e->getType()->isEnumeralType() ? "enum" : "int";
          if (v.isSigned() || v.getActiveBits() < 63) o["v"] = v.getExtValue();
          else o["v"] = std::to_string(v.getZExtValue());
        }
        return o;
      }
    }

    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      o["v"] = (int64_t)x->getValue().getSExtValue();
    } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
    } else if (auto* x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      o["v"] = x->isOrdinary() || x->isUTF8() ? json::Value(json::fixUTF8(x->getString())) : json::Value("?");
    } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int";
      o["v"] = (int64_t)x->getValue();
    } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float";
      o["v"] = x->getValueAsApproximateDouble();
    } else if (isa<CXXNullPtrLiteralExpr>(e)) {
      o["k"] = "null";
    } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enum";
        o["v"] = (int64_t)ec->getInitVal().getExtValue();
        o["n"] = ec->getNameAsString();
      } else if (auto* fd = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fn";
        o["fn"] = fnref(fd);
      } else {
        o["k"] = "var";
        o["id"] = id(d);
        o["n"] = d->getNameAsString();
        if (auto* vd = dyn_cast<VarDecl>(d)) {
          if (isa<ParmVarDecl>(vd)) o["vk"] = "param";
          else if (vd->getTLSKind() != VarDecl::TLS_None) { o["vk"] = "tls"; }
          else if (vd->hasGlobalStorage()) { o["vk"] = "global"; }
          if (vd->hasGlobalStorage()) {
            o["qn"] = vd->getQualifiedNameAsString();
            if (vd->getType().isConstQualified()) o["cst"] = true;
          }
        } else if (isa<BindingDecl>(d)) {
          o["vk"] = "bind";
        }
        if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      }
    } else if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if (auto* vd = dyn_cast<VarDecl>(d)) {  // static data member
        o["k"] = "var";
        o["id"] = id(vd);
        o["n"] = vd->getNameAsString();
        o["vk"] = vd->getTLSKind() != VarDecl::TLS_None ? "tls" : "global";
        o["qn"] = vd->getQualifiedNameAsString();
      } else if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enum";
        o["v"] = (int64_t)ec->getInitVal().getExtValue();
      } else {
        o["k"] = "member";
        o["n"] = d->getNameAsString();
        if (x->isArrow()) o["arrow"] = true;
        if (auto* fd = dyn_cast<FieldDecl>(d)) {
          if (fd->isMutable()) o["mut"] = true;
          o["cls"] = fd->getParent()->getQualifiedNameAsString();
          if (in_repo(fd->getLocation())) o["repo"] = true;
        }
        o["e"] = expr(x->getBase());
      }
    } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      auto* fd = x->getDirectCallee();
      if (fd) o["fn"] = fnref(fd);
      o["op"] = getOperatorSpelling(x->getOperator());
      auto* md = dyn_cast_or_null<CXXMethodDecl>(fd);
      if (md && !md->isStatic()) {
        o["obj"] = expr(x->getArg(0));
        json::Array a;
        for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(expr(x->getArg(i)));
        o["a"] = std::move(a);
      } else {
        o["a"] = args(x->arguments());
      }
    } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      if (auto* fd = x->getDirectCallee()) o["fn"] = fnref(fd);
      else o["cal"] = expr(x->getCallee());
      auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts());
      o["obj"] = expr(x->getImplicitObjectArgument());
      if (me && me->isArrow()) o["arrow"] = true;
      o["a"] = args(x->arguments());
    } else if (auto* x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto* fd = x->getDirectCallee()) o["fn"] = fnref(fd);
      else o["cal"] = expr(x->getCallee());
      o["a"] = args(x->arguments());
    } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      auto* c = x->getConstructor();
      if ((c->isCopyConstructor() || c->isMoveConstructor()) && x->getNumArgs() >= 1) {
        if (x->isElidable()) return expr(x->getArg(0));
        o["k"] = "copy";
        if (c->isMoveConstructor()) o["mv"] = true;
        o["e"] = expr(x->getArg(0));
        o["fn"] = fnref(c);
      } else {
        o["k"] = "ctor";
        o["fn"] = fnref(c);
        if (x->isListInitialization()) o["li"] = true;
        if (x->isStdInitListInitialization()) o["il"] = true;
        if (x->requiresZeroInitialization()) o["zi"] = true;
        o["a"] = args(x->arguments());
      }
    } else if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (auto* sf = x->getSemanticForm()) x = sf;
      if (x->isTransparent() && x->getNumInits() == 1) return expr(x->getInit(0));
      o["k"] = "init";
      json::Array a;
      for (auto* i : x->inits()) a.push_back(expr(i));
      o["a"] = std::move(a);
      if (auto* rd = e->getType()->getAsCXXRecordDecl()) {
        json::Array fs;
        if (rd->getNumBases() == 0) {
          for (auto* f : rd->fields()) fs.push_back(f->getNameAsString());
        }
        o["fs"] = std::move(fs);
      }
      if (x->hasArrayFiller()) o["fill"] = expr(x->getArrayFiller());
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
    } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS());
      o["b"] = expr(x->getRHS());
    } else if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = expr(x->getCond());
      o["a"] = expr(x->getTrueExpr());
      o["b"] = expr(x->getFalseExpr());
    } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "idx";
      o["a"] = expr(x->getBase());
      o["b"] = expr(x->getIdx());
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
    } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      json::Array fns;
      for (auto* f : lambda_ops(x)) {
        consider(f);
        fns.push_back(id(f));
      }
      o["fns"] = std::move(fns);
      json::Array caps;
      auto it = x->capture_init_begin();
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = true;
        } else if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          if (c.getCaptureKind() == LCK_ByRef) co["ref"] = true;
          if (!c.isImplicit() || true) co["init"] = expr(*it);
          if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) {
            if (vd->isInitCapture()) co["ic"] = true;
          }
        }
        caps.push_back(std::move(co));
        ++it;
      }
      o["caps"] = std::move(caps);
    } else if (auto* x = dyn_cast<CastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      if (isa<ExplicitCastExpr>(e)) o["x"] = true;
      if (isa<CXXConstCastExpr>(e)) o["cc"] = true;
      if (isa<CXXReinterpretCastExpr>(e)) o["rc"] = true;
      if (isa<CStyleCastExpr>(e)) o["cs"] = true;
      o["st"] = type(x->getSubExpr()->getType());
      o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      if (x->getSubExpr()) o["e"] = expr(x->getSubExpr());
    } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      if (x->getInitializer()) o["e"] = expr(x->getInitializer());
    } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = expr(x->getArgument());
    } else if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      return expr(x->getCommonExpr());
    } else {
      o["k"] = "expr?";
      o["cls"] = e->getStmtClassName();
      json::Array a;
      for (auto* c : e->children()) {
        if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
      }
      o["a"] = std::move(a);
    }
    return o;
  }

  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pol_;
  std::set<const Decl*> seen_;
  std::set<const Decl*> seen_records_;
  std::set<const Decl*> seen_vars_;
  std::vector<FunctionDecl*> pending_;
  std::map<const Decl*, int64_t> ids_;
  std::map<void*, int> type_ids_;
  std::vector<json::Value> types_;
  std::map<std::string, int> file_ids_;
  std::vector<std::string> files_;
  std::string cur_file_;
  json::Array functions_;
  json::Array records_;
  json::Array globals_;
};

class Consumer : public ASTConsumer {
  CompilerInstance& ci_;

 public:
  explicit Consumer(CompilerInstance& ci) : ci_(ci) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ci_.getDiagnostics().hasErrorOccurred()) return;
    Dumper(ctx).run();
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};

}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) {
    llvm::errs() << "usage: kast OUT PREFIX,... -- args FILE\n";
    return 2;
  }
  out_path = argv[1];
  std::string ps = argv[2];
  for (size_t i = 0; i <= ps.size();) {
    auto j = ps.find(',', i);
    if (j == std::string::npos) j = ps.size();
    prefixes.push_back(ps.substr(i, j - i));
    i = j + 1;
  }
  std::vector<std::string> args;
  for (int i = 4; i < argc - 1; ++i) args.push_back(argv[i]);
  std::string file = argv[argc - 1];
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
