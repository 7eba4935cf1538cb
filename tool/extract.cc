// gcp-extract: dumps the resolved, type-checked program (functions whose
// definition lies under a given root, template instantiations included) as
// compact JSON.  One invocation handles one translation unit.
//
//   gcp-extract <root>[:<root>...] <out.json> <file.cc> -- <compiler args>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/Builtins.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

class Dumper {
public:
  explicit Dumper(ASTContext &c) : ctx(c), pp(c.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.AnonymousTagLocations = false;
    pp.SuppressInlineNamespace = true;
  }

  ASTContext &ctx;
  PrintingPolicy pp;
  std::map<const Decl *, int> local_ids;

  std::string usr(const Decl *d) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(d->getCanonicalDecl(), b))
      return "?" + std::to_string(reinterpret_cast<uintptr_t>(d->getCanonicalDecl()));
    return std::string(b.str());
  }

  int lid(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = local_ids.find(d);
    if (it != local_ids.end())
      return it->second;
    int n = local_ids.size();
    local_ids[d] = n;
    return n;
  }

  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    return os.str();
  }

  std::string tname(QualType t) {
    return t.getCanonicalType().getAsString(pp);
  }

  std::string path(SourceLocation l) {
    SourceManager &sm = ctx.getSourceManager();
    l = sm.getExpansionLoc(l);
    PresumedLoc p = sm.getPresumedLoc(l);
    if (p.isInvalid())
      return "";
    auto fe = sm.getFileEntryRefForID(sm.getFileID(l));
    if (fe) {
      llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
      if (!rp.empty())
        return rp.str();
    }
    return p.getFilename();
  }

  int line(SourceLocation l) {
    SourceManager &sm = ctx.getSourceManager();
    return sm.getExpansionLineNumber(l);
  }

  static std::string in_root(const std::string &p) {
    for (const auto &r : g_roots)
      if (p.compare(0, r.size(), r) == 0)
        return p;
    return "";
  }

  // record name with template arguments
  std::string rname(const CXXRecordDecl *r) {
    return tname(ctx.getRecordType(r));
  }

  static const char *passing(QualType t) {
    if (t->isReferenceType()) {
      QualType p = t->getPointeeType();
      if (t->isRValueReferenceType())
        return "rr";
      return p.isConstQualified() ? "cr" : "r";
    }
    if (t->isPointerType())
      return t->getPointeeType().isConstQualified() ? "cp" : "p";
    return "v";
  }

  Object callee(const FunctionDecl *f) {
    Object o;
    o["q"] = qname(f);
    o["u"] = usr(f);
    Array ps;
    for (const ParmVarDecl *p : f->parameters())
      ps.push_back(passing(p->getType()));
    o["p"] = std::move(ps);
    o["ret"] = tname(f->getReturnType());
    o["rp"] = passing(f->getReturnType());
    if (f->isNoReturn())
      o["nr"] = true;
    if (f->isVariadic())
      o["va"] = true;
    if (const auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = rname(m->getParent());
      if (m->isConst())
        o["const"] = true;
      if (m->isStatic())
        o["static"] = true;
      if (m->isVirtual())
        o["virt"] = true;
    }
    if (!in_root(path(f->getLocation())).empty())
      o["repo"] = true;
    return o;
  }

  static Object mk(const char *k) {
    Object o;
    o["k"] = k;
    return o;
  }

  Value withLine(Object o, const Stmt *s) {
    o["l"] = line(s->getBeginLoc());
    return Value(std::move(o));
  }

  const Expr *strip(const Expr *e) {
    while (true) {
      if (auto *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
      if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
        case CK_IntegralToFloating:
        case CK_FloatingToIntegral:
        case CK_IntegralCast:
        case CK_IntegralToBoolean:
        case CK_FloatingToBoolean:
        case CK_PointerToBoolean:
        case CK_UserDefinedConversion:
        case CK_FloatingCast:
          return e;
        default:
          e = x->getSubExpr();
          continue;
        }
      }
      return e;
    }
  }

  Array args(CallExpr::const_arg_range r) {
    Array a;
    for (const Expr *e : r)
      a.push_back(expr(e));
    return a;
  }

  Value dref(const DeclRefExpr *e) {
    const ValueDecl *d = e->getDecl();
    Object o = mk("ref");
    o["t"] = tname(e->getType());
    o["n"] = d->getNameAsString();
    if (const auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      o["dk"] = "enum";
      o["q"] = qname(ec);
      o["v"] = (int64_t)ec->getInitVal().getExtValue();
    } else if (const auto *f = dyn_cast<FunctionDecl>(d)) {
      o["dk"] = "func";
      o["f"] = callee(f);
    } else if (const auto *v = dyn_cast<VarDecl>(d)) {
      if (isa<ParmVarDecl>(v)) {
        o["dk"] = "param";
        o["d"] = lid(v);
      } else if (v->isLocalVarDecl()) {
        o["dk"] = v->isStaticLocal() ? "slocal" : "local";
        o["d"] = lid(v);
      } else {
        o["dk"] = "global";
        o["q"] = qname(v);
        o["d"] = lid(v);
      }
    } else if (const auto *b = dyn_cast<BindingDecl>(d)) {
      o["dk"] = "binding";
      o["d"] = lid(b);
      if (b->getBinding())
        o["be"] = expr(b->getBinding());
    } else {
      o["dk"] = "other";
      o["q"] = qname(d);
    }
    return withLine(std::move(o), e);
  }

  Value expr(const Expr *e0) {
    if (!e0)
      return nullptr;
    const Expr *e = strip(e0);

    // Fold integral constants (template parameters, sizeof, static members...)
    if (!e->isValueDependent() && !e->isTypeDependent() &&
        e->getType()->isIntegralOrUnscopedEnumerationType() &&
        !e->getType()->isEnumeralType() && e->isPRValue()) {
      Expr::EvalResult r;
      const Expr *inner = e->IgnoreParenImpCasts();
      bool enumref = false;
      if (auto *dr = dyn_cast<DeclRefExpr>(inner))
        enumref = isa<EnumConstantDecl>(dr->getDecl());
      if (!enumref && e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
        Object o = mk(e->getType()->isBooleanType() ? "bool" : "int");
        llvm::APSInt v = r.Val.getInt();
        o["v"] = v.isUnsigned() && v.getActiveBits() > 63
                   ? (int64_t)-1 : (int64_t)v.getExtValue();
        if (v.isUnsigned() && v.getActiveBits() > 31) {
          llvm::SmallString<40> s;
          v.toString(s, 10);
          o["big"] = std::string(s.str());
        }
        o["t"] = tname(e->getType());
        return withLine(std::move(o), e);
      }
    }

    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      Object o = mk("int");
      o["v"] = (int64_t)x->getValue().getLimitedValue(INT64_MAX);
      o["t"] = tname(e->getType());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      Object o = mk("float");
      llvm::SmallString<40> s;
      x->getValue().toString(s, 17);
      o["v"] = std::string(s.str());
      o["t"] = tname(e->getType());
      // the decimal spelling keeps 0.1 exact in the analysis
      SourceManager &sm = ctx.getSourceManager();
      SourceLocation sl = sm.getSpellingLoc(x->getBeginLoc());
      llvm::SmallString<40> buf;
      o["s"] = Lexer::getSpelling(sl, buf, sm, ctx.getLangOpts()).str();
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      Object o = mk("bool");
      o["v"] = (int64_t)x->getValue();
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      Object o = mk("str");
      if (x->getCharByteWidth() == 1) {
        std::string v = x->getString().str();
        if (llvm::json::isUTF8(v)) o["v"] = v; else o["v"] = llvm::json::fixUTF8(v);
      }
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      Object o = mk("int");
      o["v"] = (int64_t)x->getValue();
      o["t"] = "char";
      return withLine(std::move(o), e);
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
      return withLine(mk("null"), e);
    if (auto *x = dyn_cast<DeclRefExpr>(e))
      return dref(x);
    if (isa<CXXThisExpr>(e)) {
      Object o = mk("this");
      o["t"] = tname(e->getType());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      Object o = mk("mem");
      const ValueDecl *d = x->getMemberDecl();
      o["n"] = d->getNameAsString();
      o["t"] = tname(e->getType());
      if (const auto *fd = dyn_cast<FieldDecl>(d)) {
        o["cls"] = rname(cast<CXXRecordDecl>(fd->getParent()));
        o["q"] = qname(fd);
      } else if (const auto *v = dyn_cast<VarDecl>(d)) {
        o["static"] = true;
        o["q"] = qname(v);
      } else if (const auto *m = dyn_cast<CXXMethodDecl>(d)) {
        o["f"] = callee(m);
      }
      if (x->isArrow())
        o["arrow"] = true;
      o["b"] = expr(x->getBase());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      Object o = mk("opcall");
      o["op"] = getOperatorSpelling(x->getOperator());
      o["t"] = tname(e->getType());
      if (const FunctionDecl *f = x->getDirectCallee()) {
        o["f"] = callee(f);
        if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic())
          o["meth"] = true;
      }
      o["a"] = args(x->arguments());
      o["lv"] = e->isLValue();
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      Object o = mk("mcall");
      o["t"] = tname(e->getType());
      if (const CXXMethodDecl *m = x->getMethodDecl())
        o["f"] = callee(m);
      const Expr *cal = x->getCallee()->IgnoreParens();
      if (const auto *me = dyn_cast<MemberExpr>(cal)) {
        o["obj"] = expr(me->getBase());
        if (me->isArrow())
          o["arrow"] = true;
      } else
        o["obj"] = expr(x->getImplicitObjectArgument());
      o["a"] = args(x->arguments());
      o["lv"] = e->isLValue();
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      if (x->getBuiltinCallee() == Builtin::BI__builtin_expect)
        return expr(x->getArg(0));
      Object o = mk("call");
      o["t"] = tname(e->getType());
      if (const FunctionDecl *f = x->getDirectCallee())
        o["f"] = callee(f);
      else
        o["ce"] = expr(x->getCallee());
      o["a"] = args(x->arguments());
      o["lv"] = e->isLValue();
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      const CXXConstructorDecl *cd = x->getConstructor();
      if (cd->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) {
        Object o = mk("copy");
        o["t"] = tname(e->getType());
        o["move"] = cd->isMoveConstructor();
        o["a"] = Array{expr(x->getArg(0))};
        o["f"] = callee(cd);
        return withLine(std::move(o), e);
      }
      Object o = mk("ctor");
      o["t"] = tname(e->getType());
      o["f"] = callee(cd);
      Array a;
      for (const Expr *ae : x->arguments()) {
        a.push_back(expr(ae));
      }
      o["a"] = std::move(a);
      if (x->isListInitialization())
        o["list"] = true;
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) {
      Object o = mk("ctor");
      o["t"] = tname(x->getType());
      o["a"] = Array{};
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<ImplicitValueInitExpr>(e)) {
      Object o = mk("ctor");
      o["t"] = tname(x->getType());
      o["a"] = Array{};
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      Object o = mk("ctor");
      o["t"] = tname(x->getType());
      o["f"] = callee(x->getConstructor());
      o["a"] = Array{};
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      Object o = mk("initlist");
      o["t"] = tname(e->getType());
      Array a;
      const InitListExpr *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      for (const Expr *i : s->inits())
        a.push_back(expr(i));
      o["a"] = std::move(a);
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      Object o = mk("cast");
      o["t"] = tname(e->getType());
      o["ft"] = tname(x->getSubExpr()->getType());
      o["ck"] = x->getCastKindName();
      if (isa<ImplicitCastExpr>(e)) o["imp"] = true;
      o["e"] = expr(x->getSubExpr());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      Object o = mk("assign");
      std::string s = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["op"] = s;
      o["t"] = tname(e->getType());
      o["lhs"] = expr(x->getLHS());
      o["rhs"] = expr(x->getRHS());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      if (x->getOpcode() == BO_Assign) {
        Object o = mk("assign");
        o["op"] = "=";
        o["t"] = tname(e->getType());
        o["lhs"] = expr(x->getLHS());
        o["rhs"] = expr(x->getRHS());
        return withLine(std::move(o), e);
      }
      Object o = mk("bin");
      o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["t"] = tname(e->getType());
      o["x"] = expr(x->getLHS());
      o["y"] = expr(x->getRHS());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      Object o = mk("un");
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix())
        o["post"] = true;
      o["t"] = tname(e->getType());
      o["x"] = expr(x->getSubExpr());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
      Object o = mk("cond");
      o["t"] = tname(e->getType());
      o["c"] = expr(x->getCond());
      o["x"] = expr(x->getTrueExpr());
      o["y"] = expr(x->getFalseExpr());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      Object o = mk("idx");
      o["t"] = tname(e->getType());
      o["b"] = expr(x->getBase());
      o["i"] = expr(x->getIdx());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      Object o = mk("lambda");
      Array caps;
      for (const LambdaCapture &c : x->captures()) {
        Object co;
        if (c.capturesThis())
          co["this"] = true;
        else if (c.capturesVariable()) {
          co["d"] = lid(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
        }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl *m = x->getCallOperator();
      Array ps;
      for (const ParmVarDecl *p : m->parameters())
        ps.push_back(param(p));
      o["params"] = std::move(ps);
      o["u"] = usr(m);
      o["body"] = stmt(x->getBody());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      Object o = mk("throw");
      o["e"] = expr(x->getSubExpr());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      Object o = mk("new");
      o["t"] = tname(e->getType());
      o["e"] = expr(x->getConstructExpr());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e))
      return expr(x->getSourceExpr());
    if (auto *x = dyn_cast<StmtExpr>(e)) {
      Object o = mk("stmtexpr");
      o["body"] = stmt(x->getSubStmt());
      return withLine(std::move(o), e);
    }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e))
      return expr(x->getCommonExpr());
    Object o = mk("unk");
    o["c"] = e->getStmtClassName();
    o["t"] = tname(e->getType());
    Array a;
    for (const Stmt *c : e->children())
      if (c)
        if (auto *ce = dyn_cast<Expr>(c))
          a.push_back(expr(ce));
    o["a"] = std::move(a);
    return withLine(std::move(o), e);
  }

  Object param(const ParmVarDecl *p) {
    Object o;
    o["n"] = p->getNameAsString();
    o["d"] = lid(p);
    o["t"] = tname(p->getType().getNonReferenceType());
    o["pm"] = passing(p->getType());
    return o;
  }

  Value vardecl(const VarDecl *v) {
    Object o = mk("var");
    o["n"] = v->getNameAsString();
    o["d"] = lid(v);
    o["t"] = tname(v->getType().getNonReferenceType());
    o["ref"] = v->getType()->isReferenceType();
    o["cst"] = v->getType().getNonReferenceType().isConstQualified();
    if (v->isStaticLocal())
      o["static"] = true;
    if (v->getInit())
      o["init"] = expr(v->getInit());
    o["l"] = line(v->getBeginLoc());
    return Value(std::move(o));
  }

  Value stmt(const Stmt *s) {
    if (!s)
      return nullptr;
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      Object o = mk("blk");
      Array a;
      for (const Stmt *c : x->body())
        a.push_back(stmt(c));
      o["s"] = std::move(a);
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      Object o = mk("decl");
      Array a;
      for (const Decl *d : x->decls()) {
        if (auto *v = dyn_cast<DecompositionDecl>(d)) {
          Object vo = *vardecl(v).getAsObject();
          Array bs;
          for (auto *b : v->bindings()) {
            Object bo;
            bo["d"] = lid(b);
            bo["n"] = b->getNameAsString();
            if (b->getBinding()) bo["be"] = expr(b->getBinding());
            bs.push_back(std::move(bo));
          }
          vo["bindings"] = std::move(bs);
          a.push_back(std::move(vo));
        } else if (auto *v = dyn_cast<VarDecl>(d))
          a.push_back(vardecl(v));
      }
      o["v"] = std::move(a);
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      Object o = mk("if");
      if (x->getInit())
        o["init"] = stmt(x->getInit());
      if (x->getConditionVariable())
        o["cv"] = vardecl(x->getConditionVariable());
      if (x->isConstexpr()) {
        auto taken = x->getNondiscardedCase(ctx);
        if (taken.has_value()) {
          if (*taken)
            return stmt(*taken);
          return withLine(mk("null_stmt"), s);
        }
      }
      o["c"] = expr(x->getCond());
      o["then"] = stmt(x->getThen());
      if (x->getElse())
        o["else"] = stmt(x->getElse());
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      Object o = mk("for");
      o["init"] = stmt(x->getInit());
      if (x->getCond()) o["c"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc());
      o["body"] = stmt(x->getBody());
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      Object o = mk("rfor");
      o["var"] = vardecl(x->getLoopVariable());
      o["range"] = expr(x->getRangeInit());
      o["body"] = stmt(x->getBody());
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      Object o = mk("while");
      o["c"] = expr(x->getCond());
      if (x->getConditionVariable())
        o["cv"] = vardecl(x->getConditionVariable());
      o["body"] = stmt(x->getBody());
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<DoStmt>(s)) {
      Object o = mk("do");
      o["c"] = expr(x->getCond());
      o["body"] = stmt(x->getBody());
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<ReturnStmt>(s)) {
      Object o = mk("ret");
      if (x->getRetValue())
        o["e"] = expr(x->getRetValue());
      return withLine(std::move(o), s);
    }
    if (isa<BreakStmt>(s)) return withLine(mk("brk"), s);
    if (isa<ContinueStmt>(s)) return withLine(mk("cont"), s);
    if (isa<NullStmt>(s)) return withLine(mk("null_stmt"), s);
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      Object o = mk("switch");
      o["c"] = expr(x->getCond());
      o["ct"] = tname(x->getCond()->IgnoreImpCasts()->getType());
      o["body"] = stmt(x->getBody());
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) {
      Object o = mk("case");
      o["e"] = expr(x->getLHS());
      o["s"] = stmt(x->getSubStmt());
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) {
      Object o = mk("default");
      o["s"] = stmt(x->getSubStmt());
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      Object o = mk("try");
      o["body"] = stmt(x->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        const CXXCatchStmt *h = x->getHandler(i);
        Object ho = mk("catch");
        if (h->getExceptionDecl())
          ho["var"] = vardecl(h->getExceptionDecl());
        ho["body"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
      return withLine(std::move(o), s);
    }
    if (auto *x = dyn_cast<AttributedStmt>(s))
      return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(s)) {
      return stmt(x->getSubStmt());
    }
    if (auto *x = dyn_cast<Expr>(s)) {
      Object o = mk("expr");
      o["e"] = expr(x);
      return withLine(std::move(o), s);
    }
    Object o = mk("unk_stmt");
    o["c"] = s->getStmtClassName();
    return withLine(std::move(o), s);
  }

  Object function(const FunctionDecl *f) {
    local_ids.clear();
    Object o;
    o["q"] = qname(f);
    o["u"] = usr(f);
    o["name"] = f->getNameAsString();
    o["file"] = path(f->getLocation());
    o["line"] = line(f->getLocation());
    o["endline"] = line(f->getBodyRBrace());
    o["ret"] = tname(f->getReturnType());
    o["rp"] = passing(f->getReturnType());
    if (const auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = rname(m->getParent());
      o["const"] = m->isConst();
      o["access"] = (int)m->getAccess();
      if (m->isStatic()) o["static"] = true;
      if (m->isVirtual()) o["virt"] = true;
      Array ov;
      for (const CXXMethodDecl *b : m->overridden_methods())
        ov.push_back(qname(b));
      o["overrides"] = std::move(ov);
    }
    if (isa<CXXConstructorDecl>(f)) o["kind"] = "ctor";
    else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
    else o["kind"] = "fn";
    if (f->isDefaulted()) o["defaulted"] = true;
    Array ps;
    for (const ParmVarDecl *p : f->parameters())
      ps.push_back(param(p));
    o["params"] = std::move(ps);
    if (const auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      Array is;
      for (const CXXCtorInitializer *i : c->inits()) {
        Object io;
        if (i->isAnyMemberInitializer()) {
          io["m"] = i->getAnyMember()->getNameAsString();
          io["t"] = tname(i->getAnyMember()->getType());
        } else if (i->isBaseInitializer())
          io["base"] = tname(QualType(i->getBaseClass(), 0));
        else
          io["deleg"] = true;
        io["w"] = i->isWritten();
        io["e"] = expr(i->getInit());
        io["l"] = line(i->getSourceLocation());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
      if (c->isCopyConstructor()) o["copyctor"] = true;
    }
    o["body"] = stmt(f->getBody());
    return o;
  }

  Object record(const CXXRecordDecl *r) {
    Object o;
    o["q"] = rname(r);
    o["n"] = qname(r);
    o["file"] = path(r->getLocation());
    o["line"] = line(r->getLocation());
    Array fs;
    for (const FieldDecl *f : r->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = tname(f->getType());
      fo["ref"] = f->getType()->isReferenceType();
      fo["acc"] = (int)f->getAccess();
      fo["mut"] = f->isMutable();
      if (f->hasInClassInitializer()) fo["ici"] = true;
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (const auto &b : r->bases())
      bs.push_back(tname(b.getType()));
    o["bases"] = std::move(bs);
    Array ms;
    for (const CXXMethodDecl *m : r->methods()) {
      Object mo;
      mo["n"] = m->getNameAsString();
      mo["u"] = usr(m);
      mo["acc"] = (int)m->getAccess();
      mo["const"] = m->isConst();
      mo["imp"] = m->isImplicit();
      mo["def"] = m->isDefined();
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    return o;
  }

  Object enumd(const EnumDecl *e) {
    Object o;
    o["q"] = qname(e);
    Array a;
    for (const EnumConstantDecl *c : e->enumerators())
      a.push_back(qname(c));
    o["c"] = std::move(a);
    Array v;
    for (const EnumConstantDecl *c : e->enumerators())
      v.push_back((int64_t)c->getInitVal().getExtValue());
    o["v"] = std::move(v);
    return o;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Visitor(ASTContext &c) : d(c) {}
  Dumper d;
  Array funcs, records, enums;
  std::set<const Decl *> seen;

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return true;
    if (f->isDefaulted() && !f->getBody()) return true;
    if (!f->getBody()) return true;
    if (f->isDependentContext()) return true;
    if (const auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (f->isImplicit()) return true;
    if (Dumper::in_root(d.path(f->getLocation())).empty()) return true;
    if (!seen.insert(f->getCanonicalDecl()).second) return true;
    funcs.push_back(d.function(f));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (Dumper::in_root(d.path(r->getLocation())).empty()) return true;
    if (!seen.insert(r).second) return true;
    records.push_back(d.record(r));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!e->isThisDeclarationADefinition()) return true;
    if (Dumper::in_root(d.path(e->getLocation())).empty()) return true;
    if (!seen.insert(e).second) return true;
    enums.push_back(d.enumd(e));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &ci;
  explicit Consumer(CompilerInstance &c) : ci(c) {}
  void HandleTranslationUnit(ASTContext &ctx) override {
    Visitor v(ctx);
    // only walk top-level declarations in the roots, plus everything reachable
    // as instantiation from them; std/deal.II namespaces are skipped cheaply
    for (Decl *d : ctx.getTranslationUnitDecl()->decls()) {
      std::string p = v.d.path(d->getLocation());
      if (Dumper::in_root(p).empty())
        continue;
      v.TraverseDecl(d);
    }
    Object o;
    o["functions"] = std::move(v.funcs);
    o["records"] = std::move(v.records);
    o["enums"] = std::move(v.enums);
    o["errors"] = (int64_t)ci.getDiagnostics().getClient()->getNumErrors();
    Array deps;
    SourceManager &sm = ctx.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      std::string rp = it->first.getFileEntry().tryGetRealPathName().str();
      if (!Dumper::in_root(rp).empty())
        deps.push_back(rp);
    }
    o["deps"] = std::move(deps);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(o));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, llvm::StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};

} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: gcp-extract roots out.json file.cc -- args\n";
    return 2;
  }
  std::string roots = argv[1];
  size_t p = 0;
  while (p != std::string::npos) {
    size_t q = roots.find(':', p);
    g_roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
    p = q == std::string::npos ? q : q + 1;
  }
  g_out = argv[2];
  std::string file = argv[3];
  std::vector<std::string> cargs;
  for (int i = 5; i < argc; ++i)
    cargs.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", cargs);
  tooling::ClangTool tool(db, {file});
  struct F : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } f;
  return tool.run(&f);
}
