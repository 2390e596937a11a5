// jlm fact extractor: dumps the resolved program (classes, enums, functions with expression trees) of
// selected files of one translation unit as JSON.  It never runs any of the analysed code.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace clang;

static std::string OutPath;
static std::set<std::string> WantedFiles; // absolute paths
static std::string Root;

static void
jstr(std::string & o, llvm::StringRef s)
{
  o += '"';
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += (char)c;
    }
    else if (c < 0x20 || c >= 0x7f)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += (char)c;
  }
  o += '"';
}

class Dumper
{
public:
  ASTContext & Ctx;
  SourceManager & SM;
  PrintingPolicy PP;
  std::string fnTable, varTable, fieldTable;
  std::unordered_map<const Decl *, int> fnIds, varIds;
  int nextFn = 0, nextVar = 0;
  std::vector<const FunctionDecl *> pendingInst;
  std::set<const FunctionDecl *> seenInst;

  Dumper(ASTContext & c)
      : Ctx(c),
        SM(c.getSourceManager()),
        PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = false;
    PP.AnonymousTagLocations = false;
  }

  std::string
  fileOf(SourceLocation l)
  {
    if (l.isInvalid())
      return "";
    auto e = SM.getExpansionLoc(l);
    auto fe = SM.getFileEntryRefForID(SM.getFileID(e));
    if (!fe)
      return "";
    llvm::SmallString<256> p(fe->getName());
    if (!llvm::sys::path::is_absolute(p))
    {
      llvm::SmallString<256> q(Root);
      llvm::sys::path::append(q, p);
      p = q;
    }
    llvm::sys::path::remove_dots(p, true);
    return p.str().str();
  }
  std::string
  relFile(SourceLocation l)
  {
    auto f = fileOf(l);
    if (f.rfind(Root + "/", 0) == 0)
      return f.substr(Root.size() + 1);
    return f;
  }
  unsigned
  lineOf(SourceLocation l)
  {
    return l.isInvalid() ? 0 : SM.getExpansionLineNumber(l);
  }

  std::string
  typeStr(QualType t)
  {
    if (t.isNull())
      return "?";
    return t.getCanonicalType().getAsString(PP);
  }

  std::string
  qualName(const NamedDecl * d)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->getNameForDiagnostic(os, PP, true);
    os.flush();
    return s;
  }
  // class name, with canonical template arguments
  std::string
  className(const CXXRecordDecl * r)
  {
    if (r->isLambda())
    {
      return "lambda@" + relFile(r->getLocation()) + ":" + std::to_string(lineOf(r->getLocation()))
           + ":" + std::to_string(SM.getExpansionColumnNumber(r->getLocation()));
    }
    return typeStr(Ctx.getRecordType(r));
  }

  void
  targs(std::string & o, llvm::ArrayRef<TemplateArgument> as)
  {
    bool first = true;
    for (auto & a : as)
    {
      if (a.getKind() == TemplateArgument::Pack)
      {
        for (auto & b : a.pack_elements())
        {
          if (!first)
            o += ',';
          first = false;
          targ(o, b);
        }
        continue;
      }
      if (!first)
        o += ',';
      first = false;
      targ(o, a);
    }
  }
  void
  targ(std::string & o, const TemplateArgument & a)
  {
    if (a.getKind() == TemplateArgument::Type)
      jstr(o, typeStr(a.getAsType()));
    else
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      a.print(PP, os, true);
      os.flush();
      jstr(o, s);
    }
  }

  // base qualified name without template args
  std::string
  plainQual(const FunctionDecl * f)
  {
    std::string s;
    if (auto m = dyn_cast<CXXMethodDecl>(f))
    {
      s = className(m->getParent()) + "::";
      if (isa<CXXConstructorDecl>(f))
        s += "<ctor>";
      else if (isa<CXXDestructorDecl>(f))
        s += "<dtor>";
      else if (auto cv = dyn_cast<CXXConversionDecl>(f))
        s += "operator " + typeStr(cv->getConversionType());
      else
        s += f->getNameAsString();
      return s;
    }
    return f->getQualifiedNameAsString();
  }

  int
  fnId(const FunctionDecl * f)
  {
    const FunctionDecl * c = f->getCanonicalDecl();
    auto it = fnIds.find(c);
    if (it != fnIds.end())
      return it->second;
    int id = nextFn++;
    fnIds[c] = id;
    std::string o;
    o += "{\"i\":" + std::to_string(id) + ",\"q\":";
    jstr(o, plainQual(f));
    o += ",\"t\":";
    // signature: canonical param types
    std::string sig = "(";
    for (auto p : f->parameters())
    {
      if (sig.size() > 1)
        sig += ",";
      sig += typeStr(p->getType());
    }
    sig += ")";
    if (auto m = dyn_cast<CXXMethodDecl>(f))
      if (m->isConst())
        sig += " const";
    jstr(o, sig);
    o += ",\"r\":";
    jstr(o, typeStr(f->getReturnType()));
    if (auto m = dyn_cast<CXXMethodDecl>(f))
    {
      o += ",\"c\":";
      jstr(o, className(m->getParent()));
      if (m->isVirtual())
        o += ",\"v\":1";
      if (m->isStatic())
        o += ",\"s\":1";
    }
    if (auto cd = dyn_cast<CXXConstructorDecl>(f))
    {
      if (cd->isCopyOrMoveConstructor())
        o += ",\"cp\":1";
      if (cd->isImplicit() || cd->isDefaulted())
        o += ",\"df\":1";
    }
    else if (f->isDefaulted())
      o += ",\"df\":1";
    if (f->isDeleted())
      o += ",\"dl\":1";
    if (f->isNoReturn() || f->hasAttr<NoReturnAttr>())
      o += ",\"nr\":1";
    if (f->isVariadic())
      o += ",\"va\":1";
    const FunctionDecl * pat = f->getTemplateInstantiationPattern();
    if (auto ta = f->getTemplateSpecializationArgs())
    {
      o += ",\"ta\":[";
      targs(o, ta->asArray());
      o += "]";
    }
    const FunctionDecl * def = nullptr;
    if (pat)
      pat->isDefined(def);
    else
      f->isDefined(def);
    if (!def)
      def = pat ? pat : f;
    o += ",\"f\":";
    jstr(o, relFile(def->getLocation()));
    o += ",\"l\":" + std::to_string(lineOf(def->getLocation()));
    if (pat)
      o += ",\"in\":1";
    o += "}";
    if (!fnTable.empty())
      fnTable += ",\n";
    fnTable += o;
    return id;
  }

  int
  varId(const VarDecl * v)
  {
    const Decl * c = v->getCanonicalDecl();
    auto it = varIds.find(c);
    if (it != varIds.end())
      return it->second;
    int id = nextVar++;
    varIds[c] = id;
    return id;
  }

  // ---- expression dumping
  std::string o;

  void
  n(const char * k)
  {
    o += "[\"";
    o += k;
    o += '"';
  }
  void
  num(long long v)
  {
    o += ',';
    o += std::to_string(v);
  }
  void
  str(llvm::StringRef s)
  {
    o += ',';
    jstr(o, s);
  }
  void
  e(const Stmt * s)
  {
    o += ',';
    expr(s);
  }
  template<class R>
  void
  list(R && r)
  {
    o += ",[";
    bool first = true;
    for (auto x : r)
    {
      if (!first)
        o += ',';
      first = false;
      expr(x);
    }
    o += ']';
  }
  void
  argList(llvm::ArrayRef<const Expr *> as, unsigned from = 0)
  {
    o += ",[";
    for (unsigned i = from; i < as.size(); i++)
    {
      if (i > from)
        o += ',';
      expr(as[i]);
    }
    o += ']';
  }

  std::set<const EnumDecl *> enumsUsed;
  void
  usedEnum(const EnumConstantDecl * ec)
  {
    if (auto en = dyn_cast<EnumDecl>(ec->getDeclContext()))
      enumsUsed.insert(en);
  }

  void
  declRef(const ValueDecl * d, const DeclRefExpr * dre)
  {
    if (auto f = dyn_cast<FunctionDecl>(d))
    {
      n("fn");
      num(fnId(f));
      o += ']';
    }
    else if (auto ec = dyn_cast<EnumConstantDecl>(d))
    {
      usedEnum(ec);
      n("enum");
      str(ec->getQualifiedNameAsString());
      llvm::SmallString<16> v;
      ec->getInitVal().toString(v, 10);
      str(v);
      o += ']';
    }
    else if (auto v = dyn_cast<VarDecl>(d))
    {
      if (v->isLocalVarDeclOrParm() && !v->isStaticLocal())
      {
        n("var");
        num(varId(v));
        str(v->getName());
        o += ']';
      }
      else
      {
        n("gvar");
        str(v->getQualifiedNameAsString());
        // constexpr/const integral value
        const VarDecl * def = nullptr;
        const Expr * init = v->getAnyInitializer(def);
        if (init && !init->isValueDependent() && v->getType().isConstQualified()
            && v->getType()->isIntegralOrEnumerationType())
        {
          Expr::EvalResult r;
          if (init->EvaluateAsInt(r, Ctx))
          {
            llvm::SmallString<16> s;
            r.Val.getInt().toString(s, 10);
            str(s);
          }
          else
            str("");
        }
        else
          str("");
        o += ']';
      }
    }
    else if (auto b = dyn_cast<BindingDecl>(d))
    {
      long long index = 0;
      if (auto dd = dyn_cast<DecompositionDecl>(b->getDecomposedDecl()))
        for (auto x : dd->bindings())
        {
          if (x == b)
            break;
          ++index;
        }
      if (b->getBinding())
      {
        // tuple-like bindings have a holding var
        if (auto hv = b->getHoldingVar())
        {
          n("bind");
          num(varId(cast<VarDecl>(b->getDecomposedDecl())));
          str(b->getName());
          num((long long)0);
          num(index);
          o += ']';
        }
        else
        {
          n("bind");
          num(varId(cast<VarDecl>(b->getDecomposedDecl())));
          str(b->getName());
          e(b->getBinding());
          num(index);
          o += ']';
        }
      }
      else
      {
        n("bind");
        num(varId(cast<VarDecl>(b->getDecomposedDecl())));
        str(b->getName());
        num((long long)0);
        num(index);
        o += ']';
      }
    }
    else
    {
      n("ref");
      str(d->getQualifiedNameAsString());
      o += ']';
    }
  }

  void
  call(const FunctionDecl * f, const Expr * obj, llvm::ArrayRef<const Expr *> args, unsigned line, bool qualified = false)
  {
    n("call");
    num(fnId(f));
    if (obj)
      e(obj);
    else
      o += ",0";
    argList(args);
    num(line);
    if (qualified)
      num((long long)1);
    o += ']';
  }

  // strips implicit wrappers
  static const Stmt *
  strip(const Stmt * s)
  {
    for (;;)
    {
      if (!s)
        return s;
      if (auto x = dyn_cast<ParenExpr>(s))
        s = x->getSubExpr();
      else if (auto x = dyn_cast<FullExpr>(s))
        s = x->getSubExpr();
      else if (auto x = dyn_cast<MaterializeTemporaryExpr>(s))
        s = x->getSubExpr();
      else if (auto x = dyn_cast<CXXBindTemporaryExpr>(s))
        s = x->getSubExpr();
      else if (auto x = dyn_cast<ImplicitCastExpr>(s))
        s = x->getSubExpr();
      else if (auto x = dyn_cast<CXXDefaultArgExpr>(s))
        s = x->getExpr();
      else if (auto x = dyn_cast<CXXDefaultInitExpr>(s))
        s = x->getExpr();
      else if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
        s = x->getReplacement();
      else if (auto x = dyn_cast<CXXStdInitializerListExpr>(s))
        s = x->getSubExpr();
      else if (auto x = dyn_cast<OpaqueValueExpr>(s))
      {
        if (!x->getSourceExpr())
          return s;
        s = x->getSourceExpr();
      }
      else if (auto x = dyn_cast<CXXConstructExpr>(s))
      {
        // elidable / copy / move construction from an object of the same class
        if (x->getNumArgs() == 1 && x->getConstructor()->isCopyOrMoveConstructor()
            && !isa<CXXTemporaryObjectExpr>(x) && x->isElidable())
          s = x->getArg(0);
        else
          return s;
      }
      else
        return s;
    }
  }

  void
  expr(const Stmt * s)
  {
    s = strip(s);
    if (!s)
    {
      o += "0";
      return;
    }
    unsigned line = lineOf(s->getBeginLoc());
    // constant folding for sizeof etc. is not needed
    if (auto x = dyn_cast<DeclRefExpr>(s))
      return declRef(x->getDecl(), x);
    if (auto x = dyn_cast<IntegerLiteral>(s))
    {
      llvm::SmallString<16> v;
      x->getValue().toString(v, 10, x->getType()->isSignedIntegerType());
      n("int");
      o += ',';
      jstr(o, v);
      if (typeStr(x->getType()) != "int")
        str(typeStr(x->getType()));
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CharacterLiteral>(s))
    {
      n("chr");
      num(x->getValue());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXBoolLiteralExpr>(s))
    {
      n("bool");
      num(x->getValue());
      o += ']';
      return;
    }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s))
    {
      o += "[\"null\"]";
      return;
    }
    if (auto x = dyn_cast<StringLiteral>(s))
    {
      n("str");
      str(x->isOrdinary() || x->isUTF8() ? x->getString() : llvm::StringRef("?"));
      o += ']';
      return;
    }
    if (auto x = dyn_cast<FloatingLiteral>(s))
    {
      llvm::SmallString<16> v;
      x->getValue().toString(v);
      n("flt");
      str(v);
      o += ']';
      return;
    }
    if (isa<CXXThisExpr>(s))
    {
      o += "[\"this\"]";
      return;
    }
    if (auto x = dyn_cast<MemberExpr>(s))
    {
      auto d = x->getMemberDecl();
      if (auto f = dyn_cast<FieldDecl>(d))
      {
        n("mem");
        e(x->getBase());
        str(f->getName());
        str(className(cast<CXXRecordDecl>(f->getParent())));
        num(line);
        o += ']';
      }
      else if (auto m = dyn_cast<FunctionDecl>(d))
      {
        n("fn");
        num(fnId(m));
        e(x->getBase());
        o += ']';
      }
      else
        declRef(d, nullptr);
      return;
    }
    if (auto x = dyn_cast<CXXMemberCallExpr>(s))
    {
      auto me = x->getMethodDecl();
      const Expr * obj = x->getImplicitObjectArgument();
      std::vector<const Expr *> as(x->arg_begin(), x->arg_end());
      bool q = false;
      if (auto m = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
        q = m->hasQualifier();
      if (me)
        return call(me, obj, as, line, q);
    }
    if (auto x = dyn_cast<CXXOperatorCallExpr>(s))
    {
      std::vector<const Expr *> as(x->arg_begin(), x->arg_end());
      if (auto f = x->getDirectCallee())
      {
        if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic())
        {
          const Expr * obj = as[0];
          as.erase(as.begin());
          return call(f, obj, as, line);
        }
        return call(f, nullptr, as, line);
      }
      n("uop");
      str(getOperatorSpelling(x->getOperator()));
      argList(as);
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CallExpr>(s))
    {
      std::vector<const Expr *> as(x->arg_begin(), x->arg_end());
      if (auto f = x->getDirectCallee())
        return call(f, nullptr, as, line);
      n("ucall");
      e(x->getCallee());
      argList(as);
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXConstructExpr>(s))
    {
      std::vector<const Expr *> as(x->arg_begin(), x->arg_end());
      // note: default arguments are kept and expanded
      n("ctor");
      num(fnId(x->getConstructor()));
      str(className(x->getConstructor()->getParent()));
      argList(as);
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(s))
    {
      n("ctor");
      num(fnId(x->getConstructor()));
      str(className(x->getConstructor()->getParent()));
      o += ",[]";
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXUnresolvedConstructExpr>(s))
    {
      std::vector<const Expr *> as(x->arg_begin(), x->arg_end());
      n("uctor");
      str(typeStr(x->getTypeAsWritten()));
      argList(as);
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXNewExpr>(s))
    {
      n("new");
      str(typeStr(x->getAllocatedType()));
      e(x->getInitializer());
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXDeleteExpr>(s))
    {
      n("del");
      e(x->getArgument());
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<UnaryOperator>(s))
    {
      n("un");
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix())
        op = "p" + op;
      str(op);
      e(x->getSubExpr());
      num(line);
      if (x->getOpcode() == UO_AddrOf)
        str(typeStr(x->getSubExpr()->getType()));
      else if (x->getType()->isIntegerType())
        str(typeStr(x->getType()));
      o += ']';
      return;
    }
    if (auto x = dyn_cast<BinaryOperator>(s))
    {
      if (x->isAssignmentOp())
        n("asg");
      else
        n("bin");
      str(x->getOpcodeStr());
      e(x->getLHS());
      e(x->getRHS());
      num(line);
      // the type the operation is done in
      auto t = x->getType();
      if (auto c = dyn_cast<CompoundAssignOperator>(x))
        t = c->getComputationResultType();
      else if (x->isComparisonOp())
        t = x->getLHS()->getType();
      if (!t.isNull() && t->isIntegerType())
        str(typeStr(t));
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(s))
      return expr(x->getSemanticForm());
    if (auto x = dyn_cast<BinaryConditionalOperator>(s))
    {
      n("elvis");
      e(x->getCommon());
      e(x->getFalseExpr());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<ConditionalOperator>(s))
    {
      n("cond");
      e(x->getCond());
      e(x->getTrueExpr());
      e(x->getFalseExpr());
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<ExplicitCastExpr>(s))
    {
      n("cast");
      if (isa<CXXDynamicCastExpr>(x))
        str("dynamic");
      else if (isa<CXXStaticCastExpr>(x))
        str("static");
      else if (isa<CXXConstCastExpr>(x))
        str("const");
      else if (isa<CXXReinterpretCastExpr>(x))
        str("reinterpret");
      else if (isa<CXXFunctionalCastExpr>(x))
        str("functional");
      else
        str("c");
      str(typeStr(x->getTypeAsWritten()));
      e(x->getSubExpr());
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<ArraySubscriptExpr>(s))
    {
      n("idx");
      e(x->getBase());
      e(x->getIdx());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<InitListExpr>(s))
    {
      if (x->isSemanticForm() == false && x->getSemanticForm())
        x = x->getSemanticForm();
      n("ilist");
      str(x->getType().isNull() ? "?" : typeStr(x->getType()));
      std::vector<const Expr *> as;
      for (unsigned i = 0; i < x->getNumInits(); i++)
        as.push_back(x->getInit(i));
      argList(as);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<ParenListExpr>(s))
    {
      n("ilist");
      str("?");
      std::vector<const Expr *> as;
      for (unsigned i = 0; i < x->getNumExprs(); i++)
        as.push_back(x->getExpr(i));
      argList(as);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<LambdaExpr>(s))
    {
      lambda(x, line);
      return;
    }
    if (auto x = dyn_cast<CXXThrowExpr>(s))
    {
      n("throw");
      e(x->getSubExpr());
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXTypeidExpr>(s))
    {
      n("typeid");
      if (x->isTypeOperand())
        str(typeStr(x->getTypeOperand(Ctx)));
      else
        e(x->getExprOperand());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
    {
      n("sizeof");
      if (x->isArgumentType())
        str(typeStr(x->getArgumentType()));
      else
        e(x->getArgumentExpr());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXScalarValueInitExpr>(s))
    {
      n("zero");
      str(typeStr(x->getType()));
      o += ']';
      return;
    }
    if (auto x = dyn_cast<ImplicitValueInitExpr>(s))
    {
      n("zero");
      str(typeStr(x->getType()));
      o += ']';
      return;
    }
    if (auto x = dyn_cast<UnresolvedLookupExpr>(s))
    {
      n("ulookup");
      str(x->getName().getAsString());
      o += ",[";
      if (x->hasExplicitTemplateArgs())
      {
        bool first = true;
        for (auto & a : x->template_arguments())
        {
          if (!first)
            o += ',';
          first = false;
          targ(o, a.getArgument());
        }
      }
      o += "]]";
      return;
    }
    if (auto x = dyn_cast<CXXDependentScopeMemberExpr>(s))
    {
      n("umem");
      if (x->isImplicitAccess())
        o += ",0";
      else
        e(x->getBase());
      str(x->getMember().getAsString());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<UnresolvedMemberExpr>(s))
    {
      n("umem");
      if (x->isImplicitAccess())
        o += ",0";
      else
        e(x->getBase());
      str(x->getMemberName().getAsString());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<DependentScopeDeclRefExpr>(s))
    {
      n("ulookup");
      std::string q;
      llvm::raw_string_ostream os(q);
      if (x->getQualifier())
        x->getQualifier()->print(os, PP);
      os << x->getDeclName().getAsString();
      os.flush();
      str(q);
      o += ",[]]";
      return;
    }
    if (auto x = dyn_cast<PackExpansionExpr>(s))
    {
      n("pack");
      e(x->getPattern());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<PredefinedExpr>(s))
    {
      o += "[\"predef\"]";
      return;
    }
    if (auto x = dyn_cast<Expr>(s))
    {
      n("x");
      str(x->getStmtClassName());
      list(x->children());
      o += ']';
      return;
    }
    stmt(s);
  }

  void
  lambda(const LambdaExpr * x, unsigned line)
  {
    n("lambda");
    // captures
    o += ",[";
    bool first = true;
    auto ci = x->capture_init_begin();
    for (auto c = x->capture_begin(); c != x->capture_end(); ++c, ++ci)
    {
      if (!first)
        o += ',';
      first = false;
      if (c->capturesThis())
        o += "[\"this\"]";
      else if (c->capturesVariable())
      {
        auto vd = dyn_cast<VarDecl>(c->getCapturedVar());
        o += "[";
        o += c->getCaptureKind() == LCK_ByRef ? "\"ref\"" : "\"val\"";
        if (vd)
        {
          num(varId(vd));
          str(vd->getName());
          if (vd->isInitCapture())
            e(vd->getInit());
        }
        else
        {
          num(-1);
          str(c->getCapturedVar()->getName());
        }
        o += "]";
      }
      else
        o += "[\"?\"]";
    }
    o += "]";
    auto op = x->getCallOperator();
    // generic lambdas: dump specialisations
    if (x->isGenericLambda())
    {
      auto ft = x->getDependentCallOperator();
      o += ",\"generic\",[";
      bool f2 = true;
      if (ft)
        for (auto sp : ft->specializations())
          if (sp->getBody())
          {
            if (!f2)
              o += ',';
            f2 = false;
            o += "[";
            params(sp);
            o += ",";
            stmt(sp->getBody());
            o += ",";
            jstr(o, typeStr(sp->getReturnType()));
            o += "]";
          }
      o += "]";
      num(line);
      o += ']';
      return;
    }
    o += ",";
    params(op);
    o += ",";
    stmt(x->getBody());
    num(line);
    str(className(x->getLambdaClass()));
    str(typeStr(op->getReturnType()));
    o += ']';
  }

  void
  params(const FunctionDecl * f)
  {
    o += "[";
    bool first = true;
    for (auto p : f->parameters())
    {
      if (!first)
        o += ',';
      first = false;
      o += "[" + std::to_string(varId(p));
      str(p->getName());
      str(typeStr(p->getType()));
      o += "]";
    }
    o += "]";
  }

  void
  varDecl(const VarDecl * v)
  {
    n("decl");
    num(varId(v));
    str(v->getName());
    str(typeStr(v->getType()));
    if (v->isStaticLocal())
    {
      e(v->getInit());
      num(lineOf(v->getLocation()));
      str("static");
      str(v->getQualifiedNameAsString());
    }
    else
    {
      e(v->getInit());
      num(lineOf(v->getLocation()));
    }
    if (auto dd = dyn_cast<DecompositionDecl>(v))
    {
      if (!v->isStaticLocal())
      {
        o += ",\"decomp\",[";
        bool first = true;
        for (auto b : dd->bindings())
        {
          if (!first)
            o += ',';
          first = false;
          jstr(o, b->getName());
        }
        o += "]";
      }
    }
    o += ']';
  }

  void
  stmt(const Stmt * s)
  {
    if (!s)
    {
      o += "0";
      return;
    }
    unsigned line = lineOf(s->getBeginLoc());
    if (auto x = dyn_cast<CompoundStmt>(s))
    {
      n("block");
      o += ",[";
      bool first = true;
      for (auto c : x->body())
      {
        if (isa<NullStmt>(c))
          continue;
        if (!first)
          o += ",";
        first = false;
        stmt(c);
      }
      o += "]]";
      return;
    }
    if (auto x = dyn_cast<DeclStmt>(s))
    {
      n("decls");
      o += ",[";
      bool first = true;
      for (auto d : x->decls())
        if (auto v = dyn_cast<VarDecl>(d))
        {
          if (!first)
            o += ",";
          first = false;
          varDecl(v);
        }
      o += "]]";
      return;
    }
    if (auto x = dyn_cast<IfStmt>(s))
    {
      if (x->isConstexpr() && !x->getCond()->isValueDependent())
      {
        // instantiated constexpr if: only the live branch
        Expr::EvalResult r;
        if (x->getCond()->EvaluateAsInt(r, Ctx))
        {
          bool b = r.Val.getInt().getBoolValue();
          const Stmt * live = b ? x->getThen() : x->getElse();
          n("block");
          o += ",[";
          if (live)
            stmt(live);
          o += "]]";
          return;
        }
      }
      n("if");
      num(line);
      // init statement and condition variable
      o += ",";
      if (x->getInit())
        stmt(x->getInit());
      else
        o += "0";
      o += ",";
      if (x->getConditionVariable())
        varDecl(x->getConditionVariable());
      else
        o += "0";
      e(x->getCond());
      o += ",";
      stmt(x->getThen());
      o += ",";
      stmt(x->getElse());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<ForStmt>(s))
    {
      n("for");
      num(line);
      o += ",";
      stmt(x->getInit());
      o += ",";
      if (x->getConditionVariable())
        varDecl(x->getConditionVariable());
      else
        o += "0";
      e(x->getCond());
      e(x->getInc());
      o += ",";
      stmt(x->getBody());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXForRangeStmt>(s))
    {
      n("rfor");
      num(line);
      o += ",";
      varDecl(x->getLoopVariable());
      e(x->getRangeInit());
      o += ",";
      stmt(x->getBody());
      o += ",";
      if (x->getInit())
        stmt(x->getInit());
      else
        o += "0";
      str(x->getRangeInit() && !x->getRangeInit()->getType().isNull()
              ? typeStr(x->getRangeInit()->getType())
              : "?");
      o += ']';
      return;
    }
    if (auto x = dyn_cast<WhileStmt>(s))
    {
      n("while");
      num(line);
      o += ",";
      if (x->getConditionVariable())
        varDecl(x->getConditionVariable());
      else
        o += "0";
      e(x->getCond());
      o += ",";
      stmt(x->getBody());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<DoStmt>(s))
    {
      n("do");
      num(line);
      o += ",";
      stmt(x->getBody());
      e(x->getCond());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<SwitchStmt>(s))
    {
      n("switch");
      num(line);
      o += ",";
      if (x->getConditionVariable())
        varDecl(x->getConditionVariable());
      else
        o += "0";
      e(x->getCond());
      o += ",";
      stmt(x->getBody());
      str(x->getCond() && !x->getCond()->getType().isNull()
              ? typeStr(strip(x->getCond()) ? cast<Expr>(strip(x->getCond()))->getType()
                                            : x->getCond()->getType())
              : "?");
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CaseStmt>(s))
    {
      n("case");
      num(line);
      const Expr * l = x->getLHS();
      e(l);
      o += ",";
      stmt(x->getSubStmt());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<DefaultStmt>(s))
    {
      n("default");
      num(line);
      o += ",";
      stmt(x->getSubStmt());
      o += ']';
      return;
    }
    if (auto x = dyn_cast<ReturnStmt>(s))
    {
      n("ret");
      num(line);
      e(x->getRetValue());
      o += ']';
      return;
    }
    if (isa<BreakStmt>(s))
    {
      n("break");
      num(line);
      o += ']';
      return;
    }
    if (isa<ContinueStmt>(s))
    {
      n("continue");
      num(line);
      o += ']';
      return;
    }
    if (auto x = dyn_cast<CXXTryStmt>(s))
    {
      n("try");
      num(line);
      o += ",";
      stmt(x->getTryBlock());
      o += ",[";
      for (unsigned i = 0; i < x->getNumHandlers(); i++)
      {
        if (i)
          o += ",";
        stmt(x->getHandler(i)->getHandlerBlock());
      }
      o += "]]";
      return;
    }
    if (isa<NullStmt>(s))
    {
      n("block");
      o += ",[]]";
      return;
    }
    if (auto x = dyn_cast<AttributedStmt>(s))
      return stmt(x->getSubStmt());
    if (isa<Expr>(s))
    {
      n("expr");
      num(line);
      e(s);
      o += ']';
      return;
    }
    n("xstmt");
    str(s->getStmtClassName());
    o += ",[";
    bool first = true;
    for (auto c : s->children())
    {
      if (!first)
        o += ",";
      first = false;
      stmt(c);
    }
    o += "]]";
  }

  // ---- declarations
  std::string functions;
  void
  function(const FunctionDecl * f)
  {
    const Stmt * body = f->getBody();
    if (!body && !f->isDefaulted())
      return;
    o.clear();
    o += "{\"i\":" + std::to_string(fnId(f));
    o += ",\"file\":";
    jstr(o, relFile(f->getLocation()));
    o += ",\"line\":" + std::to_string(lineOf(f->getLocation()));
    o += ",\"end\":" + std::to_string(lineOf(f->getEndLoc()));
    if (f->isDependentContext())
      o += ",\"dep\":1";
    o += ",\"p\":";
    params(f);
    if (auto c = dyn_cast<CXXConstructorDecl>(f))
    {
      o += ",\"inits\":[";
      bool first = true;
      for (auto i : c->inits())
      {
        if (!first)
          o += ",";
        first = false;
        if (i->isAnyMemberInitializer())
        {
          o += "[\"f\"";
          str(i->getAnyMember()->getName());
        }
        else
        {
          o += i->isDelegatingInitializer() ? "[\"d\"" : "[\"b\"";
          str(i->getTypeSourceInfo() ? typeStr(i->getTypeSourceInfo()->getType()) : "?");
        }
        e(i->getInit());
        num(i->isWritten() ? 1 : 0);
        o += "]";
      }
      o += "]";
    }
    o += ",\"b\":";
    if (body)
      stmt(body);
    else
      o += "0";
    o += "}";
    if (!functions.empty())
      functions += ",\n";
    functions += o;
  }

  std::string classes;
  std::set<const CXXRecordDecl *> seenClass;
  std::vector<const CXXRecordDecl *> classQueue;
  void
  record(const CXXRecordDecl * r)
  {
    r = r->getDefinition();
    if (!r || !seenClass.insert(r).second)
      return;
    std::string c;
    c += "{\"n\":";
    jstr(c, className(r));
    c += ",\"file\":";
    jstr(c, relFile(r->getLocation()));
    c += ",\"line\":" + std::to_string(lineOf(r->getLocation()));
    if (r->isDependentContext())
      c += ",\"dep\":1";
    else if (r->isAbstract())
      c += ",\"abs\":1";
    if (r->hasAttr<FinalAttr>())
      c += ",\"final\":1";
    if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
    {
      c += ",\"tn\":";
      jstr(c, sp->getSpecializedTemplate()->getQualifiedNameAsString());
      c += ",\"ta\":[";
      targs(c, sp->getTemplateArgs().asArray());
      c += "]";
    }
    c += ",\"bases\":[";
    bool first = true;
    for (auto & b : r->bases())
    {
      if (!first)
        c += ",";
      first = false;
      jstr(c, typeStr(b.getType()));
      if (auto br = b.getType()->getAsCXXRecordDecl())
        if (relFile(br->getLocation()).substr(0, 1) != "/")
          classQueue.push_back(br);
    }
    c += "],\"fields\":[";
    first = true;
    for (auto f : r->fields())
    {
      if (!first)
        c += ",";
      first = false;
      c += "[";
      jstr(c, f->getName());
      c += ",";
      jstr(c, typeStr(f->getType()));
      c += "," + std::to_string(lineOf(f->getLocation()));
      c += f->isMutable() ? ",1" : ",0";
      if (f->hasInClassInitializer() && f->getInClassInitializer() && !r->isDependentContext())
      {
        std::string saved;
        saved.swap(o);
        expr(f->getInClassInitializer());
        c += "," + o;
        o.swap(saved);
      }
      c += "]";
    }
    c += "],\"methods\":[";
    first = true;
    for (auto m : r->methods())
    {
      if (!first)
        c += ",";
      first = false;
      c += "[" + std::to_string(fnId(m)) + ",";
      jstr(c, m->getNameAsString());
      c += m->isVirtual() ? ",1" : ",0";
      c += m->isPureVirtual() ? ",1" : ",0";
      c += m->isImplicit() ? ",1" : ",0";
      c += m->isUserProvided() ? ",1" : ",0";
      c += ",\"";
      c += m->getAccess() == AS_public ? "pub" : m->getAccess() == AS_protected ? "prot" : "priv";
      c += "\"]";
    }
    c += "]}";
    if (!classes.empty())
      classes += ",\n";
    classes += c;
  }

  std::string enums;
  std::set<const EnumDecl *> enumsDone;
  void
  foreignEnums()
  {
    for (auto en : std::set<const EnumDecl *>(enumsUsed))
      if (!enumsDone.count(en) && std::distance(en->enumerator_begin(), en->enumerator_end()) <= 400)
        enumDecl(en);
  }
  void
  enumDecl(const EnumDecl * en)
  {
    enumsDone.insert(en);
    std::string c = "{\"n\":";
    jstr(c, typeStr(Ctx.getEnumType(en)));
    c += ",\"file\":";
    jstr(c, relFile(en->getLocation()));
    c += ",\"line\":" + std::to_string(lineOf(en->getLocation()));
    c += ",\"v\":[";
    bool first = true;
    for (auto k : en->enumerators())
    {
      if (!first)
        c += ",";
      first = false;
      c += "[";
      jstr(c, k->getQualifiedNameAsString());
      llvm::SmallString<16> v;
      k->getInitVal().toString(v, 10);
      c += ",";
      jstr(c, v);
      c += "]";
    }
    c += "]}";
    if (!enums.empty())
      enums += ",\n";
    enums += c;
  }

  std::string globals;
  void
  globalVar(const VarDecl * v)
  {
    if (!v->hasInit())
      return;
    o.clear();
    o += "{\"n\":";
    jstr(o, v->getQualifiedNameAsString());
    o += ",\"ty\":";
    jstr(o, typeStr(v->getType()));
    o += ",\"file\":";
    jstr(o, relFile(v->getLocation()));
    o += ",\"line\":" + std::to_string(lineOf(v->getLocation()));
    o += ",\"init\":";
    expr(v->getInit());
    o += "}";
    if (!globals.empty())
      globals += ",\n";
    globals += o;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
  Dumper & D;
  std::map<std::string, bool> cache;
  // template patterns -> representative instantiation
  std::set<const FunctionDecl *> instPatterns;
  std::vector<const FunctionDecl *> dependentFns;
  std::vector<const CXXRecordDecl *> dependentClasses;
  std::set<const FunctionDecl *> done;

  explicit Visitor(Dumper & d)
      : D(d)
  {}

  bool
  shouldVisitTemplateInstantiations() const
  {
    return true;
  }
  bool
  shouldVisitImplicitCode() const
  {
    return false;
  }

  bool
  wanted(SourceLocation l)
  {
    auto f = D.fileOf(l);
    return WantedFiles.count(f) != 0;
  }

  bool
  TraverseDecl(Decl * d)
  {
    // prune namespaces/records outside the repository quickly
    if (!d)
      return true;
    if (isa<TranslationUnitDecl>(d) || isa<NamespaceDecl>(d) || isa<LinkageSpecDecl>(d))
    {
      if (auto nd = dyn_cast<NamespaceDecl>(d))
        if (nd->isStdNamespace()
            || (nd->getParent()->isTranslationUnit()
                && (nd->getName() == "llvm" || nd->getName() == "testing"
                    || nd->getName() == "__gnu_cxx")))
          return true;
      return RecursiveASTVisitor::TraverseDecl(d);
    }
    if (!wanted(d->getLocation()))
    {
      // elsewhere in the repository: what this unit instantiates
      if (!inRepo(d->getLocation()))
        return true;
      if (auto f = dyn_cast<FunctionDecl>(d))
        return instantiation(f);
      if (isa<ClassTemplateDecl>(d) || isa<FunctionTemplateDecl>(d) || isa<CXXRecordDecl>(d))
        return RecursiveASTVisitor::TraverseDecl(d);
      return true;
    }
    return RecursiveASTVisitor::TraverseDecl(d);
  }

  bool
  inRepo(SourceLocation l)
  {
    auto f = D.fileOf(l);
    return f.rfind(Root + "/", 0) == 0;
  }

  bool
  instantiation(FunctionDecl * f)
  {
    if (f->isDependentContext() || !f->getTemplateInstantiationPattern() || !f->getBody())
      return true;
    if (auto m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda())
        return true;
    if (f->isThisDeclarationADefinition() && done.insert(f).second)
      D.function(f);
    return true;
  }

  bool
  VisitFunctionDecl(FunctionDecl * f)
  {
    if (!wanted(f->getLocation()))
      return true;
    if (auto m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda())
        return true;
    if (!f->isThisDeclarationADefinition() && !f->isDefaulted())
      return true;
    if (f->isImplicit())
      return true;
    if (!done.insert(f).second)
      return true;
    if (f->isDependentContext())
    {
      dependentFns.push_back(f);
      return true;
    }
    if (auto pat = f->getTemplateInstantiationPattern())
    {
      if (f->getBody())
        instPatterns.insert(pat);
    }
    D.function(f);
    return true;
  }
  bool
  VisitCXXRecordDecl(CXXRecordDecl * r)
  {
    if (!r->isThisDeclarationADefinition() || r->isLambda())
      return true;
    if (wanted(r->getLocation())
        || (!r->isDependentContext()
            && (isa<ClassTemplateSpecializationDecl>(r) || r->getInstantiatedFromMemberClass())
            && inRepo(r->getLocation())))
      D.record(r);
    return true;
  }
  bool
  VisitEnumDecl(EnumDecl * e)
  {
    if (e->isThisDeclarationADefinition() && wanted(e->getLocation()) && !e->isDependentContext())
      D.enumDecl(e);
    return true;
  }
  bool
  VisitVarDecl(VarDecl * v)
  {
    if (isa<ParmVarDecl>(v))
      return true;
    if (!wanted(v->getLocation()))
      return true;
    if ((v->isFileVarDecl() || v->isStaticDataMember() || v->isStaticLocal())
        && v->isThisDeclarationADefinition() && !v->getDeclContext()->isDependentContext()
        && !(v->getInit() && v->getInit()->isValueDependent()))
      D.globalVar(v);
    return true;
  }
  bool
  TraverseLambdaExpr(LambdaExpr * l)
  {
    return true;
  }
};

class Consumer : public ASTConsumer
{
public:
  void
  HandleTranslationUnit(ASTContext & ctx) override
  {
    if (ctx.getDiagnostics().hasErrorOccurred())
      return;
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    for (auto f : v.dependentFns)
      d.function(f);
    while (!d.classQueue.empty())
    {
      auto r = d.classQueue.back();
      d.classQueue.pop_back();
      d.record(r);
    }
    d.foreignEnums();
    std::ofstream os(OutPath);
    os << "{\"functions\":[\n"
       << d.functions << "],\n\"classes\":[\n"
       << d.classes << "],\n\"enums\":[\n"
       << d.enums << "],\n\"globals\":[\n"
       << d.globals << "],\n\"fns\":[\n"
       << d.fnTable << "]}\n";
  }
};

class Action : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer>
  CreateASTConsumer(CompilerInstance &, llvm::StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

// usage: extract ROOT OUT MAIN.cpp WANTED1,WANTED2,... -- flags
int
main(int argc, const char ** argv)
{
  if (argc < 6)
    return 2;
  Root = argv[1];
  OutPath = argv[2];
  std::string main = argv[3];
  llvm::SmallVector<llvm::StringRef, 16> ws;
  llvm::StringRef(argv[4]).split(ws, ',', -1, false);
  for (auto w : ws)
    WantedFiles.insert(Root + "/" + w.str());
  std::vector<std::string> flags(argv + 6, argv + argc);
  tooling::FixedCompilationDatabase db(Root, flags);
  tooling::ClangTool tool(db, { main });
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
