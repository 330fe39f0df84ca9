// astdump: a clang plugin that prints, as compact JSON, the bodies of every
// function of a translation unit whose definition lies under a given root
// (the repository).  It is the front end of the VC generator in ../vcgen: it
// does not simplify anything except removing parentheses and value-preserving
// implicit nodes (lvalue-to-rvalue, temporaries' bookkeeping, elidable copies).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <set>
using namespace clang;
namespace json = llvm::json;
typedef json::Value V; typedef json::Object O; typedef json::Array A;

static std::string Root, OutFile;

struct D {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  D(ASTContext &c):C(c),SM(c.getSourceManager()),PP(c.getPrintingPolicy()){PP.SuppressTagKeyword=true;PP.FullyQualifiedName=true;PP.PrintCanonicalTypes=true;}
  std::string ty(QualType t){ if(t.isNull()) return "?"; return t.getCanonicalType().getAsString(PP);}  
  int64_t line(SourceLocation l){ return SM.getExpansionLineNumber(l);}  
  std::string file(SourceLocation l){ auto p=SM.getPresumedLoc(SM.getExpansionLoc(l)); return p.isValid()?p.getFilename():"";}
  std::string fkey(const FunctionDecl*f){
    std::string s=f->getQualifiedNameAsString()+"(";
    for(unsigned i=0;i<f->getNumParams();i++){ if(i)s+=","; s+=ty(f->getParamDecl(i)->getType()); }
    s+=")"; if(auto m=dyn_cast<CXXMethodDecl>(f)) if(m->isConst()) s+="const"; return s; }
  V did(const Decl*d){ return (int64_t)(d->getCanonicalDecl()->getID()); }
  V fn(const FunctionDecl*f){
    O o; o["key"]=fkey(f); o["name"]=f->getQualifiedNameAsString(); o["short"]=f->getNameAsString(); o["ret"]=ty(f->getReturnType());
    A ps; for(auto p:f->parameters()) ps.push_back(ty(p->getType())); o["ptypes"]=std::move(ps);
    if(auto m=dyn_cast<CXXMethodDecl>(f)){ o["cls"]=m->getParent()->getQualifiedNameAsString(); o["clsT"]=ty(C.getRecordType(m->getParent())); o["static"]=m->isStatic(); o["ctor"]=isa<CXXConstructorDecl>(f);
      o["virt"]=m->isVirtual(); if(auto c=dyn_cast<CXXConstructorDecl>(f)) {o["copy"]=c->isCopyOrMoveConstructor();} o["implicit"]=m->isImplicit()||m->isDefaulted(); }
    return o; }
  static const Expr* strip(const Expr*e){
    while(1){
      if(auto x=dyn_cast<ParenExpr>(e)) e=x->getSubExpr();
      else if(auto x=dyn_cast<ExprWithCleanups>(e)) e=x->getSubExpr();
      else if(auto x=dyn_cast<MaterializeTemporaryExpr>(e)) e=x->getSubExpr();
      else if(auto x=dyn_cast<CXXBindTemporaryExpr>(e)) e=x->getSubExpr();
      else if(auto x=dyn_cast<ConstantExpr>(e)) e=x->getSubExpr();
      else if(auto x=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e=x->getReplacement();
      else if(auto x=dyn_cast<CXXDefaultArgExpr>(e)) e=x->getExpr();
      else if(auto x=dyn_cast<CXXDefaultInitExpr>(e)) e=x->getExpr();
      else if(auto x=dyn_cast<CXXFunctionalCastExpr>(e)){ if(x->getCastKind()==CK_ConstructorConversion||x->getCastKind()==CK_NoOp) e=x->getSubExpr(); else return e; }
      else if(auto x=dyn_cast<CastExpr>(e)){
        switch(x->getCastKind()){ case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr: case CK_ArrayToPointerDecay: case CK_BaseToDerived: e=x->getSubExpr(); break; default: return e; }
      }
      else return e;
    } }
  A exprs(const Expr*const*b,unsigned n){A a;for(unsigned i=0;i<n;i++)a.push_back(ex(b[i]));return a;}
  V ex(const Expr*e0){
    const Expr*e=strip(e0); O o; o["l"]=line(e->getBeginLoc()); o["t"]=ty(e->getType());
    if(e->getType()->isIntegralOrEnumerationType()&&!e->isValueDependent()&&!isa<IntegerLiteral>(e)&&!isa<CallExpr>(e)){
      // constant fold things like macros/static const ints
      if(auto dr=dyn_cast<DeclRefExpr>(e)){ if(isa<EnumConstantDecl>(dr->getDecl())||(isa<VarDecl>(dr->getDecl())&&cast<VarDecl>(dr->getDecl())->getType().isConstQualified()&&cast<VarDecl>(dr->getDecl())->hasGlobalStorage()&&dr->getDecl()->getNameAsString().rfind("bdd",0)!=0)){
        Expr::EvalResult r; if(e->EvaluateAsInt(r,C)){ llvm::SmallString<32> s; r.Val.getInt().toString(s,10); o["k"]="int"; o["v"]=s.str().str(); return o; } } }
    }
    if((isa<BinaryOperator>(e)||isa<UnaryOperator>(e)||isa<CastExpr>(e))&&e->getType()->isIntegerType()&&!e->getType()->isBooleanType()&&!e->isValueDependent()){
      Expr::EvalResult r; if(!isa<CompoundAssignOperator>(e)&&e->isCXX11ConstantExpr(C)&&e->EvaluateAsInt(r,C)&&!r.HasSideEffects){ llvm::SmallString<32> s; r.Val.getInt().toString(s,10); o["k"]="int"; o["v"]=s.str().str(); return o; } }
    if(auto x=dyn_cast<IntegerLiteral>(e)){ o["k"]="int"; llvm::SmallString<32> s; x->getValue().toString(s,10,x->getType()->isSignedIntegerType()); o["v"]=s.str().str(); }
    else if(auto x=dyn_cast<CharacterLiteral>(e)){ o["k"]="int"; o["v"]=std::to_string(x->getValue()); }
    else if(auto x=dyn_cast<CXXBoolLiteralExpr>(e)){ o["k"]="bool"; o["v"]=x->getValue(); }
    else if(auto x=dyn_cast<FloatingLiteral>(e)){ o["k"]="float"; llvm::SmallString<32> s; x->getValue().toString(s); o["v"]=s.str().str(); }
    else if(auto x=dyn_cast<clang::StringLiteral>(e)){ o["k"]="str"; o["v"]=llvm::json::fixUTF8(x->getBytes()); }
    else if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)){ o["k"]="null"; }
    else if(isa<CXXThisExpr>(e)){ o["k"]="this"; }
    else if(auto x=dyn_cast<DeclRefExpr>(e)){ auto d=x->getDecl(); o["k"]="ref"; o["name"]=d->getNameAsString(); o["q"]=d->getQualifiedNameAsString(); o["id"]=did(d); o["dt"]=ty(d->getType());
      if(isa<ParmVarDecl>(d)) o["dk"]="param"; else if(auto v=dyn_cast<VarDecl>(d)){ o["dk"]= v->isStaticLocal()?"static": v->hasGlobalStorage()?"global":"local"; }
      else if(auto f=dyn_cast<FunctionDecl>(d)){ o["dk"]="func"; o["fn"]=fn(f);} else if(isa<BindingDecl>(d)) o["dk"]="binding"; else o["dk"]="other"; }
    else if(auto x=dyn_cast<MemberExpr>(e)){ o["k"]="member"; o["base"]=ex(x->getBase()); o["name"]=x->getMemberDecl()->getNameAsString(); o["arrow"]=x->isArrow(); o["bt"]=ty(x->getBase()->getType());
      if(auto f=dyn_cast<FunctionDecl>(x->getMemberDecl())) o["fn"]=fn(f); if(auto v=dyn_cast<VarDecl>(x->getMemberDecl())){o["sv"]=v->getQualifiedNameAsString();} }
    else if(auto x=dyn_cast<CXXMemberCallExpr>(e)){ o["k"]="mcall"; o["obj"]=ex(x->getImplicitObjectArgument()); if(auto me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) o["arrow"]=me->isArrow(); else o["arrow"]=false; 
      o["ot"]=ty(x->getImplicitObjectArgument()->getType());
      if(x->getMethodDecl()) o["fn"]=fn(x->getMethodDecl()); o["args"]=exprs(x->getArgs(),x->getNumArgs()); }
    else if(auto x=dyn_cast<CXXOperatorCallExpr>(e)){ auto f=x->getDirectCallee(); A args=exprs(x->getArgs(),x->getNumArgs());
      if(f) o["fn"]=fn(f); o["op"]=getOperatorSpelling(x->getOperator());
      if(f&&isa<CXXMethodDecl>(f)&&!cast<CXXMethodDecl>(f)->isStatic()){ o["k"]="mcall"; o["arrow"]=false; o["ot"]=ty(x->getArg(0)->getType()); o["obj"]=std::move(args[0]); A rest; for(size_t q=1;q<args.size();q++) rest.push_back(std::move(args[q])); o["args"]=std::move(rest);} 
      else { o["k"]="call"; o["args"]=std::move(args);} }
    else if(auto x=dyn_cast<CallExpr>(e)){ o["k"]="call"; if(auto f=x->getDirectCallee()) o["fn"]=fn(f); else o["callee"]=ex(x->getCallee()); o["args"]=exprs(x->getArgs(),x->getNumArgs()); }
    else if(auto x=dyn_cast<CXXConstructExpr>(e)){ 
      if(x->isElidable()&&x->getNumArgs()>=1) return ex(x->getArg(0));
      o["k"]="ctor"; o["fn"]=fn(x->getConstructor()); o["args"]=exprs(x->getArgs(),x->getNumArgs()); o["list"]=x->isStdInitListInitialization(); }
    else if(auto x=dyn_cast<CXXStdInitializerListExpr>(e)) return ex(x->getSubExpr());
    else if(auto x=dyn_cast<InitListExpr>(e)){ o["k"]="init"; o["args"]=exprs(x->getInits(),x->getNumInits()); }
    else if(isa<ImplicitValueInitExpr>(e)||isa<CXXScalarValueInitExpr>(e)){ o["k"]="zero"; }
    else if(auto x=dyn_cast<UnaryOperator>(e)){ o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"]=x->isPostfix(); o["e"]=ex(x->getSubExpr()); }
    else if(auto x=dyn_cast<CompoundAssignOperator>(e)){ o["k"]="cassign"; o["op"]=BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str(); o["ct"]=ty(x->getComputationResultType()); o["a"]=ex(x->getLHS()); o["b"]=ex(x->getRHS()); }
    else if(auto x=dyn_cast<BinaryOperator>(e)){ o["k"]=x->isAssignmentOp()?"assign":"bin"; o["op"]=x->getOpcodeStr().str(); o["a"]=ex(x->getLHS()); o["b"]=ex(x->getRHS()); }
    else if(auto x=dyn_cast<ConditionalOperator>(e)){ o["k"]="cond"; o["c"]=ex(x->getCond()); o["a"]=ex(x->getTrueExpr()); o["b"]=ex(x->getFalseExpr()); }
    else if(auto x=dyn_cast<CastExpr>(e)){ o["k"]="cast"; o["ck"]=x->getCastKindName(); o["e"]=ex(x->getSubExpr()); o["ft"]=ty(x->getSubExpr()->getType()); }
    else if(auto x=dyn_cast<ArraySubscriptExpr>(e)){ o["k"]="index"; o["a"]=ex(x->getBase()); o["i"]=ex(x->getIdx()); }
    else if(auto x=dyn_cast<CXXNewExpr>(e)){ o["k"]="new"; o["at"]=ty(x->getAllocatedType()); o["array"]=x->isArray(); if(x->isArray()&&x->getArraySize()) o["n"]=ex(*x->getArraySize()); if(x->getInitializer()) o["init"]=ex(x->getInitializer()); }
    else if(auto x=dyn_cast<CXXDeleteExpr>(e)){ o["k"]="delete"; o["e"]=ex(x->getArgument()); }
    else if(auto x=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ Expr::EvalResult r; if(e->EvaluateAsInt(r,C)){ llvm::SmallString<32> s; r.Val.getInt().toString(s,10); o["k"]="int"; o["v"]=s.str().str(); } else o["k"]="unsupported:sizeof"; }
    else if(auto x=dyn_cast<CXXThrowExpr>(e)){ o["k"]="throw"; if(x->getSubExpr()) o["e"]=ex(x->getSubExpr()); }
    else if(auto x=dyn_cast<PredefinedExpr>(e)){ o["k"]="str"; o["v"]=""; (void)x; }
    else if(auto x=dyn_cast<LambdaExpr>(e)){ o["k"]="lambda"; o["body"]=st(x->getBody()); A ps; for(auto p:x->getCallOperator()->parameters()){O q; q["name"]=p->getNameAsString(); q["id"]=did(p); q["t"]=ty(p->getType()); ps.push_back(std::move(q));} o["params"]=std::move(ps); o["ret"]=ty(x->getCallOperator()->getReturnType()); }
    else { o["k"]=std::string("unsupported:")+e->getStmtClassName(); }
    return o; }
  V var(const VarDecl*v){ O q; q["name"]=v->getNameAsString(); q["id"]=did(v); q["t"]=ty(v->getType()); q["static"]=v->isStaticLocal(); q["l"]=line(v->getBeginLoc()); if(v->getInit()) q["init"]=ex(v->getInit()); return q; }
  V st(const Stmt*s){ if(!s) return nullptr; O o; o["l"]=line(s->getBeginLoc());
    if(auto x=dyn_cast<CompoundStmt>(s)){ o["k"]="block"; A a; for(auto c:x->body()) a.push_back(st(c)); o["b"]=std::move(a); }
    else if(auto x=dyn_cast<DeclStmt>(s)){ o["k"]="decl"; A a; for(auto d:x->decls()) if(auto v=dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["vars"]=std::move(a); }
    else if(auto x=dyn_cast<IfStmt>(s)){ o["k"]="if"; if(x->getInit()) o["init"]=st(x->getInit()); if(x->getConditionVariable()) o["cv"]=var(x->getConditionVariable()); o["c"]=ex(x->getCond()); o["a"]=st(x->getThen()); o["b"]=st(x->getElse()); }
    else if(auto x=dyn_cast<WhileStmt>(s)){ o["k"]="while"; o["c"]=ex(x->getCond()); o["b"]=st(x->getBody()); }
    else if(auto x=dyn_cast<DoStmt>(s)){ o["k"]="do"; o["c"]=ex(x->getCond()); o["b"]=st(x->getBody()); }
    else if(auto x=dyn_cast<ForStmt>(s)){ o["k"]="for"; o["init"]=st(x->getInit()); if(x->getCond()) o["c"]=ex(x->getCond()); if(x->getInc()) o["inc"]=ex(x->getInc()); o["b"]=st(x->getBody()); }
    else if(auto x=dyn_cast<CXXForRangeStmt>(s)){ o["k"]="frange"; o["var"]=var(x->getLoopVariable()); o["range"]=ex(x->getRangeInit()); o["b"]=st(x->getBody()); }
    else if(auto x=dyn_cast<ReturnStmt>(s)){ o["k"]="return"; if(x->getRetValue()) o["e"]=ex(x->getRetValue()); }
    else if(isa<BreakStmt>(s)) o["k"]="break";
    else if(isa<ContinueStmt>(s)) o["k"]="continue";
    else if(isa<NullStmt>(s)) o["k"]="nop";
    else if(auto x=dyn_cast<SwitchStmt>(s)){ o["k"]="switch"; o["c"]=ex(x->getCond()); o["b"]=st(x->getBody()); }
    else if(auto x=dyn_cast<CaseStmt>(s)){ o["k"]="case"; Expr::EvalResult r; if(x->getLHS()->EvaluateAsInt(r,C)){llvm::SmallString<32> q; r.Val.getInt().toString(q,10); o["v"]=q.str().str();} o["b"]=st(x->getSubStmt()); }
    else if(auto x=dyn_cast<DefaultStmt>(s)){ o["k"]="default"; o["b"]=st(x->getSubStmt()); }
    else if(auto x=dyn_cast<GotoStmt>(s)){ o["k"]="goto"; o["label"]=x->getLabel()->getNameAsString(); }
    else if(auto x=dyn_cast<LabelStmt>(s)){ o["k"]="label"; o["label"]=x->getDecl()->getNameAsString(); o["b"]=st(x->getSubStmt()); }
    else if(auto x=dyn_cast<CXXTryStmt>(s)){ o["k"]="try"; o["b"]=st(x->getTryBlock()); }
    else if(auto x=dyn_cast<Expr>(s)){ o["k"]="expr"; o["e"]=ex(x); }
    else o["k"]=std::string("unsupported:")+s->getStmtClassName();
    return o; }
};

struct Vis: RecursiveASTVisitor<Vis>{
  D d; A fns, globals, recs; std::set<std::string> seen;
  Vis(ASTContext&c):d(c){}
  bool shouldVisitTemplateInstantiations() const {return true;}
  bool shouldVisitImplicitCode() const {return false;}
  bool inRoot(SourceLocation l){ std::string f=d.file(l); return f.rfind(Root,0)==0; }
  bool VisitFunctionDecl(FunctionDecl*f){
    if(!f->doesThisDeclarationHaveABody()||f->isDependentContext()||!inRoot(f->getLocation())) return true;
    if(f->isDefaulted()) return true;
    V b0=d.fn(f); O o=*b0.getAsObject(); o["file"]=d.file(f->getLocation()); o["line"]=d.line(f->getLocation()); o["endline"]=d.line(f->getEndLoc());
    std::string k=d.fkey(f); if(!seen.insert(k).second) return true;
    A ps; for(auto p:f->parameters()){O q; q["name"]=p->getNameAsString(); q["id"]=d.did(p); q["t"]=d.ty(p->getType()); ps.push_back(std::move(q));} o["params"]=std::move(ps);
    if(auto c=dyn_cast<CXXConstructorDecl>(f)){ A is; for(auto i:c->inits()){ O q; if(i->isAnyMemberInitializer()){q["field"]=i->getAnyMember()->getNameAsString(); q["ft"]=d.ty(i->getAnyMember()->getType());} else if(i->isBaseInitializer()) q["base"]=d.ty(QualType(i->getBaseClass(),0)); else q["deleg"]=true; q["e"]=d.ex(i->getInit()); q["written"]=i->isWritten(); is.push_back(std::move(q)); } o["inits"]=std::move(is); }
    o["body"]=d.st(f->getBody()); fns.push_back(std::move(o)); return true; }
  bool VisitVarDecl(VarDecl*v){
    if(v->isLocalVarDecl()||isa<ParmVarDecl>(v)||!v->hasGlobalStorage()||v->isInvalidDecl()||v->getDeclContext()->isDependentContext()||!inRoot(v->getLocation())) return true;
    V q0=d.var(v); O q=*q0.getAsObject(); q["q"]=v->getQualifiedNameAsString(); globals.push_back(std::move(q)); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl*r){
    if(!r->isThisDeclarationADefinition()||r->isDependentContext()||!inRoot(r->getLocation())) return true;
    O o; o["name"]=r->getQualifiedNameAsString(); o["t"]=d.ty(d.C.getRecordType(r)); A fs; for(auto f:r->fields()){O q; q["name"]=f->getNameAsString(); q["t"]=d.ty(f->getType()); if(f->hasInClassInitializer()&&f->getInClassInitializer()) q["init"]=d.ex(f->getInClassInitializer()); fs.push_back(std::move(q));} o["fields"]=std::move(fs);
    A bs; for(auto&b:r->bases()) bs.push_back(d.ty(b.getType())); o["bases"]=std::move(bs); recs.push_back(std::move(o)); return true; }
};
struct Cons: ASTConsumer{
  void HandleTranslationUnit(ASTContext&c) override { Vis v(c); v.TraverseDecl(c.getTranslationUnitDecl()); std::error_code ec; llvm::raw_fd_ostream os(OutFile,ec); O o; o["functions"]=std::move(v.fns); o["globals"]=std::move(v.globals); o["records"]=std::move(v.recs); os<<V(std::move(o)); }
};
struct Act: PluginASTAction{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,llvm::StringRef) override { return std::make_unique<Cons>(); }
  bool ParseArgs(const CompilerInstance&,const std::vector<std::string>&a) override { for(auto&s:a){ if(s.rfind("root=",0)==0) Root=s.substr(5); if(s.rfind("out=",0)==0) OutFile=s.substr(4);} return true; }
  ActionType getActionType() override { return ReplaceAction; }
};
static FrontendPluginRegistry::Add<Act> X("vcdump","dump function bodies");
