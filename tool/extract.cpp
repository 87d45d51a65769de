// ppk-extract: dumps a type-resolved, template-instantiated JSON IR of every function defined
// under a given source root (default /repo/src), using clang's real front end.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/Regex.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>

using namespace clang;
static std::vector<std::string> gRoots;
static std::string gOut, gTuTag;
static std::string gSkip;   // regex on function display name: not dumped
static llvm::raw_ostream * OS;

static void jstr(llvm::raw_ostream & o, llvm::StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    switch (c) {
      case '"': o << "\\\""; break;
      case '\\': o << "\\\\"; break;
      case '\n': o << "\\n"; break;
      case '\t': o << "\\t"; break;
      case '\r': o << "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
        else o << (char)c;
    }
  }
  o << '"';
}
static std::string q(llvm::StringRef s) { std::string r; llvm::raw_string_ostream o(r); jstr(o, s); return r; }

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext & C; SourceManager & SM; PrintingPolicy PP; std::unique_ptr<MangleContext> MC;
  std::map<std::string,int> types; std::vector<std::string> typeRec;
  std::map<const void*, int> varIds; int nextVar = 1;
  std::map<std::string, std::string> funcs;    // fid -> json
  std::map<std::string, std::string> records;  // name -> json
  std::map<std::string, std::string> globals;  // gid -> json
  std::map<std::string, std::string> enums;
  std::set<std::string> recBusy;
  std::unordered_map<const void*, std::string> fidCache;
  std::unordered_map<const void*, int> tidCache;
  std::unique_ptr<llvm::Regex> skipRe;
  std::map<const CXXRecordDecl*, int> lambdaIds;
  Dumper(ASTContext & c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
    MC.reset(C.createMangleContext());
    if (!gSkip.empty()) skipRe.reset(new llvm::Regex(gSkip));
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) { return SM.getFilename(SM.getExpansionLoc(L)).str(); }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    for (auto & r : gRoots) if (llvm::StringRef(f).starts_with(r)) return true;
    return false;
  }
  int varId(const ValueDecl * D) {
    const void * k = D->getCanonicalDecl();
    auto it = varIds.find(k); if (it != varIds.end()) return it->second;
    return varIds[k] = nextVar++;
  }
  std::string fid(const FunctionDecl * F) {
    F = F->getCanonicalDecl();
    auto it = fidCache.find(F); if (it != fidCache.end()) return it->second;
    std::string s; llvm::raw_string_ostream o(s);
    if (auto * ct = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(ct, Ctor_Complete), o);
    else if (auto * dt = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(dt, Dtor_Complete), o);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), o);
    else o << F->getNameAsString();
    o.flush();
    if (!F->isExternallyVisible()) s = s + "@" + gTuTag;
    if (auto * M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
      s = "lambda:" + gTuTag + ":" + std::to_string(varId(F));
    }
    return fidCache[F] = s;
  }
  std::string gid(const VarDecl * V) {
    std::string s; llvm::raw_string_ostream o(s);
    V->printQualifiedName(o); o.flush();
    if (!V->isExternallyVisible()) s += "@" + gTuTag;
    return s;
  }
  int tid(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    auto itc = tidCache.find(CT.getAsOpaquePtr()); if (itc != tidCache.end()) return itc->second;
    std::string name = CT.getAsString(PP);
    if (auto * RDl = CT.getUnqualifiedType()->getAsCXXRecordDecl()) if (RDl->isLambda()) name += "#" + std::to_string(lambdaId(RDl));
    auto it = types.find(name);
    if (it != types.end()) { tidCache[CT.getAsOpaquePtr()] = it->second; return it->second; }
    int id = (int)typeRec.size(); types[name] = id; typeRec.push_back("null");
    tidCache[CT.getAsOpaquePtr()] = id;
    std::string r; llvm::raw_string_ostream o(r);
    o << "{\"s\":" << q(name) << ",\"c\":" << (CT.isConstQualified() ? 1 : 0);
    QualType U = CT.getUnqualifiedType();
    if (U->isBooleanType()) o << ",\"k\":\"bool\"";
    else if (U->isEnumeralType()) { o << ",\"k\":\"enum\",\"e\":" << q(U.getAsString(PP)); dumpEnum(U->castAs<EnumType>()->getDecl()); }
    else if (U->isIntegerType()) o << ",\"k\":\"int\",\"w\":" << C.getTypeSize(U) << ",\"u\":" << (U->isUnsignedIntegerType() ? 1 : 0);
    else if (U->isFloatingType()) o << ",\"k\":\"float\",\"w\":" << C.getTypeSize(U);
    else if (U->isVoidType()) o << ",\"k\":\"void\"";
    else if (U->isReferenceType()) o << ",\"k\":\"ref\",\"el\":" << tid(U->getPointeeType());
    else if (U->isPointerType()) o << ",\"k\":\"ptr\",\"el\":" << tid(U->getPointeeType());
    else if (auto * A = C.getAsConstantArrayType(U)) o << ",\"k\":\"arr\",\"el\":" << tid(A->getElementType()) << ",\"n\":" << A->getSize().getZExtValue();
    else if (auto * RD = U->getAsCXXRecordDecl()) { std::string rn = recName(RD); o << ",\"k\":\"rec\",\"r\":" << q(rn); dumpRecord(RD, rn); }
    else o << ",\"k\":\"other\"";
    o << "}"; o.flush();
    typeRec[id] = r; return id;
  }
  int lambdaId(const CXXRecordDecl * R) { R = R->getCanonicalDecl(); auto it = lambdaIds.find(R); if (it != lambdaIds.end()) return it->second; int n = lambdaIds.size(); return lambdaIds[R] = n; }
  std::string recName(const CXXRecordDecl * RD) {
    QualType T = C.getTypeDeclType(RD).getCanonicalType();
    std::string s = T.getAsString(PP);
    if (RD->isLambda()) s += "#" + std::to_string(lambdaId(RD));
    return s;
  }
  void dumpEnum(const EnumDecl * E) {
    std::string n = C.getTypeDeclType(E).getCanonicalType().getAsString(PP);
    if (enums.count(n)) return;
    std::string r; llvm::raw_string_ostream o(r); o << "{"; bool f = true;
    for (auto * c : E->enumerators()) { if (!f) o << ","; f = false; o << q(c->getName()) << ":" << llvm::toString(c->getInitVal(), 10); }
    o << "}"; o.flush(); enums[n] = r;
  }
  void dumpRecord(const CXXRecordDecl * RD, const std::string & rn) {
    if (records.count(rn) || recBusy.count(rn)) return;
    RD = RD->getDefinition(); 
    if (!RD || RD->isDependentType()) return;
    recBusy.insert(rn);
    bool repo = inRoot(RD->getLocation());
    std::string r; llvm::raw_string_ostream o(r);
    o << "{\"name\":" << q(rn) << ",\"short\":" << q(RD->getNameAsString()) << ",\"qual\":" << q(RD->getQualifiedNameAsString()) << ",\"repo\":" << (repo ? 1 : 0)
      << ",\"file\":" << q(fileOf(RD->getLocation())) << ",\"line\":" << lineOf(RD->getLocation()) << ",\"lambda\":" << (RD->isLambda() ? 1 : 0) << ",\"union\":" << (RD->isUnion()?1:0);
    if (auto * S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
      o << ",\"targs\":["; bool f = true;
      for (auto & a : S->getTemplateArgs().asArray()) { if (!f) o << ","; f = false; std::string t; llvm::raw_string_ostream to(t); a.print(PP, to, false); to.flush(); o << q(t); }
      o << "]";
    }
    if (repo || RD->isLambda()) {
      o << ",\"bases\":["; bool f = true;
      for (auto & b : RD->bases()) if (auto * bd = b.getType()->getAsCXXRecordDecl()) { if (!f) o << ","; f = false; std::string bn = recName(bd); o << q(bn); dumpRecord(bd, bn); }
      o << "],\"fields\":["; f = true;
      for (auto * fd : RD->fields()) { if (!f) o << ","; f = false;
        o << "[" << q(fd->getName()) << "," << varId(fd) << "," << tid(fd->getType()) << ",";
        if (fd->hasInClassInitializer() && fd->getInClassInitializer()) expr(o, fd->getInClassInitializer()); else o << "null";
        o << "," << lineOf(fd->getLocation()) << "]"; }
      o << "],\"methods\":["; f = true;
      for (auto * m : RD->methods()) { if (!f) o << ","; f = false;
        o << "[" << q(m->getNameAsString()) << "," << q(fid(m)) << "," << (m->isVirtual() ? 1 : 0) << ",[";
        bool g = true; for (auto * ov : m->overridden_methods()) { if (!g) o << ","; g = false; o << q(fid(ov)); }
        o << "]]"; }
      o << "]";
      if (RD->isLambda()) if (auto * cm = RD->getLambdaCallOperator()) o << ",\"callop\":" << q(fid(cm));
    } else {
      o << ",\"bases\":["; bool f = true;
      for (auto & b : RD->bases()) if (auto * bd = b.getType()->getAsCXXRecordDecl()) { if (!f) o << ","; f = false; o << q(recName(bd)); }
      o << "],\"fields\":[],\"methods\":[]";
    }
    o << "}"; o.flush();
    recBusy.erase(rn); records[rn] = r;
  }
  // ---------------- functions
  bool VisitFunctionDecl(FunctionDecl * F) { handle(F); return true; }
  bool VisitLambdaExpr(LambdaExpr * L) { lambdaOps(L); return true; }
  void lambdaOps(const LambdaExpr * L) {
    if (auto * m = L->getCallOperator()) { handle(m);
      if (auto * T = m->getDescribedFunctionTemplate()) for (auto * sp : T->specializations()) if (auto * def = dyn_cast_or_null<FunctionDecl>(sp->getDefinition())) handle(const_cast<FunctionDecl *>(def)); }
  }
  bool VisitVarDecl(VarDecl * V) {
    if (V->isFileVarDecl() && !V->getType()->isDependentType() && !V->getDeclContext()->isDependentContext() && inRoot(V->getLocation())) {
      if (isa<VarTemplatePartialSpecializationDecl>(V)) return true;
      std::string g = gid(V);
      const VarDecl * D = nullptr; const Expr * I = V->getAnyInitializer(D);
      if (globals.count(g) && !I) return true;
      std::string r; llvm::raw_string_ostream o(r);
      o << "{\"t\":" << tid(V->getType()) << ",\"line\":" << lineOf(V->getLocation()) << ",\"file\":" << q(fileOf(V->getLocation())) << ",\"init\":";
      if (I && !I->isValueDependent()) expr(o, I); else o << "null";
      o << "}"; o.flush(); globals[g] = r;
    }
    return true;
  }
  bool VisitEnumDecl(EnumDecl * E) { if (inRoot(E->getLocation()) && !E->isDependentType()) dumpEnum(E); return true; }
  void handle(FunctionDecl * F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return;
    if (F->isTemplated() ) return;
    if (!inRoot(F->getLocation())) return;
    if (F->isDefaulted() && !F->getBody()) {
      if (!isa<CXXConstructorDecl>(F)) return;
    }
    std::string id = fid(F);
    if (funcs.count(id)) return;
    std::string disp; { llvm::raw_string_ostream o(disp); F->getNameForDiagnostic(o, PP, true); }
    if (skipRe && skipRe->match(disp)) return;
    funcs[id] = "null";
    std::string r; llvm::raw_string_ostream o(r);
    o << "{\"name\":" << q(F->getNameAsString()) << ",\"disp\":" << q(disp) << ",\"file\":" << q(fileOf(F->getLocation())) << ",\"line\":" << lineOf(F->getLocation())
      << ",\"end\":" << lineOf(F->getEndLoc()) << ",\"ret\":" << tid(F->getReturnType());
    auto * M = dyn_cast<CXXMethodDecl>(F);
    o << ",\"cls\":" << (M ? q(recName(M->getParent())) : std::string("null")) << ",\"static\":" << ((M && M->isStatic()) ? 1 : 0)
      << ",\"virt\":" << ((M && M->isVirtual()) ? 1 : 0) << ",\"kind\":\"" << (isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : M ? "method" : "func") << "\"";
    o << ",\"inl\":" << (F->hasAttr<AlwaysInlineAttr>() ? 1 : 0) << ",\"annot\":[";
    { bool f = true; for (auto * A : F->attrs()) if (auto * an = dyn_cast<AnnotateAttr>(A)) { if (!f) o << ","; f = false; o << q(an->getAnnotation()); } }
    o << "],\"copy\":" << ((isa<CXXConstructorDecl>(F) && cast<CXXConstructorDecl>(F)->isCopyOrMoveConstructor()) ? 1 : 0);
    o << ",\"impl\":" << (F->isImplicit() || F->isDefaulted() ? 1 : 0);
    o << ",\"params\":["; bool f = true;
    for (auto * p : F->parameters()) { if (!f) o << ","; f = false; o << "[" << q(p->getName()) << "," << varId(p) << "," << tid(p->getType()) << "]"; }
    o << "]";
    if (auto * CD = dyn_cast<CXXConstructorDecl>(F)) {
      o << ",\"inits\":["; f = true;
      for (auto * I : CD->inits()) { if (!f) o << ","; f = false;
        if (I->isAnyMemberInitializer()) o << "[\"f\"," << q(I->getAnyMember()->getName()) << "," << lineOf(I->getSourceLocation()) << ",";
        else if (I->isBaseInitializer()) o << "[\"b\"," << q(I->getBaseClass()->getAsCXXRecordDecl() ? recName(I->getBaseClass()->getAsCXXRecordDecl()) : "?") << "," << lineOf(I->getSourceLocation()) << ",";
        else o << "[\"d\",\"\"," << lineOf(I->getSourceLocation()) << ",";
        expr(o, I->getInit()); o << "]"; }
      o << "]";
    }
    if (auto * S = F->getTemplateSpecializationArgs()) {
      o << ",\"targs\":["; bool g = true;
      for (auto & a : S->asArray()) { if (!g) o << ","; g = false; std::string t; llvm::raw_string_ostream to(t); a.print(PP, to, false); to.flush(); o << q(t); }
      o << "]";
    }
    o << ",\"body\":"; 
    if (F->getBody()) stmt(o, F->getBody()); else o << "[\"blk\",0,[]]";
    o << "}"; o.flush();
    funcs[id] = r;
  }
  // ---------------- statements
  void stmt(llvm::raw_ostream & o, const Stmt * S) {
    if (!S) { o << "null"; return; }
    unsigned L = lineOf(S->getBeginLoc());
    if (auto * E = dyn_cast<Expr>(S)) { o << "[\"expr\"," << L << ","; expr(o, E); o << "]"; return; }
    switch (S->getStmtClass()) {
      case Stmt::CompoundStmtClass: { o << "[\"blk\"," << L << ",["; bool f = true; for (auto * c : cast<CompoundStmt>(S)->body()) { if (!f) o << ","; f = false; stmt(o, c); } o << "]]"; return; }
      case Stmt::DeclStmtClass: {
        o << "[\"decl\"," << L << ",["; bool f = true;
        for (auto * d : cast<DeclStmt>(S)->decls()) if (auto * v = dyn_cast<VarDecl>(d)) {
          if (!f) o << ","; f = false;
          o << "[" << varId(v) << "," << q(v->getName()) << "," << tid(v->getType()) << ","; expr(o, v->getInit()); o << "," << (v->isStaticLocal() ? 1 : 0) << "," << lineOf(v->getLocation());
          if (auto * dd = dyn_cast<DecompositionDecl>(v)) { o << ",["; bool g = true; for (auto * b : dd->bindings()) { if (!g) o << ","; g = false; o << "[" << varId(b) << ","; expr(o, b->getBinding()); o << "]"; } o << "]"; }
          o << "]";
        }
        o << "]]"; return; }
      case Stmt::IfStmtClass: { auto * I = cast<IfStmt>(S); o << "[\"if\"," << L << ","; stmt(o, I->getInit()); o << ",";
        if (I->getConditionVariable()) { o << "[\"cvar\"," << L << ","; stmt(o, I->getConditionVariableDeclStmt()); o << ","; expr(o, I->getCond()); o << "]"; } else expr(o, I->getCond());
        o << ","; stmt(o, I->getThen()); o << ","; stmt(o, I->getElse()); o << "," << (I->isConstexpr() ? 1 : 0) << "]"; return; }
      case Stmt::ForStmtClass: { auto * I = cast<ForStmt>(S); o << "[\"for\"," << L << ","; stmt(o, I->getInit()); o << ","; expr(o, I->getCond()); o << ","; expr(o, I->getInc()); o << ","; stmt(o, I->getBody()); o << "]"; return; }
      case Stmt::WhileStmtClass: { auto * I = cast<WhileStmt>(S); o << "[\"for\"," << L << ",null,"; expr(o, I->getCond()); o << ",null,"; stmt(o, I->getBody()); o << "]"; return; }
      case Stmt::DoStmtClass: { auto * I = cast<DoStmt>(S); o << "[\"do\"," << L << ","; stmt(o, I->getBody()); o << ","; expr(o, I->getCond()); o << "]"; return; }
      case Stmt::CXXForRangeStmtClass: { auto * I = cast<CXXForRangeStmt>(S); auto * v = I->getLoopVariable();
        o << "[\"rfor\"," << L << ",[" << varId(v) << "," << q(v->getName()) << "," << tid(v->getType()) << "],"; expr(o, I->getRangeInit()); o << ","; stmt(o, I->getBody());
        if (auto * dd = dyn_cast<DecompositionDecl>(v)) { o << ",["; bool g = true; for (auto * b : dd->bindings()) { if (!g) o << ","; g = false; o << "[" << varId(b) << ","; expr(o, b->getBinding()); o << "]"; } o << "]"; }
        o << "]"; return; }
      case Stmt::SwitchStmtClass: { auto * I = cast<SwitchStmt>(S); o << "[\"sw\"," << L << ","; expr(o, I->getCond()); o << ","; stmt(o, I->getBody()); o << "]"; return; }
      case Stmt::CaseStmtClass: { auto * I = cast<CaseStmt>(S); o << "[\"case\"," << L << ","; expr(o, I->getLHS()); o << ","; stmt(o, I->getSubStmt()); o << "]"; return; }
      case Stmt::DefaultStmtClass: { o << "[\"dflt\"," << L << ","; stmt(o, cast<DefaultStmt>(S)->getSubStmt()); o << "]"; return; }
      case Stmt::ReturnStmtClass: { o << "[\"ret\"," << L << ","; expr(o, cast<ReturnStmt>(S)->getRetValue()); o << "]"; return; }
      case Stmt::BreakStmtClass: o << "[\"brk\"," << L << "]"; return;
      case Stmt::ContinueStmtClass: o << "[\"cont\"," << L << "]"; return;
      case Stmt::NullStmtClass: o << "[\"nop\"," << L << "]"; return;
      case Stmt::AttributedStmtClass: stmt(o, cast<AttributedStmt>(S)->getSubStmt()); return;
      case Stmt::LabelStmtClass: o << "[\"label\"," << L << "," << q(cast<LabelStmt>(S)->getName()) << ","; stmt(o, cast<LabelStmt>(S)->getSubStmt()); o << "]"; return;
      case Stmt::GotoStmtClass: o << "[\"goto\"," << L << "," << q(cast<GotoStmt>(S)->getLabel()->getName()) << "]"; return;
      case Stmt::CXXTryStmtClass: { auto * T = cast<CXXTryStmt>(S); o << "[\"try\"," << L << ","; stmt(o, T->getTryBlock()); o << ",["; for (unsigned i = 0; i < T->getNumHandlers(); i++) { if (i) o << ","; stmt(o, T->getHandler(i)->getHandlerBlock()); } o << "]]"; return; }
      default: break;
    }
    o << "[\"opqs\"," << L << "," << q(S->getStmtClassName()) << ",["; bool f = true;
    for (auto * c : S->children()) { if (!c) continue; if (!f) o << ","; f = false; stmt(o, c); }
    o << "]]";
  }
  void args(llvm::raw_ostream & o, llvm::ArrayRef<const Expr *> A) { o << "["; bool f = true; for (auto * a : A) { if (!f) o << ","; f = false; expr(o, a); } o << "]"; }
  template <class IT> void argsR(llvm::raw_ostream & o, IT b, IT e) { o << "["; bool f = true; for (auto i = b; i != e; ++i) { if (!f) o << ","; f = false; expr(o, *i); } o << "]"; }
  void fref(llvm::raw_ostream & o, const FunctionDecl * F) {
    if (!F) { o << "null,\"?\""; return; }
    o << q(fid(F)) << "," << q(F->getQualifiedNameAsString());
  }
  void expr(llvm::raw_ostream & o, const Expr * E) {
    if (!E) { o << "null"; return; }
    unsigned L = lineOf(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
    switch (E->getStmtClass()) {
      case Stmt::ParenExprClass: expr(o, cast<ParenExpr>(E)->getSubExpr()); return;
      case Stmt::ExprWithCleanupsClass: case Stmt::ConstantExprClass: expr(o, cast<FullExpr>(E)->getSubExpr()); return;
      case Stmt::MaterializeTemporaryExprClass: o << "[\"temp\"," << L << "," << tid(E->getType()) << ","; expr(o, cast<MaterializeTemporaryExpr>(E)->getSubExpr()); o << "]"; return;
      case Stmt::CXXBindTemporaryExprClass: expr(o, cast<CXXBindTemporaryExpr>(E)->getSubExpr()); return;
      case Stmt::SubstNonTypeTemplateParmExprClass: expr(o, cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement()); return;
      case Stmt::CXXDefaultArgExprClass: expr(o, cast<CXXDefaultArgExpr>(E)->getExpr()); return;
      case Stmt::CXXDefaultInitExprClass: o << "[\"definit\"," << L << ","; expr(o, cast<CXXDefaultInitExpr>(E)->getExpr()); o << "]"; return;
      case Stmt::IntegerLiteralClass: o << "[\"int\"," << L << "," << llvm::toString(cast<IntegerLiteral>(E)->getValue(), 10, E->getType()->isSignedIntegerType()) << "]"; return;
      case Stmt::CharacterLiteralClass: o << "[\"int\"," << L << "," << cast<CharacterLiteral>(E)->getValue() << ",\"c\"]"; return;
      case Stmt::CXXBoolLiteralExprClass: o << "[\"bool\"," << L << "," << (cast<CXXBoolLiteralExpr>(E)->getValue() ? 1 : 0) << "]"; return;
      case Stmt::FloatingLiteralClass: { llvm::SmallString<64> s; cast<FloatingLiteral>(E)->getValue().toString(s, 17); 
          // shortest exact text from source when possible
          std::string txt = Lexer_text(E); o << "[\"float\"," << L << "," << q(s) << "," << q(txt) << "]"; return; }
      case Stmt::StringLiteralClass: { auto * sl = cast<StringLiteral>(E); o << "[\"str\"," << L << "," << (sl->getCharByteWidth() == 1 ? q(sl->getString()) : std::string("\"?\"")) << "]"; return; }
      case Stmt::PredefinedExprClass: o << "[\"str\"," << L << ",\"__func__\"]"; return;
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o << "[\"null\"," << L << "]"; return;
      case Stmt::CXXThisExprClass: o << "[\"this\"," << L << "]"; return;
      case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o << "[\"vinit\"," << L << "," << tid(E->getType()) << "]"; return;
      case Stmt::DeclRefExprClass: {
        auto * D = cast<DeclRefExpr>(E)->getDecl();
        if (auto * EC = dyn_cast<EnumConstantDecl>(D)) { o << "[\"enum\"," << L << "," << llvm::toString(EC->getInitVal(), 10) << "," << q(EC->getName()) << "]"; return; }
        if (auto * F = dyn_cast<FunctionDecl>(D)) { o << "[\"fref\"," << L << ","; fref(o, F); o << "]"; return; }
        if (auto * V = dyn_cast<VarDecl>(D)) {
          if (V->isFileVarDecl() || V->isStaticDataMember()) {
            if (!V->getType()->isDependentType()) VisitVarDecl(const_cast<VarDecl*>(V->getDefinition() ? V->getDefinition() : V));
            o << "[\"gref\"," << L << "," << q(gid(V)) << "," << tid(V->getType()) << ",";
            Expr::EvalResult R; if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) o << llvm::toString(R.Val.getInt(), 10); else o << "null";
            o << "]"; return; }
          o << "[\"ref\"," << L << "," << varId(V) << "," << q(V->getName()) << "," << tid(V->getType()) << "]"; return; }
        o << "[\"ref\"," << L << "," << varId(D) << "," << q(D->getNameAsString()) << "," << tid(D->getType()) << "]"; return; }
      case Stmt::MemberExprClass: { auto * M = cast<MemberExpr>(E);
        if (auto * F = dyn_cast<FieldDecl>(M->getMemberDecl())) { o << "[\"mem\"," << L << ","; expr(o, M->getBase()); o << "," << (M->isArrow() ? 1 : 0) << "," << q(F->getName()) << "," << tid(F->getType()) << "]"; return; }
        if (auto * V = dyn_cast<VarDecl>(M->getMemberDecl())) { o << "[\"gref\"," << L << "," << q(gid(V)) << "," << tid(V->getType()) << ",";
            Expr::EvalResult R; if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) o << llvm::toString(R.Val.getInt(), 10); else o << "null"; o << "]"; return; }
        if (auto * EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) { o << "[\"enum\"," << L << "," << llvm::toString(EC->getInitVal(), 10) << "," << q(EC->getName()) << "]"; return; }
        o << "[\"mfref\"," << L << ","; expr(o, M->getBase()); o << "," << (M->isArrow() ? 1 : 0) << "," << q(M->getMemberDecl()->getNameAsString()) << "]"; return; }
      case Stmt::UnaryOperatorClass: { auto * U = cast<UnaryOperator>(E);
        std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); if (U->isPostfix()) op = "p" + op;
        o << "[\"un\"," << L << "," << q(op) << "," << tid(E->getType()) << ","; expr(o, U->getSubExpr()); o << "]"; return; }
      case Stmt::BinaryOperatorClass: { auto * B = cast<BinaryOperator>(E);
        o << (B->isAssignmentOp() ? "[\"asg\"," : "[\"bin\",") << L << "," << q(B->getOpcodeStr()) << "," << tid(E->getType()) << ","; expr(o, B->getLHS()); o << ","; expr(o, B->getRHS()); o << "]"; return; }
      case Stmt::CompoundAssignOperatorClass: { auto * B = cast<CompoundAssignOperator>(E);
        o << "[\"asg\"," << L << "," << q(B->getOpcodeStr()) << "," << tid(B->getComputationResultType()) << ","; expr(o, B->getLHS()); o << ","; expr(o, B->getRHS()); o << "," << tid(B->getLHS()->getType()) << "]"; return; }
      case Stmt::ConditionalOperatorClass: { auto * K = cast<ConditionalOperator>(E); o << "[\"cond\"," << L << "," << tid(E->getType()) << "," << (E->isGLValue() ? 1 : 0) << ","; expr(o, K->getCond()); o << ","; expr(o, K->getTrueExpr()); o << ","; expr(o, K->getFalseExpr()); o << "]"; return; }
      case Stmt::ArraySubscriptExprClass: { auto * A = cast<ArraySubscriptExpr>(E); o << "[\"sub\"," << L << "," << tid(E->getType()) << ","; expr(o, A->getBase()); o << ","; expr(o, A->getIdx()); o << "]"; return; }
      case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
        auto * K = cast<CastExpr>(E);
        if (K->getCastKind() == CK_NoOp || K->getCastKind() == CK_ConstructorConversion) { if (K->getCastKind()==CK_NoOp || isa<CXXConstructExpr>(K->getSubExpr()->IgnoreParenImpCasts()) || true) { expr(o, K->getSubExpr()); return; } }
        o << "[\"cast\"," << L << "," << q(K->getCastKindName()) << "," << tid(E->getType()) << ","; expr(o, K->getSubExpr()); o << "," << tid(K->getSubExpr()->getType()) << "]"; return; }
      case Stmt::CXXMemberCallExprClass: { auto * M = cast<CXXMemberCallExpr>(E);
        auto * MD = M->getMethodDecl();
        bool qual = false, arrow = false; const Expr * obj = M->getImplicitObjectArgument();
        if (auto * ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) { qual = ME->hasQualifier(); arrow = ME->isArrow(); }
        o << "[\"mcall\"," << L << ","; fref(o, MD); o << ","; expr(o, obj); o << "," << (arrow ? 1 : 0) << ","; argsR(o, M->arg_begin(), M->arg_end());
        o << "," << ((MD && MD->isVirtual() && !qual) ? 1 : 0) << "," << tid(E->getType()) << "]"; return; }
      case Stmt::CXXOperatorCallExprClass: { auto * M = cast<CXXOperatorCallExpr>(E);
        auto * F = M->getDirectCallee(); auto * MD = F ? dyn_cast<CXXMethodDecl>(F) : nullptr;
        o << "[\"ocall\"," << L << ","; fref(o, F); o << "," << q(getOperatorSpelling(M->getOperator())) << "," << ((MD && !MD->isStatic()) ? 1 : 0) << ","; argsR(o, M->arg_begin(), M->arg_end());
        o << "," << tid(E->getType()) << "," << tid(M->getNumArgs() ? M->getArg(0)->getType() : E->getType()) << "]"; return; }
      case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: { auto * M = cast<CallExpr>(E);
        auto * F = M->getDirectCallee();
        o << "[\"call\"," << L << ","; fref(o, F); o << ",";
        if (!F) expr(o, M->getCallee()); else o << "null"; o << ","; argsR(o, M->arg_begin(), M->arg_end()); o << "," << tid(E->getType());
        o << ",["; if (F) if (auto * S = F->getTemplateSpecializationArgs()) { bool g = true; for (auto & a : S->asArray()) { if (!g) o << ","; g = false; std::string t; llvm::raw_string_ostream to(t); a.print(PP, to, false); to.flush(); if (t.size() > 400) t.resize(400); o << q(t); } } o << "]]"; return; }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: { auto * K = cast<CXXConstructExpr>(E);
        o << "[\"ctor\"," << L << ","; fref(o, K->getConstructor()); o << "," << tid(E->getType()) << ","; argsR(o, K->arg_begin(), K->arg_end());
        auto * CD = K->getConstructor(); o << "," << (CD->isCopyOrMoveConstructor() ? 1 : 0) << "," << (K->isListInitialization() ? 1 : 0) << "," << ((CD->isDefaulted() || CD->isImplicit()) ? 1 : 0) << "," << (K->requiresZeroInitialization()?1:0) << "]"; return; }
      case Stmt::CXXInheritedCtorInitExprClass: { auto * K = cast<CXXInheritedCtorInitExpr>(E); o << "[\"ictor\"," << L << ","; fref(o, K->getConstructor()); o << "]"; return; }
      case Stmt::InitListExprClass: { auto * I = cast<InitListExpr>(E); if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
        o << "[\"ilist\"," << L << "," << tid(E->getType()) << ",["; bool f = true; for (auto * x : I->inits()) { if (!f) o << ","; f = false; expr(o, x); } o << "],"; if (I->hasArrayFiller()) expr(o, I->getArrayFiller()); else o << "null"; o << "]"; return; }
      case Stmt::CXXStdInitializerListExprClass: expr(o, cast<CXXStdInitializerListExpr>(E)->getSubExpr()); return;
      case Stmt::CXXNewExprClass: { auto * N = cast<CXXNewExpr>(E); o << "[\"new\"," << L << "," << tid(N->getAllocatedType()) << ","; if (N->isArray() && N->getArraySize()) expr(o, *N->getArraySize()); else o << "null"; o << ","; expr(o, N->getInitializer()); o << "]"; return; }
      case Stmt::CXXDeleteExprClass: o << "[\"delete\"," << L << ","; expr(o, cast<CXXDeleteExpr>(E)->getArgument()); o << "]"; return;
      case Stmt::LambdaExprClass: { auto * Lm = cast<LambdaExpr>(E); lambdaOps(Lm);
        o << "[\"lambda\"," << L << "," << q(recName(Lm->getLambdaClass())) << "," << q(fid(Lm->getCallOperator())) << ",["; bool f = true; auto ci = Lm->capture_init_begin();
        for (auto & c : Lm->captures()) { if (!f) o << ","; f = false;
          if (c.capturesThis()) o << "[\"this\"," << (c.getCaptureKind() == LCK_StarThis ? 1 : 0) << "]";
          else if (c.capturesVariable()) { o << "[\"v\"," << varId(c.getCapturedVar()) << "," << q(c.getCapturedVar()->getNameAsString()) << "," << (c.getCaptureKind() == LCK_ByRef ? 1 : 0) << "," << tid(c.getCapturedVar()->getType()) << ","; 
            if (auto * vd = dyn_cast<VarDecl>(c.getCapturedVar())) { if (vd->isInitCapture()) expr(o, vd->getInit()); else o << "null"; } else o << "null"; o << "]"; }
          else o << "[\"?\"]"; ++ci; }
        o << "]]"; return; }
      case Stmt::UnaryExprOrTypeTraitExprClass: { Expr::EvalResult R; o << "[\"int\"," << L << ","; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) o << llvm::toString(R.Val.getInt(), 10); else o << "0"; o << "]"; return; }
      case Stmt::CXXThrowExprClass: o << "[\"throw\"," << L << ","; expr(o, cast<CXXThrowExpr>(E)->getSubExpr()); o << "]"; return;
      case Stmt::TypeTraitExprClass: case Stmt::CXXNoexceptExprClass: case Stmt::SizeOfPackExprClass: { Expr::EvalResult R; o << "[\"int\"," << L << ","; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) o << llvm::toString(R.Val.getInt(), 10); else o << "0"; o << "]"; return; }
      case Stmt::ArrayInitLoopExprClass: o << "[\"arrcopy\"," << L << "," << tid(E->getType()) << ","; expr(o, cast<ArrayInitLoopExpr>(E)->getCommonExpr()->getSourceExpr()); o << "]"; return;
      case Stmt::OpaqueValueExprClass: expr(o, cast<OpaqueValueExpr>(E)->getSourceExpr()); return;
      case Stmt::CXXTypeidExprClass: { auto * T = cast<CXXTypeidExpr>(E); o << "[\"typeid\"," << L << "," << (T->isTypeOperand() ? tid(T->getTypeOperand(C)) : tid(T->getExprOperand()->getType())) << "]"; return; }
      default: break;
    }
    o << "[\"opq\"," << L << "," << q(E->getStmtClassName()) << "," << tid(E->getType()) << ",["; bool f = true;
    for (auto * c : E->children()) { if (!c) continue; if (auto * ce = dyn_cast<Expr>(c)) { if (!f) o << ","; f = false; expr(o, ce); } }
    o << "]]";
  }
  std::string Lexer_text(const Expr * E) {
    SourceLocation B = SM.getSpellingLoc(E->getBeginLoc());
    bool inv = false; const char * p = SM.getCharacterData(B, &inv); if (inv) return "";
    std::string s; while (isalnum(*p) || *p == '.' || *p == '_' || ((*p == '+' || *p == '-') && !s.empty() && (s.back() == 'e' || s.back() == 'E'))) s += *p++;
    return s;
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance & CI; Consumer(CompilerInstance & ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext & C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C); D.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec; llvm::raw_fd_ostream o(gOut, ec);
    o << "{\"funcs\":{"; bool f = true;
    for (auto & kv : D.funcs) { if (kv.second == "null") continue; if (!f) o << ",\n"; f = false; o << q(kv.first) << ":" << kv.second; }
    o << "},\n\"types\":["; f = true; for (auto & t : D.typeRec) { if (!f) o << ",\n"; f = false; o << t; }
    o << "],\n\"records\":{"; f = true; for (auto & kv : D.records) { if (!f) o << ",\n"; f = false; o << q(kv.first) << ":" << kv.second; }
    o << "},\n\"globals\":{"; f = true; for (auto & kv : D.globals) { if (!f) o << ",\n"; f = false; o << q(kv.first) << ":" << kv.second; }
    o << "},\n\"enums\":{"; f = true; for (auto & kv : D.enums) { if (!f) o << ",\n"; f = false; o << q(kv.first) << ":" << kv.second; }
    o << "},\n\"files\":["; f = true;
    auto & SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) { std::string n = it->first.getName().str(); bool in = false; for (auto & r : gRoots) if (llvm::StringRef(n).starts_with(r)) in = true; if (!in) continue; if (!f) o << ","; f = false; o << q(n); }
    o << "]}\n";
  }
};
class Action : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance & CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); } };

int main(int argc, const char ** argv) {
  // usage: extract OUT TAG SKIPREGEX ROOT[,ROOT] SOURCE -- flags...
  if (argc < 6) { llvm::errs() << "usage\n"; return 2; }
  gOut = argv[1]; gTuTag = argv[2]; gSkip = argv[3]; if (gSkip == "-") gSkip = "";
  llvm::SmallVector<llvm::StringRef, 4> rs; llvm::StringRef(argv[4]).split(rs, ','); for (auto r : rs) gRoots.push_back(r.str());
  std::string src = argv[5]; std::vector<std::string> flags; for (int i = 7; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, { src });
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
