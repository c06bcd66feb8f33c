// gfacts: dumps a type-resolved, structured syntax tree of every non-test function definition and
// class of the GUNNS sources, one JSON value per line, for the Python analyses in ../gsa.
//   F<TAB>{function}    C<TAB>{class}    V<TAB>{global or static variable}    E<TAB>{enum}
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <string>
#include <map>
using namespace clang;

static long long ival(const llvm::APSInt& v) { return v.isSigned() ? v.getSExtValue() : (long long)v.getZExtValue(); }
static std::string gRoot = "/repo/";
static llvm::raw_fd_ostream* gOut = nullptr;

struct J {  // tiny JSON writer
    std::string s;
    void str(llvm::StringRef v) {
        s += '"';
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (c == '\n') s += "\\n";
            else if (c == '\t') s += "\\t";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
            else s += c;
        }
        s += '"';
    }
    void key(const char* k) { if (s.back() != '{') s += ','; s += '"'; s += k; s += "\":"; }
    void kv(const char* k, llvm::StringRef v) { key(k); str(v); }
    void kn(const char* k, long long v) { key(k); s += std::to_string(v); }
};

class Dumper {
public:
    ASTContext& C; SourceManager& SM; PrintingPolicy PP; std::unique_ptr<MangleContext> MC;
    std::map<const Decl*, int> ids; 
    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), MC(c.createMangleContext()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
    }
    int id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = (int)ids.size() + 1; ids[d] = n; return n; }
    std::string fileOf(SourceLocation l) {
        l = SM.getExpansionLoc(l); llvm::StringRef f = SM.getFilename(l);
        llvm::SmallString<256> p(f); 
        if (p.empty()) return "";
        if (const FileEntry* fe = SM.getFileEntryForID(SM.getFileID(l))) { llvm::StringRef r = fe->tryGetRealPathName(); if (!r.empty()) p = r; }
        llvm::StringRef r(p); if (r.starts_with(gRoot)) return r.substr(gRoot.size()).str();
        return "";
    }
    bool interesting(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = fileOf(l); if (f.empty()) return false;
        if (f.find("/test/") != std::string::npos || f.rfind("test/", 0) == 0 || f.rfind("_build", 0) == 0) return false;
        return true;
    }
    unsigned line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    std::string tstr(QualType t) { return t.getAsString(PP); }
    std::string cstr(QualType t) { return t.getCanonicalType().getAsString(PP); }
    const char* tk(QualType t) {
        t = t.getCanonicalType().getNonReferenceType();
        if (t->isBooleanType()) return "b"; if (t->isEnumeralType()) return "e";
        if (t->isIntegerType()) return "i"; if (t->isRealFloatingType()) return "f";
        if (t->isPointerType()) return "p"; if (t->isArrayType()) return "a"; if (t->isRecordType()) return "r"; if (t->isVoidType()) return "v"; return "?";
    }
    std::string qn(const NamedDecl* d) { std::string s; llvm::raw_string_ostream o(s); d->printQualifiedName(o, PP); return o.str(); }
    std::string recName(const CXXRecordDecl* r) { return cstr(C.getRecordType(r)); }
    std::string fid(const FunctionDecl* f) {
        std::string s; llvm::raw_string_ostream o(s);
        if (f->isTemplated()) { return qn(f) + "#templated"; }
        GlobalDecl gd;
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) gd = GlobalDecl(c, Ctor_Base);
        else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) gd = GlobalDecl(d, Dtor_Base);
        else gd = GlobalDecl(f);
        if (f->isExternC() || f->isMain()) return qn(f);
        if (MC->shouldMangleDeclName(f)) { MC->mangleName(gd, o); return o.str(); }
        return qn(f);
    }
    std::string macro(SourceLocation l) {
        if (!l.isMacroID()) return "";
        std::string name;
        while (l.isMacroID()) { name = Lexer::getImmediateMacroName(l, SM, C.getLangOpts()).str(); l = SM.getImmediateMacroCallerLoc(l); }
        return name;
    }
    // ---------------------------------------------------------------- expressions
    void null(J& j) { j.s += "null"; }
    void open(J& j, const char* k, const Stmt* e) { j.s += '{'; j.kv("k", k); j.kn("l", line(e->getBeginLoc())); }
    const Expr* strip(const Expr* e) {
        while (e) {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
            else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) break; e = p->getSourceExpr(); }
            else if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
                CastKind k = p->getCastKind();
                if (k == CK_FloatingToIntegral || k == CK_IntegralToFloating || k == CK_FloatingToBoolean) break;
                e = p->getSubExpr();
            } else break;
        }
        return e;
    }
    void exprs(J& j, const char* key, llvm::ArrayRef<const Expr*> a) {
        j.key(key); j.s += '['; bool f = true;
        for (auto* x : a) { if (!f) j.s += ','; f = false; expr(j, x); }
        j.s += ']';
    }
    template <class R> void args(J& j, const R& r, unsigned skip = 0) {
        j.key("a"); j.s += '['; bool f = true; unsigned n = 0;
        for (auto* x : r) { if (n++ < skip) continue; if (!f) j.s += ','; f = false; expr(j, x); }
        j.s += ']';
    }
    void callee(J& j, const FunctionDecl* f) {
        j.kv("f", qn(f)); j.kv("u", fid(f)); j.kv("n", f->getNameAsString());
        j.kv("t", cstr(f->getReturnType()));
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) { j.kv("c", recName(m->getParent())); if (m->isStatic()) j.kn("st", 1); if (m->isConst()) j.kn("cm", 1); }
        if (f->getBuiltinID()) j.kn("bi", 1);
    }
    void mac(J& j, const Stmt* e) { std::string m = macro(e->getBeginLoc()); if (!m.empty()) j.kv("m", m); }
    void expr(J& j, const Expr* e0) {
        if (!e0) { null(j); return; }
        const Expr* e = strip(e0);
        if (auto* d = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* v = d->getDecl();
            if (auto* ec = dyn_cast<EnumConstantDecl>(v)) {
                open(j, "enum", e); j.kv("n", ec->getNameAsString()); j.kv("q", qn(ec)); j.kn("v", ival(ec->getInitVal()));
                if (auto* ed = dyn_cast<EnumDecl>(ec->getDeclContext())) j.kv("t", qn(ed));
                j.s += '}'; return;
            }
            if (auto* f = dyn_cast<FunctionDecl>(v)) { open(j, "func", e); callee(j, f); j.s += '}'; return; }
            open(j, "var", e); j.kv("n", v->getNameAsString()); 
            auto* vd = dyn_cast<VarDecl>(v);
            if (vd && vd->hasGlobalStorage()) { j.kv("q", qn(v)); j.kv("d", vd->isStaticLocal() ? "sl" : "g"); j.kn("id", id(v)); }
            else { j.kn("id", id(v)); j.kv("d", vd && isa<ParmVarDecl>(vd) ? "p" : "l"); }
            j.kv("tk", tk(v->getType()));
            j.s += '}'; return;
        }
        if (auto* m = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* v = m->getMemberDecl();
            if (auto* f = dyn_cast<FieldDecl>(v)) {
                open(j, "fld", e); j.kv("n", f->getNameAsString()); 
                if (auto* r = dyn_cast<CXXRecordDecl>(f->getParent())) j.kv("c", recName(r)); else j.kv("c", "?");
                j.kv("tk", tk(f->getType())); if (m->isArrow()) j.kn("ar", 1);
                j.key("b"); expr(j, m->getBase()); j.s += '}'; return;
            }
            if (auto* vd = dyn_cast<VarDecl>(v)) { open(j, "var", e); j.kv("n", v->getNameAsString()); j.kv("q", qn(v)); j.kv("d", "g"); j.kn("id", id(v)); j.kv("tk", tk(vd->getType())); j.s += '}'; return; }
            if (auto* ec = dyn_cast<EnumConstantDecl>(v)) { open(j, "enum", e); j.kv("n", ec->getNameAsString()); j.kv("q", qn(ec)); j.kn("v", ival(ec->getInitVal())); j.s += '}'; return; }
            open(j, "mref", e); j.kv("n", v->getNameAsString()); j.key("b"); expr(j, m->getBase()); j.s += '}'; return;
        }
        if (isa<CXXThisExpr>(e)) { open(j, "this", e); j.s += '}'; return; }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) { open(j, "lit", e); llvm::SmallString<32> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType()); j.key("v"); j.s += b.str(); j.kv("tk", "i"); j.s += '}'; return; }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) { open(j, "lit", e); char b[64]; snprintf(b, 64, "%.17g", x->getValueAsApproximateDouble()); j.key("v"); std::string bs(b); if (bs == "inf") bs = "1e999"; if (bs.find_first_of(".e") == std::string::npos) bs += ".0"; j.s += bs; j.kv("tk", "f"); j.s += '}'; return; }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { open(j, "lit", e); j.key("v"); j.s += x->getValue() ? "true" : "false"; j.kv("tk", "b"); j.s += '}'; return; }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) { open(j, "lit", e); j.kn("v", x->getValue()); j.kv("tk", "i"); j.s += '}'; return; }
        if (auto* x = dyn_cast<StringLiteral>(e)) { open(j, "str", e); j.kv("v", x->getCharByteWidth() == 1 ? x->getString() : "?"); j.s += '}'; return; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { open(j, "lit", e); j.kn("v", 0); j.kv("tk", "p"); j.s += '}'; return; }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { open(j, "zero", e); j.kv("t", cstr(e->getType())); j.s += '}'; return; }
        if (auto* u = dyn_cast<UnaryOperator>(e)) {
            if (u->isIncrementDecrementOp()) { open(j, "inc", e); j.kv("op", u->isIncrementOp() ? "++" : "--"); j.kn("post", u->isPostfix()); }
            else { open(j, "un", e); j.kv("op", UnaryOperator::getOpcodeStr(u->getOpcode())); j.kv("tk", tk(u->getType())); }
            j.key("e"); expr(j, u->getSubExpr()); j.s += '}'; return;
        }
        if (auto* b = dyn_cast<BinaryOperator>(e)) {
            open(j, b->isAssignmentOp() ? "asg" : "bin", e); j.kv("op", b->getOpcodeStr()); j.kv("tk", tk(b->getType()));
            j.key("x"); expr(j, b->getLHS()); j.key("y"); expr(j, b->getRHS()); j.s += '}'; return;
        }
        if (auto* c = dyn_cast<ConditionalOperator>(e)) {
            open(j, "cond", e); j.kv("tk", tk(e->getType())); j.key("c"); expr(j, c->getCond()); j.key("x"); expr(j, c->getTrueExpr()); j.key("y"); expr(j, c->getFalseExpr()); j.s += '}'; return;
        }
        if (auto* c = dyn_cast<BinaryConditionalOperator>(e)) {
            open(j, "cond", e); j.key("c"); expr(j, c->getCommon()); j.key("x"); expr(j, c->getCommon()); j.key("y"); expr(j, c->getFalseExpr()); j.s += '}'; return;
        }
        if (auto* a = dyn_cast<ArraySubscriptExpr>(e)) { open(j, "idx", e); j.kv("tk", tk(e->getType())); j.key("b"); expr(j, a->getBase()); j.key("i"); expr(j, a->getIdx()); j.s += '}'; return; }
        if (auto* c = dyn_cast<CXXMemberCallExpr>(e)) {
            open(j, "call", e); mac(j, e);
            const CXXMethodDecl* m = c->getMethodDecl();
            if (m) callee(j, m);
            const Expr* o = c->getImplicitObjectArgument();
            if (m && m->isVirtual()) {
                bool qual = false;
                if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) qual = me->hasQualifier();
                if (!qual) j.kn("v", 1);
            }
            if (o) { j.key("o"); expr(j, o); QualType ot = strip(o)->getType(); if (ot->isPointerType()) { j.kn("ar", 1); ot = ot->getPointeeType(); } j.kv("oc", cstr(ot.getUnqualifiedType())); }
            args(j, c->arguments()); j.s += '}'; return;
        }
        if (auto* c = dyn_cast<CXXOperatorCallExpr>(e)) {
            const FunctionDecl* f = c->getDirectCallee();
            open(j, "call", e); mac(j, e); if (f) callee(j, f); j.kv("opc", getOperatorSpelling(c->getOperator()));
            if (f && isa<CXXMethodDecl>(f)) { j.key("o"); expr(j, c->getArg(0)); j.kv("oc", cstr(c->getArg(0)->getType().getNonReferenceType().getUnqualifiedType())); args(j, c->arguments(), 1); if (cast<CXXMethodDecl>(f)->isVirtual()) j.kn("v", 1); }
            else args(j, c->arguments());
            j.s += '}'; return;
        }
        if (auto* c = dyn_cast<CallExpr>(e)) {
            open(j, "call", e); mac(j, e);
            if (auto* f = c->getDirectCallee()) callee(j, f);
            else { j.key("fe"); expr(j, c->getCallee()); }
            args(j, c->arguments()); j.s += '}'; return;
        }
        if (auto* c = dyn_cast<CXXConstructExpr>(e)) {
            if (c->isElidable() && c->getNumArgs() == 1) { expr(j, c->getArg(0)); return; }
            open(j, "ctor", e); j.kv("c", recName(c->getConstructor()->getParent())); j.kv("u", fid(c->getConstructor()));
            if (c->getConstructor()->isCopyOrMoveConstructor()) j.kn("cp", 1);
            if (c->getConstructor()->isImplicit() || c->getConstructor()->isDefaulted()) j.kn("imp", 1);
            args(j, c->arguments()); j.s += '}'; return;
        }
        if (auto* c = dyn_cast<CXXUnresolvedConstructExpr>(e)) { open(j, "dep", e); j.s += '}'; (void)c; return; }
        if (auto* n = dyn_cast<CXXNewExpr>(e)) {
            open(j, "new", e); mac(j, e); j.kv("t", cstr(n->getAllocatedType())); 
            if (n->isArray()) { j.key("n"); if (n->getArraySize()) expr(j, *n->getArraySize()); else null(j); }
            if (n->getNumPlacementArgs()) j.kn("plc", n->getNumPlacementArgs());
            if (n->hasInitializer()) { j.key("i"); expr(j, n->getInitializer()); }
            j.s += '}'; return;
        }
        if (auto* d = dyn_cast<CXXDeleteExpr>(e)) { open(j, "del", e); mac(j, e); j.kn("arr", d->isArrayForm()); j.kv("t", cstr(d->getDestroyedType())); j.key("e"); expr(j, d->getArgument()); j.s += '}'; return; }
        if (auto* t = dyn_cast<CXXThrowExpr>(e)) {
            open(j, "throw", e); mac(j, e);
            if (t->getSubExpr()) { j.kv("t", cstr(t->getSubExpr()->getType())); j.key("e"); expr(j, t->getSubExpr()); }
            j.s += '}'; return;
        }
        if (auto* c = dyn_cast<ImplicitCastExpr>(e)) { 
            open(j, "conv", e); j.kv("ck", c->getCastKindName()); j.kv("tk", tk(c->getType())); j.kv("t", cstr(c->getType())); j.key("e"); expr(j, c->getSubExpr()); j.s += '}'; return; }
        if (auto* c = dyn_cast<ExplicitCastExpr>(e)) {
            // A functional cast that calls a constructor is the constructor call.
            const Expr* s = strip(c->getSubExpr());
            if (c->getCastKind() == CK_ConstructorConversion && isa<CXXConstructExpr>(s)) { expr(j, s); return; }
            open(j, "cast", e); j.kv("ck", c->getCastKindName()); j.kv("t", cstr(c->getType())); j.kv("tk", tk(c->getType()));
            j.kv("cs", isa<CXXDynamicCastExpr>(c) ? "dynamic" : isa<CXXReinterpretCastExpr>(c) ? "reinterpret" : isa<CXXConstCastExpr>(c) ? "const" : isa<CXXStaticCastExpr>(c) ? "static" : "c");
            j.key("e"); expr(j, c->getSubExpr()); j.s += '}'; return;
        }
        if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r; open(j, "sizeof", e); j.kv("t", cstr(u->getTypeOfArgument()));
            if (!u->isValueDependent() && u->EvaluateAsInt(r, C)) j.kn("v", ival(r.Val.getInt()));
            j.s += '}'; return;
        }
        if (auto* l = dyn_cast<InitListExpr>(e)) { open(j, "ilist", e); j.kv("t", cstr(l->getType())); args(j, l->inits()); if (l->hasArrayFiller()) j.kn("fill", 1); j.s += '}'; return; }
        if (isa<CXXTypeidExpr>(e)) { open(j, "typeid", e); j.s += '}'; return; }
        if (auto* l = dyn_cast<LambdaExpr>(e)) { open(j, "lambda", e); j.key("body"); stmt(j, l->getBody()); j.s += '}'; return; }
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { open(j, "arrcopy", e); j.key("e"); expr(j, x->getCommonExpr()); j.s += '}'; return; }
        // anything else: generic, children kept
        open(j, "expr", e); j.kv("cls", e->getStmtClassName()); j.key("a"); j.s += '['; bool f = true;
        for (auto* c : e->children()) { if (auto* ce = dyn_cast_or_null<Expr>(c)) { if (!f) j.s += ','; f = false; expr(j, ce); } }
        j.s += "]}";
    }
    // ---------------------------------------------------------------- statements
    void var(J& j, const VarDecl* v) {
        j.s += '{'; j.kv("n", v->getNameAsString()); j.kn("id", id(v)); j.kv("t", cstr(v->getType())); j.kv("tk", tk(v->getType())); j.kn("l", line(v->getLocation()));
        if (v->isStaticLocal()) j.kn("static", 1);
        if (v->getType()->isReferenceType()) j.kn("ref", 1);
        if (auto* va = dyn_cast_or_null<VariableArrayType>(v->getType().getTypePtr())) { j.key("vla"); expr(j, va->getSizeExpr()); }
        if (v->hasInit()) { j.key("i"); expr(j, v->getInit()); }
        j.s += '}';
    }
    void stmt(J& j, const Stmt* s) {
        if (!s) { null(j); return; }
        if (auto* e = dyn_cast<Expr>(s)) { expr(j, e); return; }
        if (auto* c = dyn_cast<CompoundStmt>(s)) {
            open(j, "block", s); j.key("s"); j.s += '['; bool f = true;
            for (auto* x : c->body()) { if (!f) j.s += ','; f = false; stmt(j, x); }
            j.s += ']'; j.kn("el", line(c->getRBracLoc())); j.s += '}'; return;
        }
        if (auto* i = dyn_cast<IfStmt>(s)) {
            open(j, "if", s); if (i->getInit()) { j.key("init"); stmt(j, i->getInit()); }
            if (i->getConditionVariableDeclStmt()) { j.key("cv"); stmt(j, i->getConditionVariableDeclStmt()); }
            j.key("c"); expr(j, i->getCond()); j.key("t"); stmt(j, i->getThen()); j.key("e"); stmt(j, i->getElse()); j.s += '}'; return;
        }
        if (auto* w = dyn_cast<WhileStmt>(s)) { open(j, "while", s); j.key("c"); expr(j, w->getCond()); j.key("b"); stmt(j, w->getBody()); j.s += '}'; return; }
        if (auto* w = dyn_cast<DoStmt>(s)) { open(j, "do", s); j.key("c"); expr(j, w->getCond()); j.key("b"); stmt(j, w->getBody()); j.s += '}'; return; }
        if (auto* w = dyn_cast<ForStmt>(s)) { open(j, "for", s); j.key("i"); stmt(j, w->getInit()); j.key("c"); expr(j, w->getCond()); j.key("n"); expr(j, w->getInc()); j.key("b"); stmt(j, w->getBody()); j.s += '}'; return; }
        if (auto* w = dyn_cast<CXXForRangeStmt>(s)) { open(j, "rfor", s); j.key("v"); var(j, w->getLoopVariable()); j.key("r"); expr(j, w->getRangeInit()); j.key("b"); stmt(j, w->getBody()); j.s += '}'; return; }
        if (auto* w = dyn_cast<SwitchStmt>(s)) { open(j, "switch", s); j.kv("t", cstr(strip(w->getCond())->getType())); j.key("c"); expr(j, w->getCond()); j.key("b"); stmt(j, w->getBody()); j.s += '}'; return; }
        if (auto* w = dyn_cast<CaseStmt>(s)) {
            open(j, "case", s); Expr::EvalResult r; 
            if (!w->getLHS()->isValueDependent() && w->getLHS()->EvaluateAsInt(r, C)) j.kn("v", ival(r.Val.getInt()));
            j.key("e"); expr(j, w->getLHS()); j.key("s"); stmt(j, w->getSubStmt()); j.s += '}'; return;
        }
        if (auto* w = dyn_cast<DefaultStmt>(s)) { open(j, "default", s); j.key("s"); stmt(j, w->getSubStmt()); j.s += '}'; return; }
        if (auto* r = dyn_cast<ReturnStmt>(s)) { open(j, "ret", s); if (r->getRetValue()) { j.key("e"); expr(j, r->getRetValue()); } j.s += '}'; return; }
        if (isa<BreakStmt>(s)) { open(j, "break", s); j.s += '}'; return; }
        if (isa<ContinueStmt>(s)) { open(j, "cont", s); j.s += '}'; return; }
        if (isa<NullStmt>(s)) { open(j, "null", s); j.s += '}'; return; }
        if (auto* g = dyn_cast<GotoStmt>(s)) { open(j, "goto", s); j.kv("n", g->getLabel()->getNameAsString()); j.s += '}'; return; }
        if (auto* g = dyn_cast<LabelStmt>(s)) { open(j, "label", s); j.kv("n", g->getDecl()->getNameAsString()); j.key("s"); stmt(j, g->getSubStmt()); j.s += '}'; return; }
        if (auto* t = dyn_cast<CXXTryStmt>(s)) {
            open(j, "try", s); j.key("b"); stmt(j, t->getTryBlock()); j.key("h"); j.s += '['; 
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                if (i) j.s += ','; auto* h = t->getHandler(i); open(j, "catch", h);
                if (h->getExceptionDecl()) { j.kv("t", cstr(h->getCaughtType().getNonReferenceType().getUnqualifiedType())); j.kv("n", h->getExceptionDecl()->getNameAsString()); j.kn("id", id(h->getExceptionDecl())); }
                j.key("b"); stmt(j, h->getHandlerBlock()); j.s += '}';
            }
            j.s += "]}"; return;
        }
        if (auto* d = dyn_cast<DeclStmt>(s)) {
            open(j, "decl", s); j.key("v"); j.s += '['; bool f = true;
            for (auto* x : d->decls()) if (auto* v = dyn_cast<VarDecl>(x)) { if (!f) j.s += ','; f = false; var(j, v); }
            j.s += "]}"; return;
        }
        if (auto* a = dyn_cast<AttributedStmt>(s)) { stmt(j, a->getSubStmt()); return; }
        open(j, "stmt", s); j.kv("cls", s->getStmtClassName()); j.s += '}';
    }
    static const char* acc(AccessSpecifier a) { return a == AS_public ? "pub" : a == AS_protected ? "prot" : a == AS_private ? "priv" : "none"; }
    void emit(char tag, J& j) { *gOut << tag << '\t' << j.s << '\n'; }
    std::set<const Decl*> seen;
    void function(const FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() && !f->isDefaulted()) return;
        if (!f->hasBody() || f->isTemplated() ) return;
        if (!f->doesThisDeclarationHaveABody()) return;
        if (f->isImplicit()) return;
        if (!interesting(f->getLocation())) return;
        if (!seen.insert(f).second) return;
        J j; j.s = "{"; 
        j.kv("q", qn(f)); j.kv("n", f->getNameAsString()); j.kv("u", fid(f)); j.kv("file", fileOf(f->getLocation())); j.kn("l", line(f->getLocation())); j.kn("el", line(f->getEndLoc()));
        j.kv("rt", cstr(f->getReturnType()));
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            j.kv("c", recName(m->getParent())); j.kv("acc", acc(m->getAccess()));
            if (m->isVirtual()) j.kn("virt", 1); if (m->isConst()) j.kn("const", 1); if (m->isStatic()) j.kn("static", 1);
            if (isa<CXXConstructorDecl>(m)) { j.kv("kind", "ctor"); if (cast<CXXConstructorDecl>(m)->isCopyConstructor()) j.kn("cp", 1); }
            else if (isa<CXXDestructorDecl>(m)) j.kv("kind", "dtor");
            else { j.kv("kind", "method"); if (m->isCopyAssignmentOperator()) j.kn("ca", 1); }
            j.key("ov"); j.s += '['; bool ff = true; for (auto* o : m->overridden_methods()) { if (!ff) j.s += ','; ff = false; j.str(fid(o)); } j.s += ']';
        } else j.kv("kind", "func");
        if (f->isDefaulted()) j.kn("dflt", 1);
        if (f->isTemplateInstantiation()) j.kn("tmpl", 1);
        j.key("ps"); j.s += '['; bool ff = true;
        for (auto* p : f->parameters()) { if (!ff) j.s += ','; ff = false; var(j, p); }
        j.s += ']';
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            j.key("inits"); j.s += '['; ff = true;
            for (auto* i : c->inits()) {
                if (!ff) j.s += ','; ff = false; j.s += '{'; j.kn("l", line(i->getSourceLocation())); j.kn("w", i->isWritten());
                if (i->isAnyMemberInitializer()) { j.kv("fld", i->getAnyMember()->getNameAsString()); }
                else if (i->isBaseInitializer()) j.kv("base", cstr(QualType(i->getBaseClass(), 0)));
                else j.kn("deleg", 1);
                if (i->isInClassMemberInitializer()) j.kn("inclass", 1);
                j.key("e"); expr(j, i->getInit()); j.s += '}';
            }
            j.s += ']';
        }
        j.key("body"); stmt(j, f->getBody()); j.s += '}';
        emit('F', j);
    }
    void record(const CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentType() || r->isLambda()) return;
        if (!interesting(r->getLocation())) return;
        if (!seen.insert(r).second) return;
        J j; j.s = "{"; j.kv("q", recName(r)); j.kv("file", fileOf(r->getLocation())); j.kn("l", line(r->getLocation()));
        if (r->isAbstract()) j.kn("abs", 1);
        if (r->isUnion()) j.kn("union", 1);
        if (r->isPOD()) j.kn("pod", 1);
        j.key("bases"); j.s += '['; bool ff = true;
        for (auto& b : r->bases()) { if (!ff) j.s += ','; ff = false; j.s += '{'; j.kv("c", cstr(b.getType())); j.kv("acc", acc(b.getAccessSpecifier())); if (b.isVirtual()) j.kn("virt", 1); j.s += '}'; }
        j.s += ']'; j.key("fields"); j.s += '['; ff = true;
        for (auto* d : r->decls()) {
            const FieldDecl* f = dyn_cast<FieldDecl>(d); const VarDecl* v = dyn_cast<VarDecl>(d);
            if (!f && !v) continue;
            const DeclaratorDecl* dd = f ? (const DeclaratorDecl*)f : (const DeclaratorDecl*)v;
            if (!ff) j.s += ','; ff = false; j.s += '{'; j.kv("n", dd->getNameAsString()); j.kv("t", cstr(dd->getType())); j.kv("ts", tstr(dd->getType())); j.kv("tk", tk(dd->getType())); j.kv("acc", acc(dd->getAccess())); j.kn("l", line(dd->getLocation()));
            if (dd->getType()->isReferenceType()) j.kn("ref", 1);
            if (dd->getType().isConstQualified()) j.kn("const", 1);
            if (v) j.kn("static", 1);
            if (f && f->hasInClassInitializer()) { j.key("i"); expr(j, f->getInClassInitializer()); }
            if (v && v->hasInit()) { j.key("i"); expr(j, v->getInit()); }
            if (auto* ca = C.getAsConstantArrayType(dd->getType())) { j.kn("len", ca->getSize().getZExtValue()); }
            if (auto* rc = C.getRawCommentForDeclNoCache(dd)) j.kv("cm", rc->getRawText(SM));
            j.s += '}';
        }
        j.s += ']'; j.key("methods"); j.s += '['; ff = true;
        for (auto* m : r->methods()) {
            if (!ff) j.s += ','; ff = false; j.s += '{'; j.kv("n", m->getNameAsString()); j.kv("u", fid(m)); j.kv("acc", acc(m->getAccess())); j.kn("l", line(m->getLocation())); j.kv("rt", cstr(m->getReturnType()));
            if (m->isVirtual()) j.kn("virt", 1); if (m->isPureVirtual()) j.kn("pure", 1); if (m->isConst()) j.kn("const", 1); if (m->isStatic()) j.kn("static", 1); if (m->isDeleted()) j.kn("del", 1); if (m->isImplicit()) j.kn("imp", 1); if (m->isDefaulted()) j.kn("dflt", 1);
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { j.kv("kind", "ctor"); if (c->isCopyConstructor()) j.kn("cp", 1); }
            else if (isa<CXXDestructorDecl>(m)) j.kv("kind", "dtor"); else { j.kv("kind", "method"); if (m->isCopyAssignmentOperator()) j.kn("ca", 1); }
            const FunctionDecl* def = nullptr; if (m->isDefined(def)) j.kn("def", 1);
            j.key("ps"); j.s += '['; bool g = true; for (auto* p : m->parameters()) { if (!g) j.s += ','; g = false; j.s += '{'; j.kv("n", p->getNameAsString()); j.kv("t", cstr(p->getType())); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) { j.key("d"); expr(j, p->getDefaultArg()); } j.s += '}'; } j.s += ']';
            j.key("ov"); j.s += '['; g = true; for (auto* o : m->overridden_methods()) { if (!g) j.s += ','; g = false; j.str(fid(o)); } j.s += "]}";
        }
        j.s += "]}"; emit('C', j);
    }
    void gvar(const VarDecl* v) {
        if (!v->hasGlobalStorage() || isa<ParmVarDecl>(v)) return;
        if (v->isTemplated() || !interesting(v->getLocation())) return;
        if (!seen.insert(v).second) return;
        J j; j.s = "{"; j.kv("q", qn(v)); j.kv("n", v->getNameAsString()); j.kv("t", cstr(v->getType())); j.kv("tk", tk(v->getType())); j.kv("file", fileOf(v->getLocation())); j.kn("l", line(v->getLocation()));
        if (v->isStaticLocal()) { j.kn("sl", 1); if (auto* f = dyn_cast<FunctionDecl>(v->getDeclContext())) { j.kv("fn", qn(f)); } }
        if (v->isStaticDataMember()) j.kn("sm", 1);
        QualType bt = C.getBaseElementType(v->getType());
        if (bt.isConstQualified() || v->isConstexpr()) j.kn("const", 1);
        if (v->isThisDeclarationADefinition()) j.kn("def", 1);
        if (v->hasInit()) {
            j.key("i"); expr(j, v->getInit());
            if (!v->getInit()->isValueDependent() && bt.isConstQualified() && (v->getType()->isArithmeticType()||v->getType()->isEnumeralType())) {
                Expr::EvalResult r;
                if (v->getInit()->EvaluateAsRValue(r, C)) { if (r.Val.isInt()) j.kn("v", ival(r.Val.getInt())); else if (r.Val.isFloat()) { char b[64]; snprintf(b, 64, "%.17g", r.Val.getFloat().convertToDouble()); j.key("v"); std::string bs(b); if (bs == "inf") bs = "1e999"; if (bs == "-inf") bs = "-1e999"; if (bs == "nan" || bs == "-nan") bs = "null"; j.s += bs; } }
            }
        }
        j.s += '}'; emit('V', j);
    }
    void enumd(const EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || !interesting(e->getLocation()) || e->isTemplated()) return;
        if (!seen.insert(e).second) return;
        J j; j.s = "{"; j.kv("q", qn(e)); j.kv("file", fileOf(e->getLocation())); j.kn("l", line(e->getLocation())); j.key("v"); j.s += '['; bool ff = true;
        for (auto* c : e->enumerators()) { if (!ff) j.s += ','; ff = false; j.s += '['; j.str(c->getNameAsString()); j.s += ','; j.s += std::to_string(ival(c->getInitVal())); j.s += ']'; }
        j.s += "]}"; emit('E', j);
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Dumper& D; V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f) { D.function(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { D.record(r); return true; }
    bool VisitVarDecl(VarDecl* v) { D.gvar(v); return true; }
    bool VisitEnumDecl(EnumDecl* e) { D.enumd(e); return true; }
};
class Cons : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& c) override { Dumper d(c); V v(d); v.TraverseDecl(c.getTranslationUnitDecl()); }
};
class Act : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char** argv) {
    // gfacts ROOT OUT FILE flags...
    if (argc < 4) return 2;
    gRoot = argv[1]; std::error_code ec; llvm::raw_fd_ostream o(argv[2], ec); if (ec) return 2; gOut = &o;
    std::vector<std::string> fl; for (int i = 4; i < argc; ++i) fl.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", fl);
    tooling::ClangTool t(db, {argv[3]});
    int r = t.run(tooling::newFrontendActionFactory<Act>().get());
    o.flush(); o << "Z\t" << r << "\n"; return r;
}
