// astx: clang plugin that exports the semantic AST (types resolved, templates
// instantiated, overloads resolved, implicit conversions explicit) of every
// function defined under given path prefixes, as JSON.  It performs no
// transformation: the verifier executes exactly these trees.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallString.h"
#include <deque>
using namespace clang;
namespace json = llvm::json;

namespace {
struct Exporter : RecursiveASTVisitor<Exporter> {
    ASTContext& C;
    json::OStream J;
    std::vector<std::string> prefixes;
    PrintingPolicy PP;
    llvm::DenseMap<const Decl*, int> declIds;
    std::vector<const Decl*> decls;
    llvm::DenseMap<const void*, int> typeIds;
    std::vector<QualType> types;
    std::deque<const FunctionDecl*> funcs;
    llvm::DenseSet<const FunctionDecl*> seenF;

    Exporter(ASTContext& C, llvm::raw_ostream& o, std::vector<std::string> p)
        : C(C), J(o), prefixes(std::move(p)), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true;
        PP.SuppressUnwrittenScope = false; PP.PrintCanonicalTypes = true; PP.AnonymousTagLocations = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    bool inScope(SourceLocation l) {
        if (l.isInvalid()) return false;
        auto& SM = C.getSourceManager();
        auto f = SM.getFilename(SM.getExpansionLoc(l));
        for (auto& p : prefixes) if (f.starts_with(p)) return true;
        return false;
    }
    int did(const Decl* d) {
        if (!d) return -1;
        d = d->getCanonicalDecl();
        auto [it, n] = declIds.try_emplace(d, (int)decls.size());
        if (n) decls.push_back(d);
        return it->second;
    }
    int tid(QualType t) {
        if (t.isNull()) return -1;
        t = C.getCanonicalType(t);
        auto [it, n] = typeIds.try_emplace(t.getAsOpaquePtr(), (int)types.size());
        if (n) types.push_back(t);
        return it->second;
    }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->isDependentContext() || f->isTemplated()) return true;
        if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return true;
        if (f->isDefaulted() && !f->hasBody()) return true;
        if (!inScope(f->getLocation()) ) return true;
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def)) return true;
        if (seenF.insert(def).second) funcs.push_back(def);
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (v->hasGlobalStorage() && inScope(v->getLocation()) && !v->getType()->isDependentType()) did(v);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (r->isCompleteDefinition() && !r->isDependentContext() && inScope(r->getLocation())) did(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* r) {
        if (inScope(r->getLocation()) && !r->isDependentContext()) did(r);
        return true;
    }

    void loc(SourceLocation l) {
        auto& SM = C.getSourceManager();
        auto e = SM.getExpansionLoc(l);
        J.attribute("l", (int64_t)SM.getExpansionLineNumber(e));
    }
    void stmtAttr(const char* k, const Stmt* s) {
        J.attributeBegin(k); stmt(s); J.attributeEnd();
    }
    void child(const Stmt* s) { stmt(s); }
    void varDecl(const VarDecl* v) {
        J.objectBegin();
        J.attribute("k", "VarDecl");
        J.attribute("d", did(v)); J.attribute("n", v->getNameAsString()); J.attribute("t", tid(v->getType()));
        if (v->isStaticLocal()) J.attribute("static", true);
        if (v->getTLSKind() != VarDecl::TLS_None) { J.attribute("static", true); J.attribute("tls", true); }
        J.attribute("ci", v->getInitStyle() == VarDecl::CInit);
        if (auto* i = v->getInit()) stmtAttr("init", i);
        if (auto* d = dyn_cast<DecompositionDecl>(v)) {
            J.attributeArray("bindings", [&] {
                for (auto* b : d->bindings()) {
                    J.objectBegin();
                    J.attribute("d", did(b)); J.attribute("n", b->getNameAsString()); J.attribute("t", tid(b->getType()));
                    if (auto* hv = b->getHoldingVar()) { J.attributeBegin("hold"); varDecl(hv); J.attributeEnd(); }
                    else if (b->getBinding()) stmtAttr("expr", b->getBinding());
                    J.objectEnd();
                }
            });
        }
        J.objectEnd();
    }
    void kids(const Stmt* s) {
        J.attributeArray("c", [&] { for (auto* c : s->children()) stmt(c); });
    }
    void apval(const APValue& v) {
        if (v.isInt()) { llvm::SmallString<40> s; v.getInt().toString(s, 10); J.attribute("cv", s); }
    }
    void stmt(const Stmt* s) {
        if (!s) { J.value(nullptr); return; }
        // transparent wrappers
        if (auto* e = dyn_cast<ParenExpr>(s)) return stmt(e->getSubExpr());
        if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(e->getReplacement());
        if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) return stmt(e->getSubExpr());
        if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) return stmt(e->getSemanticForm());
        if (auto* e = dyn_cast<AttributedStmt>(s)) return stmt(e->getSubStmt());
        if (auto* e = dyn_cast<OpaqueValueExpr>(s); e && e->getSourceExpr()) return stmt(e->getSourceExpr());
        if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) {
            J.objectBegin(); J.attribute("k", "StdInitList"); J.attribute("t", tid(e->getType())); kids(s); J.objectEnd(); return; }
        J.objectBegin();
        J.attribute("k", s->getStmtClassName());
        loc(s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s)) {
            J.attribute("t", tid(e->getType()));
            if (e->isLValue()) J.attribute("lv", 1); else if (e->isXValue()) J.attribute("lv", 2);
            if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e)) {
                Expr::EvalResult r;
                if (e->isPRValue() && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && !r.HasSideEffects) apval(r.Val);
            }
        }
        if (auto* x = dyn_cast<CompoundStmt>(s)) kids(x);
        else if (auto* x = dyn_cast<DeclStmt>(s)) {
            J.attributeArray("decls", [&] {
                for (auto* d : x->decls())
                    if (auto* v = dyn_cast<VarDecl>(d)) varDecl(v);
            });
        } else if (auto* x = dyn_cast<IfStmt>(s)) {
            if (x->getInit()) stmtAttr("init", x->getInit());
            if (x->getConditionVariableDeclStmt()) stmtAttr("cvar", x->getConditionVariableDeclStmt());
            if (x->isConstexpr()) {
                J.attribute("constexpr", true);
                Expr::EvalResult r;
                if (x->getCond()->EvaluateAsInt(r, C)) J.attribute("cval", r.Val.getInt().getBoolValue());
            }
            stmtAttr("cond", x->getCond()); stmtAttr("then", x->getThen());
            if (x->getElse()) stmtAttr("else", x->getElse());
        } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
            if (x->getInit()) stmtAttr("init", x->getInit());
            if (x->getConditionVariableDeclStmt()) stmtAttr("cvar", x->getConditionVariableDeclStmt());
            stmtAttr("cond", x->getCond()); stmtAttr("body", x->getBody());
        } else if (auto* x = dyn_cast<CaseStmt>(s)) {
            stmtAttr("v", x->getLHS()); stmtAttr("sub", x->getSubStmt());
        } else if (auto* x = dyn_cast<DefaultStmt>(s)) stmtAttr("sub", x->getSubStmt());
        else if (auto* x = dyn_cast<WhileStmt>(s)) {
            if (x->getConditionVariableDeclStmt()) stmtAttr("cvar", x->getConditionVariableDeclStmt());
            stmtAttr("cond", x->getCond()); stmtAttr("body", x->getBody());
        } else if (auto* x = dyn_cast<DoStmt>(s)) { stmtAttr("cond", x->getCond()); stmtAttr("body", x->getBody()); }
        else if (auto* x = dyn_cast<ForStmt>(s)) {
            if (x->getInit()) stmtAttr("init", x->getInit());
            if (x->getCond()) stmtAttr("cond", x->getCond());
            if (x->getInc()) stmtAttr("inc", x->getInc());
            stmtAttr("body", x->getBody());
        } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            if (x->getInit()) stmtAttr("init", x->getInit());
            stmtAttr("range", x->getRangeStmt()); stmtAttr("begin", x->getBeginStmt()); stmtAttr("end", x->getEndStmt());
            stmtAttr("cond", x->getCond()); stmtAttr("inc", x->getInc());
            stmtAttr("var", x->getLoopVarStmt()); stmtAttr("body", x->getBody());
        } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            stmtAttr("body", x->getTryBlock());
            J.attributeArray("handlers", [&] {
                for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                    auto* h = x->getHandler(i);
                    J.objectBegin();
                    if (auto* v = h->getExceptionDecl()) { J.attributeBegin("var"); varDecl(v); J.attributeEnd(); }
                    J.attribute("ct", tid(h->getCaughtType()));
                    stmtAttr("body", h->getHandlerBlock());
                    J.objectEnd();
                }
            });
        } else if (auto* x = dyn_cast<LambdaExpr>(s)) {
            J.attribute("cls", did(x->getLambdaClass()));
            J.attribute("op", did(x->getCallOperator()));
            J.attributeArray("caps", [&] {
                auto ii = x->capture_init_begin();
                for (auto& c : x->captures()) {
                    J.objectBegin();
                    J.attribute("kind", c.getCaptureKind() == LCK_This ? "this" : c.getCaptureKind() == LCK_StarThis ? "*this"
                                        : c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
                    if (c.capturesVariable()) {
                        J.attribute("d", did(c.getCapturedVar())); J.attribute("n", c.getCapturedVar()->getNameAsString());
                        if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture()) J.attribute("ic", true);
                        J.attribute("t", tid(c.getCapturedVar()->getType()));
                    }
                    if (*ii) stmtAttr("init", *ii);
                    ++ii;
                    J.objectEnd();
                }
            });
        } else if (auto* x = dyn_cast<DeclRefExpr>(s)) {
            auto* d = x->getDecl();
            J.attribute("d", did(d)); J.attribute("n", d->getNameAsString());
            if (x->refersToEnclosingVariableOrCapture()) J.attribute("cap", true);
            if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<40> b; ec->getInitVal().toString(b, 10); J.attribute("ev", b); }
        } else if (auto* x = dyn_cast<MemberExpr>(s)) {
            J.attribute("d", did(x->getMemberDecl())); J.attribute("n", x->getMemberDecl()->getNameAsString());
            J.attribute("arrow", x->isArrow());
            if (x->hasQualifier()) J.attribute("qual", true);
            kids(x);
        } else if (auto* x = dyn_cast<IntegerLiteral>(s)) {
            llvm::SmallString<40> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType()); J.attribute("v", b);
        } else if (auto* x = dyn_cast<CharacterLiteral>(s)) J.attribute("v", (int64_t)x->getValue());
        else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) J.attribute("v", x->getValue());
        else if (auto* x = dyn_cast<FloatingLiteral>(s)) J.attribute("v", x->getValueAsApproximateDouble());
        else if (auto* x = dyn_cast<StringLiteral>(s)) {
            J.attributeArray("v", [&] { for (unsigned char c : x->getBytes()) J.value((int64_t)c); });
        } else if (auto* x = dyn_cast<CallExpr>(s)) {
            if (auto* f = x->getDirectCallee()) { J.attribute("f", did(f)); J.attribute("fn", f->getQualifiedNameAsString()); }
            if (auto* oc = dyn_cast<CXXOperatorCallExpr>(x)) J.attribute("oo", getOperatorSpelling(oc->getOperator()));
            kids(x);
        } else if (auto* x = dyn_cast<CXXConstructExpr>(s)) {
            J.attribute("f", did(x->getConstructor())); J.attribute("fn", x->getConstructor()->getQualifiedNameAsString());
            J.attribute("elidable", x->isElidable());
            J.attribute("copy", x->getConstructor()->isCopyConstructor()); J.attribute("move", x->getConstructor()->isMoveConstructor());
            if (x->isListInitialization()) J.attribute("list", true);
            if (x->requiresZeroInitialization()) J.attribute("zero", true);
            kids(x);
        } else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
            J.attribute("f", did(x->getConstructor())); J.attribute("fn", x->getConstructor()->getQualifiedNameAsString());
        } else if (auto* x = dyn_cast<CastExpr>(s)) {
            J.attribute("ck", x->getCastKindName());
            if (auto* cf = x->getConversionFunction()) J.attribute("cf", did(cf));
            kids(x);
        } else if (auto* x = dyn_cast<UnaryOperator>(s)) {
            J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode())); J.attribute("post", x->isPostfix()); kids(x);
        } else if (auto* x = dyn_cast<BinaryOperator>(s)) {
            J.attribute("op", x->getOpcodeStr());
            if (auto* ca = dyn_cast<CompoundAssignOperator>(x)) { J.attribute("ct", tid(ca->getComputationLHSType())); J.attribute("cr", tid(ca->getComputationResultType())); }
            kids(x);
        } else if (auto* x = dyn_cast<CXXDefaultArgExpr>(s)) stmtAttr("e", x->getExpr());
        else if (auto* x = dyn_cast<CXXDefaultInitExpr>(s)) stmtAttr("e", x->getExpr());
        else if (auto* x = dyn_cast<InitListExpr>(s)) {
            auto* y = x->getSemanticForm() ? x->getSemanticForm() : x;
            J.attributeArray("c", [&] { for (auto* c : y->inits()) stmt(c); });
            if (y->getArrayFiller()) stmtAttr("filler", y->getArrayFiller());
            if (auto* fd = y->getInitializedFieldInUnion()) J.attribute("uf", fd->getNameAsString());
        } else if (auto* x = dyn_cast<CXXNewExpr>(s)) {
            J.attribute("at", tid(x->getAllocatedType())); J.attribute("array", x->isArray());
            if (x->isArray() && x->getArraySize()) stmtAttr("size", *x->getArraySize());
            J.attributeArray("place", [&] { for (auto* a : x->placement_arguments()) stmt(a); });
            if (x->getInitializer()) stmtAttr("init", x->getInitializer());
        } else if (auto* x = dyn_cast<CXXDeleteExpr>(s)) { J.attribute("array", x->isArrayForm()); kids(x); }
        else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { (void)x; }
        else if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(s)) { J.attribute("arrow", x->isArrow()); kids(x); }
        else if (auto* x = dyn_cast<CXXTypeidExpr>(s)) { if (!x->isTypeOperand()) kids(x); else J.attribute("tt", tid(x->getTypeOperandSourceInfo()->getType())); }
        else kids(s);
        J.objectEnd();
    }

    void emitDecl(const Decl* d) {
        J.objectBegin();
        J.attribute("id", did(d));
        J.attribute("dk", d->getDeclKindName());
        if (auto* n = dyn_cast<NamedDecl>(d)) {
            std::string q; llvm::raw_string_ostream o(q); n->printQualifiedName(o, PP); o.flush();
            J.attribute("qn", q); J.attribute("n", n->getNameAsString());
        }
        if (auto* dc = d->getDeclContext()) {
            if (auto* r = dyn_cast<CXXRecordDecl>(dc)) J.attribute("parent", did(r));
            else if (auto* f = dyn_cast<FunctionDecl>(dc)) J.attribute("parentf", did(f));
        }
        auto targs = [&](const TemplateArgumentList* l) {
            if (!l) return;
            J.attributeArray("targs", [&] {
                std::function<void(const TemplateArgument&)> one = [&](const TemplateArgument& a) {
                    if (a.getKind() == TemplateArgument::Pack) { for (auto& b : a.pack_elements()) one(b); return; }
                    J.objectBegin();
                    if (a.getKind() == TemplateArgument::Type) J.attribute("t", tid(a.getAsType()));
                    else if (a.getKind() == TemplateArgument::Integral) { llvm::SmallString<40> b; a.getAsIntegral().toString(b, 10); J.attribute("i", b); }
                    else { std::string s; llvm::raw_string_ostream o(s); a.print(PP, o, true); o.flush(); J.attribute("s", s); }
                    J.objectEnd();
                };
                for (auto& a : l->asArray()) one(a);
            });
        };
        if (auto* f = dyn_cast<FunctionDecl>(d)) {
            J.attribute("t", tid(f->getType())); J.attribute("ret", tid(f->getReturnType()));
            targs(f->getTemplateSpecializationArgs());
            if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
                J.attribute("method", true); J.attribute("virt", m->isVirtual()); J.attribute("static", m->isStatic()); J.attribute("const", m->isConst());
                if (m->isVirtual()) J.attributeArray("overrides", [&] { for (auto* o : m->overridden_methods()) J.value(did(o)); });
                J.attribute("pure", m->isPureVirtual());
                if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { J.attribute("ctor", c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other"); }
                if (m->isCopyAssignmentOperator()) J.attribute("assign", "copy");
                if (m->isMoveAssignmentOperator()) J.attribute("assign", "move");
            }
            J.attribute("noreturn", f->isNoReturn()); J.attribute("defaulted", f->isDefaulted()); J.attribute("implicit", f->isImplicit());
            J.attribute("oo", getOperatorSpelling(f->getOverloadedOperator()));
            if (f->isTemplateInstantiation()) if (auto* p = f->getTemplateInstantiationPattern()) J.attribute("pattern", did(p));
            J.attributeArray("params", [&] { for (auto* p : f->parameters()) { J.objectBegin(); J.attribute("d", did(p)); J.attribute("n", p->getNameAsString()); J.attribute("t", tid(p->getType())); J.objectEnd(); } });
        } else if (auto* v = dyn_cast<VarDecl>(d)) {
            J.attribute("t", tid(v->getType()));
            J.attribute("global", v->hasGlobalStorage());
            if (v->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
            if (v->hasGlobalStorage() && v->getAnyInitializer() && (inScope(v->getLocation()))) {
                const VarDecl* def = nullptr; auto* in = v->getAnyInitializer(def);
                if (!in->isValueDependent() && !v->isStaticLocal()) stmtAttr("init", in);
            }
        } else if (auto* fd = dyn_cast<FieldDecl>(d)) {
            J.attribute("t", tid(fd->getType()));
        } else if (auto* b = dyn_cast<BindingDecl>(d)) { J.attribute("t", tid(b->getType())); }
        else if (auto* e = dyn_cast<EnumDecl>(d)) {
            J.attribute("u", tid(e->getIntegerType()));
            J.attributeArray("consts", [&] { for (auto* c : e->enumerators()) { J.objectBegin(); J.attribute("n", c->getNameAsString()); llvm::SmallString<40> b; c->getInitVal().toString(b, 10); J.attribute("v", b); J.objectEnd(); } });
        } else if (auto* r = dyn_cast<CXXRecordDecl>(d)) {
            J.attribute("ty", tid(C.getRecordType(r)));
            J.attribute("lambda", r->isLambda());
            auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r);
            if (sp) targs(&sp->getTemplateArgs());
            if (auto* def = r->getDefinition()) {
                J.attribute("scope", inScope(def->getLocation()));
                J.attribute("agg", def->isAggregate());
                J.attributeArray("bases", [&] { for (auto& b : def->bases()) J.value(tid(b.getType())); });
                if (inScope(def->getLocation())) {
                    J.attributeArray("fields", [&] { for (auto* f : def->fields()) { J.objectBegin(); J.attribute("d", did(f)); J.attribute("n", f->getNameAsString()); J.attribute("t", tid(f->getType()));
                        if (f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent()) stmtAttr("init", f->getInClassInitializer()); J.objectEnd(); } });
                    if (auto* dd = def->getDestructor()) { J.attribute("dtor", did(dd)); }
                    J.attributeArray("methods", [&] {
                        for (auto* m : def->methods()) if (!m->isTemplated() || !m->isDependentContext()) J.value(did(m));
                        for (auto* dd : def->decls())
                            if (auto* ft = dyn_cast<FunctionTemplateDecl>(dd)) for (auto* s : ft->specializations()) J.value(did(s));
                    });
                    if (def->isLambda()) {
                        if (auto* op = def->getLambdaCallOperator()) {
                            J.attribute("callop", did(op));
                            if (auto* ft = def->getDependentLambdaCallOperator()) J.attributeArray("callspecs", [&] { for (auto* s : ft->specializations()) J.value(did(s)); });
                        }
                    }
                }
            }
        }
        J.objectEnd();
    }
    void emitType(QualType t, int id) {
        J.objectBegin();
        J.attribute("id", id);
        std::string s; { llvm::raw_string_ostream o(s); t.print(o, PP); }
        J.attribute("s", s);
        if (t.isConstQualified()) J.attribute("const", true);
        if (t.hasQualifiers()) J.attribute("uq", tid(t.getUnqualifiedType()));
        const Type* T = t.getTypePtr();
        if (auto* b = dyn_cast<BuiltinType>(T)) {
            if (b->isBooleanType()) J.attribute("k", "bool");
            else if (b->isInteger()) { J.attribute("k", "int"); J.attribute("w", (int64_t)C.getTypeSize(t)); J.attribute("sg", b->isSignedInteger()); }
            else if (b->isFloatingPoint()) { J.attribute("k", "float"); J.attribute("w", (int64_t)C.getTypeSize(t)); }
            else if (b->isVoidType()) J.attribute("k", "void");
            else if (b->isNullPtrType()) J.attribute("k", "nullptr");
            else J.attribute("k", "other");
        } else if (auto* p = dyn_cast<PointerType>(T)) { J.attribute("k", "ptr"); J.attribute("to", tid(p->getPointeeType())); }
        else if (auto* p = dyn_cast<ReferenceType>(T)) { J.attribute("k", "ref"); J.attribute("rv", isa<RValueReferenceType>(T)); J.attribute("to", tid(p->getPointeeType())); }
        else if (auto* r = dyn_cast<RecordType>(T)) { J.attribute("k", "rec"); J.attribute("d", did(r->getDecl())); 
            J.attribute("n", cast<NamedDecl>(r->getDecl())->getQualifiedNameAsString()); }
        else if (auto* e = dyn_cast<EnumType>(T)) { J.attribute("k", "enum"); J.attribute("d", did(e->getDecl())); J.attribute("w", (int64_t)C.getTypeSize(t));
            J.attribute("sg", e->getDecl()->getIntegerType()->isSignedIntegerType()); }
        else if (auto* a = dyn_cast<ConstantArrayType>(T)) { J.attribute("k", "array"); J.attribute("to", tid(a->getElementType())); J.attribute("size", (int64_t)a->getSize().getZExtValue()); }
        else if (auto* f = dyn_cast<FunctionProtoType>(T)) { J.attribute("k", "func"); J.attribute("ret", tid(f->getReturnType())); J.attributeArray("params", [&] { for (auto p : f->param_types()) J.value(tid(p)); }); }
        else if (isa<MemberPointerType>(T)) J.attribute("k", "memptr");
        else J.attribute("k", T->getTypeClassName());
        J.objectEnd();
    }
    void run() {
        TraverseDecl(C.getTranslationUnitDecl());
        J.objectBegin();
        J.attributeArray("funcs", [&] {
            for (size_t i = 0; i < funcs.size(); ++i) {
                auto* f = funcs[i];
                J.objectBegin();
                J.attribute("f", did(f));
                J.attribute("file", C.getSourceManager().getFilename(C.getSourceManager().getExpansionLoc(f->getLocation())));
                loc(f->getLocation());
                J.attributeArray("params", [&] { for (auto* p : f->parameters()) { J.objectBegin(); J.attribute("d", did(p)); J.attribute("n", p->getNameAsString()); J.attribute("t", tid(p->getType())); J.objectEnd(); } });
                if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
                    J.attributeArray("inits", [&] {
                        for (auto* in : c->inits()) {
                            J.objectBegin();
                            if (in->isBaseInitializer()) J.attribute("base", tid(QualType(in->getBaseClass(), 0)));
                            else if (in->isDelegatingInitializer()) J.attribute("deleg", true);
                            else if (auto* m = in->getAnyMember()) { J.attribute("m", m->getNameAsString()); J.attribute("md", did(m)); }
                            stmtAttr("e", in->getInit());
                            J.objectEnd();
                        }
                    });
                }
                stmtAttr("body", f->getBody());
                J.objectEnd();
            }
        });
        // decls and types can add each other: alternate until stable.
        size_t di = 0, ti = 0;
        std::string ds, ts;
        J.attributeArray("tables", [&] {
            while (di < decls.size() || ti < types.size()) {
                while (di < decls.size()) { J.objectBegin(); J.attributeBegin("decl"); emitDecl(decls[di++]); J.attributeEnd(); J.objectEnd(); }
                while (ti < types.size()) { J.objectBegin(); J.attributeBegin("type"); auto t = types[ti]; emitType(t, (int)ti); ++ti; J.attributeEnd(); J.objectEnd(); }
            }
        });
        J.objectEnd();
    }
};
struct Consumer : ASTConsumer {
    CompilerInstance& CI; std::string out; std::vector<std::string> pre;
    Consumer(CompilerInstance& CI, std::string o, std::vector<std::string> p) : CI(CI), out(o), pre(p) {}
    void HandleTranslationUnit(ASTContext& C) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        std::error_code ec;
        llvm::raw_fd_ostream o(out, ec);
        Exporter(C, o, pre).run();
    }
};
struct Action : PluginASTAction {
    std::string out = "astx.json"; std::vector<std::string> pre;
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI, out, pre); }
    bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& a) override {
        for (auto& s : a) { if (s.rfind("out=", 0) == 0) out = s.substr(4); else if (s.rfind("pre=", 0) == 0) pre.push_back(s.substr(4)); }
        return true;
    }
    ActionType getActionType() override { return ReplaceAction; }
};
}
static FrontendPluginRegistry::Add<Action> X("astx", "export AST");
