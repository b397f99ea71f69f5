// z5facts: parses one translation unit with clang and dumps every non-dependent
// function body that lies under a given root as a resolved expression/statement
// tree (JSON).  No code of the analysed program is ever executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
using namespace clang;

static std::vector<std::string> g_roots;
static std::string g_out;
static llvm::raw_ostream * g_os;

namespace {

class Dumper {
public:
    Dumper(ASTContext & ctx, llvm::json::OStream & J)
        : C(ctx), SM(ctx.getSourceManager()), J(J), PP(ctx.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = true;
        PP.TerseOutput = true;
    }

    ASTContext & C;
    SourceManager & SM;
    llvm::json::OStream & J;
    PrintingPolicy PP;
    std::map<const Decl *, int> ids;
    std::deque<const FunctionDecl *> queue;
    std::set<const FunctionDecl *> queued;
    std::map<std::string, int> typeIds;
    std::vector<std::string> typeNames;

    int id(const Decl * d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if(it != ids.end()) return it->second;
        int n = int(ids.size()) + 1;
        ids[d] = n;
        return n;
    }

    bool inRoot(SourceLocation l) {
        if(l.isInvalid()) return false;
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if(p.isInvalid()) return false;
        llvm::StringRef f(p.getFilename());
        for(auto & r : g_roots) if(f.starts_with(r)) return true;
        return false;
    }

    std::string fileOf(SourceLocation l) {
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isInvalid() ? std::string() : std::string(p.getFilename());
    }
    unsigned lineOf(SourceLocation l) {
        if(l.isInvalid()) return 0;
        return SM.getExpansionLineNumber(l);
    }

    int ty(QualType q) {
        if(q.isNull()) return -1;
        std::string s = q.getCanonicalType().getAsString(PP);
        auto it = typeIds.find(s);
        if(it != typeIds.end()) return it->second;
        int n = int(typeNames.size());
        typeNames.push_back(s);
        typeIds[s] = n;
        return n;
    }

    std::string qn(const NamedDecl * d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }

    // class name with template arguments
    std::string cls(const CXXRecordDecl * r) {
        if(!r) return "";
        return C.getRecordType(r).getCanonicalType().getAsString(PP);
    }

    const FunctionDecl * defOf(const FunctionDecl * f) {
        const FunctionDecl * d = nullptr;
        if(f->isDefined(d) && d && !d->isDependentContext()) return d;
        return nullptr;
    }

    void want(const FunctionDecl * f) {
        auto * d = defOf(f);
        if(!d) return;
        if(!inRoot(d->getLocation())) return;
        if(queued.insert(d).second) queue.push_back(d);
    }

    void targs(const TemplateArgumentList * l) {
        if(!l) return;
        J.attributeArray("ta", [&]{
            for(auto & a : l->asArray()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(PP, os, true);
                J.value(os.str());
            }
        });
    }

    void refFn(const FunctionDecl * f) {
        J.attribute("fn", qn(f));
        want(f);
        auto * d = defOf(f);
        if(d && inRoot(d->getLocation())) J.attribute("fid", id(d));
        else if(inRoot(f->getLocation())) J.attribute("fid", id(f));
        if(auto * m = dyn_cast<CXXMethodDecl>(f)) {
            J.attribute("cls", cls(m->getParent()));
            if(m->isVirtual()) J.attribute("virt", true);
            if(m->isStatic()) J.attribute("static", true);
            if(m->isConst()) J.attribute("const", true);
        }
        if(f->isNoReturn()) J.attribute("noret", true);
        if(auto * p = f->getType()->getAs<FunctionProtoType>()) {
            if(p->isNothrow()) J.attribute("nothrow", true);
        }
        targs(f->getTemplateSpecializationArgs());
        // parameter passing modes: 'r' = non-const lvalue ref / pointer to non-const, else 'v'
        std::string modes;
        for(auto * p : f->parameters()) {
            QualType t = p->getType();
            if(t->isLValueReferenceType() && !t->getPointeeType().isConstQualified()) modes += 'r';
            else if(t->isRValueReferenceType()) modes += 'm';
            else if(t->isPointerType() && !t->getPointeeType().isConstQualified()) modes += 'p';
            else modes += 'v';
        }
        J.attribute("pm", modes);
    }

    void exprAttr(const char * name, const Stmt * e) {
        if(!e) return;
        J.attributeBegin(name);
        stmt(e);
        J.attributeEnd();
    }

    void common(const Expr * e) {
        J.attribute("t", ty(e->getType()));
        J.attribute("l", int(lineOf(e->getBeginLoc())));
    }

    void simple(const char * k, const Expr * e) {
        J.attribute("k", k);
        common(e);
    }

    void args(const char * name, llvm::ArrayRef<const Expr *> a) {
        J.attributeArray(name, [&]{
            for(auto * x : a) { if(x) stmt(x); else J.value(nullptr); }
        });
    }
    template<class R> void argsR(const char * name, R r) {
        J.attributeArray(name, [&]{ for(const Expr * x : r) stmt(x); });
    }

    void declRef(const ValueDecl * d) {
        J.attribute("n", d->getNameAsString());
        if(auto * f = dyn_cast<FunctionDecl>(d)) {
            J.attribute("dk", "func");
            refFn(f);
            return;
        }
        J.attribute("d", id(d));
        if(isa<ParmVarDecl>(d)) J.attribute("dk", "param");
        else if(auto * v = dyn_cast<VarDecl>(d)) {
            if(v->isStaticLocal()) { J.attribute("dk", "static"); J.attribute("qn", qn(v)); }
            else if(v->hasLocalStorage()) J.attribute("dk", "local");
            else { J.attribute("dk", "global"); J.attribute("qn", qn(v)); }
            if(!v->hasLocalStorage()) {
                want_var(v);
            }
        } else if(auto * ec = dyn_cast<EnumConstantDecl>(d)) {
            J.attribute("dk", "enum");
            J.attribute("qn", qn(ec));
            J.attribute("v", ec->getInitVal().getExtValue());
        } else if(isa<BindingDecl>(d)) {
            J.attribute("dk", "binding");
        } else {
            J.attribute("dk", "other");
            J.attribute("qn", qn(d));
        }
    }

    std::set<const VarDecl *> vars;
    std::vector<const VarDecl *> varList;
    void want_var(const VarDecl * v) {
        if(!inRoot(v->getLocation())) return;
        v = v->getCanonicalDecl();
        if(vars.insert(v).second) varList.push_back(v);
    }

    void varDecl(const VarDecl * v) {
        J.object([&]{
            J.attribute("k", "var");
            J.attribute("d", id(v));
            J.attribute("n", v->getNameAsString());
            J.attribute("t", ty(v->getType()));
            J.attribute("l", int(lineOf(v->getLocation())));
            if(v->isStaticLocal()) J.attribute("static", true);
            if(v->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
            if(auto * dd = dyn_cast<DecompositionDecl>(v)) {
                J.attributeArray("bind", [&]{
                    for(auto * b : dd->bindings()) {
                        J.object([&]{
                            J.attribute("d", id(b));
                            J.attribute("n", b->getNameAsString());
                            if(b->getBinding()) exprAttr("e", b->getBinding());
                        });
                    }
                });
            }
            if(v->hasInit()) exprAttr("init", v->getInit());
        });
    }

    void stmt(const Stmt * s) {
        if(!s) { J.value(nullptr); return; }
        if(auto * e = dyn_cast<Expr>(s)) { expr(e); return; }
        J.object([&]{
            J.attribute("l", int(lineOf(s->getBeginLoc())));
            if(auto * x = dyn_cast<CompoundStmt>(s)) {
                J.attribute("k", "seq");
                J.attributeArray("b", [&]{ for(auto * c : x->body()) stmt(c); });
            } else if(auto * x = dyn_cast<DeclStmt>(s)) {
                J.attribute("k", "decl");
                J.attributeArray("v", [&]{
                    for(auto * d : x->decls()) if(auto * v = dyn_cast<VarDecl>(d)) varDecl(v);
                });
            } else if(auto * x = dyn_cast<IfStmt>(s)) {
                J.attribute("k", "if");
                if(x->isConstexpr()) J.attribute("constexpr", true);
                exprAttr("init", x->getInit());
                if(x->getConditionVariableDeclStmt()) exprAttr("cvar", x->getConditionVariableDeclStmt());
                bool done = false;
                if(x->isConstexpr()) {
                    if(auto nd = x->getNondiscardedCase(C)) {
                        J.attribute("k2", "resolved");
                        exprAttr("then", *nd);
                        done = true;
                    }
                }
                if(!done) {
                    exprAttr("c", x->getCond());
                    exprAttr("then", x->getThen());
                    exprAttr("else", x->getElse());
                }
            } else if(auto * x = dyn_cast<ForStmt>(s)) {
                J.attribute("k", "for");
                exprAttr("init", x->getInit());
                exprAttr("c", x->getCond());
                exprAttr("inc", x->getInc());
                exprAttr("body", x->getBody());
            } else if(auto * x = dyn_cast<WhileStmt>(s)) {
                J.attribute("k", "while");
                if(x->getConditionVariableDeclStmt()) exprAttr("cvar", x->getConditionVariableDeclStmt());
                exprAttr("c", x->getCond());
                exprAttr("body", x->getBody());
            } else if(auto * x = dyn_cast<DoStmt>(s)) {
                J.attribute("k", "do");
                exprAttr("c", x->getCond());
                exprAttr("body", x->getBody());
            } else if(auto * x = dyn_cast<CXXForRangeStmt>(s)) {
                J.attribute("k", "rfor");
                J.attributeBegin("var"); varDecl(x->getLoopVariable()); J.attributeEnd();
                exprAttr("range", x->getRangeInit());
                exprAttr("body", x->getBody());
            } else if(auto * x = dyn_cast<SwitchStmt>(s)) {
                J.attribute("k", "switch");
                exprAttr("init", x->getInit());
                if(x->getConditionVariableDeclStmt()) exprAttr("cvar", x->getConditionVariableDeclStmt());
                exprAttr("c", x->getCond());
                exprAttr("body", x->getBody());
            } else if(auto * x = dyn_cast<CaseStmt>(s)) {
                J.attribute("k", "case");
                exprAttr("v", x->getLHS());
                Expr::EvalResult R;
                if(!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(R, C)) J.attribute("iv", R.Val.getInt().getExtValue());
                exprAttr("s", x->getSubStmt());
            } else if(auto * x = dyn_cast<DefaultStmt>(s)) {
                J.attribute("k", "default");
                exprAttr("s", x->getSubStmt());
            } else if(isa<BreakStmt>(s)) J.attribute("k", "break");
            else if(isa<ContinueStmt>(s)) J.attribute("k", "continue");
            else if(auto * x = dyn_cast<ReturnStmt>(s)) {
                J.attribute("k", "ret");
                exprAttr("e", x->getRetValue());
            } else if(auto * x = dyn_cast<CXXTryStmt>(s)) {
                J.attribute("k", "try");
                exprAttr("body", x->getTryBlock());
                J.attributeArray("h", [&]{
                    for(unsigned i = 0; i < x->getNumHandlers(); ++i) {
                        auto * h = x->getHandler(i);
                        J.object([&]{
                            J.attribute("l", int(lineOf(h->getBeginLoc())));
                            if(h->getExceptionDecl()) {
                                J.attribute("d", id(h->getExceptionDecl()));
                                J.attribute("n", h->getExceptionDecl()->getNameAsString());
                                J.attribute("t", ty(h->getCaughtType()));
                            }
                            exprAttr("body", h->getHandlerBlock());
                        });
                    }
                });
            } else if(isa<NullStmt>(s)) J.attribute("k", "null");
            else if(auto * x = dyn_cast<AttributedStmt>(s)) {
                J.attribute("k", "seq");
                J.attributeArray("b", [&]{ stmt(x->getSubStmt()); });
            } else if(auto * x = dyn_cast<LabelStmt>(s)) {
                J.attribute("k", "label");
                exprAttr("s", x->getSubStmt());
            } else {
                J.attribute("k", "unk");
                J.attribute("c", s->getStmtClassName());
                J.attributeArray("b", [&]{ for(auto * c : s->children()) if(c) stmt(c); });
            }
        });
    }

    void expr(const Expr * e) {
        // transparent wrappers
        if(auto * x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if(auto * x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
        if(auto * x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
        if(auto * x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if(auto * x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if(auto * x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if(auto * x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if(auto * x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
        if(auto * x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
        if(auto * x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
        if(auto * x = dyn_cast<OpaqueValueExpr>(e)) { if(x->getSourceExpr()) return expr(x->getSourceExpr()); }
        if(auto * x = dyn_cast<ImplicitCastExpr>(e)) {
            switch(x->getCastKind()) {
                case CK_IntegralCast: case CK_IntegralToBoolean: case CK_FloatingToIntegral:
                case CK_IntegralToFloating: case CK_FloatingCast: case CK_PointerToBoolean:
                case CK_FloatingToBoolean: case CK_BitCast: case CK_IntegralToPointer: case CK_PointerToIntegral:
                    break;
                default:
                    return expr(x->getSubExpr());
            }
        }
        J.object([&]{
            if(auto * x = dyn_cast<CastExpr>(e)) {
                simple("cast", e);
                J.attribute("ck", x->getCastKindName());
                if(isa<ExplicitCastExpr>(e)) J.attribute("ex", true);
                J.attribute("ft", ty(x->getSubExpr()->getType()));
                Expr::EvalResult R;
                if(e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() && e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
                    J.attribute("v", llvm::toString(R.Val.getInt(), 10));
                exprAttr("e", x->getSubExpr());
            } else if(auto * x = dyn_cast<DeclRefExpr>(e)) {
                simple("ref", e);
                declRef(x->getDecl());
                if(auto * v = dyn_cast<VarDecl>(x->getDecl())) {
                    Expr::EvalResult R;
                    if((v->isConstexpr() || v->getType().isConstQualified()) && e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() && e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
                        J.attribute("v", llvm::toString(R.Val.getInt(), 10));
                }
            } else if(auto * x = dyn_cast<MemberExpr>(e)) {
                simple("mem", e);
                J.attribute("n", x->getMemberDecl()->getNameAsString());
                J.attribute("f", qn(x->getMemberDecl()));
                if(auto * m = dyn_cast<FunctionDecl>(x->getMemberDecl())) refFn(m);
                if(auto * v = dyn_cast<VarDecl>(x->getMemberDecl())) { J.attribute("dk","global"); J.attribute("d", id(v)); J.attribute("qn", qn(v)); want_var(v); }
                if(x->isArrow()) J.attribute("arrow", true);
                exprAttr("b", x->getBase());
            } else if(isa<CXXThisExpr>(e)) {
                simple("this", e);
            } else if(auto * x = dyn_cast<CXXOperatorCallExpr>(e)) {
                simple("call", e);
                J.attribute("op", getOperatorSpelling(x->getOperator()));
                if(auto * f = x->getDirectCallee()) {
                    refFn(f);
                    auto * m = dyn_cast<CXXMethodDecl>(f);
                    if(m && !m->isStatic()) {
                        exprAttr("o", x->getArg(0));
                        J.attributeArray("a", [&]{ for(unsigned i = 1; i < x->getNumArgs(); ++i) stmt(x->getArg(i)); });
                    } else {
                        J.attributeArray("a", [&]{ for(auto * a : x->arguments()) stmt(a); });
                    }
                } else {
                    exprAttr("c", x->getCallee());
                    J.attributeArray("a", [&]{ for(auto * a : x->arguments()) stmt(a); });
                }
            } else if(auto * x = dyn_cast<CXXMemberCallExpr>(e)) {
                simple("call", e);
                if(auto * f = x->getMethodDecl()) {
                    refFn(f);
                    if(auto * me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                        if(me->hasQualifier() ) J.attribute("nonvirt", true);
                        if(me->isArrow()) J.attribute("arrow", true);
                    }
                } else exprAttr("c", x->getCallee());
                exprAttr("o", x->getImplicitObjectArgument());
                J.attribute("ot", ty(x->getImplicitObjectArgument()->getType()));
                {
                    QualType q = x->getImplicitObjectArgument()->IgnoreParenImpCasts()->getType();
                    if(q->isPointerType()) q = q->getPointeeType();
                    J.attribute("ost", ty(q));
                }
                J.attributeArray("a", [&]{ for(auto * a : x->arguments()) stmt(a); });
            } else if(auto * x = dyn_cast<CallExpr>(e)) {
                simple("call", e);
                if(auto * f = x->getDirectCallee()) refFn(f);
                else exprAttr("c", x->getCallee());
                J.attributeArray("a", [&]{ for(auto * a : x->arguments()) stmt(a); });
            } else if(auto * x = dyn_cast<CXXConstructExpr>(e)) {
                simple("ctor", e);
                auto * cd = x->getConstructor();
                J.attribute("cls", cls(cd->getParent()));
                refFn(cd);
                if(x->requiresZeroInitialization()) J.attribute("zi", true);
                if(cd->isCopyConstructor()) J.attribute("cm", "copy");
                else if(cd->isMoveConstructor()) J.attribute("cm", "move");
                J.attributeArray("a", [&]{ for(auto * a : x->arguments()) stmt(a); });
            } else if(auto * x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
                simple("ctor", e);
                J.attribute("cls", cls(x->getConstructor()->getParent()));
                refFn(x->getConstructor());
                J.attributeArray("a", [&]{});
            } else if(auto * x = dyn_cast<IntegerLiteral>(e)) {
                simple("int", e);
                J.attribute("v", llvm::toString(x->getValue(), 10, false));
            } else if(auto * x = dyn_cast<CharacterLiteral>(e)) {
                simple("int", e);
                J.attribute("v", std::to_string(x->getValue()));
            } else if(auto * x = dyn_cast<FloatingLiteral>(e)) {
                simple("float", e);
                J.attribute("v", x->getValueAsApproximateDouble());
            } else if(auto * x = dyn_cast<StringLiteral>(e)) {
                simple("str", e);
                if(x->isOrdinary() || x->isUTF8()) J.attribute("v", llvm::json::fixUTF8(x->getString()));
            } else if(auto * x = dyn_cast<CXXBoolLiteralExpr>(e)) {
                simple("bool", e);
                J.attribute("v", x->getValue());
            } else if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
                simple("null", e);
            } else if(auto * x = dyn_cast<UnaryOperator>(e)) {
                simple("un", e);
                J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
                if(x->isPostfix()) J.attribute("post", true);
                exprAttr("e", x->getSubExpr());
            } else if(auto * x = dyn_cast<BinaryOperator>(e)) {
                bool as = x->isAssignmentOp();
                simple(as ? "asg" : "bin", e);
                J.attribute("op", x->getOpcodeStr());
                if(auto * c = dyn_cast<CompoundAssignOperator>(e)) J.attribute("ct", ty(c->getComputationResultType()));
                exprAttr("a", x->getLHS());
                exprAttr("b", x->getRHS());
            } else if(auto * x = dyn_cast<AbstractConditionalOperator>(e)) {
                simple("cond", e);
                exprAttr("c", x->getCond());
                exprAttr("a", x->getTrueExpr());
                exprAttr("b", x->getFalseExpr());
            } else if(auto * x = dyn_cast<ArraySubscriptExpr>(e)) {
                simple("idx", e);
                exprAttr("b", x->getBase());
                exprAttr("i", x->getIdx());
            } else if(auto * x = dyn_cast<InitListExpr>(e)) {
                simple("list", e);
                argsR("a", x->inits());
            } else if(auto * x = dyn_cast<LambdaExpr>(e)) {
                simple("lambda", e);
                auto * op = x->getCallOperator();
                J.attribute("cls", cls(x->getLambdaClass()));
                J.attributeArray("fids", [&]{
                    if(x->isGenericLambda()) {
                        auto * ft = x->getLambdaClass()->getDependentLambdaCallOperator();
                        if(ft) for(auto * sp : ft->specializations()) {
                            auto * d = defOf(sp);
                            if(d) { want(d); J.value(id(d)); }
                        }
                    } else {
                        want(op);
                        J.value(id(op));
                    }
                });
                J.attributeArray("caps", [&]{
                    auto it = x->capture_init_begin();
                    for(auto & c : x->captures()) {
                        J.object([&]{
                            if(c.capturesThis()) {
                                J.attribute("this", true);
                                if(c.getCaptureKind() == LCK_StarThis) J.attribute("copy", true);
                            } else if(c.capturesVariable()) {
                                J.attribute("d", id(c.getCapturedVar()));
                                J.attribute("n", c.getCapturedVar()->getNameAsString());
                                J.attribute("ref", c.getCaptureKind() == LCK_ByRef);
                                J.attribute("t", ty(c.getCapturedVar()->getType()));
                                if(x->isInitCapture(&c)) {
                                    J.attribute("ic", true);
                                }
                            }
                            if(it != x->capture_init_end() && *it) exprAttr("init", *it);
                        });
                        ++it;
                    }
                });
            } else if(auto * x = dyn_cast<CXXNewExpr>(e)) {
                simple("new", e);
                J.attribute("nt", ty(x->getAllocatedType()));
                if(x->getArraySize()) exprAttr("n", *x->getArraySize());
                exprAttr("init", x->getInitializer());
            } else if(auto * x = dyn_cast<CXXDeleteExpr>(e)) {
                simple("del", e);
                exprAttr("e", x->getArgument());
            } else if(auto * x = dyn_cast<CXXThrowExpr>(e)) {
                simple("throw", e);
                exprAttr("e", x->getSubExpr());
            } else if(auto * x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
                simple("sizeof", e);
                Expr::EvalResult R;
                if(!e->isValueDependent() && e->EvaluateAsInt(R, C)) J.attribute("v", llvm::toString(R.Val.getInt(), 10));
                if(x->isArgumentType()) J.attribute("at", ty(x->getArgumentType()));
                else J.attribute("at", ty(x->getArgumentExpr()->getType()));
            } else if(isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
                simple("zero", e);
            } else if(auto * x = dyn_cast<CXXTypeidExpr>(e)) {
                simple("typeid", e);
                if(x->isTypeOperand()) J.attribute("at", ty(x->getTypeOperand(C)));
                else exprAttr("e", x->getExprOperand());
            } else if(auto * x = dyn_cast<TypeTraitExpr>(e)) {
                simple("bool", e);
                if(!x->isValueDependent()) J.attribute("v", x->getValue());
            } else if(auto * x = dyn_cast<ConceptSpecializationExpr>(e)) {
                simple("bool", e);
                if(!x->isValueDependent()) J.attribute("v", x->isSatisfied());
            } else if(auto * x = dyn_cast<CXXNoexceptExpr>(e)) {
                simple("bool", e);
                J.attribute("v", x->getValue());
            } else if(auto * x = dyn_cast<RequiresExpr>(e)) {
                simple("bool", e);
                if(!x->isValueDependent()) J.attribute("v", x->isSatisfied());
            } else {
                simple("unk", e);
                J.attribute("c", e->getStmtClassName());
                J.attributeArray("a", [&]{ for(auto * c : e->children()) if(c) stmt(c); });
            }
        });
    }

    void function(const FunctionDecl * f) {
        J.object([&]{
            J.attribute("fid", id(f));
            J.attribute("qn", qn(f));
            J.attribute("n", f->getNameAsString());
            J.attribute("file", fileOf(f->getLocation()));
            J.attribute("l", int(lineOf(f->getBeginLoc())));
            J.attribute("le", int(lineOf(f->getEndLoc())));
            J.attribute("rt", ty(f->getReturnType()));
            targs(f->getTemplateSpecializationArgs());
            if(auto * m = dyn_cast<CXXMethodDecl>(f)) {
                J.attribute("cls", cls(m->getParent()));
                J.attribute("pcls", qn(m->getParent()));
                if(m->isVirtual()) {
                    J.attribute("virt", true);
                    J.attributeArray("ovr", [&]{
                        for(auto * o : m->overridden_methods()) { J.value(id(o)); }
                    });
                }
                if(m->isStatic()) J.attribute("static", true);
                if(m->isConst()) J.attribute("const", true);
                if(m->getParent()->isLambda()) J.attribute("lambda", true);
                J.attribute("acc", int(m->getAccess()));
            }
            if(isa<CXXConstructorDecl>(f)) J.attribute("ctor", true);
            if(isa<CXXDestructorDecl>(f)) J.attribute("dtor", true);
            if(f->isImplicit()) J.attribute("implicit", true);
            if(f->isDefaulted()) J.attribute("defaulted", true);
            if(f->isTemplateInstantiation()) J.attribute("inst", true);
            J.attributeArray("params", [&]{
                for(auto * p : f->parameters()) {
                    J.object([&]{
                        J.attribute("d", id(p));
                        J.attribute("n", p->getNameAsString());
                        J.attribute("t", ty(p->getType()));
                    });
                }
            });
            if(auto * c = dyn_cast<CXXConstructorDecl>(f)) {
                J.attributeArray("inits", [&]{
                    for(auto * i : c->inits()) {
                        J.object([&]{
                            if(i->isAnyMemberInitializer()) {
                                J.attribute("f", qn(i->getAnyMember()));
                                J.attribute("n", i->getAnyMember()->getNameAsString());
                            } else if(i->isBaseInitializer()) {
                                J.attribute("base", ty(QualType(i->getBaseClass(), 0)));
                            } else J.attribute("deleg", true);
                            exprAttr("e", i->getInit());
                        });
                    }
                });
            }
            exprAttr("body", f->getBody());
        });
    }

    void record(const CXXRecordDecl * r) {
        J.object([&]{
            J.attribute("id", id(r));
            J.attribute("n", cls(r));
            J.attribute("qn", qn(r));
            J.attribute("file", fileOf(r->getLocation()));
            J.attribute("l", int(lineOf(r->getLocation())));
            J.attributeArray("bases", [&]{
                for(auto & b : r->bases()) J.value(ty(b.getType()));
            });
            J.attributeArray("fields", [&]{
                for(auto * f : r->fields()) {
                    J.object([&]{
                        J.attribute("n", f->getNameAsString());
                        J.attribute("t", ty(f->getType()));
                        if(f->isMutable()) J.attribute("mut", true);
                        J.attribute("acc", int(f->getAccess()));
                        if(f->hasInClassInitializer() && f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent()) exprAttr("init", f->getInClassInitializer());
                    });
                }
            });
            J.attributeArray("methods", [&]{
                for(auto * m : r->methods()) {
                    J.object([&]{
                        J.attribute("fid", id(m));
                        J.attribute("n", m->getNameAsString());
                        J.attribute("qn", qn(m));
                        J.attribute("acc", int(m->getAccess()));
                        if(m->isVirtual()) {
                            J.attribute("virt", true);
                            if(m->isPureVirtual()) J.attribute("pure", true);
                            J.attributeArray("ovr", [&]{ for(auto * o : m->overridden_methods()) J.value(id(o)); });
                        }
                        if(m->isConst()) J.attribute("const", true);
                        if(m->isImplicit()) J.attribute("implicit", true);
                    });
                }
            });
        });
    }
};

class Collector : public RecursiveASTVisitor<Collector> {
public:
    Collector(Dumper & d) : D(d) {}
    Dumper & D;
    std::vector<const CXXRecordDecl *> records;
    std::vector<const EnumDecl *> enums;
    std::vector<std::pair<std::string,std::string>> uninst; // templates without instantiation
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl * f) {
        if(f->isDependentContext()) return true;
        if(!f->doesThisDeclarationHaveABody()) return true;
        if(!D.inRoot(f->getLocation())) return true;
        D.want(f);
        return true;
    }
    bool VisitFunctionTemplateDecl(FunctionTemplateDecl * t) {
        if(!D.inRoot(t->getLocation())) return true;
        if(t->getDeclContext()->isDependentContext()) return true;
        if(!t->isThisDeclarationADefinition()) return true;
        if(t->spec_begin() == t->spec_end())
            uninst.emplace_back(D.qn(t), D.fileOf(t->getLocation()) + ":" + std::to_string(D.lineOf(t->getLocation())));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl * r) {
        if(!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
        if(!D.inRoot(r->getLocation())) return true;
        records.push_back(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl * e) {
        if(!e->isThisDeclarationADefinition() || !D.inRoot(e->getLocation())) return true;
        if(e->isDependentContext()) return true;
        enums.push_back(e);
        return true;
    }
    bool VisitVarDecl(VarDecl * v) {
        if(!v->hasGlobalStorage() || !D.inRoot(v->getLocation())) return true;
        if(v->getDeclContext()->isDependentContext()) return true;
        D.want_var(v);
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext & ctx) override {
        if(ctx.getDiagnostics().hasErrorOccurred()) return;
        llvm::json::OStream J(*g_os);
        Dumper D(ctx, J);
        Collector col(D);
        J.object([&]{
            col.TraverseDecl(ctx.getTranslationUnitDecl());
            J.attributeArray("functions", [&]{
                while(!D.queue.empty()) {
                    auto * f = D.queue.front();
                    D.queue.pop_front();
                    D.function(f);
                }
            });
            J.attributeArray("records", [&]{ for(auto * r : col.records) D.record(r); });
            J.attributeArray("enums", [&]{
                for(auto * e : col.enums) J.object([&]{
                    J.attribute("qn", D.qn(e));
                    J.attributeArray("c", [&]{
                        for(auto * c : e->enumerators()) J.object([&]{
                            J.attribute("n", c->getNameAsString());
                            J.attribute("v", c->getInitVal().getExtValue());
                        });
                    });
                });
            });
            J.attributeArray("globals", [&]{
                for(size_t i = 0; i < D.varList.size(); ++i) {
                    auto * v = D.varList[i];
                    const VarDecl * def = v->getInitializingDeclaration() ? v->getInitializingDeclaration() : v;
                    J.object([&]{
                        J.attribute("qn", D.qn(v));
                        J.attribute("d", D.id(v));
                        J.attribute("t", D.ty(v->getType()));
                        J.attribute("file", D.fileOf(v->getLocation()));
                        J.attribute("l", int(D.lineOf(v->getLocation())));
                        if(v->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
                        if(def->hasInit() && !def->getInit()->isValueDependent()) D.exprAttr("init", def->getInit());
                    });
                }
            });
            // initialisers of globals may have pulled in further functions
            J.attributeArray("functions2", [&]{
                while(!D.queue.empty()) {
                    auto * f = D.queue.front();
                    D.queue.pop_front();
                    D.function(f);
                }
            });
            J.attributeArray("uninstantiated", [&]{
                for(auto & p : col.uninst) J.object([&]{ J.attribute("qn", p.first); J.attribute("loc", p.second); });
            });
            J.attributeArray("types", [&]{ for(auto & t : D.typeNames) J.value(t); });
        });
        g_os->flush();
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance & ci, llvm::StringRef) override {
        ci.getDiagnostics().setSuppressAllDiagnostics(false);
        return std::make_unique<Consumer>();
    }
};
} // namespace

int main(int argc, const char ** argv) {
    // usage: z5facts -o OUT -root DIR [-root DIR ...] FILE -- clang-args
    std::vector<std::string> flags;
    std::string file;
    int i = 1;
    for(; i < argc; ++i) {
        std::string a = argv[i];
        if(a == "--") { ++i; break; }
        if(a == "-o") g_out = argv[++i];
        else if(a == "-root") g_roots.push_back(argv[++i]);
        else file = a;
    }
    for(; i < argc; ++i) flags.push_back(argv[i]);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    if(ec) { llvm::errs() << ec.message() << "\n"; return 2; }
    g_os = &os;
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    os.flush();
    return rc;
}
