// pextract: dumps the typed program of one translation unit as JSON.
//
// For every function defined under one of the roots it emits the body as a
// small resolved tree (callees, fields, types and constants resolved by clang;
// parentheses, value-category casts and temporaries dropped), and for every
// class and enum under the roots its members.  The rules in ../lib work on
// this dump only; no function of the analysed program is run.
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

class Dumper {
 public:
    explicit Dumper(ASTContext& ctx) : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getLangOpts()) {
        pp_.SuppressTagKeyword = true;
        pp_.Bool = true;
        pp_.SuppressUnwrittenScope = true;
    }

    std::string FileOf(SourceLocation loc) const {
        PresumedLoc p = sm_.getPresumedLoc(sm_.getExpansionLoc(loc));
        return p.isValid() ? p.getFilename() : "";
    }
    bool InRoots(SourceLocation loc) const {
        std::string f = FileOf(loc);
        for (const auto& r : g_roots) {
            if (f.compare(0, r.size(), r) == 0) return true;
        }
        return false;
    }
    int Line(SourceLocation loc) const {
        if (loc.isInvalid()) return 0;
        return static_cast<int>(sm_.getExpansionLineNumber(loc));
    }

    std::string Type(QualType t) const {
        if (t.isNull()) return "?";
        return t.getCanonicalType().getAsString(pp_);
    }

    std::string Id(const Decl* d) {
        llvm::SmallString<256> buf;
        d = d->getCanonicalDecl();
        if (index::generateUSRForDecl(d, buf)) {
            return (llvm::Twine("L:") + FileOf(d->getLocation()) + ":" +
                    llvm::Twine(sm_.getExpansionLineNumber(d->getLocation())) + ":" +
                    llvm::Twine(sm_.getExpansionColumnNumber(d->getLocation())))
                .str();
        }
        std::string s = buf.str().str();
        // USRs of locals carry offsets; lambdas and locals in macros may clash.
        return s;
    }

    std::string Qual(const NamedDecl* d) const {
        std::string s;
        llvm::raw_string_ostream os(s);
        const DeclContext* dc = d->getDeclContext();
        std::vector<std::string> parts;
        while (dc && !dc->isTranslationUnit()) {
            if (const auto* ns = dyn_cast<NamespaceDecl>(dc)) {
                if (!ns->isAnonymousNamespace() && !ns->isInline()) parts.push_back(ns->getNameAsString());
            } else if (const auto* rd = dyn_cast<RecordDecl>(dc)) {
                std::string n = rd->getNameAsString();
                if (const auto* cr = dyn_cast<CXXRecordDecl>(rd)) {
                    if (cr->isLambda()) n = "(lambda)";
                }
                parts.push_back(n);
            } else if (const auto* fd = dyn_cast<FunctionDecl>(dc)) {
                parts.push_back(fd->getNameAsString());
            } else if (const auto* ed = dyn_cast<EnumDecl>(dc)) {
                if (ed->isScoped()) parts.push_back(ed->getNameAsString());
            }
            dc = dc->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) os << *it << "::";
        os << d->getNameAsString();
        return os.str();
    }

    std::string TemplateArgs(const Decl* d) const {
        const TemplateArgumentList* args = nullptr;
        if (const auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d)) args = &s->getTemplateArgs();
        if (const auto* f = dyn_cast<FunctionDecl>(d)) args = f->getTemplateSpecializationArgs();
        if (!args) return "";
        std::string s;
        llvm::raw_string_ostream os(s);
        bool first = true;
        for (const auto& a : args->asArray()) {
            if (!first) os << ", ";
            first = false;
            if (a.getKind() == TemplateArgument::Type) {
                os << Type(a.getAsType());
            } else {
                a.print(pp_, os, true);
            }
        }
        return os.str();
    }

    std::string MacroName(SourceLocation loc) const {
        if (!loc.isMacroID()) return "";
        // outermost macro that is spelled in a root file
        std::string name;
        SourceLocation l = loc;
        while (l.isMacroID()) {
            name = Lexer::getImmediateMacroNameForDiagnostics(l, sm_, ctx_.getLangOpts()).str();
            if (sm_.isMacroArgExpansion(l)) {
                l = sm_.getImmediateExpansionRange(l).getBegin();
                // an argument: continue outwards from where the argument was spelled in the macro body
                continue;
            }
            l = sm_.getImmediateExpansionRange(l).getBegin();
        }
        return name;
    }

    // Innermost to outermost chain of macros whose *bodies* hold this location.
    bool FromMacroBody(SourceLocation loc, llvm::StringRef want) const {
        SourceLocation l = loc;
        while (l.isMacroID()) {
            if (sm_.isMacroArgExpansion(l)) {
                l = sm_.getImmediateSpellingLoc(l);
                continue;
            }
            if (Lexer::getImmediateMacroName(l, sm_, ctx_.getLangOpts()) == want) return true;
            l = sm_.getImmediateExpansionRange(l).getBegin();
        }
        return false;
    }
    std::string BodyMacro(SourceLocation loc) const {
        SourceLocation l = loc;
        std::string name;
        while (l.isMacroID()) {
            if (sm_.isMacroArgExpansion(l)) {
                l = sm_.getImmediateSpellingLoc(l);
                continue;
            }
            name = Lexer::getImmediateMacroName(l, sm_, ctx_.getLangOpts()).str();
            l = sm_.getImmediateExpansionRange(l).getBegin();
        }
        return name;
    }

    json::Object Node(const char* k, const Stmt* s) {
        json::Object o;
        o["k"] = k;
        if (s) {
            o["l"] = Line(s->getBeginLoc());
            if (s->getBeginLoc().isMacroID()) {
                std::string m = BodyMacro(s->getBeginLoc());
                if (!m.empty()) o["m"] = m;
            }
        }
        return o;
    }

    static bool DropCast(CastKind ck) {
        switch (ck) {
            case CK_IntegralCast:
            case CK_IntegralToBoolean:
            case CK_IntegralToFloating:
            case CK_FloatingToIntegral:
            case CK_FloatingCast:
            case CK_FloatingToBoolean:
            case CK_PointerToBoolean:
            case CK_BitCast:
            case CK_ReinterpretMemberPointer:
            case CK_PointerToIntegral:
            case CK_IntegralToPointer:
            case CK_ToVoid:
            case CK_Dynamic:
            case CK_BaseToDerived:
            case CK_LValueBitCast:
                return false;
            default:
                return true;
        }
    }

    json::Value Exprs(llvm::ArrayRef<const Expr*> es) {
        json::Array a;
        for (const auto* e : es) a.push_back(E(e));
        return a;
    }

    void FnRef(json::Object& o, const FunctionDecl* fd) {
        o["fn"] = Qual(fd);
        o["id"] = Id(fd);
        std::string ta = TemplateArgs(fd);
        if (!ta.empty()) o["fta"] = ta;
        if (const auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            std::string ca = TemplateArgs(m->getParent());
            if (!ca.empty()) o["cta"] = ca;
            if (m->isVirtual()) o["virt"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
        }
        if (const auto* tmpl = fd->getTemplateInstantiationPattern()) {
            o["pat"] = Id(tmpl);
        }
        json::Array refs;
        bool any = false;
        for (const auto* p : fd->parameters()) {
            QualType t = p->getType();
            const char* r = "v";
            if (t->isRValueReferenceType()) {
                r = "x";
            } else if (t->isLValueReferenceType()) {
                r = t.getNonReferenceType().isConstQualified() ? "c" : "r";
            } else if (t->isPointerType()) {
                r = t->getPointeeType().isConstQualified() ? "cp" : "p";
            }
            if (r[0] != 'v') any = true;
            refs.push_back(r);
        }
        if (any) o["pm"] = std::move(refs);
    }

    json::Value E(const Expr* e) {
        if (!e) return nullptr;
        // assert(x) keeps its condition only
        json::Value v = E0(e);
        if (auto* o = v.getAsObject()) {
            if (!o->get("t") && !e->getType().isNull()) (*o)["t"] = Type(e->getType());
            if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() &&
                e->isPRValue() && !o->get("v")) {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
                    llvm::SmallString<32> buf;
                    r.Val.getInt().toString(buf, 10);
                    (*o)["cv"] = buf.str().str();
                }
            }
        }
        return v;
    }

    json::Value E0(const Expr* e) {
        if (FromMacroBody(e->getBeginLoc(), "assert")) {
            if (const auto* c = dyn_cast<ConditionalOperator>(e->IgnoreParenImpCasts())) {
                json::Object o = Node("assert", e);
                o["e"] = E(c->getCond());
                return o;
            }
        }
        switch (e->getStmtClass()) {
            case Stmt::ParenExprClass:
                return E(cast<ParenExpr>(e)->getSubExpr());
            case Stmt::ConstantExprClass:
                return E(cast<ConstantExpr>(e)->getSubExpr());
            case Stmt::ExprWithCleanupsClass:
                return E(cast<ExprWithCleanups>(e)->getSubExpr());
            case Stmt::MaterializeTemporaryExprClass:
                return E(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
            case Stmt::CXXBindTemporaryExprClass:
                return E(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
            case Stmt::SubstNonTypeTemplateParmExprClass:
                return E(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
            case Stmt::CXXDefaultArgExprClass: {
                json::Object o = Node("defarg", e);
                o["e"] = E(cast<CXXDefaultArgExpr>(e)->getExpr());
                return o;
            }
            case Stmt::CXXDefaultInitExprClass:
                return E(cast<CXXDefaultInitExpr>(e)->getExpr());
            case Stmt::CXXStdInitializerListExprClass:
                return E(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
            case Stmt::CXXRewrittenBinaryOperatorClass:
                return E(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
            case Stmt::OpaqueValueExprClass:
                return E(cast<OpaqueValueExpr>(e)->getSourceExpr());
            case Stmt::StmtExprClass: {
                json::Object o = Node("stmtexpr", e);
                o["b"] = S(cast<StmtExpr>(e)->getSubStmt());
                return o;
            }
            case Stmt::IntegerLiteralClass: {
                json::Object o = Node("int", e);
                llvm::SmallString<32> buf;
                cast<IntegerLiteral>(e)->getValue().toString(buf, 10, e->getType()->isSignedIntegerType());
                o["v"] = buf.str().str();
                return o;
            }
            case Stmt::CharacterLiteralClass: {
                json::Object o = Node("int", e);
                o["v"] = std::to_string(static_cast<int>(cast<CharacterLiteral>(e)->getValue()));
                o["ch"] = true;
                return o;
            }
            case Stmt::CXXBoolLiteralExprClass: {
                json::Object o = Node("bool", e);
                o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue();
                return o;
            }
            case Stmt::FloatingLiteralClass: {
                json::Object o = Node("float", e);
                llvm::SmallString<32> buf;
                cast<FloatingLiteral>(e)->getValue().toString(buf);
                o["v"] = buf.str().str();
                return o;
            }
            case Stmt::StringLiteralClass: {
                json::Object o = Node("str", e);
                const auto* s = cast<StringLiteral>(e);
                o["v"] = s->getCharByteWidth() == 1 ? json::fixUTF8(s->getString()) : std::string("<wide>");
                return o;
            }
            case Stmt::PredefinedExprClass: {
                json::Object o = Node("str", e);
                o["v"] = "__func__";
                return o;
            }
            case Stmt::CXXNullPtrLiteralExprClass:
            case Stmt::GNUNullExprClass:
                return Node("null", e);
            case Stmt::CXXThisExprClass:
                return Node("this", e);
            case Stmt::DeclRefExprClass: {
                const auto* dr = cast<DeclRefExpr>(e);
                const ValueDecl* d = dr->getDecl();
                json::Object o = Node("ref", e);
                o["n"] = d->getNameAsString();
                if (const auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                    o["dk"] = "enum";
                    o["q"] = Qual(ec);
                    llvm::SmallString<32> buf;
                    ec->getInitVal().toString(buf, 10);
                    o["v"] = buf.str().str();
                } else if (const auto* fd = dyn_cast<FunctionDecl>(d)) {
                    o["dk"] = "func";
                    FnRef(o, fd);
                } else if (const auto* p = dyn_cast<ParmVarDecl>(d)) {
                    o["dk"] = "param";
                    o["d"] = VarId(p);
                } else if (const auto* v = dyn_cast<VarDecl>(d)) {
                    o["dk"] = v->isLocalVarDecl() ? (v->isStaticLocal() ? "slocal" : "var") : "global";
                    o["d"] = VarId(v);
                    if (!v->isLocalVarDecl()) o["q"] = Qual(v);
                } else if (const auto* b = dyn_cast<BindingDecl>(d)) {
                    o["dk"] = "binding";
                    o["d"] = VarId(b);
                } else {
                    o["dk"] = "other";
                    o["q"] = Qual(d);
                }
                if (dr->refersToEnclosingVariableOrCapture()) o["cap"] = true;
                return o;
            }
            case Stmt::MemberExprClass: {
                const auto* m = cast<MemberExpr>(e);
                const ValueDecl* d = m->getMemberDecl();
                if (const auto* v = dyn_cast<VarDecl>(d)) {
                    json::Object o = Node("ref", e);
                    o["n"] = v->getNameAsString();
                    o["dk"] = "global";
                    o["d"] = VarId(v);
                    o["q"] = Qual(v);
                    return o;
                }
                json::Object o = Node("mem", e);
                o["b"] = E(m->getBase());
                o["f"] = d->getNameAsString();
                o["q"] = Qual(d);
                if (m->isArrow()) o["arrow"] = true;
                return o;
            }
            case Stmt::CallExprClass:
            case Stmt::CXXMemberCallExprClass:
            case Stmt::CXXOperatorCallExprClass:
            case Stmt::UserDefinedLiteralClass: {
                const auto* c = cast<CallExpr>(e);
                json::Object o = Node("call", e);
                const FunctionDecl* fd = c->getDirectCallee();
                std::vector<const Expr*> args(c->arg_begin(), c->arg_end());
                if (fd) {
                    FnRef(o, fd);
                } else {
                    o["fn"] = "";
                    o["ce"] = E(c->getCallee());
                }
                if (const auto* mc = dyn_cast<CXXMemberCallExpr>(c)) {
                    if (const auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
                        o["obj"] = E(me->getBase());
                        if (me->isArrow()) o["arrow"] = true;
                        if (me->hasQualifier()) o["nonvirt"] = true;
                    } else if (mc->getImplicitObjectArgument()) {
                        o["obj"] = E(mc->getImplicitObjectArgument());
                    }
                } else if (const auto* oc = dyn_cast<CXXOperatorCallExpr>(c)) {
                    o["oper"] = getOperatorSpelling(oc->getOperator());
                    if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic() && !args.empty()) {
                        o["obj"] = E(args[0]);
                        args.erase(args.begin());
                    }
                }
                o["a"] = Exprs(args);
                return o;
            }
            case Stmt::CXXConstructExprClass:
            case Stmt::CXXTemporaryObjectExprClass: {
                const auto* c = cast<CXXConstructExpr>(e);
                const CXXConstructorDecl* cd = c->getConstructor();
                if (c->isElidable() && c->getNumArgs() >= 1) return E(c->getArg(0));
                json::Object o = Node("construct", e);
                o["cls"] = Qual(cd->getParent());
                FnRef(o, cd);
                if (cd->isCopyConstructor()) o["copy"] = true;
                if (cd->isMoveConstructor()) o["move"] = true;
                if (cd->isDefaultConstructor()) o["dflt"] = true;
                if (c->isListInitialization()) o["list"] = true;
                std::vector<const Expr*> args(c->arg_begin(), c->arg_end());
                o["a"] = Exprs(args);
                return o;
            }
            case Stmt::CXXInheritedCtorInitExprClass:
                return Node("construct_inherited", e);
            case Stmt::CXXUnresolvedConstructExprClass: {
                const auto* c = cast<CXXUnresolvedConstructExpr>(e);
                json::Object o = Node("construct", e);
                o["cls"] = Type(c->getTypeAsWritten());
                o["fn"] = "";
                o["dep"] = true;
                std::vector<const Expr*> args(c->arg_begin(), c->arg_end());
                o["a"] = Exprs(args);
                return o;
            }
            case Stmt::CXXDependentScopeMemberExprClass: {
                const auto* m = cast<CXXDependentScopeMemberExpr>(e);
                json::Object o = Node("mem", e);
                o["b"] = m->isImplicitAccess() ? json::Value(Node("this", e)) : E(m->getBase());
                o["f"] = m->getMember().getAsString();
                o["q"] = "?::" + m->getMember().getAsString();
                o["dep"] = true;
                return o;
            }
            case Stmt::UnresolvedLookupExprClass: {
                json::Object o = Node("ref", e);
                o["n"] = cast<UnresolvedLookupExpr>(e)->getName().getAsString();
                o["dk"] = "unresolved";
                return o;
            }
            case Stmt::UnresolvedMemberExprClass: {
                const auto* m = cast<UnresolvedMemberExpr>(e);
                json::Object o = Node("mem", e);
                o["b"] = m->isImplicitAccess() ? json::Value(Node("this", e)) : E(m->getBase());
                o["f"] = m->getMemberName().getAsString();
                o["q"] = "?::" + m->getMemberName().getAsString();
                o["dep"] = true;
                return o;
            }
            case Stmt::DependentScopeDeclRefExprClass: {
                json::Object o = Node("ref", e);
                o["n"] = cast<DependentScopeDeclRefExpr>(e)->getDeclName().getAsString();
                o["dk"] = "unresolved";
                return o;
            }
            case Stmt::UnaryOperatorClass: {
                const auto* u = cast<UnaryOperator>(e);
                json::Object o = Node("un", e);
                std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
                if (u->isPostfix()) op = "p" + op;
                o["op"] = op;
                o["e"] = E(u->getSubExpr());
                return o;
            }
            case Stmt::BinaryOperatorClass:
            case Stmt::CompoundAssignOperatorClass: {
                const auto* b = cast<BinaryOperator>(e);
                json::Object o = Node(b->isAssignmentOp() ? "assign" : "bin", e);
                o["op"] = b->getOpcodeStr().str();
                if (const auto* ca = dyn_cast<CompoundAssignOperator>(b)) {
                    o["ct"] = Type(ca->getComputationResultType());
                }
                o["x"] = E(b->getLHS());
                o["y"] = E(b->getRHS());
                return o;
            }
            case Stmt::ConditionalOperatorClass: {
                const auto* c = cast<ConditionalOperator>(e);
                json::Object o = Node("cond", e);
                o["c"] = E(c->getCond());
                o["a"] = E(c->getTrueExpr());
                o["b"] = E(c->getFalseExpr());
                return o;
            }
            case Stmt::BinaryConditionalOperatorClass: {
                const auto* c = cast<BinaryConditionalOperator>(e);
                json::Object o = Node("cond", e);
                o["c"] = E(c->getCommon());
                o["a"] = E(c->getCommon());
                o["b"] = E(c->getFalseExpr());
                return o;
            }
            case Stmt::ArraySubscriptExprClass: {
                const auto* a = cast<ArraySubscriptExpr>(e);
                json::Object o = Node("idx", e);
                o["b"] = E(a->getBase());
                o["i"] = E(a->getIdx());
                return o;
            }
            case Stmt::LambdaExprClass: {
                const auto* l = cast<LambdaExpr>(e);
                json::Object o = Node("lambda", e);
                json::Array caps;
                auto it = l->capture_init_begin();
                for (const auto& c : l->captures()) {
                    json::Object co;
                    co["kind"] = c.capturesThis() ? "this" : (c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
                    if (c.capturesVariable()) {
                        co["n"] = c.getCapturedVar()->getNameAsString();
                        co["d"] = VarId(c.getCapturedVar());
                        co["t"] = Type(c.getCapturedVar()->getType());
                        if (l->isInitCapture(&c) && it != l->capture_init_end()) co["init"] = E(*it);
                    }
                    if (it != l->capture_init_end()) ++it;
                    caps.push_back(std::move(co));
                }
                o["caps"] = std::move(caps);
                const CXXMethodDecl* op = l->getCallOperator();
                o["id"] = Id(op);
                o["def"] = FnBody(op);
                return o;
            }
            case Stmt::CXXNewExprClass: {
                const auto* n = cast<CXXNewExpr>(e);
                json::Object o = Node("new", e);
                o["ty"] = Type(n->getAllocatedType());
                if (n->isArray()) o["arr"] = true;
                json::Array pa;
                for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) pa.push_back(E(n->getPlacementArg(i)));
                o["place"] = std::move(pa);
                if (n->isArray() && n->getArraySize()) o["n"] = E(*n->getArraySize());
                if (n->getInitializer()) o["init"] = E(n->getInitializer());
                return o;
            }
            case Stmt::CXXDeleteExprClass: {
                const auto* d = cast<CXXDeleteExpr>(e);
                json::Object o = Node("delete", e);
                o["e"] = E(d->getArgument());
                if (d->isArrayForm()) o["arr"] = true;
                return o;
            }
            case Stmt::CXXThrowExprClass: {
                json::Object o = Node("throw", e);
                o["e"] = E(cast<CXXThrowExpr>(e)->getSubExpr());
                return o;
            }
            case Stmt::InitListExprClass: {
                const auto* il = cast<InitListExpr>(e);
                if (const auto* sem = il->isSemanticForm() ? il : il->getSemanticForm()) il = sem;
                json::Object o = Node("init", e);
                std::vector<const Expr*> args(il->inits().begin(), il->inits().end());
                o["a"] = Exprs(args);
                return o;
            }
            case Stmt::ImplicitValueInitExprClass:
            case Stmt::CXXScalarValueInitExprClass:
                return Node("zero", e);
            case Stmt::UnaryExprOrTypeTraitExprClass: {
                json::Object o = Node("sizeof", e);
                const auto* s = cast<UnaryExprOrTypeTraitExpr>(e);
                if (s->isArgumentType()) o["ty"] = Type(s->getArgumentType());
                return o;
            }
            case Stmt::CXXTypeidExprClass:
                return Node("typeid", e);
            case Stmt::RecoveryExprClass: {
                json::Object o = Node("recovery", e);
                json::Array a;
                for (const auto* s : cast<RecoveryExpr>(e)->subExpressions()) a.push_back(E(s));
                o["a"] = std::move(a);
                return o;
            }
            default:
                break;
        }
        if (const auto* c = dyn_cast<CastExpr>(e)) {
            if (c->getCastKind() == CK_UserDefinedConversion || c->getCastKind() == CK_ConstructorConversion ||
                DropCast(c->getCastKind())) {
                // an explicit no-op cast of pointers keeps its sub expression only
                return E(c->getSubExpr());
            }
            json::Object o = Node("cast", e);
            o["ck"] = c->getCastKindName();
            o["to"] = Type(c->getType());
            o["e"] = E(c->getSubExpr());
            if (isa<ExplicitCastExpr>(c)) o["x"] = true;
            return o;
        }
        json::Object o = Node("other", e);
        o["cls"] = e->getStmtClassName();
        json::Array a;
        for (const Stmt* c : e->children()) {
            if (const auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(E(ce));
        }
        o["a"] = std::move(a);
        return o;
    }

    std::string VarId(const ValueDecl* d) {
        d = cast<ValueDecl>(d->getCanonicalDecl());
        return d->getNameAsString() + "@" + std::to_string(Line(d->getLocation())) + ":" +
               std::to_string(sm_.getExpansionColumnNumber(d->getLocation())) +
               (d->getLocation().isMacroID() ? "m" + std::to_string(sm_.getSpellingColumnNumber(d->getLocation())) : "");
    }

    json::Value Var(const VarDecl* v) {
        json::Object o;
        o["n"] = v->getNameAsString();
        o["d"] = VarId(v);
        o["t"] = Type(v->getType());
        o["l"] = Line(v->getLocation());
        if (v->getType()->isReferenceType()) o["isref"] = true;
        if (v->isStaticLocal()) o["static"] = true;
        if (v->isConstexpr()) o["constexpr"] = true;
        if (v->getInit()) o["init"] = E(v->getInit());
        if (const auto* dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array b;
            for (const auto* bd : dd->bindings()) {
                json::Object bo;
                bo["n"] = bd->getNameAsString();
                bo["d"] = VarId(bd);
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        return o;
    }

    json::Value S(const Stmt* s) {
        if (!s) return nullptr;
        if (const auto* e = dyn_cast<Expr>(s)) {
            json::Object o = Node("expr", s);
            o["e"] = E(e);
            return o;
        }
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                json::Object o = Node("comp", s);
                json::Array a;
                for (const Stmt* c : cast<CompoundStmt>(s)->body()) a.push_back(S(c));
                o["s"] = std::move(a);
                return o;
            }
            case Stmt::DeclStmtClass: {
                json::Object o = Node("decl", s);
                json::Array a;
                for (const Decl* d : cast<DeclStmt>(s)->decls()) {
                    if (const auto* v = dyn_cast<VarDecl>(d)) a.push_back(Var(v));
                }
                o["vars"] = std::move(a);
                return o;
            }
            case Stmt::IfStmtClass: {
                const auto* i = cast<IfStmt>(s);
                if (auto nd = i->getNondiscardedCase(ctx_)) {
                    if (i->isConstexpr()) return nd.value() ? S(nd.value()) : json::Value(Node("null_stmt", s));
                }
                json::Object o = Node("if", s);
                if (i->getInit()) o["init"] = S(i->getInit());
                if (i->getConditionVariable()) o["cvar"] = Var(i->getConditionVariable());
                if (i->isConstexpr()) o["constexpr"] = true;
                o["c"] = E(i->getCond());
                o["th"] = S(i->getThen());
                if (i->getElse()) o["el"] = S(i->getElse());
                return o;
            }
            case Stmt::WhileStmtClass: {
                const auto* w = cast<WhileStmt>(s);
                json::Object o = Node("while", s);
                if (w->getConditionVariable()) o["cvar"] = Var(w->getConditionVariable());
                o["c"] = E(w->getCond());
                o["b"] = S(w->getBody());
                return o;
            }
            case Stmt::DoStmtClass: {
                const auto* w = cast<DoStmt>(s);
                json::Object o = Node("do", s);
                o["c"] = E(w->getCond());
                o["b"] = S(w->getBody());
                return o;
            }
            case Stmt::ForStmtClass: {
                const auto* f = cast<ForStmt>(s);
                json::Object o = Node("for", s);
                if (f->getInit()) o["init"] = S(f->getInit());
                if (f->getCond()) o["c"] = E(f->getCond());
                if (f->getInc()) o["inc"] = E(f->getInc());
                o["b"] = S(f->getBody());
                return o;
            }
            case Stmt::CXXForRangeStmtClass: {
                const auto* f = cast<CXXForRangeStmt>(s);
                json::Object o = Node("rfor", s);
                o["var"] = Var(f->getLoopVariable());
                if (f->getRangeInit()) o["range"] = E(f->getRangeInit());
                o["b"] = S(f->getBody());
                return o;
            }
            case Stmt::SwitchStmtClass: {
                const auto* w = cast<SwitchStmt>(s);
                json::Object o = Node("switch", s);
                if (w->getInit()) o["init"] = S(w->getInit());
                if (w->getConditionVariable()) o["cvar"] = Var(w->getConditionVariable());
                o["c"] = E(w->getCond());
                o["b"] = S(w->getBody());
                return o;
            }
            case Stmt::CaseStmtClass: {
                const auto* c = cast<CaseStmt>(s);
                json::Object o = Node("case", s);
                o["v"] = E(c->getLHS());
                if (c->getRHS()) o["v2"] = E(c->getRHS());
                o["b"] = S(c->getSubStmt());
                return o;
            }
            case Stmt::DefaultStmtClass: {
                json::Object o = Node("default", s);
                o["b"] = S(cast<DefaultStmt>(s)->getSubStmt());
                return o;
            }
            case Stmt::ReturnStmtClass: {
                json::Object o = Node("ret", s);
                if (cast<ReturnStmt>(s)->getRetValue()) o["e"] = E(cast<ReturnStmt>(s)->getRetValue());
                return o;
            }
            case Stmt::BreakStmtClass:
                return Node("break", s);
            case Stmt::ContinueStmtClass:
                return Node("continue", s);
            case Stmt::NullStmtClass:
                return Node("null_stmt", s);
            case Stmt::CXXTryStmtClass: {
                const auto* t = cast<CXXTryStmt>(s);
                json::Object o = Node("try", s);
                o["b"] = S(t->getTryBlock());
                json::Array hs;
                for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                    const CXXCatchStmt* c = t->getHandler(i);
                    json::Object h = Node("catch", c);
                    if (c->getExceptionDecl()) {
                        h["var"] = Var(c->getExceptionDecl());
                    }
                    h["b"] = S(c->getHandlerBlock());
                    hs.push_back(std::move(h));
                }
                o["h"] = std::move(hs);
                return o;
            }
            case Stmt::LabelStmtClass: {
                json::Object o = Node("label", s);
                o["b"] = S(cast<LabelStmt>(s)->getSubStmt());
                return o;
            }
            case Stmt::GotoStmtClass:
                return Node("goto", s);
            case Stmt::AttributedStmtClass:
                return S(cast<AttributedStmt>(s)->getSubStmt());
            default:
                break;
        }
        json::Object o = Node("otherstmt", s);
        o["cls"] = s->getStmtClassName();
        return o;
    }

    json::Value FnBody(const FunctionDecl* fd) {
        json::Object o;
        FnRef(o, fd);
        o["file"] = FileOf(fd->getLocation());
        o["line"] = Line(fd->getLocation());
        o["ret"] = Type(fd->getReturnType());
        json::Array ps;
        for (const auto* p : fd->parameters()) {
            json::Object po;
            po["n"] = p->getNameAsString();
            po["d"] = VarId(p);
            po["t"] = Type(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (const auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = Qual(m->getParent());
            switch (m->getAccess()) {
                case AS_public: o["acc"] = "public"; break;
                case AS_private: o["acc"] = "private"; break;
                case AS_protected: o["acc"] = "protected"; break;
                default: break;
            }
            json::Array ov;
            for (const auto* om : m->overridden_methods()) ov.push_back(Qual(om));
            if (!ov.empty()) o["over"] = std::move(ov);
        }
        if (fd->isTemplateInstantiation()) o["inst"] = true;
        if (fd->isDependentContext()) o["dep"] = true;
        if (fd->isImplicit()) o["implicit"] = true;
        if (isa<CXXConstructorDecl>(fd)) {
            o["fk"] = "ctor";
            const auto* cd = cast<CXXConstructorDecl>(fd);
            if (cd->isCopyConstructor()) o["copy"] = true;
            if (cd->isMoveConstructor()) o["move"] = true;
            json::Array in;
            for (const auto* i : cd->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) {
                    io["f"] = i->getAnyMember()->getNameAsString();
                    io["q"] = Qual(i->getAnyMember());
                } else if (i->isBaseInitializer()) {
                    io["base"] = Type(QualType(i->getBaseClass(), 0));
                } else if (i->isDelegatingInitializer()) {
                    io["deleg"] = true;
                }
                if (i->isWritten()) io["w"] = true;
                io["e"] = E(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        } else if (isa<CXXDestructorDecl>(fd)) {
            o["fk"] = "dtor";
        } else if (isa<CXXConversionDecl>(fd)) {
            o["fk"] = "conv";
        } else {
            o["fk"] = isa<CXXMethodDecl>(fd) ? "method" : "func";
        }
        if (fd->hasBody()) o["body"] = S(fd->getBody());
        return o;
    }

    json::Value Record(const CXXRecordDecl* rd) {
        json::Object o;
        o["q"] = Qual(rd);
        std::string ta = TemplateArgs(rd);
        if (!ta.empty()) o["ta"] = ta;
        if (rd->isDependentContext()) {
            o["dep"] = true;
        } else if (ta.empty()) {
            // spelling used in types; differs from q for members of templates
            o["ty"] = Type(QualType(rd->getTypeForDecl(), 0));
        }
        o["file"] = FileOf(rd->getLocation());
        o["line"] = Line(rd->getLocation());
        json::Array fs;
        for (const auto* f : rd->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = Type(f->getType());
            fo["l"] = Line(f->getLocation());
            if (f->isMutable()) fo["mutable"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (const auto& b : rd->bases()) {
            if (const auto* br = b.getType()->getAsCXXRecordDecl()) {
                bs.push_back(Qual(br));
            } else {
                bs.push_back(Type(b.getType()));
            }
        }
        o["bases"] = std::move(bs);
        json::Array ms;
        for (const auto* m : rd->methods()) {
            json::Object mo;
            mo["n"] = m->getNameAsString();
            mo["id"] = Id(m);
            mo["ret"] = Type(m->getReturnType());
            if (m->isVirtual()) mo["virt"] = true;
            if (m->isPureVirtual()) mo["pure"] = true;
            if (m->isDeleted()) mo["deleted"] = true;
            if (m->isDefaulted()) mo["defaulted"] = true;
            if (m->isImplicit()) mo["implicit"] = true;
            if (m->isConst()) mo["const"] = true;
            if (m->isStatic()) mo["static"] = true;
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        return o;
    }

    json::Value Enum(const EnumDecl* ed) {
        json::Object o;
        o["q"] = Qual(ed);
        o["ut"] = Type(ed->getIntegerType());
        o["file"] = FileOf(ed->getLocation());
        o["line"] = Line(ed->getLocation());
        json::Array a;
        for (const auto* c : ed->enumerators()) {
            llvm::SmallString<32> buf;
            c->getInitVal().toString(buf, 10);
            a.push_back(json::Array{c->getNameAsString(), buf.str().str()});
        }
        o["e"] = std::move(a);
        return o;
    }

    json::Value Global(const VarDecl* v) {
        json::Object o = std::move(*Var(v).getAsObject());
        o["q"] = Qual(v);
        o["file"] = FileOf(v->getLocation());
        return o;
    }

 private:
    ASTContext& ctx_;
    SourceManager& sm_;
    PrintingPolicy pp_;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
    Visitor(ASTContext& ctx) : d_(ctx) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool VisitFunctionDecl(FunctionDecl* fd) {
        if (!fd->isThisDeclarationADefinition() || !fd->hasBody()) return true;
        if (const auto* m = dyn_cast<CXXMethodDecl>(fd)) {
            if (m->getParent()->isLambda()) return true;  // dumped in place
        }
        if (fd->isDefaulted() || fd->isDeleted()) return true;
        if (!d_.InRoots(fd->getLocation())) return true;
        if (!seen_.insert(fd).second) return true;
        fns.push_back(d_.FnBody(fd));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
        if (!rd->isThisDeclarationADefinition() || rd->isLambda()) return true;
        if (!d_.InRoots(rd->getLocation())) return true;
        recs.push_back(d_.Record(rd));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* ed) {
        if (!ed->isThisDeclarationADefinition()) return true;
        if (!d_.InRoots(ed->getLocation())) return true;
        enums.push_back(d_.Enum(ed));
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (isa<ParmVarDecl>(v) || v->isLocalVarDecl()) return true;
        if (!v->isThisDeclarationADefinition() && !v->getInit()) return true;
        if (!d_.InRoots(v->getLocation())) return true;
        globals.push_back(d_.Global(v));
        return true;
    }

    json::Array fns, recs, enums, globals;

 private:
    Dumper d_;
    std::set<const FunctionDecl*> seen_;
};

class Consumer : public ASTConsumer {
 public:
    explicit Consumer(CompilerInstance& ci) : ci_(ci) {}
    void HandleTranslationUnit(ASTContext& ctx) override {
        Visitor v(ctx);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        json::Array deps;
        SourceManager& sm = ctx.getSourceManager();
        for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
            std::string n = it->first.getName().str();
            for (const auto& r : g_roots) {
                if (n.compare(0, r.size(), r) == 0) deps.push_back(n);
            }
        }
        json::Object o;
        o["functions"] = std::move(v.fns);
        o["records"] = std::move(v.recs);
        o["enums"] = std::move(v.enums);
        o["globals"] = std::move(v.globals);
        o["deps"] = std::move(deps);
        o["errors"] = static_cast<int64_t>(ci_.getDiagnostics().getClient()->getNumErrors());
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << json::Value(std::move(o));
    }

 private:
    CompilerInstance& ci_;
};

class Action : public ASTFrontendAction {
 public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override {
        return std::make_unique<Consumer>(ci);
    }
};

}  // namespace

// pextract OUT ROOT[,ROOT...] FILE -- compiler args
int main(int argc, const char** argv) {
    if (argc < 5 || std::string(argv[4]) != "--") {
        llvm::errs() << "usage: pextract OUT ROOTS FILE -- args\n";
        return 2;
    }
    g_out = argv[1];
    std::string roots = argv[2];
    size_t at = 0;
    while (at <= roots.size()) {
        size_t c = roots.find(',', at);
        if (c == std::string::npos) c = roots.size();
        if (c > at) g_roots.push_back(roots.substr(at, c - at));
        at = c + 1;
    }
    std::vector<std::string> args(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db("/", args);
    tooling::ClangTool tool(db, {std::string(argv[3])});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    // parse errors are recorded in the dump; the caller decides
    (void)rc;
    return 0;
}
