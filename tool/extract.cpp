// bhx: dumps the resolved program of one translation unit as JSON.
//
// For every function with a body located under one of the --root directories (template
// instantiations, lambdas and constructors included) it writes the expression/statement tree with
// resolved callees, fields, types and constant values, and the clang control-flow graph over that
// tree.  It also writes records (fields in declaration order, bases, methods, special members),
// enums and namespace-scope / static variables.  It makes no judgement itself: the rules that do
// are in /verif/bha.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::string TU;
    std::map<const Decl*, std::string> declIds;
    unsigned nextDecl = 0;

    json::Object functions;
    json::Object records;
    json::Object enums;
    json::Object globals;
    std::set<const Decl*> done;
    std::vector<const FunctionDecl*> queue;

    Dumper(ASTContext& C, std::string tu) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), TU(std::move(tu)) {
        PP.SuppressTagKeyword = true;
        PP.SuppressInlineNamespace = PrintingPolicy{LangOptions{}}.SuppressInlineNamespace;
        PP.SuppressInlineNamespace = true;
        PP.FullyQualifiedName = true;
        PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.AnonymousTagLocations = false;
    }

    std::string file(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L);
        std::string s = F.str();
        // normalise /a/b/../c
        llvm::SmallString<256> P(s);
        llvm::sys::path::remove_dots(P, true);
        return std::string(P);
    }
    bool inRoots(SourceLocation L) {
        auto f = file(L);
        for (auto& r : Roots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    std::string loc(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "";
        return file(L) + ":" + std::to_string(P.getLine()) + ":" + std::to_string(P.getColumn());
    }
    std::string lc(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "";
        return std::to_string(P.getLine()) + ":" + std::to_string(P.getColumn());
    }
    std::string macro(SourceLocation L) {
        if (!L.isMacroID()) return "";
        // outermost macro whose expansion is in the roots
        std::string name;
        while (L.isMacroID()) {
            name = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
            L = SM.getImmediateMacroCallerLoc(L);
        }
        return name;
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string tyw(QualType T) {
        if (T.isNull()) return "";
        PrintingPolicy P2 = PP;
        P2.PrintCanonicalTypes = false;
        return T.getAsString(P2);
    }
    std::string qn(const NamedDecl* D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        os.flush();
        return s;
    }
    std::string qnt(const NamedDecl* D) {  // with template arguments of the entity itself
        std::string s;
        llvm::raw_string_ostream os(s);
        D->getNameForDiagnostic(os, PP, true);
        os.flush();
        return s;
    }
    std::string did(const Decl* D) {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        std::string id;
        if (auto* V = dyn_cast<VarDecl>(D); V && (V->hasGlobalStorage() && !V->isStaticLocal())) {
            id = "G:" + qnt(V);
            if (!V->isExternallyVisible()) id += "@" + file(V->getLocation());
        } else {
            id = TU + "#" + std::to_string(nextDecl++);
        }
        declIds[D] = id;
        return id;
    }
    std::map<const Decl*, std::string> keys;
    std::string fkey(const FunctionDecl* F) {
        F = F->getCanonicalDecl();
        auto it = keys.find(F);
        if (it != keys.end()) return it->second;
        std::string k;
        auto* M = dyn_cast<CXXMethodDecl>(F);
        if (M && M->getParent()->isLambda()) {
            const DeclContext* P = M->getParent()->getDeclContext();
            while (P && !isa<FunctionDecl>(P) && !P->isTranslationUnit()) P = P->getParent();
            std::string pk = P && isa<FunctionDecl>(P) ? fkey(cast<FunctionDecl>(P)) : TU;
            k = pk + "::lambda@" + loc(M->getParent()->getBeginLoc());
            std::string sig = ty(F->getType());
            k += "|" + sig;
        } else {
            llvm::SmallString<256> buf;
            index::generateUSRForDecl(F, buf);
            k = std::string(buf) + "|" + qnt(F) + "|" + ty(F->getType());
            if (!F->isExternallyVisible()) k += "@" + file(F->getLocation());
        }
        keys[F] = k;
        return k;
    }
    std::string rkey(const CXXRecordDecl* R) {
        auto s = ty(C.getRecordType(R));
        return s;
    }

    // ---------------------------------------------------------------- function bodies
    struct Fn {
        json::Object nodes;
        std::map<const Stmt*, int> ids;
        int next = 1;
        std::vector<const Stmt*> tryStack;
    };

    bool isNoexcept(const FunctionDecl* F) {
        auto* FPT = F->getType()->getAs<FunctionProtoType>();
        if (!FPT) return false;
        if (isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) {
            // destructors & defaulted: implicit noexcept unless said otherwise
            if (isa<CXXDestructorDecl>(F)) return true;
            return false;
        }
        return FPT->isNothrow();
    }

    json::Object fref(const FunctionDecl* F) {
        json::Object o;
        o["key"] = fkey(F);
        o["qn"] = qn(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = rkey(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->getParent()->isLambda()) o["lambda"] = true;
            json::Array ov;
            for (auto* B : M->overridden_methods()) ov.push_back(qn(B));
            if (!ov.empty()) o["over"] = std::move(ov);
            if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
                o["ctor"] = true;
                if (CD->isCopyConstructor()) o["copy"] = true;
                if (CD->isMoveConstructor()) o["move"] = true;
                if (CD->isDefaultConstructor()) o["dflt"] = true;
            }
            if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
            if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
            if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
        }
        if (isNoexcept(F)) o["nx"] = true;
        if (F->isNoReturn()) o["noreturn"] = true;
        if (F->isVariadic()) o["variadic"] = true;
        if (unsigned b = F->getBuiltinID()) o["builtin"] = (int64_t)b;
        o["ret"] = ty(F->getReturnType());
        json::Array ps;
        for (auto* P : F->parameters()) ps.push_back(ty(P->getType()));
        o["pt"] = std::move(ps);
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& A : TA->asArray()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                A.print(PP, os, true);
                ta.push_back(os.str());
            }
            o["ta"] = std::move(ta);
        }
        if (F->isImplicit() || F->isDefaulted()) o["implicit"] = true;
        if (F->isTrivial()) o["trivial"] = true;
        return o;
    }

    int visit(Fn& fn, const Stmt* S) {
        if (!S) return 0;
        auto it = fn.ids.find(S);
        if (it != fn.ids.end()) return it->second;
        int id = fn.next++;
        fn.ids[S] = id;
        json::Object o;
        o["k"] = S->getStmtClassName();
        o["l"] = lc(S->getBeginLoc());
        if (auto m = macro(S->getBeginLoc()); !m.empty()) o["mac"] = m;
        if (!fn.tryStack.empty()) o["try"] = fn.ids[fn.tryStack.back()];
        std::vector<const Stmt*> kids;
        auto addKids = [&](const Stmt* X) {
            for (const Stmt* c : X->children()) kids.push_back(c);
        };
        if (auto* E = dyn_cast<Expr>(S)) {
            o["t"] = ty(E->getType());
            if (E->isGLValue()) o["lv"] = true;
            if (!E->isValueDependent() && !E->isInstantiationDependent() && E->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                    auto v = R.Val.getInt();
                    if (v.isSigned() && v.getSignificantBits() <= 62) o["cv"] = (int64_t)v.getExtValue();
                    else if (v.isUnsigned() && v.getActiveBits() <= 62) o["cv"] = (int64_t)v.getZExtValue();
                    else o["cvs"] = llvm::toString(v, 10);
                }
            }
        }
        switch (S->getStmtClass()) {
        case Stmt::DeclRefExprClass: {
            auto* D = cast<DeclRefExpr>(S)->getDecl();
            json::Object d;
            d["name"] = D->getNameAsString();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                d["kind"] = "fn";
                d["fn"] = fref(F);
                enqueue(F);
            } else if (auto* V = dyn_cast<VarDecl>(D)) {
                d["kind"] = isa<ParmVarDecl>(V) ? "parm" : (V->hasGlobalStorage() ? (V->isStaticLocal() ? "slocal" : "global") : "var");
                d["id"] = did(V);
                d["t"] = ty(V->getType());
                if (V->hasGlobalStorage()) d["qn"] = qn(V);
                if (V->getTLSKind() != VarDecl::TLS_None) d["tls"] = true;
                if (V->isConstexpr()) d["constexpr"] = true;
                noteGlobal(V);
            } else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                d["kind"] = "enum";
                d["qn"] = qn(EC);
            } else {
                d["kind"] = D->getDeclKindName();
                d["qn"] = qn(D);
            }
            o["d"] = std::move(d);
            break;
        }
        case Stmt::MemberExprClass: {
            auto* M = cast<MemberExpr>(S);
            auto* D = M->getMemberDecl();
            json::Object d;
            d["name"] = D->getNameAsString();
            d["qn"] = qn(D);
            if (auto* F = dyn_cast<FieldDecl>(D)) {
                d["kind"] = "field";
                d["t"] = ty(F->getType());
                if (auto* R = dyn_cast<CXXRecordDecl>(F->getParent())) d["cls"] = rkey(R);
                if (F->isMutable()) d["mutable"] = true;
            } else if (auto* FF = dyn_cast<FunctionDecl>(D)) {
                d["kind"] = "fn";
                d["fn"] = fref(FF);
                enqueue(FF);
            } else if (auto* V = dyn_cast<VarDecl>(D)) {
                d["kind"] = "global";
                d["id"] = did(V);
                d["t"] = ty(V->getType());
            }
            o["m"] = std::move(d);
            if (M->isArrow()) o["arrow"] = true;
            addKids(S);
            break;
        }
        case Stmt::CXXThisExprClass:
            if (cast<CXXThisExpr>(S)->isImplicit()) o["imp"] = true;
            break;
        case Stmt::CallExprClass:
        case Stmt::CXXMemberCallExprClass:
        case Stmt::CXXOperatorCallExprClass:
        case Stmt::UserDefinedLiteralClass: {
            auto* E = cast<CallExpr>(S);
            if (auto* F = E->getDirectCallee()) {
                o["fn"] = fref(F);
                enqueue(F);
                if (auto* MC = dyn_cast<CXXMemberCallExpr>(E)) {
                    auto* ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens());
                    auto* M = dyn_cast<CXXMethodDecl>(F);
                    if (M && M->isVirtual() && ME && !ME->hasQualifier()) o["vcall"] = true;
                    if (auto* O = MC->getImplicitObjectArgument()) o["obj"] = visit(fn, O);
                    if (ME) o["arrow"] = ME->isArrow();
                } else if (auto* OC = dyn_cast<CXXOperatorCallExpr>(E)) {
                    o["op"] = getOperatorSpelling(OC->getOperator());
                    if (auto* M = dyn_cast<CXXMethodDecl>(F); M && M->isVirtual()) o["vcall"] = true;
                }
            } else {
                if (auto* MC = dyn_cast<CXXMemberCallExpr>(E)) {
                    if (auto* O = MC->getImplicitObjectArgument()) o["obj"] = visit(fn, O);
                }
                o["callee"] = visit(fn, E->getCallee());
            }
            json::Array args;
            for (auto* A : E->arguments()) args.push_back(visit(fn, A));
            o["args"] = std::move(args);
            addKids(S);
            break;
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass: {
            auto* E = cast<CXXConstructExpr>(S);
            o["fn"] = fref(E->getConstructor());
            enqueue(E->getConstructor());
            if (E->isElidable()) o["elid"] = true;
            if (E->isListInitialization()) o["list"] = true;
            json::Array args;
            for (auto* A : E->arguments()) args.push_back(visit(fn, A));
            o["args"] = std::move(args);
            addKids(S);
            break;
        }
        case Stmt::CXXInheritedCtorInitExprClass: {
            auto* E = cast<CXXInheritedCtorInitExpr>(S);
            o["fn"] = fref(E->getConstructor());
            enqueue(E->getConstructor());
            break;
        }
        case Stmt::CXXNewExprClass: {
            auto* E = cast<CXXNewExpr>(S);
            o["alloc"] = ty(E->getAllocatedType());
            json::Array pl;
            for (unsigned i = 0; i < E->getNumPlacementArgs(); ++i) pl.push_back(visit(fn, const_cast<CXXNewExpr*>(E)->getPlacementArg(i)));
            o["place"] = std::move(pl);
            if (E->getInitializer()) o["init"] = visit(fn, E->getInitializer());
            addKids(S);
            break;
        }
        case Stmt::CXXDeleteExprClass: {
            auto* E = cast<CXXDeleteExpr>(S);
            o["dt"] = ty(E->getDestroyedType());
            addKids(S);
            break;
        }
        case Stmt::LambdaExprClass: {
            auto* E = cast<LambdaExpr>(S);
            auto* Op = E->getCallOperator();
            o["lam"] = fkey(Op);
            enqueue(Op);
            json::Array caps;
            auto ii = E->capture_init_begin();
            for (auto& c : E->captures()) {
                json::Object co;
                if (c.capturesThis()) co["kind"] = "this";
                else if (c.capturesVariable()) {
                    co["kind"] = "var";
                    co["id"] = did(c.getCapturedVar());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    co["init"] = visit(fn, *ii);
                    if (c.getCapturedVar()->isInitCapture()) co["ic"] = true;
                    co["t"] = ty(cast<VarDecl>(c.getCapturedVar())->getType());
                } else co["kind"] = "other";
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            for (auto i = E->capture_init_begin(); i != E->capture_init_end(); ++i) kids.push_back(*i);
            break;
        }
        case Stmt::DeclStmtClass: {
            json::Array vs;
            for (auto* D : cast<DeclStmt>(S)->decls()) {
                if (auto* V = dyn_cast<VarDecl>(D)) {
                    json::Object v;
                    v["id"] = did(V);
                    v["name"] = V->getNameAsString();
                    v["t"] = ty(V->getType());
                    v["tw"] = tyw(V->getType());
                    if (V->isStaticLocal()) v["static"] = true;
                    if (V->getType()->isReferenceType()) v["ref"] = true;
                    if (auto* I = V->getInit()) v["init"] = visit(fn, I);
                    noteGlobal(V);
                    vs.push_back(std::move(v));
                }
            }
            o["vars"] = std::move(vs);
            addKids(S);
            break;
        }
        case Stmt::BinaryOperatorClass:
        case Stmt::CompoundAssignOperatorClass:
            o["op"] = BinaryOperator::getOpcodeStr(cast<BinaryOperator>(S)->getOpcode());
            if (cast<BinaryOperator>(S)->isAssignmentOp()) o["asg"] = true;
            addKids(S);
            break;
        case Stmt::UnaryOperatorClass:
            o["op"] = UnaryOperator::getOpcodeStr(cast<UnaryOperator>(S)->getOpcode());
            if (cast<UnaryOperator>(S)->isPostfix()) o["post"] = true;
            addKids(S);
            break;
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXDynamicCastExprClass:
        case Stmt::CXXFunctionalCastExprClass: {
            auto* E = cast<CastExpr>(S);
            o["ck"] = E->getCastKindName();
            if (auto* F = dyn_cast_or_null<FunctionDecl>(E->getConversionFunction())) { o["conv"] = fref(F); enqueue(F); }
            addKids(S);
            break;
        }
        case Stmt::StringLiteralClass: {
            auto* L = cast<StringLiteral>(S);
            if (L->isOrdinary() || L->isUTF8()) {
                std::string b = L->getBytes().str();
                o["s"] = json::isUTF8(b) ? b : json::fixUTF8(b);
            }
            break;
        }
        case Stmt::CharacterLiteralClass:
            o["ch"] = (int64_t)cast<CharacterLiteral>(S)->getValue();
            break;
        case Stmt::IntegerLiteralClass:
            o["iv"] = llvm::toString(cast<IntegerLiteral>(S)->getValue(), 10, false);
            break;
        case Stmt::CXXBoolLiteralExprClass:
            o["bv"] = cast<CXXBoolLiteralExpr>(S)->getValue();
            break;
        case Stmt::CXXDefaultArgExprClass:
            kids.push_back(cast<CXXDefaultArgExpr>(S)->getExpr());
            break;
        case Stmt::CXXDefaultInitExprClass:
            kids.push_back(cast<CXXDefaultInitExpr>(S)->getExpr());
            break;
        case Stmt::OpaqueValueExprClass:
            kids.push_back(cast<OpaqueValueExpr>(S)->getSourceExpr());
            break;
        case Stmt::CXXBindTemporaryExprClass: {
            auto* D = cast<CXXBindTemporaryExpr>(S)->getTemporary()->getDestructor();
            if (D) { o["dtor"] = fref(D); enqueue(D); }
            addKids(S);
            break;
        }
        case Stmt::CXXTryStmtClass: {
            auto* T = cast<CXXTryStmt>(S);
            json::Array hs;
            fn.tryStack.push_back(S);
            int b = visit(fn, T->getTryBlock());
            fn.tryStack.pop_back();
            o["tryblock"] = b;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) hs.push_back(visit(fn, T->getHandler(i)));
            o["handlers"] = std::move(hs);
            addKids(S);
            break;
        }
        case Stmt::CXXCatchStmtClass: {
            auto* H = cast<CXXCatchStmt>(S);
            if (H->getExceptionDecl()) {
                o["ct"] = ty(H->getCaughtType());
                o["var"] = did(H->getExceptionDecl());
            } else o["ct"] = "...";
            addKids(S);
            break;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto* F = cast<CXXForRangeStmt>(S);
            o["range"] = visit(fn, F->getRangeInit());
            o["cond"] = visit(fn, F->getCond());
            o["loopvar"] = visit(fn, F->getLoopVarStmt());
            o["body"] = visit(fn, F->getBody());
            addKids(S);
            break;
        }
        case Stmt::ForStmtClass: {
            auto* F = cast<ForStmt>(S);
            o["cond"] = visit(fn, F->getCond());
            o["body"] = visit(fn, F->getBody());
            addKids(S);
            break;
        }
        case Stmt::WhileStmtClass: {
            auto* F = cast<WhileStmt>(S);
            o["cond"] = visit(fn, F->getCond());
            o["body"] = visit(fn, F->getBody());
            addKids(S);
            break;
        }
        case Stmt::DoStmtClass: {
            auto* F = cast<DoStmt>(S);
            o["cond"] = visit(fn, F->getCond());
            o["body"] = visit(fn, F->getBody());
            addKids(S);
            break;
        }
        case Stmt::IfStmtClass: {
            auto* I = cast<IfStmt>(S);
            o["cond"] = visit(fn, I->getCond());
            o["then"] = visit(fn, I->getThen());
            if (I->getElse()) o["else"] = visit(fn, I->getElse());
            addKids(S);
            break;
        }
        case Stmt::SwitchStmtClass: {
            auto* I = cast<SwitchStmt>(S);
            o["cond"] = visit(fn, I->getCond());
            addKids(S);
            break;
        }
        case Stmt::CaseStmtClass: {
            auto* I = cast<CaseStmt>(S);
            o["lhs"] = visit(fn, I->getLHS());
            addKids(S);
            break;
        }
        case Stmt::ReturnStmtClass:
            if (auto* v = cast<ReturnStmt>(S)->getRetValue()) o["val"] = visit(fn, v);
            addKids(S);
            break;
        case Stmt::InitListExprClass: {
            auto* I = cast<InitListExpr>(S);
            if (!I->isSemanticForm() && I->getSemanticForm()) I = I->getSemanticForm();
            for (unsigned i = 0; i < I->getNumInits(); ++i) kids.push_back(I->getInit(i));
            if (auto* F = I->getInitializedFieldInUnion()) o["unionf"] = F->getNameAsString();
            break;
        }
        case Stmt::UnaryExprOrTypeTraitExprClass:
            break;  // unevaluated
        case Stmt::CXXNoexceptExprClass:
        case Stmt::CXXTypeidExprClass:
            break;
        case Stmt::MaterializeTemporaryExprClass: {
            auto* M = cast<MaterializeTemporaryExpr>(S);
            if (M->getExtendingDecl()) o["ext"] = did(M->getExtendingDecl());
            addKids(S);
            break;
        }
        default:
            addKids(S);
        }
        json::Array c;
        for (auto* x : kids) {
            if (!x) { c.push_back(0); continue; }
            c.push_back(visit(fn, x));
        }
        o["c"] = std::move(c);
        fn.nodes[std::to_string(id)] = std::move(o);
        return id;
    }

    void noteGlobal(const VarDecl* V) {
        if (!V->hasGlobalStorage()) return;
        if (!inRoots(V->getLocation())) return;
        auto id = did(V);
        if (globals.get(id)) return;
        json::Object o;
        o["name"] = V->getNameAsString();
        o["qn"] = qn(V);
        o["t"] = ty(V->getType());
        o["loc"] = loc(V->getLocation());
        o["const"] = V->getType().isConstQualified();
        o["constexpr"] = V->isConstexpr();
        o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        o["slocal"] = V->isStaticLocal();
        o["member"] = V->isStaticDataMember();
        globals[id] = std::move(o);
    }

    void enqueue(const FunctionDecl* F) {
        const FunctionDecl* D = nullptr;
        if (!F->hasBody(D)) {
            if (F->isImplicit() || F->isDefaulted()) {
                // Implicitly defined member: remember its owner only.
            }
            return;
        }
        if (done.count(D->getCanonicalDecl())) return;
        if (!inRoots(D->getLocation())) return;
        done.insert(D->getCanonicalDecl());
        queue.push_back(D);
    }

    void drain() {
        while (!queue.empty()) {
            auto* F = queue.back();
            queue.pop_back();
            dumpFn(F);
        }
    }

    void dumpFn(const FunctionDecl* F) {
        if (F->isDependentContext() || F->isInvalidDecl()) return;
        json::Object o = fref(F);
        o["file"] = file(F->getLocation());
        o["loc"] = loc(F->getLocation());
        o["qnt"] = qnt(F);
        o["name"] = F->getNameAsString();
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["refq"] = M->getRefQualifier() == RQ_LValue ? "&" : M->getRefQualifier() == RQ_RValue ? "&&" : "";
            if (M->getParent()->isLambda()) {
                const DeclContext* P = M->getParent()->getDeclContext();
                while (P && !isa<FunctionDecl>(P) && !P->isTranslationUnit()) P = P->getParent();
                if (P && isa<FunctionDecl>(P)) o["parent"] = fkey(cast<FunctionDecl>(P));
            }
            o["access"] = (int64_t)M->getAccess();
        }
        json::Array ps;
        for (auto* P : F->parameters()) {
            json::Object p;
            p["id"] = did(P);
            p["name"] = P->getNameAsString();
            p["t"] = ty(P->getType());
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        Fn fn;
        json::Array inits;
        if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
            for (auto* I : CD->inits()) {
                json::Object i;
                if (I->isAnyMemberInitializer()) {
                    i["field"] = I->getAnyMember()->getNameAsString();
                    i["fqn"] = qn(I->getAnyMember());
                    i["t"] = ty(I->getAnyMember()->getType());
                } else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer()) i["deleg"] = true;
                i["written"] = I->isWritten();
                i["init"] = visit(fn, I->getInit());
                inits.push_back(std::move(i));
            }
        }
        o["inits"] = std::move(inits);
        o["body"] = visit(fn, F->getBody());
        // CFG
        CFG::BuildOptions BO;
        BO.setAllAlwaysAdd();
        BO.PruneTriviallyFalseEdges = false;
        BO.AddImplicitDtors = true;
        BO.AddTemporaryDtors = true;
        BO.AddInitializers = true;
        BO.AddCXXDefaultInitExprInCtors = true;
        BO.AddStaticInitBranches = true;
        BO.AddEHEdges = false;
        auto cfg = CFG::buildCFG(F, F->getBody(), &C, BO);
        if (cfg) {
            json::Array blocks;
            for (auto* B : *cfg) {
                if (!B) continue;
                json::Object b;
                b["id"] = (int64_t)B->getBlockID();
                json::Array els;
                for (auto& E : *B) {
                    switch (E.getKind()) {
                    case CFGElement::Statement:
                    case CFGElement::Constructor:
                    case CFGElement::CXXRecordTypedCall: {
                        auto* S = E.castAs<CFGStmt>().getStmt();
                        els.push_back(visit(fn, S));
                        break;
                    }
                    case CFGElement::Initializer: {
                        auto* I = E.castAs<CFGInitializer>().getInitializer();
                        json::Object x;
                        x["e"] = "init";
                        if (I->isAnyMemberInitializer()) x["field"] = I->getAnyMember()->getNameAsString();
                        else if (I->isBaseInitializer()) x["base"] = ty(QualType(I->getBaseClass(), 0));
                        x["init"] = visit(fn, I->getInit());
                        els.push_back(std::move(x));
                        break;
                    }
                    case CFGElement::AutomaticObjectDtor: {
                        auto D = E.castAs<CFGAutomaticObjDtor>();
                        json::Object x;
                        x["e"] = "adtor";
                        x["var"] = did(D.getVarDecl());
                        x["t"] = ty(D.getVarDecl()->getType());
                        if (auto* DD = D.getDestructorDecl(C)) { x["fn"] = fref(DD); enqueue(DD); }
                        if (D.getTriggerStmt()) x["l"] = lc(D.getTriggerStmt()->getEndLoc());
                        els.push_back(std::move(x));
                        break;
                    }
                    case CFGElement::TemporaryDtor: {
                        auto D = E.castAs<CFGTemporaryDtor>();
                        json::Object x;
                        x["e"] = "tdtor";
                        auto* DD = D.getDestructorDecl(C);
                        if (DD) { x["fn"] = fref(DD); enqueue(DD); x["t"] = rkey(DD->getParent()); }
                        x["tmp"] = visit(fn, D.getBindTemporaryExpr());
                        els.push_back(std::move(x));
                        break;
                    }
                    case CFGElement::MemberDtor: {
                        auto D = E.castAs<CFGMemberDtor>();
                        json::Object x;
                        x["e"] = "mdtor";
                        x["field"] = D.getFieldDecl()->getNameAsString();
                        x["t"] = ty(D.getFieldDecl()->getType());
                        if (auto* DD = D.getDestructorDecl(C)) { x["fn"] = fref(DD); enqueue(DD); }
                        els.push_back(std::move(x));
                        break;
                    }
                    case CFGElement::BaseDtor: {
                        auto D = E.castAs<CFGBaseDtor>();
                        json::Object x;
                        x["e"] = "bdtor";
                        if (auto* DD = D.getDestructorDecl(C)) { x["fn"] = fref(DD); enqueue(DD); }
                        els.push_back(std::move(x));
                        break;
                    }
                    case CFGElement::DeleteDtor: {
                        json::Object x;
                        x["e"] = "ddtor";
                        auto D = E.castAs<CFGDeleteDtor>();
                        if (auto* DD = D.getDestructorDecl(C)) { x["fn"] = fref(DD); enqueue(DD); }
                        els.push_back(std::move(x));
                        break;
                    }
                    default:
                        break;
                    }
                }
                b["els"] = std::move(els);
                json::Array sc;
                for (auto& s : B->succs()) {
                    const CFGBlock* x = s.getReachableBlock();
                    if (!x) x = s.getPossiblyUnreachableBlock();
                    sc.push_back(x ? (int64_t)x->getBlockID() : (int64_t)-1);
                }
                b["succ"] = std::move(sc);
                if (auto T = B->getTerminator(); T.isValid()) {
                    json::Object t;
                    if (T.getStmt()) {
                        t["s"] = visit(fn, T.getStmt());
                        t["k"] = T.getStmt()->getStmtClassName();
                    }
                    t["tk"] = (int64_t)T.getKind();
                    if (auto* cnd = B->getTerminatorCondition(false)) t["cond"] = visit(fn, cnd);
                    b["term"] = std::move(t);
                }
                if (auto* L = B->getLabel()) {
                    b["label"] = visit(fn, L);
                }
                if (B->hasNoReturnElement()) b["noret"] = true;
                blocks.push_back(std::move(b));
            }
            json::Object g;
            g["blocks"] = std::move(blocks);
            g["entry"] = (int64_t)cfg->getEntry().getBlockID();
            g["exit"] = (int64_t)cfg->getExit().getBlockID();
            o["cfg"] = std::move(g);
        }
        o["nodes"] = std::move(fn.nodes);
        auto k = fkey(F);
        functions[k] = std::move(o);
    }

    // ---------------------------------------------------------------- records
    void dumpRecord(const CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isInvalidDecl()) return;
        auto k = rkey(R);
        if (records.get(k)) return;
        json::Object o;
        o["qn"] = qn(R);
        o["loc"] = loc(R->getLocation());
        o["file"] = file(R->getLocation());
        o["lambda"] = R->isLambda();
        o["union"] = R->isUnion();
        o["abstract"] = R->isAbstract();
        o["poly"] = R->isPolymorphic();
        if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["tmpl"] = qn(TS->getSpecializedTemplate());
        json::Array bs;
        for (auto& B : R->bases()) {
            json::Object b;
            b["t"] = ty(B.getType());
            b["access"] = (int64_t)B.getAccessSpecifier();
            b["virt"] = B.isVirtual();
            bs.push_back(std::move(b));
        }
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* F : R->fields()) {
            json::Object f;
            f["name"] = F->getNameAsString();
            f["t"] = ty(F->getType());
            f["tw"] = tyw(F->getType());
            f["loc"] = loc(F->getLocation());
            f["mutable"] = F->isMutable();
            f["const"] = F->getType().isConstQualified();
            f["ref"] = F->getType()->isReferenceType();
            f["ptr"] = F->getType()->isPointerType();
            f["init"] = F->hasInClassInitializer();
            f["access"] = (int64_t)F->getAccess();
            auto T = F->getType();
            f["scalar"] = T->isScalarType();
            // does default-initialisation leave it indeterminate?
            bool indet = T->isScalarType() && !F->hasInClassInitializer();
            if (auto* RD = T->getAsCXXRecordDecl(); RD && RD->hasDefinition() && !F->hasInClassInitializer())
                indet = RD->hasTrivialDefaultConstructor() && !RD->isEmpty();
            f["indet"] = indet;
            fs.push_back(std::move(f));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        auto addMethod = [&](const CXXMethodDecl* M) {
            json::Object m = fref(M);
            m["name"] = M->getNameAsString();
            m["loc"] = loc(M->getLocation());
            m["deleted"] = M->isDeleted();
            m["defaulted"] = M->isDefaulted();
            m["userprovided"] = M->isUserProvided();
            m["pure"] = M->isPureVirtual();
            m["access"] = (int64_t)M->getAccess();
            m["refq"] = M->getRefQualifier() == RQ_LValue ? "&" : M->getRefQualifier() == RQ_RValue ? "&&" : "";
            if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) m["explicit"] = CD->isExplicit();
            ms.push_back(std::move(m));
        };
        for (auto* M : R->methods()) addMethod(M);
        for (auto* D : R->decls())
            if (auto* FT = dyn_cast<FunctionTemplateDecl>(D))
                for (auto* S : FT->specializations())
                    if (auto* M = dyn_cast<CXXMethodDecl>(S)) addMethod(M);
        o["methods"] = std::move(ms);
        json::Object sp;
        auto* RR = const_cast<CXXRecordDecl*>(R);
        sp["copy_ctor"] = RR->hasSimpleCopyConstructor() ? "simple" : "other";
        sp["user_copy_ctor"] = RR->hasUserDeclaredCopyConstructor();
        sp["user_move_ctor"] = RR->hasUserDeclaredMoveConstructor();
        sp["user_copy_assign"] = RR->hasUserDeclaredCopyAssignment();
        sp["user_move_assign"] = RR->hasUserDeclaredMoveAssignment();
        sp["user_dtor"] = RR->hasUserDeclaredDestructor();
        sp["implicit_copy_ctor"] = RR->needsImplicitCopyConstructor() || [&] { for (auto* c : R->ctors()) if (c->isCopyConstructor() && !c->isDeleted()) return true; return false; }();
        sp["implicit_move_ctor"] = RR->needsImplicitMoveConstructor();
        sp["needs_copy_assign"] = RR->needsImplicitCopyAssignment();
        sp["needs_move_assign"] = RR->needsImplicitMoveAssignment();
        sp["dfl_copy_deleted"] = !RR->needsOverloadResolutionForCopyConstructor() && RR->needsImplicitCopyConstructor() && RR->defaultedCopyConstructorIsDeleted();
        sp["dfl_move_deleted"] = !RR->needsOverloadResolutionForMoveConstructor() && RR->needsImplicitMoveConstructor() && RR->defaultedMoveConstructorIsDeleted();
        sp["trivial_dflt"] = RR->hasTrivialDefaultConstructor();
        sp["triv_copyable"] = RR->isTriviallyCopyable();
        if (auto* D = RR->getDestructor()) {
            sp["virt_dtor"] = D->isVirtual();
            sp["dtor_nx"] = isNoexcept(D);
        } else sp["virt_dtor"] = false;
        o["special"] = std::move(sp);
        records[k] = std::move(o);
    }

    void dumpEnum(const EnumDecl* E) {
        if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return;
        json::Object o;
        o["qn"] = qn(E);
        o["loc"] = loc(E->getLocation());
        json::Array cs;
        for (auto* c : E->enumerators()) {
            json::Object x;
            x["name"] = c->getNameAsString();
            x["v"] = (int64_t)c->getInitVal().getExtValue();
            cs.push_back(std::move(x));
        }
        o["consts"] = std::move(cs);
        enums[ty(C.getEnumType(E))] = std::move(o);
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
    Dumper& D;

public:
    explicit Visitor(Dumper& D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool TraverseDecl(Decl* X) {
        if (!X) return true;
        // Do not walk into system declarations.
        if (!isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X)) {
            auto L = X->getLocation();
            if (L.isValid() && !D.inRoots(L)) return true;
        }
        return RecursiveASTVisitor<Visitor>::TraverseDecl(X);
    }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (F->isDependentContext()) return true;
        if (F->doesThisDeclarationHaveABody()) D.enqueue(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        D.dumpRecord(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        D.dumpEnum(E);
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (V->isInvalidDecl() || V->getDeclContext()->isDependentContext()) return true;
        D.noteGlobal(V);
        return true;
    }
};

class Consumer : public ASTConsumer {
    CompilerInstance& CI;
    std::string In;

public:
    Consumer(CompilerInstance& CI, std::string In) : CI(CI), In(std::move(In)) {}
    void HandleTranslationUnit(ASTContext& C) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C, llvm::sys::path::filename(In).str() + "@" + std::to_string(std::hash<std::string>{}(In) % 100000));
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        D.drain();
        json::Object top;
        top["tu"] = In;
        top["functions"] = std::move(D.functions);
        top["records"] = std::move(D.records);
        top["enums"] = std::move(D.enums);
        top["globals"] = std::move(D.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        if (ec) { llvm::errs() << ec.message() << "\n"; exit(3); }
        os << json::Value(std::move(top));
    }
};

class Action : public ASTFrontendAction {
protected:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef In) override {
        return std::make_unique<Consumer>(CI, In.str());
    }
};

}  // namespace

int main(int argc, const char** argv) {
    // bhx OUT SOURCE --root DIR... -- FLAGS...
    if (argc < 4) return 2;
    OutPath = argv[1];
    std::string src = argv[2];
    int i = 3;
    for (; i < argc && std::string(argv[i]) != "--"; ++i)
        if (std::string(argv[i]) == "--root") Roots.push_back(argv[++i]);
    std::vector<std::string> flags;
    for (++i; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    // gcc (the project's compiler) orders `binary_unit<Rep, ratio<1, D>>` with an unsigned D before
    // `binary_unit<Rep, ratio<1>>`; clang follows the letter of the standard (non-type argument of
    // another type) and calls the two ambiguous.  Present the parameter with ratio's own type.
    std::vector<std::string> keep;
    for (auto& r : Roots) {
        std::string p = r + "/blackhole/sink/file.hpp";
        auto B = llvm::MemoryBuffer::getFile(p);
        if (!B) continue;
        std::string t = (*B)->getBuffer().str();
        const std::string from = "std::uintmax_t Denom", to = "std::intmax_t  Denom";
        for (size_t at = 0; (at = t.find(from, at)) != std::string::npos;) t.replace(at, from.size(), to);
        keep.push_back(p);
        keep.push_back(t);
    }
    for (size_t k = 0; k + 1 < keep.size(); k += 2) tool.mapVirtualFile(keep[k], keep[k + 1]);
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster(tooling::getClangStripOutputAdjuster());
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
