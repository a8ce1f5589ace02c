// Typed-AST extractor for nymea-remoteproxy (libTooling, clang 18).
// Emits one JSON document per translation unit: classes, functions (with bodies in a small
// statement/expression language, all callees and declarations resolved) and global variables.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Attr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MemoryBuffer.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string Root;   // repository root
static std::string OutPath;

namespace {

struct Extractor : public RecursiveASTVisitor<Extractor> {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    Array Functions, Classes, Globals;
    std::map<const Decl *, int> Ids;
    std::set<const Decl *> DoneFn, DoneCls;
    int NextId = 1;

    Extractor(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    int idOf(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end()) return it->second;
        return Ids[D] = NextId++;
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!FE) return "";
        std::string p = FE->getFileEntry().tryGetRealPathName().str();
        if (p.empty()) p = FE->getName().str();
        return p;
    }
    unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    unsigned colOf(SourceLocation L) { return SM.getExpansionColumnNumber(L); }
    bool inRepo(SourceLocation L) {
        std::string f = fileOf(L);
        return f.compare(0, Root.size() + 1, Root + "/") == 0;
    }
    std::string rel(const std::string &f) {
        if (f.compare(0, Root.size() + 1, Root + "/") == 0) return f.substr(Root.size() + 1);
        return f;
    }

    std::string ty(QualType T) {
        if (T.isNull()) return "?";
        T = T.getCanonicalType();
        return T.getAsString(PP);
    }

    std::string qname(const NamedDecl *D) {
        if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
            const CXXRecordDecl *R = M->getParent();
            if (R->isLambda()) return lambdaId(R);
            return rname(R) + "::" + M->getNameAsString();
        }
        return D->getQualifiedNameAsString();
    }
    // class names without template arguments for templates ("QHash"), full otherwise
    std::string rname(const CXXRecordDecl *R) {
        if (R->isLambda()) return lambdaId(R);
        return R->getQualifiedNameAsString();
    }
    std::string lambdaId(const CXXRecordDecl *R) {
        SourceLocation L = R->getBeginLoc();
        return "lambda@" + rel(fileOf(L)) + ":" + std::to_string(lineOf(L)) + ":" + std::to_string(colOf(L));
    }

    std::string fid(const FunctionDecl *F) {
        if (auto *P = F->getTemplateInstantiationPattern()) {
            (void)P;
        }
        std::string s = qname(F);
        if (s == "main") s = rel(fileOf(F->getLocation())) + ":main";
        if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F))
            s = rel(fileOf(F->getLocation())) + ":" + s;
        s += "(";
        bool first = true;
        for (auto *P : F->parameters()) {
            if (!first) s += ",";
            first = false;
            s += ty(P->getType());
        }
        s += ")";
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst()) s += "const";
        return s;
    }

    // ---------------------------------------------------------------- helpers
    const StringLiteral *qliteral(const Stmt *S) {
        bool named = false;
        const StringLiteral *res = nullptr;
        std::vector<const Stmt *> todo{S};
        while (!todo.empty()) {
            const Stmt *X = todo.back();
            todo.pop_back();
            if (!X) continue;
            if (auto *DS = dyn_cast<DeclStmt>(X))
                for (auto *D : DS->decls())
                    if (auto *VD = dyn_cast<VarDecl>(D)) {
                        std::string n = VD->getNameAsString();
                        if (n == "qstring_literal" || n == "qbytearray_literal") named = true;
                        if (VD->getInit()) todo.push_back(VD->getInit());
                    }
            if (auto *SL = dyn_cast<StringLiteral>(X)) res = SL;
            for (const Stmt *Ch : X->children()) todo.push_back(Ch);
        }
        return named ? res : nullptr;
    }
    Object mk(const char *k, SourceLocation L) {
        Object o;
        o["k"] = k;
        o["l"] = (int64_t)lineOf(L);
        return o;
    }
    static Value null() { return Value(nullptr); }

    bool isLogFor(const ForStmt *F) {
        auto *DS = dyn_cast_or_null<DeclStmt>(F->getInit());
        if (!DS || !DS->isSingleDecl()) return false;
        auto *VD = dyn_cast<VarDecl>(DS->getSingleDecl());
        return VD && VD->getName() == "qt_category_enabled";
    }
    const VarDecl *foreachVar(const ForStmt *F) {
        auto *DS = dyn_cast_or_null<DeclStmt>(F->getInit());
        if (!DS || !DS->isSingleDecl()) return nullptr;
        auto *VD = dyn_cast<VarDecl>(DS->getSingleDecl());
        if (!VD) return nullptr;
        if (VD->getNameAsString().rfind("_container_", 0) == 0) return VD;
        return nullptr;
    }

    // ---------------------------------------------------------------- statements
    Value stmt(const Stmt *S) {
        if (!S) return null();
        if (auto *E = dyn_cast<Expr>(S)) {
            Object o = mk("expr", S->getBeginLoc());
            o["e"] = expr(E);
            return o;
        }
        switch (S->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            Object o = mk("block", S->getBeginLoc());
            Array a;
            for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
            o["el"] = (int64_t)lineOf(S->getEndLoc());
            return o;
        }
        case Stmt::DeclStmtClass: {
            Object o = mk("decl", S->getBeginLoc());
            Array a;
            for (auto *D : cast<DeclStmt>(S)->decls()) {
                if (auto *VD = dyn_cast<VarDecl>(D)) {
                    Object v;
                    v["id"] = idOf(VD);
                    v["n"] = VD->getNameAsString();
                    v["t"] = ty(VD->getType());
                    v["l"] = (int64_t)lineOf(VD->getLocation());
                    v["static"] = VD->isStaticLocal();
                    v["ref"] = VD->getType()->isReferenceType();
                    v["init"] = VD->hasInit() ? expr(VD->getInit()) : null();
                    a.push_back(std::move(v));
                }
            }
            o["d"] = std::move(a);
            return o;
        }
        case Stmt::IfStmtClass: {
            auto *I = cast<IfStmt>(S);
            Object o = mk("if", S->getBeginLoc());
            o["init"] = stmt(I->getInit());
            if (I->getConditionVariableDeclStmt()) o["cv"] = stmt(I->getConditionVariableDeclStmt());
            o["c"] = expr(I->getCond());
            o["t"] = stmt(I->getThen());
            o["f"] = stmt(I->getElse());
            return o;
        }
        case Stmt::WhileStmtClass: {
            auto *W = cast<WhileStmt>(S);
            Object o = mk("while", S->getBeginLoc());
            if (W->getConditionVariableDeclStmt()) o["cv"] = stmt(W->getConditionVariableDeclStmt());
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::DoStmtClass: {
            auto *W = cast<DoStmt>(S);
            Object o = mk("do", S->getBeginLoc());
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::ForStmtClass: {
            auto *F = cast<ForStmt>(S);
            if (isLogFor(F)) {
                Object o = mk("log", S->getBeginLoc());
                if (auto *B = dyn_cast_or_null<Expr>(F->getBody())) o["e"] = expr(B);
                else o["s"] = stmt(F->getBody());
                return o;
            }
            if (auto *CV = foreachVar(F)) {
                // Q_FOREACH expansion
                const Expr *range = CV->getInit();
                const Expr *r = range->IgnoreImplicit();
                if (auto *EWC = dyn_cast<ExprWithCleanups>(r)) r = EWC->getSubExpr()->IgnoreImplicit();
                while (true) {
                    if (auto *CE = dyn_cast<CXXConstructExpr>(r)) {
                        if (CE->getNumArgs() >= 1) { r = CE->getArg(0)->IgnoreImplicit(); continue; }
                    }
                    if (auto *CL = dyn_cast<CallExpr>(r)) {
                        if (CL->getNumArgs() >= 1) { r = CL->getArg(0); }
                    }
                    break;
                }
                const ForStmt *inner = dyn_cast_or_null<ForStmt>(F->getBody());
                if (inner) {
                    Object o = mk("rfor", S->getBeginLoc());
                    o["r"] = expr(r);
                    if (auto *DS = dyn_cast_or_null<DeclStmt>(inner->getInit())) {
                        auto *VD = dyn_cast<VarDecl>(DS->getSingleDecl());
                        Object v;
                        v["id"] = idOf(VD);
                        v["n"] = VD->getNameAsString();
                        v["t"] = ty(VD->getType());
                        v["ref"] = VD->getType()->isReferenceType();
                        o["v"] = std::move(v);
                    }
                    o["b"] = stmt(inner->getBody());
                    return o;
                }
            }
            Object o = mk("for", S->getBeginLoc());
            o["init"] = stmt(F->getInit());
            if (F->getConditionVariableDeclStmt()) o["cv"] = stmt(F->getConditionVariableDeclStmt());
            o["c"] = F->getCond() ? expr(F->getCond()) : null();
            o["inc"] = F->getInc() ? expr(F->getInc()) : null();
            o["b"] = stmt(F->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *F = cast<CXXForRangeStmt>(S);
            Object o = mk("rfor", S->getBeginLoc());
            o["r"] = expr(F->getRangeInit());
            auto *VD = F->getLoopVariable();
            Object v;
            v["id"] = idOf(VD);
            v["n"] = VD->getNameAsString();
            v["t"] = ty(VD->getType());
            v["ref"] = VD->getType()->isReferenceType();
            o["v"] = std::move(v);
            o["b"] = stmt(F->getBody());
            return o;
        }
        case Stmt::SwitchStmtClass: {
            auto *W = cast<SwitchStmt>(S);
            Object o = mk("switch", S->getBeginLoc());
            o["c"] = expr(W->getCond());
            o["ty"] = ty(W->getCond()->IgnoreImpCasts()->getType());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::CaseStmtClass: {
            auto *K = cast<CaseStmt>(S);
            Object o = mk("case", S->getBeginLoc());
            o["v"] = expr(K->getLHS());
            o["s"] = stmt(K->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass: {
            Object o = mk("default", S->getBeginLoc());
            o["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
            return o;
        }
        case Stmt::ReturnStmtClass: {
            Object o = mk("return", S->getBeginLoc());
            auto *R = cast<ReturnStmt>(S)->getRetValue();
            o["e"] = R ? expr(R) : null();
            return o;
        }
        case Stmt::BreakStmtClass: return mk("break", S->getBeginLoc());
        case Stmt::ContinueStmtClass: return mk("continue", S->getBeginLoc());
        case Stmt::NullStmtClass: return mk("null", S->getBeginLoc());
        case Stmt::CXXTryStmtClass: {
            auto *T = cast<CXXTryStmt>(S);
            Object o = mk("try", S->getBeginLoc());
            o["b"] = stmt(T->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) hs.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
            o["h"] = std::move(hs);
            return o;
        }
        case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
        default: {
            Object o = mk("unknown", S->getBeginLoc());
            o["cls"] = S->getStmtClassName();
            return o;
        }
        }
    }

    // ---------------------------------------------------------------- expressions
    Value varRef(const ValueDecl *D, SourceLocation L, QualType T) {
        Object o = mk("var", L);
        o["n"] = D->getNameAsString();
        o["t"] = ty(T);
        o["id"] = idOf(D);
        if (auto *VD = dyn_cast<VarDecl>(D)) {
            if (isa<ParmVarDecl>(VD)) o["vk"] = "param";
            else if (VD->isStaticDataMember() || VD->hasGlobalStorage()) {
                o["vk"] = VD->isStaticLocal() ? "slocal" : "global";
                o["q"] = VD->getQualifiedNameAsString();
                if (VD->isStaticDataMember()) o["q"] = qnameField(VD);
            } else o["vk"] = "local";
        }
        return o;
    }
    std::string qnameField(const ValueDecl *VD) { return VD->getQualifiedNameAsString(); }

    bool tryConst(const Expr *E, Object &o) {
        if (E->isValueDependent() || E->isTypeDependent()) return false;
        QualType T = E->getType();
        if (!T->isIntegralOrEnumerationType()) return false;
        if (!E->isPRValue()) return false;
        Expr::EvalResult R;
        if (!E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return false;
        llvm::APSInt V = R.Val.getInt();
        if (T->isBooleanType()) { o["k"] = "const"; o["v"] = V != 0; }
        else { o["k"] = "const"; o["v"] = (int64_t)V.getExtValue(); }
        o["t"] = ty(T);
        // keep enumerator name
        const Expr *I = E->IgnoreParenImpCasts();
        if (auto *DR = dyn_cast<DeclRefExpr>(I))
            if (auto *EC = dyn_cast<EnumConstantDecl>(DR->getDecl())) o["en"] = EC->getQualifiedNameAsString();
        return true;
    }

    Value callArgs(llvm::ArrayRef<const Expr *> args, const FunctionDecl *F = nullptr) {
        Array a;
        for (auto *x : args) {
            if (isa<CXXDefaultArgExpr>(x)) {
                Value v = expr(cast<CXXDefaultArgExpr>(x)->getExpr());
                if (auto *ob = v.getAsObject()) (*ob)["def"] = true;
                a.push_back(std::move(v));
            } else
                a.push_back(expr(x));
        }
        return Value(std::move(a));
    }

    void calleeInfo(Object &o, const FunctionDecl *F, bool devirt) {
        o["f"] = fid(F);
        o["n"] = qname(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual() && !devirt) o["virt"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["cm"] = true;
        }
        if (inRepo(F->getLocation())) o["repo"] = true;
        // by-reference parameter mask (non const reference)
        Array rm;
        bool any = false;
        for (auto *P : F->parameters()) {
            QualType T = P->getType();
            int m = 0;
            if (T->isLValueReferenceType() && !T->getPointeeType().isConstQualified()) { m = 1; any = true; }
            rm.push_back(m);
        }
        if (any) o["rm"] = std::move(rm);
    }

    Value expr(const Expr *E) {
        if (!E) return null();
        SourceLocation L = E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc();
        {
            Object o = mk("const", L);
            if (tryConst(E, o)) return o;
        }
        switch (E->getStmtClass()) {
        case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
        case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
        case Stmt::MaterializeTemporaryExprClass: return expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
        case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
        case Stmt::CXXStdInitializerListExprClass: return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXDynamicCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXReinterpretCastExprClass: {
            auto *CE = cast<CastExpr>(E);
            switch (CE->getCastKind()) {
            case CK_IntegralCast: {
                QualType From = CE->getSubExpr()->getType(), To = CE->getType();
                if (From->isEnumeralType() || To->isEnumeralType()) {
                    if (!(To->isIntegerType() && !To->isEnumeralType() && C.getTypeSize(To) < C.getTypeSize(From)))
                        return expr(CE->getSubExpr());
                }
                Object o = mk("icast", L);
                o["t"] = ty(To);
                o["from"] = ty(From);
                o["bits"] = (int64_t)C.getIntWidth(To);
                o["sgn"] = To->isSignedIntegerOrEnumerationType();
                o["fbits"] = (int64_t)C.getIntWidth(From);
                o["fsgn"] = From->isSignedIntegerOrEnumerationType();
                o["impl"] = isa<ImplicitCastExpr>(E);
                o["e"] = expr(CE->getSubExpr());
                return o;
            }
            case CK_NullToPointer: {
                Object o = mk("const", L);
                o["v"] = nullptr;
                o["t"] = "null";
                return o;
            }
            case CK_PointerToBoolean: {
                Object o = mk("tobool", L);
                o["e"] = expr(CE->getSubExpr());
                return o;
            }
            case CK_IntegralToBoolean:
            case CK_FloatingToBoolean: {
                Object o = mk("tobool", L);
                o["e"] = expr(CE->getSubExpr());
                o["int"] = true;
                return o;
            }
            case CK_Dynamic: {
                Object o = mk("dyncast", L);
                o["t"] = ty(CE->getType());
                o["e"] = expr(CE->getSubExpr());
                return o;
            }
            case CK_BaseToDerived: {
                Object o = mk("downcast", L);
                o["t"] = ty(CE->getType());
                o["e"] = expr(CE->getSubExpr());
                return o;
            }
            default: return expr(CE->getSubExpr());
            }
        }
        case Stmt::IntegerLiteralClass:
        case Stmt::CXXBoolLiteralExprClass:
        case Stmt::CharacterLiteralClass: break; // handled by tryConst
        case Stmt::FloatingLiteralClass: {
            Object o = mk("const", L);
            o["v"] = cast<FloatingLiteral>(E)->getValueAsApproximateDouble();
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::StringLiteralClass: {
            Object o = mk("const", L);
            auto *SL = cast<StringLiteral>(E);
            std::string s;
            if (SL->getCharByteWidth() == 1) s = SL->getString().str();
            else {
                for (unsigned i = 0; i < SL->getLength(); ++i) s += (char)(SL->getCodeUnit(i) & 0x7f);
            }
            o["v"] = llvm::json::fixUTF8(s);
            o["t"] = "str";
            return o;
        }
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass: {
            Object o = mk("const", L);
            o["v"] = nullptr;
            o["t"] = "null";
            return o;
        }
        case Stmt::CXXThisExprClass: {
            Object o = mk("this", L);
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::DeclRefExprClass: {
            auto *D = cast<DeclRefExpr>(E)->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                Object o = mk("fn", L);
                o["f"] = fid(F);
                o["n"] = qname(F);
                return o;
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                Object o = mk("const", L);
                o["v"] = (int64_t)EC->getInitVal().getExtValue();
                o["en"] = EC->getQualifiedNameAsString();
                o["t"] = ty(E->getType());
                return o;
            }
            return varRef(D, L, E->getType());
        }
        case Stmt::MemberExprClass: {
            auto *M = cast<MemberExpr>(E);
            auto *D = M->getMemberDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                Object o = mk("fn", L);
                o["f"] = fid(F);
                o["n"] = qname(F);
                o["b"] = expr(M->getBase());
                return o;
            }
            if (auto *VD = dyn_cast<VarDecl>(D)) return varRef(VD, L, E->getType());
            Object o = mk("mem", L);
            std::string cls = "?";
            if (auto *FD = dyn_cast<FieldDecl>(D))
                if (auto *RD = dyn_cast<CXXRecordDecl>(FD->getParent())) cls = rname(RD);
            o["f"] = cls + "::" + D->getNameAsString();
            o["b"] = expr(M->getBase());
            o["arrow"] = M->isArrow();
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::UnaryOperatorClass: {
            auto *U = cast<UnaryOperator>(E);
            if (U->getOpcode() == UO_AddrOf) {
                const Expr *S = U->getSubExpr()->IgnoreParens();
                if (auto *DR = dyn_cast<DeclRefExpr>(S))
                    if (isa<FunctionDecl>(DR->getDecl())) return expr(S);
            }
            if (U->getOpcode() == UO_Plus || U->getOpcode() == UO_Extension) return expr(U->getSubExpr());
            Object o = mk("un", L);
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) o["post"] = true;
            o["e"] = expr(U->getSubExpr());
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::BinaryOperatorClass:
        case Stmt::CompoundAssignOperatorClass: {
            auto *B = cast<BinaryOperator>(E);
            Object o = mk("bin", L);
            o["op"] = B->getOpcodeStr().str();
            o["a"] = expr(B->getLHS());
            o["b"] = expr(B->getRHS());
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::ConditionalOperatorClass: {
            auto *Q = cast<ConditionalOperator>(E);
            Object o = mk("cond", L);
            o["c"] = expr(Q->getCond());
            o["a"] = expr(Q->getTrueExpr());
            o["b"] = expr(Q->getFalseExpr());
            return o;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *M = cast<CXXMemberCallExpr>(E);
            auto *F = M->getMethodDecl();
            Object o = mk("call", L);
            if (!F) {
                o["n"] = "?indirect";
                o["f"] = "?indirect";
                o["obj"] = expr(M->getCallee());
            } else {
                auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens());
                bool devirt = ME && ME->hasQualifier();
                calleeInfo(o, F, devirt);
                o["obj"] = expr(M->getImplicitObjectArgument());
                o["arrow"] = ME ? ME->isArrow() : false;
                QualType OT = M->getImplicitObjectArgument()->getType();
                if (OT->isPointerType()) OT = OT->getPointeeType();
                o["ot"] = ty(OT.getUnqualifiedType());
                // static type of the un-upcast object expression
                QualType UT = M->getImplicitObjectArgument()->IgnoreParenImpCasts()->getType();
                if (UT->isPointerType()) UT = UT->getPointeeType();
                o["ut"] = ty(UT.getUnqualifiedType());
            }
            std::vector<const Expr *> as(M->arg_begin(), M->arg_end());
            o["args"] = callArgs(as);
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto *OC = cast<CXXOperatorCallExpr>(E);
            if (OC->getOperator() == OO_Call && OC->getNumArgs() == 1) {
                // QStringLiteral / QByteArrayLiteral
                const Expr *A = OC->getArg(0)->IgnoreParenImpCasts();
                if (auto *MT = dyn_cast<MaterializeTemporaryExpr>(A)) A = MT->getSubExpr()->IgnoreParenImpCasts();
                if (auto *LE = dyn_cast<LambdaExpr>(A))
                    if (const StringLiteral *SL = qliteral(LE->getBody())) return expr(SL);
            }
            Object o = mk("call", L);
            const FunctionDecl *F = OC->getDirectCallee();
            o["op"] = getOperatorSpelling(OC->getOperator());
            std::vector<const Expr *> as(OC->arg_begin(), OC->arg_end());
            if (F) {
                calleeInfo(o, F, false);
                if (isa<CXXMethodDecl>(F) && !as.empty()) {
                    QualType OT = as[0]->getType();
                    o["obj"] = expr(as[0]);
                    o["arrow"] = false;
                    o["ot"] = ty(OT.getUnqualifiedType());
                    as.erase(as.begin());
                }
            } else {
                o["n"] = "?op";
                o["f"] = "?op";
            }
            o["args"] = callArgs(as);
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::CallExprClass:
        case Stmt::UserDefinedLiteralClass: {
            auto *CE = cast<CallExpr>(E);
            Object o = mk("call", L);
            if (auto *F = CE->getDirectCallee()) calleeInfo(o, F, true);
            else {
                o["n"] = "?indirect";
                o["f"] = "?indirect";
                o["obj"] = expr(CE->getCallee());
            }
            std::vector<const Expr *> as(CE->arg_begin(), CE->arg_end());
            o["args"] = callArgs(as);
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass: {
            auto *K = cast<CXXConstructExpr>(E);
            auto *CD = K->getConstructor();
            if (CD->isCopyOrMoveConstructor() && K->getNumArgs() >= 1 &&
                (K->getNumArgs() == 1 || isa<CXXDefaultArgExpr>(K->getArg(1)))) {
                Object o = mk("copy", L);
                o["e"] = expr(K->getArg(0));
                return o;
            }
            Object o = mk("ctor", L);
            o["cls"] = rname(CD->getParent());
            calleeInfo(o, CD, true);
            std::vector<const Expr *> as(K->arg_begin(), K->arg_end());
            o["args"] = callArgs(as);
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::CXXNewExprClass: {
            auto *N = cast<CXXNewExpr>(E);
            Object o = mk("new", L);
            o["t"] = ty(N->getAllocatedType());
            if (auto *RD = N->getAllocatedType()->getAsCXXRecordDecl()) o["cls"] = rname(RD);
            else o["cls"] = ty(N->getAllocatedType());
            if (auto *K = N->getConstructExpr()) {
                calleeInfo(o, K->getConstructor(), true);
                std::vector<const Expr *> as(K->arg_begin(), K->arg_end());
                o["args"] = callArgs(as);
            } else {
                Array a;
                if (N->getInitializer()) a.push_back(expr(N->getInitializer()));
                o["args"] = std::move(a);
            }
            o["col"] = (int64_t)colOf(L);
            return o;
        }
        case Stmt::CXXDeleteExprClass: {
            auto *N = cast<CXXDeleteExpr>(E);
            Object o = mk("delete", L);
            o["e"] = expr(N->getArgument());
            QualType OT = N->getArgument()->getType();
            if (OT->isPointerType()) OT = OT->getPointeeType();
            o["t"] = ty(OT);
            return o;
        }
        case Stmt::LambdaExprClass: {
            auto *LE = cast<LambdaExpr>(E);
            Object o = mk("lambda", L);
            o["f"] = fid(LE->getCallOperator());
            Array caps;
            auto ci = LE->capture_init_begin();
            for (auto &Cp : LE->captures()) {
                Object c;
                if (Cp.capturesThis()) c["this"] = true;
                else if (Cp.capturesVariable()) {
                    c["id"] = idOf(Cp.getCapturedVar());
                    c["n"] = Cp.getCapturedVar()->getNameAsString();
                    c["ref"] = Cp.getCaptureKind() == LCK_ByRef;
                    c["e"] = varRef(Cp.getCapturedVar(), L, Cp.getCapturedVar()->getType());
                    if (auto *VD = dyn_cast<VarDecl>(Cp.getCapturedVar()))
                        if (VD->isInitCapture() && VD->getInit()) c["e"] = expr(VD->getInit());
                }
                caps.push_back(std::move(c));
                ++ci;
            }
            o["caps"] = std::move(caps);
            return o;
        }
        case Stmt::ArraySubscriptExprClass: {
            auto *A = cast<ArraySubscriptExpr>(E);
            Object o = mk("index", L);
            o["a"] = expr(A->getBase());
            o["b"] = expr(A->getIdx());
            o["t"] = ty(E->getType());
            return o;
        }
        case Stmt::InitListExprClass: {
            auto *I = cast<InitListExpr>(E);
            Object o = mk("list", L);
            Array a;
            for (auto *x : I->inits()) a.push_back(expr(x));
            o["a"] = std::move(a);
            o["t"] = ty(E->getType());
            if (auto *RD = E->getType()->getAsCXXRecordDecl()) {
                if (inRepo(RD->getLocation())) {
                    Array fs;
                    for (auto *F : RD->fields()) fs.push_back(rname(RD) + "::" + F->getNameAsString());
                    o["fs"] = std::move(fs);
                }
            }
            return o;
        }
        case Stmt::CXXScalarValueInitExprClass:
        case Stmt::ImplicitValueInitExprClass: {
            Object o = mk("zero", L);
            o["t"] = ty(E->getType());
            return o;
        }
        default: break;
        }
        Object o = mk("other", L);
        o["cls"] = E->getStmtClassName();
        o["t"] = ty(E->getType());
        Array a;
        for (auto *c : E->children())
            if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
        o["ch"] = std::move(a);
        return o;
    }

    // ---------------------------------------------------------------- declarations
    bool VisitLambdaExpr(LambdaExpr *LE) { return VisitFunctionDecl(LE->getCallOperator()); }

    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody()) return true;
        if (F->isDependentContext() || F->isDefaulted()) return true;
        if (!inRepo(F->getLocation())) return true;
        if (!DoneFn.insert(F).second) return true;
        Object o;
        o["f"] = fid(F);
        o["n"] = qname(F);
        o["file"] = rel(fileOf(F->getLocation()));
        o["l"] = (int64_t)lineOf(F->getLocation());
        o["ret"] = ty(F->getReturnType());
        Array ps;
        for (auto *P : F->parameters()) {
            Object p;
            p["id"] = idOf(P);
            p["n"] = P->getNameAsString();
            p["t"] = ty(P->getType());
            QualType T = P->getType();
            p["ref"] = T->isLValueReferenceType() && !T->getPointeeType().isConstQualified();
            p["cref"] = T->isReferenceType();
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (!M->getParent()->isLambda()) o["cls"] = rname(M->getParent());
            else o["lambda"] = true;
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            if (M->isVirtual()) o["virt"] = true;
            Array ov;
            addOverridden(M, ov);
            o["ov"] = std::move(ov);
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = true;
            Array in;
            for (auto *I : K->inits()) {
                Object i;
                if (I->isMemberInitializer()) {
                    i["field"] = rname(K->getParent()) + "::" + I->getMember()->getNameAsString();
                } else if (I->isBaseInitializer()) {
                    i["base"] = ty(QualType(I->getBaseClass(), 0));
                } else if (I->isDelegatingInitializer()) {
                    i["deleg"] = true;
                }
                i["written"] = I->isWritten();
                i["l"] = (int64_t)lineOf(I->getSourceLocation());
                i["e"] = expr(I->getInit());
                in.push_back(std::move(i));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        o["body"] = stmt(F->getBody());
        o["el"] = (int64_t)lineOf(F->getBody()->getEndLoc());
        Functions.push_back(std::move(o));
        return true;
    }
    void addOverridden(const CXXMethodDecl *M, Array &ov) {
        for (auto *B : M->overridden_methods()) {
            ov.push_back(fid(B));
            addOverridden(B, ov);
        }
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isLambda()) return true;
        if (!inRepo(R->getLocation())) return true;
        if (!DoneCls.insert(R).second) return true;
        Object o;
        o["n"] = rname(R);
        o["file"] = rel(fileOf(R->getLocation()));
        o["l"] = (int64_t)lineOf(R->getLocation());
        Array bs;
        for (auto &B : R->bases()) bs.push_back(ty(B.getType()));
        o["bases"] = std::move(bs);
        Array allb;
        std::set<std::string> seen;
        R->forallBases([&](const CXXRecordDecl *B) {
            if (seen.insert(rname(B)).second) allb.push_back(rname(B));
            return true;
        });
        o["allbases"] = std::move(allb);
        Array fs, ms;
        std::string mode;
        for (auto *D : R->decls()) {
            if (auto *A = dyn_cast<AccessSpecDecl>(D)) {
                mode = "";
                for (auto *At : A->attrs())
                    if (auto *An = dyn_cast<AnnotateAttr>(At)) mode = An->getAnnotation().str();
                continue;
            }
            if (auto *F = dyn_cast<FieldDecl>(D)) {
                Object f;
                f["n"] = rname(R) + "::" + F->getNameAsString();
                f["t"] = ty(F->getType());
                f["acc"] = (int64_t)F->getAccess();
                f["l"] = (int64_t)lineOf(F->getLocation());
                if (F->hasInClassInitializer() && F->getInClassInitializer())
                    f["init"] = expr(F->getInClassInitializer());
                fs.push_back(std::move(f));
            } else if (auto *V = dyn_cast<VarDecl>(D)) {
                (void)V;
            } else if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
                if (M->isImplicit()) continue;
                Object m;
                m["f"] = fid(M);
                m["n"] = qname(M);
                std::string mm = mode;
                for (auto *At : M->attrs())
                    if (auto *An = dyn_cast<AnnotateAttr>(At)) {
                        std::string s = An->getAnnotation().str();
                        if (s == "qt_invokable" || s == "qt_scriptable") mm = s;
                    }
                m["mode"] = mm;
                m["acc"] = (int64_t)M->getAccess();
                m["virt"] = M->isVirtual();
                m["pure"] = M->isPureVirtual();
                m["static"] = M->isStatic();
                m["const"] = M->isConst();
                m["ret"] = ty(M->getReturnType());
                m["l"] = (int64_t)lineOf(M->getLocation());
                Array pn;
                for (auto *P : M->parameters()) {
                    Object p;
                    p["n"] = P->getNameAsString();
                    p["t"] = ty(P->getType());
                    pn.push_back(std::move(p));
                }
                m["params"] = std::move(pn);
                Array ov;
                addOverridden(M, ov);
                m["ov"] = std::move(ov);
                ms.push_back(std::move(m));
            }
        }
        o["fields"] = std::move(fs);
        o["methods"] = std::move(ms);
        Classes.push_back(std::move(o));
        return true;
    }
    Array Enums;
    bool VisitEnumDecl(EnumDecl *E) {
        if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation())) return true;
        Object o;
        o["n"] = E->getQualifiedNameAsString();
        o["file"] = rel(fileOf(E->getLocation()));
        Array vs;
        for (auto *K : E->enumerators()) {
            Object v;
            v["n"] = K->getQualifiedNameAsString();
            v["v"] = (int64_t)K->getInitVal().getExtValue();
            vs.push_back(std::move(v));
        }
        o["v"] = std::move(vs);
        Enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (!V->hasGlobalStorage() || V->isStaticLocal()) return true;
        if (!inRepo(V->getLocation())) return true;
        if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
        Object o;
        o["n"] = V->getQualifiedNameAsString();
        o["t"] = ty(V->getType());
        o["file"] = rel(fileOf(V->getLocation()));
        o["l"] = (int64_t)lineOf(V->getLocation());
        o["init"] = V->hasInit() ? expr(V->getInit()) : null();
        Globals.push_back(std::move(o));
        return true;
    }
};

struct Consumer : public ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        Extractor X(C);
        X.TraverseDecl(C.getTranslationUnitDecl());
        Object o;
        o["functions"] = std::move(X.Functions);
        o["classes"] = std::move(X.Classes);
        o["globals"] = std::move(X.Globals);
        o["enums"] = std::move(X.Enums);
        o["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        os << Value(std::move(o)) << "\n";
    }
};
struct Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>();
    }
};
} // namespace

// usage: extract ROOT OUT SOURCE -- flags...
int main(int argc, char **argv) {
    if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT SRC -- flags\n"; return 2; }
    Root = argv[1];
    OutPath = argv[2];
    std::string Src = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
    auto buf = llvm::MemoryBuffer::getFile(Src);
    if (!buf) { llvm::errs() << "cannot read " << Src << "\n"; return 2; }
    std::vector<std::string> cl{"clang-extract"};
    cl.insert(cl.end(), args.begin(), args.end());
    cl.push_back("-fsyntax-only");
    cl.push_back(Src);
    llvm::IntrusiveRefCntPtr<clang::FileManager> FM(new clang::FileManager(clang::FileSystemOptions()));
    clang::tooling::ToolInvocation inv(cl, std::make_unique<Action>(), FM.get());
    bool ok = inv.run();
    return ok ? 0 : 1;
}
