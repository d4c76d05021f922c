// Fact extractor: dumps, for one translation unit, every function definition located under the
// given source roots as (a) a resolved, type-annotated syntax tree and (b) its control flow graph,
// plus records, enums and variables with static storage.  Output: one JSON object.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <unordered_map>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Dumper
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    json::Array Funcs, Records, Enums, Vars;
    std::unordered_map<std::string, int> Strs;
    std::vector<std::string> StrList;
    std::unordered_map<void*, int> Types;
    json::Array TypeList;
    std::unordered_map<const Decl*, int> FD;
    json::Array FDList;
    std::unordered_map<const Decl*, int> VD;
    json::Array VDList;
    std::set<const Decl*> DoneF;
    std::set<const Decl*> DoneR;
    std::unordered_map<unsigned, std::pair<bool, std::string>> FileCache;

    explicit Dumper(ASTContext& c)
        : C(c)
        , SM(c.getSourceManager())
        , PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
    }

    int str(llvm::StringRef s)
    {
        std::string k = s.str();
        // keep the output valid UTF-8
        if (!json::isUTF8(k))
            k = json::fixUTF8(k);
        auto it = Strs.find(k);
        if (it != Strs.end())
            return it->second;
        int n = (int)StrList.size();
        StrList.push_back(k);
        Strs.emplace(k, n);
        return n;
    }

    // whether the location is inside the roots; gives the file path
    bool inRoots(SourceLocation L, std::string* path = nullptr)
    {
        if (L.isInvalid())
            return false;
        FileID F = SM.getFileID(SM.getExpansionLoc(L));
        auto it = FileCache.find(F.getHashValue());
        if (it == FileCache.end())
        {
            std::pair<bool, std::string> v { false, "" };
            if (auto fe = SM.getFileEntryRefForID(F))
            {
                std::string p = fe->getFileEntry().tryGetRealPathName().str();
                if (p.empty())
                    p = fe->getName().str();
                v.second = p;
                for (auto& r : Roots)
                    if (p.compare(0, r.size(), r) == 0)
                        v.first = true;
            }
            it = FileCache.emplace(F.getHashValue(), v).first;
        }
        if (path)
            *path = it->second.second;
        return it->second.first;
    }
    unsigned line(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }

    std::string qn(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return s;
    }
    std::string usr(const Decl* D)
    {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(D, b))
            return "?";
        return b.str().str();
    }

    int type(QualType T)
    {
        if (T.isNull())
            return -1;
        QualType CT = T.getCanonicalType();
        auto it = Types.find(CT.getAsOpaquePtr());
        if (it != Types.end())
            return it->second;
        std::string s = CT.getAsString(PP);
        if (s.size() > 240)
            s = s.substr(0, 240);
        QualType S = CT;
        std::string fl;
        if (S->isReferenceType())
        {
            fl += S->isRValueReferenceType() ? 'R' : 'r';
            S = S->getPointeeType();
        }
        if (S.isConstQualified())
            fl += 'c';
        if (S->isPointerType())
        {
            fl += 'p';
            S = S->getPointeeType();
            if (S.isConstQualified())
                fl += 'k';
        }
        std::string rec;
        if (auto* R = S->getAsCXXRecordDecl())
        {
            rec = R->getQualifiedNameAsString();
        }
        int w = 0;
        if (!S->isDependentType() && (S->isIntegerType() || S->isEnumeralType()) && !S->isIncompleteType())
        {
            w = (int)C.getTypeSize(S);
            if (S->isSignedIntegerOrEnumerationType())
                w = -w;
        }
        if (S->isEnumeralType())
        {
            fl += 'e';
            rec = S->castAs<EnumType>()->getDecl()->getQualifiedNameAsString();
        }
        int n = (int)TypeList.size();
        TypeList.push_back(json::Array { str(s), str(rec), str(fl), w });
        Types.emplace(CT.getAsOpaquePtr(), n);
        return n;
    }

    int fdecl(const FunctionDecl* F)
    {
        const FunctionDecl* K = F->getCanonicalDecl();
        auto it = FD.find(K);
        if (it != FD.end())
            return it->second;
        int n = (int)FDList.size();
        FD.emplace(K, n);
        FDList.push_back(nullptr);
        json::Object o;
        o["u"] = str(usr(F));
        o["q"] = str(F->getQualifiedNameAsString());
        o["r"] = type(F->getReturnType());
        std::string fl;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            if (M->isVirtual())
                fl += 'v';
            if (M->isConst())
                fl += 'c';
            if (M->isStatic())
                fl += 's';
            if (M->isPureVirtual())
                fl += 'p';
            o["cls"] = str(M->getParent()->getQualifiedNameAsString());
            if (M->getParent()->isLambda())
                fl += 'l';
        }
        if (isa<CXXConstructorDecl>(F))
        {
            fl += 'C';
            auto* CC = cast<CXXConstructorDecl>(F);
            if (CC->isCopyConstructor())
                fl += 'K';
            if (CC->isMoveConstructor())
                fl += 'M';
        }
        if (isa<CXXDestructorDecl>(F))
            fl += 'D';
        if (auto* FPT = F->getType()->getAs<FunctionProtoType>())
        {
            auto est = FPT->getExceptionSpecType();
            if (est == EST_BasicNoexcept || est == EST_NoexceptTrue || est == EST_DynamicNone || est == EST_NoThrow)
                fl += 'n';
        }
        std::string p;
        if (inRoots(F->getLocation(), &p))
            fl += 'R';
        if (F->isVariadic())
            fl += 'V';
        o["fl"] = str(fl);
        json::Array ps;
        for (auto* P : F->parameters())
            ps.push_back(type(P->getType()));
        o["p"] = std::move(ps);
        // template pattern definition, for mapping instantiations to their source
        FDList[n] = std::move(o);
        return n;
    }

    int vdecl(const ValueDecl* V)
    {
        const Decl* K = V->getCanonicalDecl();
        auto it = VD.find(K);
        if (it != VD.end())
            return it->second;
        int n = (int)VDList.size();
        VD.emplace(K, n);
        std::string kind = "local";
        std::string q = V->getNameAsString();
        if (isa<ParmVarDecl>(V))
            kind = "param";
        else if (auto* VR = dyn_cast<VarDecl>(V))
        {
            if (VR->isStaticLocal())
                kind = "slocal";
            else if (VR->hasGlobalStorage())
                kind = "global";
            if (VR->hasGlobalStorage())
                q = VR->getQualifiedNameAsString();
        }
        else if (isa<BindingDecl>(V))
            kind = "bind";
        else if (isa<EnumConstantDecl>(V))
        {
            kind = "enum";
            q = V->getQualifiedNameAsString();
        }
        else if (isa<FieldDecl>(V) || isa<IndirectFieldDecl>(V))
        {
            kind = "field";
            q = V->getQualifiedNameAsString();
        }
        else
            q = V->getQualifiedNameAsString();
        VDList.push_back(json::Array { str(q), str(kind), type(V->getType()), (int)line(V->getLocation()) });
        return n;
    }

    // ---------- function bodies ----------
    struct FState
    {
        json::Array nodes;
        std::unordered_map<const Stmt*, int> ids;
    };
    std::vector<FState*> Stack;
    std::vector<const CXXMethodDecl*> PendingLambdas;

    static const Expr* skip(const Expr* E)
    {
        for (;;)
        {
            if (auto* P = dyn_cast<ParenExpr>(E))
                E = P->getSubExpr();
            else if (auto* F = dyn_cast<FullExpr>(E))
                E = F->getSubExpr();
            else if (auto* M = dyn_cast<MaterializeTemporaryExpr>(E))
                E = M->getSubExpr();
            else if (auto* B = dyn_cast<CXXBindTemporaryExpr>(E))
                E = B->getSubExpr();
            else if (auto* S = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = S->getReplacement();
            else if (auto* I = dyn_cast<ImplicitCastExpr>(E))
            {
                auto k = I->getCastKind();
                if (k == CK_IntegralCast || k == CK_FloatingToIntegral)
                    return E;
                E = I->getSubExpr();
            }
            else if (auto* O = dyn_cast<OpaqueValueExpr>(E))
            {
                if (!O->getSourceExpr())
                    return E;
                E = O->getSourceExpr();
            }
            else
                return E;
        }
    }

    int emit(FState& F, const Stmt* S)
    {
        if (!S)
            return -1;
        const Stmt* Orig = S;
        auto it0 = F.ids.find(S);
        if (it0 != F.ids.end())
            return it0->second;
        if (auto* E = dyn_cast<Expr>(S))
        {
            S = skip(E);
            auto it = F.ids.find(S);
            if (it != F.ids.end())
            {
                F.ids[Orig] = it->second;
                return it->second;
            }
        }
        int id = (int)F.nodes.size();
        F.nodes.push_back(nullptr);
        F.ids[S] = id;
        // map all the skipped wrappers
        {
            const Stmt* X = Orig;
            while (X != S)
            {
                F.ids[X] = id;
                const Expr* E = cast<Expr>(X);
                const Expr* N = nullptr;
                if (auto* P = dyn_cast<ParenExpr>(E))
                    N = P->getSubExpr();
                else if (auto* FE = dyn_cast<FullExpr>(E))
                    N = FE->getSubExpr();
                else if (auto* M = dyn_cast<MaterializeTemporaryExpr>(E))
                    N = M->getSubExpr();
                else if (auto* B = dyn_cast<CXXBindTemporaryExpr>(E))
                    N = B->getSubExpr();
                else if (auto* SN = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                    N = SN->getReplacement();
                else if (auto* I = dyn_cast<ImplicitCastExpr>(E))
                    N = I->getSubExpr();
                else if (auto* O = dyn_cast<OpaqueValueExpr>(E))
                    N = O->getSourceExpr();
                if (!N)
                    break;
                X = N;
            }
        }
        json::Object a;
        json::Array ch;
        std::string k = S->getStmtClassName();
        int t = -1;
        auto kid = [&](const Stmt* X) { ch.push_back(X ? emit(F, X) : -1); };
        auto kids = [&]() {
            for (const Stmt* X : S->children())
                if (X)
                    kid(X);
        };
        if (auto* E = dyn_cast<Expr>(S))
        {
            t = type(E->getType());
            if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType()
                && (isa<IntegerLiteral>(E) || isa<CharacterLiteral>(E) || isa<CXXBoolLiteralExpr>(E)
                    || isa<DeclRefExpr>(E) || isa<UnaryOperator>(E) || isa<BinaryOperator>(E)
                    || isa<UnaryExprOrTypeTraitExpr>(E) || isa<ImplicitCastExpr>(E) || isa<ExplicitCastExpr>(E)
                    || isa<CallExpr>(E) || isa<SizeOfPackExpr>(E)))
            {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
                {
                    auto v = R.Val.getInt();
                    if (v.isRepresentableByInt64())
                        a["v"] = (int64_t)v.getExtValue();
                }
            }
        }
        if (auto* CE = dyn_cast<CallExpr>(S))
        {
            k = "call";
            const FunctionDecl* D = CE->getDirectCallee();
            if (D)
                a["f"] = fdecl(D);
            if (auto* MC = dyn_cast<CXXMemberCallExpr>(S))
            {
                k = "mcall";
                auto* ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts());
                if (ME && ME->hasQualifier())
                    a["qual"] = 1;
                if (MC->getImplicitObjectArgument())
                    kid(MC->getImplicitObjectArgument());
                else
                    kid(MC->getCallee()); // pointer to member
                for (auto* A : MC->arguments())
                    kid(A);
            }
            else if (auto* OC = dyn_cast<CXXOperatorCallExpr>(S))
            {
                k = "ocall";
                a["op"] = str(getOperatorSpelling(OC->getOperator()));
                for (auto* A : OC->arguments())
                    kid(A);
            }
            else
            {
                if (!D)
                    kid(CE->getCallee());
                for (auto* A : CE->arguments())
                    kid(A);
            }
        }
        else if (auto* CC = dyn_cast<CXXConstructExpr>(S))
        {
            k = "ctor";
            a["f"] = fdecl(CC->getConstructor());
            if (CC->isElidable())
                a["el"] = 1;
            if (CC->isListInitialization())
                a["li"] = 1;
            for (auto* A : CC->arguments())
                kid(A);
        }
        else if (auto* IC = dyn_cast<CXXInheritedCtorInitExpr>(S))
        {
            k = "ctor";
            a["f"] = fdecl(IC->getConstructor());
        }
        else if (auto* ME = dyn_cast<MemberExpr>(S))
        {
            k = "member";
            a["m"] = vdecl(ME->getMemberDecl());
            if (auto* MF = dyn_cast<FunctionDecl>(ME->getMemberDecl()))
                a["f"] = fdecl(MF);
            if (ME->isArrow())
                a["ar"] = 1;
            kid(ME->getBase());
        }
        else if (auto* DR = dyn_cast<DeclRefExpr>(S))
        {
            k = "ref";
            if (auto* FDc = dyn_cast<FunctionDecl>(DR->getDecl()))
            {
                k = "fref";
                a["f"] = fdecl(FDc);
            }
            else
                a["d"] = vdecl(DR->getDecl());
        }
        else if (isa<CXXThisExpr>(S))
        {
            k = "this";
        }
        else if (auto* L = dyn_cast<IntegerLiteral>(S))
        {
            (void)L;
            k = "int";
        }
        else if (isa<CharacterLiteral>(S))
            k = "chr";
        else if (isa<CXXBoolLiteralExpr>(S))
            k = "bool";
        else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S))
            k = "null";
        else if (auto* SL = dyn_cast<StringLiteral>(S))
        {
            k = "str";
            if (SL->getCharByteWidth() == 1)
                a["s"] = str(SL->getString());
        }
        else if (auto* BO = dyn_cast<BinaryOperator>(S))
        {
            k = BO->isAssignmentOp() ? "assign" : "bin";
            a["op"] = str(BO->getOpcodeStr());
            kid(BO->getLHS());
            kid(BO->getRHS());
        }
        else if (auto* UO = dyn_cast<UnaryOperator>(S))
        {
            k = "un";
            a["op"] = str(UnaryOperator::getOpcodeStr(UO->getOpcode()));
            if (UO->isPostfix())
                a["post"] = 1;
            kid(UO->getSubExpr());
        }
        else if (auto* IC2 = dyn_cast<ImplicitCastExpr>(S))
        {
            k = "icast";
            kid(IC2->getSubExpr());
        }
        else if (auto* EC = dyn_cast<ExplicitCastExpr>(S))
        {
            k = isa<CXXDynamicCastExpr>(S) ? "dyncast" : "cast";
            a["ck"] = str(EC->getCastKindName());
            kid(EC->getSubExpr());
        }
        else if (auto* CO = dyn_cast<ConditionalOperator>(S))
        {
            k = "cond";
            kid(CO->getCond());
            kid(CO->getTrueExpr());
            kid(CO->getFalseExpr());
        }
        else if (auto* AS = dyn_cast<ArraySubscriptExpr>(S))
        {
            k = "index";
            kid(AS->getBase());
            kid(AS->getIdx());
        }
        else if (auto* LE = dyn_cast<LambdaExpr>(S))
        {
            k = "lambda";
            const CXXMethodDecl* Op = LE->getCallOperator();
            if (auto* TD = LE->getLambdaClass()->getDependentLambdaCallOperator())
            { // a generic lambda: its instantiations
                for (auto* Sp : TD->specializations())
                    if (auto* M = dyn_cast<CXXMethodDecl>(Sp); M && M->getBody())
                    {
                        if (Op == LE->getCallOperator())
                            Op = M;
                        PendingLambdas.push_back(M);
                    }
            }
            if (Op == LE->getCallOperator())
                PendingLambdas.push_back(Op);
            a["f"] = fdecl(Op);
            json::Array caps;
            for (auto& c : LE->captures())
            {
                if (c.capturesThis())
                    caps.push_back(json::Array { "this", 0 });
                else if (c.capturesVariable())
                    caps.push_back(
                        json::Array { c.getCaptureKind() == LCK_ByRef ? "ref" : "copy", vdecl(c.getCapturedVar()) });
            }
            a["caps"] = std::move(caps);
            for (auto* I : LE->capture_inits())
                kid(I);
        }
        else if (auto* IL = dyn_cast<InitListExpr>(S))
        {
            k = "ilist";
            const InitListExpr* Sem = IL->isSemanticForm() ? IL : (IL->getSemanticForm() ? IL->getSemanticForm() : IL);
            for (auto* I : Sem->inits())
                kid(I);
        }
        else if (auto* SI = dyn_cast<CXXStdInitializerListExpr>(S))
        {
            k = "silist";
            kid(SI->getSubExpr());
        }
        else if (auto* NE = dyn_cast<CXXNewExpr>(S))
        {
            k = "new";
            a["nt"] = type(NE->getAllocatedType());
            kids();
        }
        else if (isa<CXXDeleteExpr>(S))
        {
            k = "delete";
            kids();
        }
        else if (isa<CXXThrowExpr>(S))
        {
            k = "throw";
            kids();
            if (auto* SE = cast<CXXThrowExpr>(S)->getSubExpr())
                t = type(SE->getType());
        }
        else if (auto* DA = dyn_cast<CXXDefaultArgExpr>(S))
        {
            (void)DA;
            k = "defarg";
        }
        else if (isa<CXXDefaultInitExpr>(S))
            k = "definit";
        else if (auto* DS = dyn_cast<DeclStmt>(S))
        {
            k = "decl";
            json::Array ds;
            for (auto* D : DS->decls())
            {
                if (auto* V = dyn_cast<VarDecl>(D))
                {
                    int init = -1;
                    if (V->getInit())
                        init = emit(F, V->getInit());
                    json::Object o;
                    o["d"] = vdecl(V);
                    o["i"] = init;
                    if (V->isStaticLocal())
                        o["st"] = 1;
                    if (auto* DD = dyn_cast<DecompositionDecl>(V))
                    {
                        json::Array bs;
                        for (auto* B : DD->bindings())
                        {
                            bs.push_back(vdecl(B));
                            if (auto* HV = B->getHoldingVar())
                                if (HV->getInit())
                                    emit(F, HV->getInit());
                        }
                        o["b"] = std::move(bs);
                    }
                    ds.push_back(std::move(o));
                    ch.push_back(init);
                    if (V->isStaticLocal())
                        globalVar(V);
                }
            }
            a["ds"] = std::move(ds);
        }
        else if (isa<ReturnStmt>(S))
        {
            k = "return";
            kids();
        }
        else if (auto* IS = dyn_cast<IfStmt>(S))
        {
            k = "if";
            kid(IS->getInit());
            kid(IS->getConditionVariableDeclStmt());
            kid(IS->getCond());
            kid(IS->getThen());
            kid(IS->getElse());
        }
        else if (auto* W = dyn_cast<WhileStmt>(S))
        {
            k = "while";
            kid(W->getConditionVariableDeclStmt());
            kid(W->getCond());
            kid(W->getBody());
        }
        else if (auto* Do = dyn_cast<DoStmt>(S))
        {
            k = "do";
            kid(Do->getBody());
            kid(Do->getCond());
        }
        else if (auto* Fo = dyn_cast<ForStmt>(S))
        {
            k = "for";
            kid(Fo->getInit());
            kid(Fo->getConditionVariableDeclStmt());
            kid(Fo->getCond());
            kid(Fo->getInc());
            kid(Fo->getBody());
        }
        else if (auto* RF = dyn_cast<CXXForRangeStmt>(S))
        {
            k = "rfor";
            kid(RF->getInit());
            kid(RF->getRangeInit());
            kid(RF->getRangeStmt());
            kid(RF->getBeginStmt());
            kid(RF->getEndStmt());
            kid(RF->getCond());
            kid(RF->getInc());
            kid(RF->getLoopVarStmt());
            kid(RF->getBody());
            a["d"] = vdecl(RF->getLoopVariable());
        }
        else if (auto* Sw = dyn_cast<SwitchStmt>(S))
        {
            k = "switch";
            kid(Sw->getInit());
            kid(Sw->getConditionVariableDeclStmt());
            kid(Sw->getCond());
            kid(Sw->getBody());
        }
        else if (auto* Ca = dyn_cast<CaseStmt>(S))
        {
            k = "case";
            kid(Ca->getLHS());
            kid(Ca->getSubStmt());
        }
        else if (auto* De = dyn_cast<DefaultStmt>(S))
        {
            k = "default";
            kid(De->getSubStmt());
        }
        else if (isa<CompoundStmt>(S))
        {
            k = "block";
            kids();
        }
        else if (auto* T = dyn_cast<CXXTryStmt>(S))
        {
            k = "try";
            kid(T->getTryBlock());
            for (unsigned i = 0; i < T->getNumHandlers(); ++i)
                kid(T->getHandler(i));
        }
        else if (auto* Ct = dyn_cast<CXXCatchStmt>(S))
        {
            k = "catch";
            if (Ct->getExceptionDecl())
            {
                t = type(Ct->getCaughtType());
                a["d"] = vdecl(Ct->getExceptionDecl());
            }
            else
                a["all"] = 1;
            kid(Ct->getHandlerBlock());
        }
        else if (isa<BreakStmt>(S))
            k = "break";
        else if (isa<ContinueStmt>(S))
            k = "continue";
        else if (auto* TE = dyn_cast<UnaryExprOrTypeTraitExpr>(S))
        {
            (void)TE;
            k = "sizeof";
        }
        else
            kids();
        json::Array n;
        n.push_back(str(k));
        n.push_back((int)line(S->getBeginLoc()));
        n.push_back(t);
        n.push_back(std::move(a));
        n.push_back(std::move(ch));
        F.nodes[id] = std::move(n);
        return id;
    }

    void func(const FunctionDecl* D, const CXXMethodDecl* = nullptr, std::string parent = "")
    {
        if (!D->doesThisDeclarationHaveABody() || D->isDependentContext())
            return;
        std::string path;
        if (!inRoots(D->getLocation(), &path))
            return;
        if (!DoneF.insert(D).second)
            return;
        if (!D->getBody())
            return;
        FState F;
        json::Object o;
        o["f"] = fdecl(D);
        o["file"] = str(path);
        o["line"] = (int)line(D->getLocation());
        o["eline"] = (int)line(D->getEndLoc());
        if (!parent.empty())
            o["parent"] = str(parent);
        json::Array ps;
        for (auto* P : D->parameters())
            ps.push_back(vdecl(P));
        o["ps"] = std::move(ps);
        std::vector<const CXXMethodDecl*> saved;
        saved.swap(PendingLambdas);
        o["body"] = emit(F, D->getBody());
        if (auto* CD = dyn_cast<CXXConstructorDecl>(D))
        {
            json::Array in;
            for (auto* I : CD->inits())
            {
                json::Object x;
                if (I->isAnyMemberInitializer())
                    x["m"] = vdecl(I->getAnyMember());
                else if (I->isBaseInitializer())
                    x["b"] = type(QualType(I->getBaseClass(), 0));
                else
                    x["del"] = 1;
                x["w"] = I->isWritten() ? 1 : 0;
                x["i"] = emit(F, I->getInit());
                in.push_back(std::move(x));
            }
            o["inits"] = std::move(in);
        }
        CFG::BuildOptions BO;
        BO.AddImplicitDtors = true;
        BO.AddInitializers = true;
        BO.PruneTriviallyFalseEdges = false;
        BO.setAllAlwaysAdd();
        auto G = CFG::buildCFG(D, D->getBody(), &C, BO);
        if (G)
        {
            json::Array bs;
            for (auto* B : *G)
            {
                json::Object b;
                json::Array es;
                for (auto& El : *B)
                {
                    if (auto S = El.getAs<CFGStmt>())
                    {
                        const Stmt* X = S->getStmt();
                        auto it = F.ids.find(X);
                        int n = -1;
                        if (it != F.ids.end())
                            n = it->second;
                        else
                            n = emit(F, X); // synthesized DeclStmts and the like
                        if (n >= 0 && (es.empty() || !(es.back().getAsInteger() && *es.back().getAsInteger() == n)))
                            es.push_back(n);
                    }
                    else if (auto DT = El.getAs<CFGAutomaticObjDtor>())
                        es.push_back(json::Array { "d", vdecl(DT->getVarDecl()) });
                    else if (auto IN = El.getAs<CFGInitializer>())
                    {
                        auto* I = IN->getInitializer();
                        es.push_back(json::Array {
                            "i", I->isAnyMemberInitializer() ? vdecl(I->getAnyMember()) : -1, emit(F, I->getInit()) });
                    }
                }
                b["b"] = (int)B->getBlockID();
                b["e"] = std::move(es);
                if (B->getTerminatorStmt())
                {
                    b["tk"] = str(B->getTerminatorStmt()->getStmtClassName());
                    b["t"] = emit(F, B->getTerminatorStmt());
                }
                if (auto* Cnd = B->getTerminatorCondition(false))
                    b["c"] = emit(F, Cnd);
                if (auto* Lb = B->getLabel())
                    b["l"] = emit(F, Lb);
                if (B->hasNoReturnElement())
                    b["nr"] = 1;
                json::Array ss;
                for (auto& Su : B->succs())
                {
                    const CFGBlock* X = Su.getReachableBlock();
                    if (!X)
                        X = Su.getPossiblyUnreachableBlock();
                    ss.push_back(X ? (int)X->getBlockID() : -1);
                }
                b["s"] = std::move(ss);
                bs.push_back(std::move(b));
            }
            o["cfg"] = std::move(bs);
            o["entry"] = (int)G->getEntry().getBlockID();
            o["exit"] = (int)G->getExit().getBlockID();
        }
        o["nodes"] = std::move(F.nodes);
        Funcs.push_back(std::move(o));
        auto lams = PendingLambdas;
        PendingLambdas = saved;
        std::string me = usr(D);
        for (auto* L : lams)
            func(L, nullptr, me);
    }

    void globalVar(const VarDecl* V)
    {
        std::string path;
        if (!inRoots(V->getLocation(), &path))
            return;
        if (V->isTemplated())
            return;
        const VarDecl* Def = V->getDefinition(C);
        if (Def != V || !DoneF.insert(V).second)
            return;
        FState F;
        json::Object o;
        o["q"] = str(V->getQualifiedNameAsString());
        o["u"] = str(usr(V));
        o["d"] = vdecl(V);
        o["file"] = str(path);
        o["line"] = (int)line(V->getLocation());
        o["t"] = type(V->getType());
        std::string fl;
        if (V->getType().isConstQualified() || V->isConstexpr())
            fl += 'c';
        if (V->getTSCSpec() != TSCS_unspecified)
            fl += 't';
        if (V->isStaticLocal())
            fl += 'l';
        if (V->isStaticDataMember())
            fl += 'm';
        o["fl"] = str(fl);
        std::vector<const CXXMethodDecl*> saved;
        saved.swap(PendingLambdas);
        if (V->getInit())
            o["i"] = emit(F, V->getInit());
        o["nodes"] = std::move(F.nodes);
        Vars.push_back(std::move(o));
        auto lams = PendingLambdas;
        PendingLambdas = saved;
        for (auto* L : lams)
            func(L, nullptr, "var:" + usr(V));
    }

    void record(const CXXRecordDecl* R)
    {
        std::string path;
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inRoots(R->getLocation(), &path))
            return;
        if (R->isLambda())
            return;
        if (!DoneR.insert(R).second)
            return;
        json::Object o;
        o["q"] = str(R->getQualifiedNameAsString());
        o["u"] = str(usr(R));
        o["t"] = type(C.getRecordType(R));
        o["file"] = str(path);
        o["line"] = (int)line(R->getLocation());
        json::Array bs;
        for (auto& B : R->bases())
        {
            auto* BR = B.getType()->getAsCXXRecordDecl();
            bs.push_back(json::Array {
                type(B.getType()), str(BR ? BR->getQualifiedNameAsString() : ""), str(BR ? usr(BR) : ""), B.isVirtual() });
        }
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* Fi : R->fields())
        {
            json::Object f;
            f["d"] = vdecl(Fi);
            f["n"] = str(Fi->getNameAsString());
            f["t"] = type(Fi->getType());
            f["mut"] = Fi->isMutable() ? 1 : 0;
            f["line"] = (int)line(Fi->getLocation());
            if (Fi->hasInClassInitializer() && Fi->getInClassInitializer())
            {
                FState F;
                int i = emit(F, Fi->getInClassInitializer());
                f["i"] = i;
                f["nodes"] = std::move(F.nodes);
            }
            fs.push_back(std::move(f));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* M : R->methods())
        {
            json::Object m;
            m["f"] = fdecl(M);
            json::Array ov;
            for (auto* O : M->overridden_methods())
                ov.push_back(fdecl(O));
            m["ov"] = std::move(ov);
            m["acc"] = (int)M->getAccess();
            m["imp"] = M->isImplicit() ? 1 : 0;
            ms.push_back(std::move(m));
        }
        o["methods"] = std::move(ms);
        Records.push_back(std::move(o));
    }

    void enumd(const EnumDecl* E)
    {
        std::string path;
        if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !inRoots(E->getLocation(), &path))
            return;
        json::Object o;
        o["q"] = str(E->getQualifiedNameAsString());
        o["file"] = str(path);
        o["line"] = (int)line(E->getLocation());
        json::Array cs;
        for (auto* K : E->enumerators())
            cs.push_back(json::Array { str(K->getNameAsString()), K->getInitVal().isRepresentableByInt64() ? (int64_t)K->getInitVal().getExtValue() : (int64_t)-1 });
        o["c"] = std::move(cs);
        Enums.push_back(std::move(o));
    }
};

struct Vis : RecursiveASTVisitor<Vis>
{
    Dumper& D;
    explicit Vis(Dumper& d)
        : D(d)
    {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseDecl(Decl* X)
    {
        // skip everything outside the roots at namespace/TU level for speed
        if (X && !isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X))
        {
            bool in = D.inRoots(X->getLocation());
            if (!in && (isa<FunctionDecl>(X) || isa<RecordDecl>(X) || isa<VarDecl>(X) || isa<TypedefNameDecl>(X)
                    || isa<FunctionTemplateDecl>(X) || isa<ClassTemplateDecl>(X)))
                return true;
        }
        return RecursiveASTVisitor::TraverseDecl(X);
    }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
                return true; // dumped with the enclosing function
        D.func(F);
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (V->hasGlobalStorage() && !V->isStaticLocal())
            D.globalVar(V);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        D.record(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E)
    {
        D.enumd(E);
        return true;
    }
};

struct Cons : ASTConsumer
{
    CompilerInstance& CI;
    explicit Cons(CompilerInstance& c)
        : CI(c)
    {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        Dumper D(C);
        Vis V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        json::Object o;
        json::Array strs;
        json::Array files;
        for (auto it = C.getSourceManager().fileinfo_begin(); it != C.getSourceManager().fileinfo_end(); ++it)
        {
            std::string p = it->first.getFileEntry().tryGetRealPathName().str();
            files.push_back(json::fixUTF8(p));
        }
        o["errors"] = (int)CI.getDiagnostics().getClient()->getNumErrors();
        o["files"] = std::move(files);
        o["funcs"] = std::move(D.Funcs);
        o["records"] = std::move(D.Records);
        o["enums"] = std::move(D.Enums);
        o["vars"] = std::move(D.Vars);
        o["types"] = std::move(D.TypeList);
        o["fd"] = std::move(D.FDList);
        o["vd"] = std::move(D.VDList);
        for (auto& s : D.StrList)
            strs.push_back(s);
        o["strs"] = std::move(strs);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << json::Value(std::move(o));
    }
};

struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override
    {
        return std::make_unique<Cons>(CI);
    }
};

// usage: extract OUT.json ROOT[:ROOT...] FILE -- flags
int main(int argc, char** argv)
{
    if (argc < 5)
        return 2;
    OutFile = argv[1];
    std::string r = argv[2];
    size_t p = 0;
    while (p <= r.size())
    {
        auto q = r.find(':', p);
        if (q == std::string::npos)
            q = r.size();
        if (q > p)
            Roots.push_back(r.substr(p, q - p));
        p = q + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i)
        args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, { file });
    tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=/usr/lib/llvm-18/lib/clang/18"));
    struct Fac : tooling::FrontendActionFactory
    {
        std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
    } fac;
    return tool.run(&fac);
}
