// extract: dumps the type-checked program (resolved AST) of the project's own functions and records as JSON.
// A libTooling front end: no code of /repo is run. Only declarations whose file lies under one of the --root
// directories (and not under an --exclude prefix) are dumped; template instantiations are dumped as instantiated.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Roots("root", llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Excludes("exclude", llvm::cl::cat(Cat));

namespace {
std::vector<std::string> Types;
std::map<std::string, int> TypeIdx;
std::vector<std::string> Files;
std::map<std::string, int> FileIdx;
Array Functions, Records, Globals, Enums, EnumTypes;
std::set<const FunctionDecl *> DoneFn;
std::set<const CXXRecordDecl *> DoneRec;

struct Dumper {
    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> LocalIds;
    explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.SuppressUnwrittenScope = true;
        PP.Bool = true;
        PP.AnonymousTagLocations = false;
    }

    int type(QualType T) {
        if (T.isNull())
            return -1;
        std::string s = T.getCanonicalType().getAsString(PP);
        auto it = TypeIdx.find(s);
        if (it != TypeIdx.end())
            return it->second;
        int n = Types.size();
        Types.push_back(s);
        if (T.getCanonicalType()->isEnumeralType())
            EnumTypes.push_back(n);
        TypeIdx[s] = n;
        return n;
    }
    int file(StringRef f) {
        auto it = FileIdx.find(f.str());
        if (it != FileIdx.end())
            return it->second;
        int n = Files.size();
        Files.push_back(f.str());
        FileIdx[f.str()] = n;
        return n;
    }
    Array loc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L, false);
        if (P.isInvalid())
            return Array{-1, 0};
        return Array{file(P.getFilename()), (int)P.getLine()};
    }
    bool inProject(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid())
            return false;
        PresumedLoc P = SM.getPresumedLoc(L, false);
        if (P.isInvalid())
            return false;
        StringRef f = P.getFilename();
        bool in = false;
        for (auto &r : Roots)
            if (f.starts_with(r))
                in = true;
        for (auto &r : Excludes)
            if (f.starts_with(r))
                in = false;
        return in;
    }
    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string usr(const Decl *D) {
        D = D->getCanonicalDecl();
        llvm::SmallString<256> buf;
        if (auto *FD = dyn_cast<FunctionDecl>(D)) {
            // instantiations: make them unique by their printed template arguments and owner type
            index::generateUSRForDecl(D, buf);
            std::string s = buf.str().str();
            if (FD->isTemplateInstantiation() || isa<CXXMethodDecl>(FD)) {
                if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
                    s += "|" + Types[type(Ctx.getRecordType(MD->getParent()))];
                    if (MD->getParent()->isLambda())
                        s += "|" + std::to_string((unsigned long)SM.getFileOffset(MD->getParent()->getBeginLoc()));
                }
                s += "|" + Types[type(FD->getType())];
                if (auto *TA = FD->getTemplateSpecializationArgs())
                    for (auto &A : TA->asArray()) {
                        llvm::raw_string_ostream os(s);
                        os << ",";
                        A.print(PP, os, true);
                    }
            }
            return s;
        }
        index::generateUSRForDecl(D, buf);
        return buf.str().str();
    }
    int localId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = LocalIds.find(D);
        if (it != LocalIds.end())
            return it->second;
        int n = LocalIds.size();
        LocalIds[D] = n;
        return n;
    }
    static bool isLocalVar(const ValueDecl *D) {
        if (auto *V = dyn_cast<VarDecl>(D))
            return V->isLocalVarDeclOrParm();
        return isa<BindingDecl>(D) || isa<ImplicitParamDecl>(D);
    }
    std::string tmplArgs(const FunctionDecl *FD) {
        std::string s;
        if (auto *TA = FD->getTemplateSpecializationArgs()) {
            llvm::raw_string_ostream os(s);
            bool first = true;
            for (auto &A : TA->asArray()) {
                if (!first)
                    os << ",";
                first = false;
                A.print(PP, os, true);
            }
        }
        return s;
    }

    // ---- constants
    bool constVal(const Expr *E, Object &O) {
        if (E->isValueDependent() || E->isTypeDependent())
            return false;
        QualType T = E->getType();
        if (T->isIntegralOrEnumerationType() && E->isPRValue()) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
                llvm::SmallString<32> b;
                R.Val.getInt().toString(b, 10);
                O["cv"] = b.str().str();
                return true;
            }
        }
        return false;
    }
    std::string fstr(const llvm::APFloat &F) {
        llvm::SmallString<64> b;
        F.toString(b, 0, 0);
        return b.str().str();
    }

    template <class R>
    Value exprs(R &&Range) {
        Array A;
        for (const Expr *E : Range)
            A.push_back(expr(E));
        return A;
    }

    void calleeInfo(const FunctionDecl *FD, Object &O) {
        O["f"] = usr(FD);
        O["q"] = qname(FD);
        std::string ta = tmplArgs(FD);
        if (!ta.empty())
            O["ta"] = ta;
        Array ptr;
        for (auto *P : FD->parameters())
            ptr.push_back(type(P->getType()));
        O["pt"] = std::move(ptr);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
            O["cls"] = type(Ctx.getRecordType(MD->getParent()));
            if (MD->isConst())
                O["const"] = true;
            if (MD->isVirtual())
                O["virt"] = true;
            if (MD->isStatic())
                O["static"] = true;
        }
    }

    Value expr(const Expr *E) {
        if (!E)
            return nullptr;
        // transparent wrappers
        while (true) {
            if (auto *P = dyn_cast<ParenExpr>(E))
                E = P->getSubExpr();
            else if (auto *P = dyn_cast<ExprWithCleanups>(E))
                E = P->getSubExpr();
            else if (auto *P = dyn_cast<ConstantExpr>(E))
                E = P->getSubExpr();
            else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E))
                E = P->getSubExpr();
            else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E))
                E = P->getSubExpr();
            else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = P->getReplacement();
            else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E))
                E = P->getExpr();
            else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E))
                E = P->getExpr();
            else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E))
                E = P->getSubExpr();
            else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E))
                E = P->getSemanticForm();
            else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) {
                if (!P->getSourceExpr())
                    break;
                E = P->getSourceExpr();
            } else
                break;
        }
        Object O;
        O["t"] = type(E->getType());
        O["p"] = loc(E->getExprLoc())[1];
        if (E->isGLValue())
            O["lv"] = 1;
        if (auto *IC = dyn_cast<CastExpr>(E)) {
            switch (IC->getCastKind()) {
            case CK_LValueToRValue:
            case CK_NoOp:
            case CK_FunctionToPointerDecay:
            case CK_BuiltinFnToFnPtr: {
                Value V = expr(IC->getSubExpr());
                if (IC->getCastKind() == CK_LValueToRValue)
                    if (auto *VO = V.getAsObject()) {
                        Object tmp;
                        if (!VO->get("cv") && constVal(E, tmp))
                            (*VO)["cv"] = *tmp.get("cv");
                    }
                return V;
            }
            default:
                break;
            }
            O["k"] = "Cast";
            O["ck"] = IC->getCastKindName();
            constVal(E, O);
            O["e"] = expr(IC->getSubExpr());
            return O;
        }
        if (auto *L = dyn_cast<IntegerLiteral>(E)) {
            O["k"] = "Int";
            llvm::SmallString<32> b;
            L->getValue().toString(b, 10, L->getType()->isSignedIntegerType());
            O["v"] = b.str().str();
            return O;
        }
        if (auto *L = dyn_cast<FloatingLiteral>(E)) {
            O["k"] = "Float";
            // spelling keeps the decimal value the programmer wrote
            std::string sp = Lexer::getSourceText(SM.getExpansionRange(L->getSourceRange()), SM, Ctx.getLangOpts()).str();
            O["v"] = fstr(L->getValue());
            O["sp"] = sp;
            return O;
        }
        if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
            O["k"] = "Bool";
            O["v"] = L->getValue();
            return O;
        }
        if (auto *L = dyn_cast<StringLiteral>(E)) {
            O["k"] = "Str";
            if (L->getCharByteWidth() == 1) {
                std::string s = L->getString().str();
                if (!llvm::json::isUTF8(s))
                    s = llvm::json::fixUTF8(s);
                O["v"] = s;
            } else
                O["v"] = "";
            return O;
        }
        if (auto *L = dyn_cast<CharacterLiteral>(E)) {
            O["k"] = "Int";
            O["v"] = std::to_string(L->getValue());
            O["chr"] = true;
            return O;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            O["k"] = "Null";
            return O;
        }
        if (isa<CXXThisExpr>(E)) {
            O["k"] = "This";
            return O;
        }
        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *VD = D->getDecl();
            O["k"] = "Ref";
            O["n"] = VD->getNameAsString();
            if (auto *FD = dyn_cast<FunctionDecl>(VD)) {
                O["dk"] = "fn";
                calleeInfo(FD, O);
                return O;
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) {
                O["dk"] = "enum";
                O["q"] = qname(VD);
                llvm::SmallString<32> b;
                EC->getInitVal().toString(b, 10);
                O["cv"] = b.str().str();
                return O;
            }
            if (isLocalVar(VD)) {
                O["dk"] = "local";
                O["id"] = localId(VD);
            } else {
                O["dk"] = "global";
                O["q"] = qname(VD);
            }
            if (auto *V = dyn_cast<VarDecl>(VD)) {
                QualType T = V->getType();
                if (T.getNonReferenceType().isConstQualified() || V->isConstexpr()) {
                    const VarDecl *Def = nullptr;
                    if (V->getAnyInitializer(Def) && Def && Def->getInit() && !Def->getInit()->isValueDependent() &&
                        (T->isArithmeticType() || T->isEnumeralType())) {
                        Expr::EvalResult R;
                        if (Def->getInit()->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects) {
                            if (R.Val.isInt()) {
                                llvm::SmallString<32> b;
                                R.Val.getInt().toString(b, 10);
                                O["cv"] = b.str().str();
                            } else if (R.Val.isFloat())
                                O["cvf"] = fstr(R.Val.getFloat());
                        }
                    }
                }
            }
            return O;
        }
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            O["k"] = "Mem";
            O["n"] = M->getMemberDecl()->getNameAsString();
            O["arrow"] = M->isArrow();
            O["b"] = expr(M->getBase());
            if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl()))
                O["fo"] = type(Ctx.getRecordType(FD->getParent()));
            else if (auto *MD = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) {
                O["dk"] = "fn";
                calleeInfo(MD, O);
            } else {
                O["dk"] = "static";
                O["q"] = qname(M->getMemberDecl());
            }
            return O;
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            O["k"] = "Idx";
            O["b"] = expr(A->getBase());
            O["i"] = expr(A->getIdx());
            return O;
        }
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            O["k"] = "Un";
            O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            O["post"] = U->isPostfix();
            constVal(E, O);
            O["e"] = expr(U->getSubExpr());
            return O;
        }
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            O["k"] = isa<CompoundAssignOperator>(B) ? "CAsg" : (B->getOpcode() == BO_Assign ? "Asg" : "Bin");
            O["op"] = B->getOpcodeStr().str();
            if (auto *CA = dyn_cast<CompoundAssignOperator>(B))
                O["ct"] = type(CA->getComputationResultType());
            constVal(E, O);
            O["l"] = expr(B->getLHS());
            O["r"] = expr(B->getRHS());
            return O;
        }
        if (auto *C = dyn_cast<AbstractConditionalOperator>(E)) {
            O["k"] = "Cond";
            O["c"] = expr(C->getCond());
            O["a"] = expr(C->getTrueExpr());
            O["b"] = expr(C->getFalseExpr());
            return O;
        }
        if (auto *C = dyn_cast<CXXOperatorCallExpr>(E)) {
            O["k"] = "Call";
            O["op"] = getOperatorSpelling(C->getOperator());
            if (auto *FD = C->getDirectCallee()) {
                calleeInfo(FD, O);
                Array A;
                unsigned s = 0;
                if (isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
                    O["obj"] = expr(C->getArg(0));
                    s = 1;
                }
                for (unsigned i = s; i < C->getNumArgs(); i++)
                    A.push_back(expr(C->getArg(i)));
                O["a"] = std::move(A);
            } else {
                O["a"] = exprs(C->arguments());
            }
            return O;
        }
        if (auto *C = dyn_cast<CXXMemberCallExpr>(E)) {
            O["k"] = "Call";
            if (auto *MD = C->getMethodDecl()) {
                calleeInfo(MD, O);
                O["obj"] = expr(C->getImplicitObjectArgument());
                if (auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens())) {
                    if (ME->isArrow())
                        O["arrow"] = true;
                    if (ME->hasQualifier())
                        O["qual"] = true;
                }
            } else
                O["fx"] = expr(C->getCallee());
            O["a"] = exprs(C->arguments());
            return O;
        }
        if (auto *C = dyn_cast<CallExpr>(E)) {
            O["k"] = "Call";
            constVal(E, O);
            if (auto *FD = C->getDirectCallee())
                calleeInfo(FD, O);
            else
                O["fx"] = expr(C->getCallee());
            O["a"] = exprs(C->arguments());
            return O;
        }
        if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
            O["k"] = "Ctor";
            calleeInfo(C->getConstructor(), O);
            if (C->getConstructor()->isCopyOrMoveConstructor())
                O["copy"] = true;
            if (C->getConstructor()->isDefaultConstructor())
                O["def"] = true;
            if (C->isListInitialization())
                O["list"] = true;
            if (C->requiresZeroInitialization())
                O["zero"] = true;
            O["a"] = exprs(C->arguments());
            return O;
        }
        if (auto *I = dyn_cast<InitListExpr>(E)) {
            if (I->isSemanticForm() == false && I->getSemanticForm())
                I = I->getSemanticForm();
            O["k"] = "IList";
            Array A;
            for (auto *S : I->inits())
                A.push_back(expr(S));
            O["a"] = std::move(A);
            if (I->hasArrayFiller())
                O["fill"] = true;
            return O;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            O["k"] = "Zero";
            return O;
        }
        if (auto *L = dyn_cast<LambdaExpr>(E)) {
            O["k"] = "Lambda";
            Array caps;
            auto ci = L->capture_init_begin();
            for (auto &C : L->captures()) {
                Object CO;
                if (C.capturesThis()) {
                    CO["this"] = true;
                } else if (C.capturesVariable()) {
                    CO["id"] = localId(C.getCapturedVar());
                    CO["n"] = C.getCapturedVar()->getNameAsString();
                    CO["ref"] = C.getCaptureKind() == LCK_ByRef;
                    if (C.getCapturedVar()->isInitCapture())
                        CO["init"] = expr(*ci);
                }
                ++ci;
                caps.push_back(std::move(CO));
            }
            O["caps"] = std::move(caps);
            Array fns;
            const CXXRecordDecl *RD = L->getLambdaClass();
            if (RD->isGenericLambda()) {
                if (auto *T = RD->getDependentLambdaCallOperator())
                        for (auto *S : T->specializations())
                            if (S->hasBody())
                                fns.push_back(function(S, true));
            } else {
                fns.push_back(function(L->getCallOperator(), true));
            }
            O["fns"] = std::move(fns);
            return O;
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) {
            O["k"] = "New";
            O["at"] = type(N->getAllocatedType());
            if (N->isArray() && N->getArraySize())
                O["n"] = expr(*N->getArraySize());
            O["init"] = expr(N->getInitializer());
            return O;
        }
        if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
            O["k"] = "Delete";
            O["e"] = expr(D->getArgument());
            return O;
        }
        if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
            O["k"] = "Throw";
            O["e"] = expr(T->getSubExpr());
            return O;
        }
        if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            O["k"] = "SizeOf";
            constVal(E, O);
            O["at"] = type(U->getTypeOfArgument());
            return O;
        }
        if (auto *TI = dyn_cast<CXXTypeidExpr>(E)) {
            O["k"] = "TypeId";
            if (TI->isTypeOperand())
                O["at"] = type(TI->getTypeOperand(Ctx));
            else
                O["at"] = type(TI->getExprOperand()->getType());
            return O;
        }
        if (isa<TypeTraitExpr>(E)) {
            O["k"] = "Trait";
            constVal(E, O);
            return O;
        }
        if (auto *AI = dyn_cast<ArrayInitLoopExpr>(E)) {
            O["k"] = "ArrCopy";
            O["e"] = expr(AI->getCommonExpr());
            return O;
        }
        if (auto *PD = dyn_cast<PredefinedExpr>(E)) {
            O["k"] = "Str";
            O["v"] = PD->getFunctionName() ? PD->getFunctionName()->getString().str() : "";
            return O;
        }
        O["k"] = "Other";
        O["cls"] = E->getStmtClassName();
        constVal(E, O);
        Array A;
        for (auto *S : E->children())
            if (auto *SE = dyn_cast_or_null<Expr>(S))
                A.push_back(expr(SE));
        O["a"] = std::move(A);
        return O;
    }

    Value varDecl(const VarDecl *V) {
        Object O;
        O["id"] = localId(V);
        O["n"] = V->getNameAsString();
        O["t"] = type(V->getType());
        O["p"] = loc(V->getLocation())[1];
        if (V->isStaticLocal()) {
            O["static"] = true;
            if (V->getTSCSpec() != TSCS_unspecified)
                O["tls"] = true;
        }
        if (V->getType()->isReferenceType())
            O["ref"] = true;
        if (V->hasInit())
            O["init"] = expr(V->getInit());
        return O;
    }

    void ompClause(const OMPClause *C, Array &out) {
        Object O;
        O["c"] = llvm::omp::getOpenMPClauseName(C->getClauseKind()).str();
        Array vars;
        auto addVars = [&](auto *VC) {
            for (auto *E : VC->varlists())
                vars.push_back(expr(E));
        };
        if (auto *X = dyn_cast<OMPReductionClause>(C)) {
            O["op"] = X->getNameInfo().getName().getAsString();
            addVars(X);
        } else if (auto *X = dyn_cast<OMPPrivateClause>(C))
            addVars(X);
        else if (auto *X = dyn_cast<OMPFirstprivateClause>(C))
            addVars(X);
        else if (auto *X = dyn_cast<OMPLastprivateClause>(C))
            addVars(X);
        else if (auto *X = dyn_cast<OMPSharedClause>(C))
            addVars(X);
        else if (auto *X = dyn_cast<OMPCopyinClause>(C))
            addVars(X);
        else if (auto *X = dyn_cast<OMPLinearClause>(C))
            addVars(X);
        else if (auto *X = dyn_cast<OMPCollapseClause>(C))
            O["e"] = expr(X->getNumForLoops());
        else if (auto *X = dyn_cast<OMPNumThreadsClause>(C))
            O["e"] = expr(X->getNumThreads());
        else if (auto *X = dyn_cast<OMPIfClause>(C))
            O["e"] = expr(X->getCondition());
        O["vars"] = std::move(vars);
        out.push_back(std::move(O));
    }

    Value stmt(const Stmt *S) {
        if (!S)
            return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            Object O;
            O["k"] = "Expr";
            O["p"] = loc(E->getExprLoc())[1];
            O["e"] = expr(E);
            return O;
        }
        Object O;
        O["p"] = loc(S->getBeginLoc())[1];
        if (auto *C = dyn_cast<CompoundStmt>(S)) {
            O["k"] = "Block";
            Array A;
            for (auto *X : C->body())
                A.push_back(stmt(X));
            O["b"] = std::move(A);
            return O;
        }
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            O["k"] = "Decl";
            Array A;
            for (auto *X : D->decls())
                if (auto *V = dyn_cast<VarDecl>(X)) {
                    A.push_back(varDecl(V));
                    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
                        Object *VO = A.back().getAsObject();
                        Array B;
                        for (auto *BD : DD->bindings()) {
                            Object BO;
                            BO["id"] = localId(BD);
                            BO["n"] = BD->getNameAsString();
                            B.push_back(std::move(BO));
                        }
                        (*VO)["bind"] = std::move(B);
                    }
                }
            O["d"] = std::move(A);
            return O;
        }
        if (auto *I = dyn_cast<IfStmt>(S)) {
            O["k"] = "If";
            if (I->getInit())
                O["init"] = stmt(I->getInit());
            if (I->getConditionVariable())
                O["cvd"] = varDecl(I->getConditionVariable());
            O["c"] = expr(I->getCond());
            O["a"] = stmt(I->getThen());
            O["b"] = stmt(I->getElse());
            return O;
        }
        if (auto *F = dyn_cast<ForStmt>(S)) {
            O["k"] = "For";
            O["init"] = stmt(F->getInit());
            O["c"] = expr(F->getCond());
            O["inc"] = expr(F->getInc());
            O["b"] = stmt(F->getBody());
            return O;
        }
        if (auto *F = dyn_cast<WhileStmt>(S)) {
            O["k"] = "While";
            if (F->getConditionVariable())
                O["cvd"] = varDecl(F->getConditionVariable());
            O["c"] = expr(F->getCond());
            O["b"] = stmt(F->getBody());
            return O;
        }
        if (auto *F = dyn_cast<DoStmt>(S)) {
            O["k"] = "Do";
            O["c"] = expr(F->getCond());
            O["b"] = stmt(F->getBody());
            return O;
        }
        if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
            O["k"] = "RFor";
            O["var"] = varDecl(F->getLoopVariable());
            if (auto *DD = dyn_cast<DecompositionDecl>(F->getLoopVariable())) {
                Array B;
                for (auto *BD : DD->bindings()) {
                    Object BO;
                    BO["id"] = localId(BD);
                    BO["n"] = BD->getNameAsString();
                    B.push_back(std::move(BO));
                }
                O["bind"] = std::move(B);
            }
            O["range"] = expr(F->getRangeInit());
            O["b"] = stmt(F->getBody());
            return O;
        }
        if (auto *W = dyn_cast<SwitchStmt>(S)) {
            O["k"] = "Switch";
            O["c"] = expr(W->getCond());
            O["b"] = stmt(W->getBody());
            return O;
        }
        if (auto *C = dyn_cast<CaseStmt>(S)) {
            O["k"] = "Case";
            O["v"] = expr(C->getLHS());
            O["b"] = stmt(C->getSubStmt());
            return O;
        }
        if (auto *C = dyn_cast<DefaultStmt>(S)) {
            O["k"] = "Default";
            O["b"] = stmt(C->getSubStmt());
            return O;
        }
        if (isa<BreakStmt>(S)) {
            O["k"] = "Break";
            return O;
        }
        if (isa<ContinueStmt>(S)) {
            O["k"] = "Continue";
            return O;
        }
        if (auto *R = dyn_cast<ReturnStmt>(S)) {
            O["k"] = "Return";
            O["e"] = expr(R->getRetValue());
            return O;
        }
        if (isa<NullStmt>(S)) {
            O["k"] = "Null";
            return O;
        }
        if (auto *T = dyn_cast<CXXTryStmt>(S)) {
            O["k"] = "Try";
            O["b"] = stmt(T->getTryBlock());
            Array A;
            for (unsigned i = 0; i < T->getNumHandlers(); i++)
                A.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
            O["h"] = std::move(A);
            return O;
        }
        if (auto *A = dyn_cast<AttributedStmt>(S))
            return stmt(A->getSubStmt());
        if (auto *L = dyn_cast<LabelStmt>(S)) {
            O["k"] = "Label";
            O["b"] = stmt(L->getSubStmt());
            return O;
        }
        if (auto *C = dyn_cast<CapturedStmt>(S))
            return stmt(C->getCapturedStmt());
        if (auto *L = dyn_cast<OMPCanonicalLoop>(S))
            return stmt(L->getLoopStmt());
        if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
            O["k"] = "OMP";
            O["d"] = getOpenMPDirectiveName(D->getDirectiveKind()).str();
            if (auto *CD = dyn_cast<OMPCriticalDirective>(D))
                O["name"] = CD->getDirectiveName().getAsString();
            Array cl;
            for (auto *C : D->clauses())
                if (C && !C->isImplicit())
                    ompClause(C, cl);
            O["cl"] = std::move(cl);
            if (D->hasAssociatedStmt())
                O["b"] = stmt(D->getRawStmt());
            return O;
        }
        O["k"] = "OtherStmt";
        O["cls"] = S->getStmtClassName();
        return O;
    }

    Value function(const FunctionDecl *FD, bool lambda = false) {
        Object O;
        const FunctionDecl *Def = FD;
        if (!FD->hasBody(Def))
            Def = FD;
        O["u"] = usr(FD);
        O["q"] = qname(FD);
        O["n"] = FD->getNameAsString();
        Array L = loc(Def->getLocation());
        O["file"] = L[0];
        O["line"] = L[1];
        O["ret"] = type(FD->getReturnType());
        std::string ta = tmplArgs(FD);
        if (!ta.empty())
            O["ta"] = ta;
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
            O["cls"] = type(Ctx.getRecordType(MD->getParent()));
            O["clsq"] = qname(MD->getParent());
            if (MD->isStatic())
                O["static"] = true;
            if (MD->isConst())
                O["const"] = true;
            if (MD->isVirtual())
                O["virt"] = true;
            Array ov;
            for (auto *X : MD->overridden_methods())
                ov.push_back(usr(X));
            if (!ov.empty())
                O["over"] = std::move(ov);
            if (MD->getAccess() == AS_public)
                O["public"] = true;
        }
        if (lambda)
            O["lambda"] = true;
        if (isa<CXXConstructorDecl>(FD))
            O["ctor"] = true;
        if (isa<CXXDestructorDecl>(FD))
            O["dtor"] = true;
        if (FD->isDefaulted())
            O["defaulted"] = true;
        if (FD->isDeleted())
            O["deleted"] = true;
        Array P;
        for (auto *X : Def->parameters()) {
            Object PO;
            PO["id"] = localId(X);
            PO["n"] = X->getNameAsString();
            PO["t"] = type(X->getType());
            if (X->hasDefaultArg() && !X->hasUninstantiatedDefaultArg() && !X->hasUnparsedDefaultArg() && X->getDefaultArg())
                PO["def"] = expr(X->getDefaultArg());
            P.push_back(std::move(PO));
        }
        O["params"] = std::move(P);
        if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
            Array I;
            for (auto *X : CD->inits()) {
                Object IO;
                if (X->isAnyMemberInitializer())
                    IO["m"] = X->getAnyMember()->getNameAsString();
                else if (X->isBaseInitializer())
                    IO["base"] = type(QualType(X->getBaseClass(), 0));
                else if (X->isDelegatingInitializer())
                    IO["deleg"] = true;
                IO["written"] = X->isWritten();
                IO["e"] = expr(X->getInit());
                I.push_back(std::move(IO));
            }
            O["inits"] = std::move(I);
        }
        if (Def->hasBody())
            O["body"] = stmt(Def->getBody());
        return O;
    }

    void record(const CXXRecordDecl *RD) {
        RD = RD->getDefinition();
        if (!RD || RD->isDependentType() || !DoneRec.insert(RD).second)
            return;
        Object O;
        O["t"] = type(Ctx.getRecordType(RD));
        O["q"] = qname(RD);
        Array L = loc(RD->getLocation());
        O["file"] = L[0];
        O["line"] = L[1];
        Array B;
        for (auto &X : RD->bases())
            B.push_back(type(X.getType()));
        O["bases"] = std::move(B);
        Array F;
        for (auto *X : RD->fields()) {
            Object FO;
            FO["n"] = X->getNameAsString();
            FO["t"] = type(X->getType());
            FO["p"] = loc(X->getLocation())[1];
            switch (X->getAccess()) {
            case AS_public: FO["acc"] = "public"; break;
            case AS_private: FO["acc"] = "private"; break;
            default: FO["acc"] = "protected"; break;
            }
            if (X->hasInClassInitializer() && X->getInClassInitializer())
                FO["init"] = expr(X->getInClassInitializer());
            F.push_back(std::move(FO));
        }
        O["fields"] = std::move(F);
        O["trivcopy"] = QualType(Ctx.getRecordType(RD)).isTriviallyCopyableType(Ctx);
        if (RD->isPolymorphic())
            O["poly"] = true;
        Records.push_back(std::move(O));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  public:
    ASTContext &Ctx;
    explicit Visitor(ASTContext &C) : Ctx(C) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *FD) {
        if (FD->isDependentContext() || !FD->hasBody() || !FD->isThisDeclarationADefinition())
            return true;
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
            if (MD->getParent()->isLambda())
                return true;
        Dumper D(Ctx);
        if (!D.inProject(FD->getLocation()))
            return true;
        if (!DoneFn.insert(FD->getCanonicalDecl()).second)
            return true;
        Functions.push_back(D.function(FD));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
        if (!RD->isThisDeclarationADefinition() || RD->isLambda())
            return true;
        Dumper D(Ctx);
        if (D.inProject(RD->getLocation()))
            D.record(RD);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->isLocalVarDeclOrParm() || !V->hasGlobalStorage())
            return true;
        Dumper D(Ctx);
        if (!D.inProject(V->getLocation()) || V->getDeclContext()->isDependentContext())
            return true;
        Object O;
        O["q"] = D.qname(V);
        O["t"] = D.type(V->getType());
        Array L = D.loc(V->getLocation());
        O["file"] = L[0];
        O["line"] = L[1];
        if (V->getTSCSpec() != TSCS_unspecified)
            O["tls"] = true;
        if (V->hasInit())
            O["init"] = D.expr(V->getInit());
        Globals.push_back(std::move(O));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *ED) {
        Dumper D(Ctx);
        if (!D.inProject(ED->getLocation()) || !ED->isThisDeclarationADefinition())
            return true;
        Object O;
        O["q"] = D.qname(ED);
        O["t"] = D.type(Ctx.getEnumType(ED));
        Array A;
        for (auto *X : ED->enumerators()) {
            llvm::SmallString<32> b;
            X->getInitVal().toString(b, 10);
            A.push_back(Array{X->getNameAsString(), b.str().str()});
        }
        O["vals"] = std::move(A);
        Enums.push_back(std::move(O));
        return true;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &Ctx) override {
        Visitor V(Ctx);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
    }
};
class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
        return std::make_unique<Consumer>();
    }
};
} // namespace

int main(int argc, const char **argv) {
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) {
        llvm::errs() << P.takeError();
        return 2;
    }
    tooling::ClangTool Tool(P->getCompilations(), P->getSourcePathList());
    int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    if (rc)
        return 2;
    Array T, F;
    for (auto &t : Types)
        T.push_back(llvm::json::isUTF8(t) ? t : llvm::json::fixUTF8(t));
    for (auto &f : Files)
        F.push_back(f);
    Object O;
    O["types"] = std::move(T);
    O["files"] = std::move(F);
    O["functions"] = std::move(Functions);
    O["records"] = std::move(Records);
    O["globals"] = std::move(Globals);
    O["enums"] = std::move(Enums);
    O["enumtypes"] = std::move(EnumTypes);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    if (EC) {
        llvm::errs() << EC.message() << "\n";
        return 2;
    }
    OS << Value(std::move(O));
    return 0;
}
