// edyn-extract: dumps, for every function definition that lives in the wanted
// files, a type-resolved statement tree and its control-flow graph as JSON.
// usage: edyn-extract -o OUT.json -root DIR [-root DIR ...] [-only REGEX] [-cfg 0|1] FILE... -- flags
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
#include <deque>

using namespace clang;

static std::vector<std::string> Roots;
static std::string OnlyRe;
static bool WantCFG = true;
static std::set<std::string> SeenFns, SeenRecs, SeenEnums, SeenVars;
static std::string Out;
static bool FirstFn = true, FirstRec = true, FirstEnum = true, FirstVar = true;
static std::string FnsOut, RecsOut, EnumsOut, VarsOut, FilesOut;
static std::set<std::string> FilesSeen;
static unsigned NumErrors = 0;

static std::string esc(llvm::StringRef s) {
    std::string r; r.reserve(s.size() + 2); r += '"';
    for (unsigned char c : s) {
        if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    r += '"'; return r;
}

class Emitter {
public:
    ASTContext &Ctx; SourceManager &SM; PrintingPolicy PP;
    std::regex Only; bool HasOnly;
    std::deque<const FunctionDecl *> Queue;
    std::set<const FunctionDecl *> Queued;
    std::map<const Decl *, unsigned> DeclIds; unsigned NextDecl = 1;
    std::map<const Stmt *, unsigned> NodeIds; unsigned NextNode = 1;
    std::string CurFile;

    Emitter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
        PP.TerseOutput = true; PP.PolishForDeclaration = false; PP.AnonymousTagLocations = false;
        HasOnly = !OnlyRe.empty(); if (HasOnly) Only = std::regex(OnlyRe);
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto F = SM.getFilename(L); return F.str();
    }
    unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    std::string norm(const std::string &f) {
        llvm::SmallString<256> p(f);
        llvm::sys::fs::make_absolute(p);
        llvm::sys::path::remove_dots(p, true);
        return std::string(p);
    }
    bool inRoots(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto f = norm(fileOf(L));
        for (auto &r : Roots) if (f.rfind(r, 0) == 0) return true;
        return false;
    }
    bool wanted(SourceLocation L) {
        if (!inRoots(L)) return false;
        if (!HasOnly) return true;
        return std::regex_search(norm(fileOf(L)), Only);
    }
    std::string type(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    unsigned declId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = DeclIds.find(D); if (it != DeclIds.end()) return it->second;
        return DeclIds[D] = NextDecl++;
    }
    std::string qname(const NamedDecl *D) {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
            if (M->getParent()->isLambda()) { return lambdaName(M->getParent()) + "::operator()"; }
        }
        printCtx(os, D->getDeclContext());
        D->printName(os, PP);
        return os.str();
    }
    std::string lambdaName(const CXXRecordDecl *R) {
        auto L = R->getLocation();
        std::string s; llvm::raw_string_ostream os(s);
        os << "lambda@" << norm(fileOf(L)) << ":" << lineOf(L) << ":" << SM.getExpansionColumnNumber(L);
        return os.str();
    }
    void printCtx(llvm::raw_ostream &os, const DeclContext *DC) {
        if (!DC || DC->isTranslationUnit()) return;
        if (isa<LinkageSpecDecl>(DC)) { printCtx(os, DC->getParent()); return; }
        if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
            if (N->isInline() ) { printCtx(os, DC->getParent()); return; }
            printCtx(os, DC->getParent());
            if (N->isAnonymousNamespace()) os << "(anon)::"; else os << N->getName() << "::";
            return;
        }
        if (auto *R = dyn_cast<CXXRecordDecl>(DC)) {
            if (R->isLambda()) { os << lambdaName(R) << "::"; return; }
            printCtx(os, DC->getParent()); os << R->getName() << "::"; return;
        }
        if (auto *F = dyn_cast<FunctionDecl>(DC)) { printCtx(os, DC->getParent()); F->printName(os, PP); os << "()::"; return; }
        if (auto *E = dyn_cast<EnumDecl>(DC)) { printCtx(os, DC->getParent()); os << E->getName() << "::"; return; }
        printCtx(os, DC->getParent());
    }
    std::string fnId(const FunctionDecl *F) {
        std::string s; llvm::raw_string_ostream os(s);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->getParent()->isLambda()) {
                // Identify by location plus enclosing function identity (templates re-instantiate lambdas).
                os << lambdaName(M->getParent()) << "::operator()";
                if (auto *P = dyn_cast_or_null<FunctionDecl>(M->getParent()->getDeclContext())) os << "@" << fnId(P);
                os << "(" << type(F->getType()) << ")";
                return os.str();
            }
            os << type(Ctx.getRecordType(M->getParent())) << "::";
        } else {
            printCtx(os, F->getDeclContext());
        }
        F->printName(os, PP);
        if (auto *A = F->getTemplateSpecializationArgs()) { os << "<"; printArgs(os, A->asArray()); os << ">"; }
        os << "(" << type(F->getType()) << ")";
        if (auto *P = dyn_cast_or_null<CXXRecordDecl>(F->getDeclContext()))
            if (auto *PF = P->isLocalClass()) os << "@" << fnId(PF);
        if (F->getFormalLinkage() == Linkage::Internal) os << "@" << norm(fileOf(F->getCanonicalDecl()->getLocation()));
        return os.str();
    }
    void printArgs(llvm::raw_ostream &os, llvm::ArrayRef<TemplateArgument> A) {
        bool first = true;
        for (auto &a : A) {
            if (a.getKind() == TemplateArgument::Pack) {
                for (auto &b : a.pack_elements()) { if (!first) os << ","; first = false; printArg(os, b); }
                continue;
            }
            if (!first) os << ","; first = false; printArg(os, a);
        }
    }
    void printArg(llvm::raw_ostream &os, const TemplateArgument &a) {
        switch (a.getKind()) {
        case TemplateArgument::Type: {
            auto T = a.getAsType();
            if (auto *R = T->getAsCXXRecordDecl()) if (R->isLambda()) { os << lambdaName(R); return; }
            os << type(T); break; }
        case TemplateArgument::Declaration:
            if (auto *F = dyn_cast<FunctionDecl>(a.getAsDecl())) os << "&" << qname(F); else os << "&" << qname(a.getAsDecl());
            break;
        default: a.print(PP, os, true);
        }
    }
    std::string argList(llvm::ArrayRef<TemplateArgument> A) {
        std::string r = "["; bool first = true;
        auto one = [&](const TemplateArgument &a) {
            std::string s; llvm::raw_string_ostream os(s); printArg(os, a); os.flush();
            if (!first) r += ","; first = false; r += esc(s);
        };
        for (auto &a : A) { if (a.getKind() == TemplateArgument::Pack) for (auto &b : a.pack_elements()) one(b); else one(a); }
        return r + "]";
    }

    std::string apvalue(const APValue &V) {
        switch (V.getKind()) {
        case APValue::Int: return toStr(V.getInt());
        case APValue::Float: { auto f = V.getFloat(); bool loses; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &loses);
            double d = f.convertToDouble(); if (d != d || d - d != 0) return d > 0 ? "1e999" : (d < 0 ? "-1e999" : "null"); char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
        case APValue::Array: { std::string r = "["; unsigned n = V.getArraySize();
            for (unsigned i = 0; i < n && i < 4096; ++i) { if (i) r += ","; r += i < V.getArrayInitializedElts() ? apvalue(V.getArrayInitializedElt(i)) : (V.hasArrayFiller() ? apvalue(V.getArrayFiller()) : "null"); }
            return r + "]"; }
        case APValue::Struct: { std::string r = "["; bool first = true;
            for (unsigned i = 0; i < V.getStructNumBases(); ++i) { if (!first) r += ","; first = false; r += apvalue(V.getStructBase(i)); }
            for (unsigned i = 0; i < V.getStructNumFields(); ++i) { if (!first) r += ","; first = false; r += apvalue(V.getStructField(i)); }
            return r + "]"; }
        default: return "null";
        }
    }
    std::string toStr(const llvm::APSInt &I) { llvm::SmallString<32> s; I.toString(s, 10); return std::string(s); }

    const Expr *strip(const Expr *E) {
        for (;;) {
            if (!E) return E;
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
            if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
            if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) { E = P->getSourceExpr(); continue; } return E; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<GenericSelectionExpr>(E)) { E = P->getResultExpr(); continue; }
            if (auto *C = dyn_cast<ImplicitCastExpr>(E)) {
                switch (C->getCastKind()) {
                case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast: case CK_FloatingCast:
                case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: case CK_BooleanToSignedIntegral:
                    return E;
                default: E = C->getSubExpr(); continue;
                }
            }
            if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
                // Elidable/implicit copies and moves of a value: keep copies of lvalues (they matter), drop elided ones.
                if (C->isElidable() && C->getNumArgs() == 1) { E = C->getArg(0); continue; }
            }
            return E;
        }
    }

    unsigned nid(const Stmt *S) { auto it = NodeIds.find(S); if (it != NodeIds.end()) return it->second; return NodeIds[S] = NextNode++; }
    // Registers every wrapper stripped between E and the inner node under the same id.
    void aliasChain(const Expr *E, const Expr *Inner, unsigned id) {
        const Stmt *S = E;
        std::vector<const Stmt *> st{S};
        unsigned guard = 0;
        while (S && S != Inner && guard++ < 64) {
            NodeIds[S] = id;
            const Stmt *N = nullptr;
            if (auto *P = dyn_cast<ParenExpr>(S)) N = P->getSubExpr();
            else if (auto *P = dyn_cast<FullExpr>(S)) N = P->getSubExpr();
            else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) N = P->getSubExpr();
            else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) N = P->getSubExpr();
            else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) N = P->getReplacement();
            else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(S)) N = P->getSemanticForm();
            else if (auto *P = dyn_cast<CXXDefaultArgExpr>(S)) { break; }
            else if (auto *P = dyn_cast<CXXDefaultInitExpr>(S)) { break; }
            else if (auto *P = dyn_cast<OpaqueValueExpr>(S)) N = P->getSourceExpr();
            else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(S)) N = P->getSubExpr();
            else if (auto *P = dyn_cast<GenericSelectionExpr>(S)) N = P->getResultExpr();
            else if (auto *C = dyn_cast<ImplicitCastExpr>(S)) N = C->getSubExpr();
            else if (auto *C = dyn_cast<CXXConstructExpr>(S)) N = C->getNumArgs() ? C->getArg(0) : nullptr;
            if (!N) break;
            S = N;
        }
    }

    std::string macroOf(SourceLocation L) {
        if (!L.isMacroID()) return "";
        // Outermost macro whose *body* (or argument) produced this location.
        SourceLocation Cur = L; std::string name;
        while (Cur.isMacroID()) {
            name = Lexer::getImmediateMacroName(Cur, SM, Ctx.getLangOpts()).str();
            Cur = SM.getImmediateMacroCallerLoc(Cur);
        }
        // walk via expansion to get the outermost
        Cur = L;
        while (Cur.isMacroID()) {
            auto R = SM.getImmediateExpansionRange(Cur);
            name = Lexer::getImmediateMacroName(Cur, SM, Ctx.getLangOpts()).str();
            Cur = R.getBegin();
        }
        return name;
    }

    std::string ParentMac;

    std::string head(const Stmt *S, const char *k, unsigned id) {
        std::string r = "{\"k\":\""; r += k; r += "\",\"i\":" + std::to_string(id) + ",\"l\":" + std::to_string(lineOf(S->getBeginLoc()));
        auto L = S->getBeginLoc();
        if (L.isMacroID()) { auto m = macroOf(L); if (!m.empty()) r += ",\"mac\":" + esc(m); }
        return r;
    }
    std::string ty(QualType T) { return ",\"t\":" + esc(type(T)); }

    void enqueue(const FunctionDecl *F) {
        if (!F) return;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) { return; }
        if (Def->isDependentContext()) return;
        if (Queued.insert(Def).second) Queue.push_back(Def);
    }

    std::string callee(const FunctionDecl *F) {
        std::string r = ",\"q\":" + esc(qname(F)) + ",\"id\":" + esc(fnId(F));
        if (auto *A = F->getTemplateSpecializationArgs()) r += ",\"ta\":" + argList(A->asArray());
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual()) r += ",\"virt\":1";
            if (M->isConst()) r += ",\"mconst\":1";
            if (M->isStatic()) r += ",\"mstatic\":1";
            r += ",\"cls\":" + esc(type(Ctx.getRecordType(M->getParent())));
        }
        // parameter passing modes: v value, r mutable ref, c const ref, x rvalue ref, p pointer
        std::string pm;
        for (auto *P : F->parameters()) {
            auto T = P->getType().getCanonicalType();
            if (T->isLValueReferenceType()) pm += T->getPointeeType().isConstQualified() ? 'c' : 'r';
            else if (T->isRValueReferenceType()) pm += 'x';
            else if (T->isPointerType()) pm += T->getPointeeType().isConstQualified() ? 'q' : 'p';
            else pm += 'v';
        }
        r += ",\"pm\":\"" + pm + "\"";
        enqueue(F);
        return r;
    }

    std::string kids(std::initializer_list<const Expr *> L) {
        std::string r = ",\"c\":["; bool f = true;
        for (auto *e : L) { if (!e) continue; if (!f) r += ","; f = false; r += expr(e); }
        return r + "]";
    }

    std::string expr(const Expr *E0) {
        if (!E0) return "null";
        const Expr *E = strip(E0);
        unsigned id = nid(E);
        aliasChain(E0, E, id);
        std::string r;
        auto constVal = [&](const Expr *X) -> std::string {
            if (X->isValueDependent() || X->isTypeDependent()) return "";
            Expr::EvalResult R;
            auto T = X->getType();
            if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return "";
            if (X->EvaluateAsRValue(R, Ctx) && !R.HasSideEffects) {
                auto s = apvalue(R.Val); if (s != "null") return ",\"cv\":" + s;
            }
            return "";
        };
        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
            auto *V = D->getDecl();
            r = head(E, "ref", id) + ty(E->getType()) + ",\"n\":" + esc(V->getNameAsString());
            if (auto *F = dyn_cast<FunctionDecl>(V)) { r += ",\"dk\":\"func\"" + callee(F); }
            else if (isa<EnumConstantDecl>(V)) { r += ",\"dk\":\"enum\",\"q\":" + esc(qname(V)) + constVal(E); }
            else if (auto *B = dyn_cast<BindingDecl>(V)) { r += ",\"dk\":\"bind\",\"d\":" + std::to_string(declId(B)); }
            else if (auto *P = dyn_cast<ParmVarDecl>(V)) { r += ",\"dk\":\"param\",\"d\":" + std::to_string(declId(P)) + ",\"vt\":" + esc(type(P->getType())); }
            else if (auto *VD = dyn_cast<VarDecl>(V)) {
                r += ",\"d\":" + std::to_string(declId(VD)) + ",\"vt\":" + esc(type(VD->getType()));
                if (VD->isLocalVarDecl() && !VD->isStaticLocal()) { r += ",\"dk\":\"local\""; if (VD->isConstexpr()) r += constVal(E); }
                else { r += std::string(",\"dk\":\"") + (VD->isStaticLocal() ? "static" : "global") + "\",\"q\":" + esc(qname(VD)) + constVal(E); emitVar(VD); }
            } else r += ",\"dk\":\"other\"";
            if (D->refersToEnclosingVariableOrCapture()) r += ",\"cap\":1";
            return r + "}";
        }
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            auto *V = M->getMemberDecl();
            if (auto *VD = dyn_cast<VarDecl>(V)) { // static data member
                emitVar(VD);
                return head(E, "ref", id) + ty(E->getType()) + ",\"n\":" + esc(V->getNameAsString()) + ",\"dk\":\"global\",\"d\":" + std::to_string(declId(VD)) + ",\"vt\":" + esc(type(VD->getType())) + ",\"q\":" + esc(qname(VD)) + constVal(E) + "}";
            }
            r = head(E, "mem", id) + ty(E->getType()) + ",\"n\":" + esc(V->getNameAsString()) + ",\"q\":" + esc(qname(V));
            if (auto *FD = dyn_cast<FieldDecl>(V)) r += ",\"vt\":" + esc(type(FD->getType()));
            if (M->isArrow()) r += ",\"arrow\":1";
            if (auto *F = dyn_cast<FunctionDecl>(V)) r += callee(F);
            return r + kids({M->getBase()}) + "}";
        }
        if (auto *I = dyn_cast<IntegerLiteral>(E)) return head(E, "lit", id) + ty(E->getType()) + ",\"v\":" + toStr(llvm::APSInt(I->getValue(), !I->getType()->isSignedIntegerType())) + "}";
        if (auto *F = dyn_cast<FloatingLiteral>(E)) return head(E, "lit", id) + ty(E->getType()) + ",\"v\":" + apvalue(APValue(F->getValue())) + ",\"fl\":1}";
        if (auto *B = dyn_cast<CXXBoolLiteralExpr>(E)) return head(E, "lit", id) + ty(E->getType()) + ",\"v\":" + (B->getValue() ? "true" : "false") + "}";
        if (auto *C = dyn_cast<CharacterLiteral>(E)) return head(E, "lit", id) + ty(E->getType()) + ",\"v\":" + std::to_string(C->getValue()) + "}";
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return head(E, "null", id) + ty(E->getType()) + "}";
        if (auto *S = dyn_cast<StringLiteral>(E)) return head(E, "str", id) + ",\"v\":" + (S->getCharByteWidth() == 1 ? esc(S->getString()) : std::string("\"\"")) + "}";
        if (isa<CXXThisExpr>(E)) return head(E, "this", id) + ty(E->getType()) + "}";
        if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
            r = head(E, "call", id) + ty(E->getType()) + ",\"op\":" + esc(getOperatorSpelling(O->getOperator()));
            auto *F = O->getDirectCallee();
            if (F) { r += callee(F); if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (!M->isStatic()) r += ",\"m\":1"; }
            r += ",\"c\":["; bool f = true;
            for (auto *A : O->arguments()) { if (!f) r += ","; f = false; r += expr(A); }
            return r + "]}";
        }
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
            r = head(E, "call", id) + ty(E->getType()) + ",\"m\":1";
            auto *F = MC->getMethodDecl();
            std::string obj;
            if (F) { r += callee(F);
                if (auto *ME = dyn_cast<MemberExpr>(strip(MC->getCallee()))) { if (ME->isArrow()) r += ",\"arrow\":1"; NodeIds[ME] = nid(ME); if (ME->hasQualifier()) r += ",\"qualcall\":1"; }
                obj = expr(MC->getImplicitObjectArgument()); }
            else obj = expr(MC->getCallee());
            r += ",\"c\":[" + obj;
            for (auto *A : MC->arguments()) { r += "," + expr(A); }
            return r + "]}";
        }
        if (auto *C = dyn_cast<CallExpr>(E)) {
            r = head(E, "call", id) + ty(E->getType());
            auto *F = C->getDirectCallee();
            r += F ? callee(F) : ",\"fp\":1";
            if (F && F->getBuiltinID()) r += ",\"bi\":1";
            if (F) r += constVal(E);
            r += ",\"c\":["; bool f = true;
            if (!F) { r += expr(C->getCallee()); f = false; }
            for (auto *A : C->arguments()) { if (!f) r += ","; f = false; r += expr(A); }
            return r + "]}";
        }
        if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
            auto *K = C->getConstructor();
            r = head(E, "ctor", id) + ty(E->getType()) + callee(K);
            if (K->isCopyConstructor()) r += ",\"cp\":1"; if (K->isMoveConstructor()) r += ",\"mv\":1";
            if (K->isImplicit() || K->isDefaulted()) r += ",\"triv\":1";
            if (C->requiresZeroInitialization()) r += ",\"zi\":1";
            if (isa<CXXTemporaryObjectExpr>(C)) r += ",\"tmp\":1";
            r += ",\"c\":["; bool f = true;
            for (auto *A : C->arguments()) { if (!f) r += ","; f = false; r += expr(A); }
            return r + "]}";
        }
        if (auto *I = dyn_cast<CXXInheritedCtorInitExpr>(E)) return head(E, "ctor", id) + ty(E->getType()) + callee(I->getConstructor()) + ",\"inh\":1,\"c\":[]}";
        if (auto *IL = dyn_cast<InitListExpr>(E)) {
            auto *Sem = IL->isSemanticForm() ? IL : IL->getSemanticForm(); if (!Sem) Sem = IL;
            r = head(E, "init", id) + ty(E->getType()) + ",\"c\":["; bool f = true;
            for (auto *A : Sem->inits()) { if (!f) r += ","; f = false; r += A ? expr(A) : std::string("null"); }
            r += "]";
            if (Sem->hasArrayFiller()) r += ",\"fill\":1";
            return r + "}";
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return head(E, "zero", id) + ty(E->getType()) + "}";
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            const char *k = B->isAssignmentOp() ? "asg" : "bin";
            r = head(E, k, id) + ty(E->getType()) + ",\"op\":" + esc(B->getOpcodeStr());
            if (!B->isAssignmentOp()) r += constVal(E);
            return r + kids({B->getLHS(), B->getRHS()}) + "}";
        }
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op = "p" + op;
            r = head(E, "un", id) + ty(E->getType()) + ",\"op\":" + esc(op);
            if (!U->isIncrementDecrementOp()) r += constVal(E);
            return r + kids({U->getSubExpr()}) + "}";
        }
        if (auto *C = dyn_cast<ConditionalOperator>(E)) return head(E, "cond", id) + ty(E->getType()) + kids({C->getCond(), C->getTrueExpr(), C->getFalseExpr()}) + "}";
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) return head(E, "sub", id) + ty(E->getType()) + kids({A->getBase(), A->getIdx()}) + "}";
        if (auto *C = dyn_cast<CastExpr>(E)) {
            r = head(E, "cast", id) + ty(E->getType()) + ",\"ck\":\"" + C->getCastKindName() + "\"" + constVal(E);
            if (!isa<ImplicitCastExpr>(C)) r += ",\"ex\":1";
            if (auto *NC = dyn_cast<CXXNamedCastExpr>(C)) r += ",\"nc\":" + esc(NC->getCastName());
            return r + kids({C->getSubExpr()}) + "}";
        }
        if (auto *L = dyn_cast<LambdaExpr>(E)) {
            auto *R = L->getLambdaClass();
            r = head(E, "lambda", id) + ty(E->getType()) + ",\"name\":" + esc(lambdaName(R));
            r += ",\"fns\":["; bool f = true;
            if (auto *T = R->getDependentLambdaCallOperator()) {
                for (auto *S : T->specializations()) { if (S->isDependentContext()) continue; enqueue(S); if (!f) r += ","; f = false; r += esc(fnId(S)); }
            } else if (auto *M = L->getCallOperator()) { enqueue(M); r += esc(fnId(M)); }
            r += "],\"caps\":["; f = true;
            auto init = L->capture_init_begin();
            for (auto &C : L->captures()) {
                if (!f) r += ","; f = false;
                if (C.capturesThis()) r += "{\"this\":1}";
                else if (C.capturesVariable()) {
                    auto *V = C.getCapturedVar();
                    r += "{\"d\":" + std::to_string(declId(V)) + ",\"n\":" + esc(V->getNameAsString()) + ",\"t\":" + esc(type(V->getType())) + ",\"ref\":" + (C.getCaptureKind() == LCK_ByRef ? "1" : "0");
                    if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->isInitCapture() && VD->getInit()) r += ",\"init\":" + expr(VD->getInit());
                    r += "}";
                } else r += "{}";
                ++init;
            }
            return r + "]}";
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) {
            r = head(E, "new", id) + ty(E->getType()) + ",\"at\":" + esc(type(N->getAllocatedType())) + ",\"pl\":" + std::to_string(N->getNumPlacementArgs());
            r += ",\"c\":["; bool f = true;
            for (auto *A : N->placement_arguments()) { if (!f) r += ","; f = false; r += expr(A); }
            if (N->hasInitializer() && N->getInitializer()) { if (!f) r += ","; f = false; r += expr(N->getInitializer()); }
            return r + "]}";
        }
        if (auto *D = dyn_cast<CXXDeleteExpr>(E)) return head(E, "delete", id) + ty(D->getDestroyedType()) + kids({D->getArgument()}) + "}";
        if (auto *T = dyn_cast<CXXThrowExpr>(E)) return head(E, "throw", id) + kids({T->getSubExpr()}) + "}";
        if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            r = head(E, "sizeof", id) + ty(E->getType()) + constVal(E);
            if (U->getKind() == UETT_SizeOf) r += ",\"of\":" + esc(type(U->getTypeOfArgument()));
            return r + "}";
        }
        if (auto *A = dyn_cast<ArrayInitLoopExpr>(E)) return head(E, "arrcopy", id) + ty(E->getType()) + kids({A->getCommonExpr()}) + "}";
        if (auto *F = dyn_cast<CXXFoldExpr>(E)) return head(E, "fold", id) + "}";
        if (auto *P = dyn_cast<PredefinedExpr>(E)) return head(E, "str", id) + ",\"v\":\"\"}";
        if (auto *P = dyn_cast<CXXPseudoDestructorExpr>(E)) return head(E, "pdtor", id) + "}";
        // Anything else: generic node with constant value and children.
        r = head(E, "expr", id) + ty(E->getType()) + ",\"cls\":\"" + E->getStmtClassName() + "\"" + constVal(E) + ",\"c\":["; bool f = true;
        for (auto *Ch : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(Ch)) { if (!f) r += ","; f = false; r += expr(CE); }
        return r + "]}";
    }

    void emitVar(const VarDecl *VD) {
        if (!VD) return;
        auto *Def = VD->getDefinition(); if (Def) VD = Def;
        if (!VD->hasGlobalStorage()) return;
        if (!inRoots(VD->getLocation())) return;
        auto key = qname(VD) + "@" + norm(fileOf(VD->getLocation())) + ":" + std::to_string(lineOf(VD->getLocation()));
        if (!SeenVars.insert(key).second) return;
        std::string r = "{\"q\":" + esc(qname(VD)) + ",\"t\":" + esc(type(VD->getType())) + ",\"file\":" + esc(norm(fileOf(VD->getLocation()))) + ",\"line\":" + std::to_string(lineOf(VD->getLocation()));
        r += ",\"const\":"; r += VD->getType().isConstQualified() || VD->isConstexpr() ? "1" : "0";
        if (VD->getTLSKind() != VarDecl::TLS_None) r += ",\"tls\":1";
        if (VD->isStaticLocal()) r += ",\"local\":1";
        if ((VD->isConstexpr() || VD->getType().isConstQualified()) && VD->hasInit() && !VD->getInit()->isValueDependent()) {
            if (auto *V = VD->evaluateValue()) r += ",\"val\":" + apvalue(*V);
        }
        r += "}";
        if (!FirstVar) VarsOut += ",\n"; FirstVar = false; VarsOut += r;
    }

    std::string var(const VarDecl *V) {
        std::string r = "{\"d\":" + std::to_string(declId(V)) + ",\"n\":" + esc(V->getNameAsString()) + ",\"t\":" + esc(type(V->getType())) + ",\"l\":" + std::to_string(lineOf(V->getLocation()));
        if (V->isStaticLocal()) { r += ",\"static\":1"; emitVar(V); }
        if (V->isConstexpr()) r += ",\"cx\":1";
        if ((V->isConstexpr() || (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType())) && V->hasInit() && !V->getInit()->isValueDependent())
            if (auto *Val = V->evaluateValue()) r += ",\"val\":" + apvalue(*Val);
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            r += ",\"binds\":["; bool f = true;
            for (auto *B : D->bindings()) { if (!f) r += ","; f = false;
                r += "{\"d\":" + std::to_string(declId(B)) + ",\"n\":" + esc(B->getNameAsString()) + ",\"t\":" + esc(type(B->getType()));
                if (auto *HV = B->getHoldingVar()) { r += ",\"hold\":1,\"init\":" + expr(HV->getInit()); }
                else if (B->getBinding()) r += ",\"bx\":" + expr(B->getBinding());
                r += "}"; }
            r += "]";
        }
        if (V->hasInit()) {
            bool callInit = V->getInitStyle() != VarDecl::CInit;
            r += ",\"init\":" + expr(V->getInit()); if (callInit) r += ",\"li\":1";
        }
        return r + "}";
    }

    std::string stmt(const Stmt *S) {
        if (!S) return "null";
        if (auto *E = dyn_cast<Expr>(S)) return expr(E);
        unsigned id = nid(S);
        std::string r;
        if (auto *C = dyn_cast<CompoundStmt>(S)) {
            r = head(S, "blk", id) + ",\"c\":["; bool f = true;
            for (auto *X : C->body()) { if (!f) r += ","; f = false; r += stmt(X); }
            return r + "],\"le\":" + std::to_string(lineOf(C->getEndLoc())) + "}";
        }
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            r = head(S, "decl", id) + ",\"vars\":["; bool f = true;
            for (auto *X : D->decls()) {
                if (auto *V = dyn_cast<VarDecl>(X)) { if (!f) r += ","; f = false; r += var(V); }
            }
            return r + "]}";
        }
        if (auto *I = dyn_cast<IfStmt>(S)) {
            r = head(S, "if", id); if (I->isConstexpr()) r += ",\"cx\":1";
            if (I->getInit()) r += ",\"init\":" + stmt(I->getInit());
            if (I->getConditionVariable()) r += ",\"cvar\":" + var(I->getConditionVariable());
            r += ",\"cond\":" + expr(I->getCond());
            const Stmt *Th = I->getThen(), *El = I->getElse();
            if (I->isConstexpr() && !I->getCond()->isValueDependent()) {
                Expr::EvalResult R;
                if (I->getCond()->EvaluateAsRValue(R, Ctx) && R.Val.isInt()) r += std::string(",\"cxv\":") + (R.Val.getInt().getBoolValue() ? "true" : "false");
            }
            r += ",\"then\":" + stmt(Th) + ",\"else\":" + stmt(El);
            return r + "}";
        }
        if (auto *F = dyn_cast<ForStmt>(S)) {
            r = head(S, "for", id) + ",\"init\":" + stmt(F->getInit()) + ",\"cond\":" + (F->getCond() ? expr(F->getCond()) : std::string("null")) + ",\"inc\":" + (F->getInc() ? expr(F->getInc()) : std::string("null")) + ",\"body\":" + stmt(F->getBody());
            return r + "}";
        }
        if (auto *W = dyn_cast<WhileStmt>(S)) {
            r = head(S, "while", id);
            if (W->getConditionVariable()) r += ",\"cvar\":" + var(W->getConditionVariable());
            return r + ",\"cond\":" + expr(W->getCond()) + ",\"body\":" + stmt(W->getBody()) + "}";
        }
        if (auto *W = dyn_cast<DoStmt>(S)) return head(S, "do", id) + ",\"body\":" + stmt(W->getBody()) + ",\"cond\":" + expr(W->getCond()) + "}";
        if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
            r = head(S, "rfor", id) + ",\"var\":" + var(F->getLoopVariable());
            r += ",\"range\":" + expr(F->getRangeInit());
            if (auto *RS = F->getRangeStmt()) r += ",\"rs\":" + stmt(RS);
            if (auto *BS = F->getBeginStmt()) r += ",\"bs\":" + stmt(BS);
            if (auto *ES = F->getEndStmt()) r += ",\"es\":" + stmt(ES);
            if (F->getCond()) r += ",\"cond\":" + expr(F->getCond());
            if (F->getInc()) r += ",\"inc\":" + expr(F->getInc());
            r += ",\"lv\":" + std::to_string(nid(F->getLoopVarStmt()));
            return r + ",\"body\":" + stmt(F->getBody()) + "}";
        }
        if (auto *R = dyn_cast<ReturnStmt>(S)) return head(S, "ret", id) + (R->getRetValue() ? ",\"c\":[" + expr(R->getRetValue()) + "]" : std::string(",\"c\":[]")) + "}";
        if (isa<BreakStmt>(S)) return head(S, "brk", id) + "}";
        if (isa<ContinueStmt>(S)) return head(S, "cont", id) + "}";
        if (isa<NullStmt>(S)) return head(S, "nop", id) + "}";
        if (auto *W = dyn_cast<SwitchStmt>(S)) {
            r = head(S, "switch", id) + ",\"cond\":" + expr(W->getCond());
            if (W->isAllEnumCasesCovered()) r += ",\"full\":1";
            return r + ",\"body\":" + stmt(W->getBody()) + "}";
        }
        if (auto *C = dyn_cast<CaseStmt>(S)) return head(S, "case", id) + ",\"v\":" + expr(C->getLHS()) + ",\"body\":" + stmt(C->getSubStmt()) + "}";
        if (auto *C = dyn_cast<DefaultStmt>(S)) return head(S, "default", id) + ",\"body\":" + stmt(C->getSubStmt()) + "}";
        if (auto *T = dyn_cast<CXXTryStmt>(S)) {
            r = head(S, "try", id) + ",\"body\":" + stmt(T->getTryBlock()) + ",\"handlers\":["; bool f = true;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) { if (!f) r += ","; f = false; r += stmt(T->getHandler(i)->getHandlerBlock()); }
            return r + "]}";
        }
        if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        if (auto *L = dyn_cast<LabelStmt>(S)) return head(S, "label", id) + ",\"body\":" + stmt(L->getSubStmt()) + "}";
        r = head(S, "stmt", id) + ",\"cls\":\"" + S->getStmtClassName() + "\",\"c\":["; bool f = true;
        for (auto *Ch : S->children()) if (Ch) { if (!f) r += ","; f = false; r += stmt(Ch); }
        return r + "]}";
    }

    std::string cfg(const FunctionDecl *F) {
        CFG::BuildOptions BO;
        BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false; BO.AddInitializers = true; BO.AddEHEdges = false;
        BO.AddCXXDefaultInitExprInCtors = true;
        BO.PruneTriviallyFalseEdges = true; BO.setAllAlwaysAdd();
        auto G = CFG::buildCFG(F, F->getBody(), &Ctx, BO);
        if (!G) return "null";
        std::string r = "{\"entry\":" + std::to_string(G->getEntry().getBlockID()) + ",\"exit\":" + std::to_string(G->getExit().getBlockID()) + ",\"b\":[";
        bool fb = true;
        for (auto *B : *G) {
            if (!fb) r += ","; fb = false;
            r += "{\"id\":" + std::to_string(B->getBlockID()) + ",\"e\":["; bool fe = true;
            unsigned last = 0;
            for (auto &El : *B) {
                std::string e;
                if (auto S = El.getAs<CFGStmt>()) {
                    auto it = NodeIds.find(S->getStmt());
                    if (it == NodeIds.end()) continue;
                    if (it->second == last) continue;
                    last = it->second; e = std::to_string(last);
                } else if (auto D = El.getAs<CFGAutomaticObjDtor>()) {
                    e = "{\"dtor\":" + std::to_string(declId(D->getVarDecl())) + ",\"t\":" + esc(type(D->getVarDecl()->getType())) + ",\"n\":" + esc(D->getVarDecl()->getNameAsString()) + "}";
                } else if (auto D = El.getAs<CFGInitializer>()) {
                    auto *I = D->getInitializer();
                    auto it = I->getInit() ? NodeIds.find(I->getInit()) : NodeIds.end();
                    e = "{\"ini\":" + esc(I->isAnyMemberInitializer() ? I->getAnyMember()->getNameAsString() : std::string("<base>")) + ",\"n\":" + (it != NodeIds.end() ? std::to_string(it->second) : std::string("0")) + "}";
                } else continue;
                if (!fe) r += ","; fe = false; r += e;
            }
            r += "]";
            if (auto *T = B->getTerminatorStmt()) {
                auto it = NodeIds.find(T);
                r += ",\"t\":" + std::to_string(it != NodeIds.end() ? it->second : 0) + ",\"tk\":\"" + T->getStmtClassName() + "\"";
                if (auto *C = B->getTerminatorCondition()) { auto it2 = NodeIds.find(C); if (it2 != NodeIds.end()) r += ",\"tc\":" + std::to_string(it2->second); }
            }
            if (auto *L = B->getLabel()) { auto it = NodeIds.find(L); if (it != NodeIds.end()) r += ",\"lab\":" + std::to_string(it->second); }
            if (B->hasNoReturnElement()) r += ",\"nr\":1";
            r += ",\"s\":["; bool fs = true;
            for (auto &Su : B->succs()) { if (!fs) r += ","; fs = false; auto *X = Su.getReachableBlock(); r += X ? std::to_string(X->getBlockID()) : std::string("-1"); }
            r += "]}";
        }
        return r + "]}";
    }

    void emitFn(const FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
        if (F->isDependentContext()) return;
        if (!F->getBody()) return;
        if (!wanted(F->getLocation())) return;
        auto id = fnId(F);
        if (!SeenFns.insert(id).second) return;
        NodeIds.clear(); NextNode = 1;
        std::string r = "{\"id\":" + esc(id) + ",\"q\":" + esc(qname(F)) + ",\"n\":" + esc(F->getNameAsString());
        r += ",\"file\":" + esc(norm(fileOf(F->getLocation()))) + ",\"line\":" + std::to_string(lineOf(F->getLocation())) + ",\"end\":" + std::to_string(lineOf(F->getEndLoc()));
        r += ",\"ret\":" + esc(type(F->getReturnType()));
        if (auto *A = F->getTemplateSpecializationArgs()) r += ",\"ta\":" + argList(A->asArray());
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            r += ",\"cls\":" + esc(type(Ctx.getRecordType(M->getParent()))) + ",\"clsq\":" + esc(M->getParent()->isLambda() ? lambdaName(M->getParent()) : qname(M->getParent()));
            if (M->isConst()) r += ",\"const\":1"; if (M->isStatic()) r += ",\"static\":1"; if (M->isVirtual()) r += ",\"virt\":1";
            const char *acc = M->getAccess() == AS_private ? "private" : M->getAccess() == AS_protected ? "protected" : "public";
            r += std::string(",\"acc\":\"") + acc + "\"";
            if (M->getParent()->isLambda()) {
                r += ",\"lambda\":1";
                if (auto *P = dyn_cast_or_null<FunctionDecl>(M->getParent()->getDeclContext())) r += ",\"encl\":" + esc(fnId(P));
            }
            bool fo = true; std::string ov;
            for (auto *O : M->overridden_methods()) { if (!fo) ov += ","; fo = false; ov += esc(fnId(O)); }
            if (!ov.empty()) r += ",\"over\":[" + ov + "]";
        }
        if (isa<CXXConstructorDecl>(F)) r += ",\"ctor\":1"; if (isa<CXXDestructorDecl>(F)) r += ",\"dtor\":1";
        if (F->isImplicit()) r += ",\"implicit\":1"; if (F->isDefaulted()) r += ",\"defaulted\":1";
        if (F->getFormalLinkage() == Linkage::Internal) r += ",\"internal\":1";
        if (F->isConstexpr()) r += ",\"cx\":1";
        r += ",\"params\":["; bool f = true;
        for (auto *P : F->parameters()) { if (!f) r += ","; f = false;
            r += "{\"d\":" + std::to_string(declId(P)) + ",\"n\":" + esc(P->getNameAsString()) + ",\"t\":" + esc(type(P->getType())) + ",\"st\":" + esc(P->getType().getAsString(Ctx.getPrintingPolicy())) + "}"; }
        r += "]";
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            r += ",\"inits\":["; f = true;
            for (auto *I : K->inits()) {
                if (!f) r += ","; f = false;
                r += "{";
                if (I->isAnyMemberInitializer()) r += "\"m\":" + esc(I->getAnyMember()->getNameAsString());
                else if (I->isDelegatingInitializer()) r += "\"deleg\":1";
                else r += "\"base\":" + esc(type(QualType(I->getBaseClass(), 0)));
                if (I->isWritten()) r += ",\"w\":1";
                if (I->getInit()) r += ",\"e\":" + expr(I->getInit());
                r += "}";
            }
            r += "]";
        }
        r += ",\"body\":" + stmt(F->getBody());
        if (WantCFG) r += ",\"cfg\":" + cfg(F);
        r += "}";
        if (!FirstFn) FnsOut += ",\n"; FirstFn = false; FnsOut += r;
    }

    void emitRecord(const CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        if (!inRoots(R->getLocation())) return;
        auto key = type(Ctx.getRecordType(R));
        if (!SeenRecs.insert(key).second) return;
        std::string r = "{\"t\":" + esc(key) + ",\"q\":" + esc(qname(R)) + ",\"file\":" + esc(norm(fileOf(R->getLocation()))) + ",\"line\":" + std::to_string(lineOf(R->getLocation()));
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) r += ",\"ta\":" + argList(S->getTemplateArgs().asArray());
        if (R->isUnion()) r += ",\"union\":1";
        if (R->isAggregate()) r += ",\"agg\":1";
        if (R->hasUserDeclaredDestructor()) r += ",\"udtor\":1";
        if (R->hasUserProvidedDefaultConstructor()) r += ",\"udctor\":1";
        r += ",\"bases\":["; bool f = true;
        for (auto &B : R->bases()) { if (!f) r += ","; f = false; r += esc(type(B.getType())); }
        r += "],\"fields\":["; f = true;
        for (auto *D : R->fields()) { if (!f) r += ","; f = false;
            r += "{\"n\":" + esc(D->getNameAsString()) + ",\"t\":" + esc(type(D->getType())) + ",\"st\":" + esc(D->getType().getAsString(Ctx.getPrintingPolicy())) + ",\"l\":" + std::to_string(lineOf(D->getLocation()));
            if (D->hasInClassInitializer()) r += ",\"dmi\":1";
            if (D->isMutable()) r += ",\"mut\":1";
            const char *acc = D->getAccess() == AS_private ? "private" : D->getAccess() == AS_protected ? "protected" : "public";
            r += std::string(",\"acc\":\"") + acc + "\"";
            r += "}"; }
        r += "],\"typedefs\":{"; f = true;
        for (auto *D : R->decls()) if (auto *T = dyn_cast<TypedefNameDecl>(D)) { if (!f) r += ","; f = false; r += esc(T->getNameAsString()) + ":" + esc(type(T->getUnderlyingType())); }
        r += "}}";
        if (!FirstRec) RecsOut += ",\n"; FirstRec = false; RecsOut += r;
    }
    void emitEnum(const EnumDecl *E) {
        if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return;
        if (!inRoots(E->getLocation())) return;
        auto key = qname(E); if (!SeenEnums.insert(key).second) return;
        std::string r = "{\"q\":" + esc(key) + ",\"file\":" + esc(norm(fileOf(E->getLocation()))) + ",\"line\":" + std::to_string(lineOf(E->getLocation())) + ",\"e\":["; bool f = true;
        for (auto *C : E->enumerators()) { if (!f) r += ","; f = false; r += "[" + esc(C->getNameAsString()) + "," + toStr(C->getInitVal()) + "]"; }
        r += "]}";
        if (!FirstEnum) EnumsOut += ",\n"; FirstEnum = false; EnumsOut += r;
    }
    void drain() { while (!Queue.empty()) { auto *F = Queue.front(); Queue.pop_front(); emitFn(F); } }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Emitter &Em;
    Visitor(Emitter &E) : Em(E) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isThisDeclarationADefinition() && !F->isDependentContext() && F->getBody() && Em.inRoots(F->getLocation())) { Em.emitFn(F); Em.drain(); }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) { Em.emitRecord(R); return true; }
    bool VisitEnumDecl(EnumDecl *E) { Em.emitEnum(E); return true; }
    bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage() && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) Em.emitVar(V); return true; }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &Ctx) override {
        Emitter E(Ctx); Visitor V(E);
        V.TraverseDecl(Ctx.getTranslationUnitDecl());
        E.drain();
        auto &SM = Ctx.getSourceManager();
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
            auto n = E.norm(it->first.getName().str());
            for (auto &r : Roots) if (n.rfind(r, 0) == 0) FilesSeen.insert(n);
        }
        NumErrors += Ctx.getDiagnostics().getClient()->getNumErrors();
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};
class Factory : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };

int main(int argc, char **argv) {
    std::vector<std::string> files, flags; bool inFlags = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (inFlags) { flags.push_back(a); continue; }
        if (a == "--") inFlags = true;
        else if (a == "-o") Out = argv[++i];
        else if (a == "-root") Roots.push_back(argv[++i]);
        else if (a == "-only") OnlyRe = argv[++i];
        else if (a == "-cfg") WantCFG = std::string(argv[++i]) == "1";
        else files.push_back(a);
    }
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, files);
    Factory F;
    int rc = Tool.run(&F);
    std::error_code EC; llvm::raw_fd_ostream os(Out, EC);
    os << "{\"rc\":" << rc << ",\"errors\":" << NumErrors << ",\"files\":["; bool f = true;
    for (auto &n : FilesSeen) { if (!f) os << ","; f = false; os << esc(n); }
    os << "],\"fns\":[\n" << FnsOut << "],\"recs\":[\n" << RecsOut << "],\"enums\":[\n" << EnumsOut << "],\"vars\":[\n" << VarsOut << "]}\n";
    return rc;
}
