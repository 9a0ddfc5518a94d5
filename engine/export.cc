// Exports the instantiated, type-resolved syntax tree of every function reachable from the functions defined in the
// main file of a translation unit as JSON (see DESIGN.md, "Front end").  usage: export OUT.json -- clang-args file.cc
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/PrettyPrinter.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using JV = json::Value;
using JA = json::Array;
using JO = json::Object;

static std::string gOut;

struct Exporter {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::deque<const FunctionDecl *> work;
    std::map<const FunctionDecl *, int> fnIds;
    std::vector<const FunctionDecl *> fnById;
    std::map<const void *, int> typeIds;
    JA types;
    std::map<std::string, int> files;
    JA fileNames;
    std::map<const Decl *, int> declIds;
    std::map<const CXXRecordDecl *, int> recIds;
    JA records;
    std::map<int, JV> fnOut;
    JO globals;
    std::set<const VarDecl *> globalsSeen;
    int unsupported = 0;

    Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
        PP.SuppressScope = false;
        PP.UseVoidForZeroParams = false;
        PP.Bool = true;
    }

    const FunctionDecl *canon(const FunctionDecl *F) {
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def)) return Def;
        return F->getCanonicalDecl();
    }

    bool isSystem(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return true;
        if (SM.isInSystemHeader(L)) return true;
        StringRef f = SM.getFilename(L);
        return f.contains("/nonstd/");
    }

    // std::reverse_iterator is interpreted from its own source: it only forwards to the wrapped iterator.
    static bool isRevRec(const CXXRecordDecl *R) {
        return R && R->getIdentifier() && R->getName() == "reverse_iterator";
    }
    static bool mentionsRev(const FunctionDecl *F) {
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) return isRevRec(M->getParent());
        auto isRev = [](QualType T) { return isRevRec(T.getNonReferenceType()->getAsCXXRecordDecl()); };
        if (F->isOverloadedOperator())
            for (auto *P : F->parameters())
                if (isRev(P->getType())) return true;
        return F->getIdentifier() && F->getName() == "make_reverse_iterator";
    }
    bool isSystemFn(const FunctionDecl *F) {
        if (mentionsRev(F)) return false;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isImplicit() || M->isDefaulted()) return isSystem(M->getParent()->getLocation());
        }
        return isSystem(F->getLocation());
    }

    int locId(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return 0;
        std::string f = SM.getFilename(L).str();
        auto it = files.find(f);
        int id;
        if (it == files.end()) {
            id = fileNames.size();
            fileNames.push_back(f);
            files[f] = id;
        } else
            id = it->second;
        return id * 100000 + (int)SM.getExpansionLineNumber(L);
    }

    int declId(const Decl *D) {
        if (auto *V = dyn_cast<VarDecl>(D)) D = V->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int id = declIds.size() + 1;
        declIds[D] = id;
        return id;
    }

    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }

    JA targList(ArrayRef<TemplateArgument> args) {
        JA a;
        for (auto &T : args) {
            switch (T.getKind()) {
            case TemplateArgument::Type:
                a.push_back(typeId(T.getAsType()));
                break;
            case TemplateArgument::Integral: {
                SmallString<32> S;
                T.getAsIntegral().toString(S, 10);
                a.push_back(JO{{"i", S.str().str()}});
                break;
            }
            case TemplateArgument::Pack:
                for (auto &V : targList(T.pack_elements()))
                    a.push_back(V);
                break;
            default:
                a.push_back(nullptr);
            }
        }
        return a;
    }

    int recId(const CXXRecordDecl *R) {
        R = R->getCanonicalDecl();
        auto it = recIds.find(R);
        if (it != recIds.end()) return it->second;
        int id = records.size();
        recIds[R] = id;
        records.push_back(nullptr);
        JO o;
        o["q"] = qname(R);
        o["n"] = R->getNameAsString();
        if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["targs"] = targList(CT->getTemplateArgs().asArray());
        const CXXRecordDecl *D = R->getDefinition();
        bool sys = isSystem(R->getLocation()) && !isRevRec(R);
        o["sys"] = sys;
        if (D) {
            o["lambda"] = D->isLambda();
            if (!D->isDependentType()) {
                o["trivcopy"] = D->isTriviallyCopyable();
                o["abstract"] = D->isAbstract();
                JA bases;
                for (auto &B : D->bases())
                    if (auto *BR = B.getType()->getAsCXXRecordDecl()) bases.push_back(recId(BR));
                o["bases"] = std::move(bases);
                JA fields;
                if (!sys || D->isLambda()) {
                    for (auto *F : D->fields()) {
                        JO f;
                        f["n"] = fieldName(F);
                        f["t"] = typeId(F->getType());
                        f["l"] = locId(F->getLocation());
                        fields.push_back(std::move(f));
                    }
                }
                o["fields"] = std::move(fields);
                roles(D);
                JA miss;
                for (auto &n : roleMissing[R])
                    miss.push_back(n);
                if (!miss.empty()) o["missing"] = std::move(miss);
                if (auto *Dt = D->getDestructor()) {
                    if (!Dt->isTrivial()) o["dtor"] = fnId(Dt);
                } else if (!D->hasTrivialDestructor())
                    o["dtor"] = -1;
                o["trivdtor"] = D->hasTrivialDestructor();
            }
        }
        records[id] = std::move(o);
        return id;
    }

    std::string fieldName(const FieldDecl *F) {
        if (F->getNameAsString().empty()) return "$f" + std::to_string(F->getFieldIndex());
        if (auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) {
            auto &m = roles(R);
            auto it = m.find(F->getFieldIndex());
            if (it != m.end()) return it->second;
        }
        return F->getNameAsString();
    }

    // The data members the rules speak about, by role: the record they belong to, the name used in the rules, the shape of their type. A member
    // of another name takes the role of a missing one if the shapes say so unambiguously (as many candidates as missing roles, in order).
    struct Role {
        const char *rec, *name, *shape;
        bool optional;
    };
    static const std::vector<Role> &roleTable() {
        static const std::vector<Role> t = {
            {"Tecs::ComponentIndex", "readers", "std::atomic", false},
            {"Tecs::ComponentIndex", "writer", "std::atomic", false},
            {"Tecs::ComponentIndex", "readComponents", "std::vector<T>", false},
            {"Tecs::ComponentIndex", "writeComponents", "std::vector<T>", false},
            {"Tecs::ComponentIndex", "readValidEntities", "std::vector<Tecs::Entity>", false},
            {"Tecs::ComponentIndex", "writeValidEntities", "std::vector<Tecs::Entity>", false},
            {"Tecs::ComponentIndex", "validEntityIndexes", "std::vector<int>", false},
            {"Tecs::ComponentIndex", "traceInfo", "Tecs::TraceInfo", true},
            {"Tecs::ECS", "metadata", "Tecs::ComponentIndex", false},
            {"Tecs::ECS", "globalReadMetadata", "std::bitset", false},
            {"Tecs::ECS", "globalWriteMetadata", "std::bitset", false},
            {"Tecs::ECS", "indexes", "std::tuple<Tecs::ComponentIndex>", false},
            {"Tecs::ECS", "freeEntities", "std::deque<Tecs::Entity>", false},
            {"Tecs::ECS", "eventLists", "std::tuple<Tecs::ECS::ObserverList>", false},
            {"Tecs::ECS", "transactionTrace", "Tecs::TraceInfo", true},
            {"Tecs::ECS", "ecsId", "int", false},
            {"Tecs::ECS::ObserverList", "observers", "std::vector<std::shared_ptr>", false},
            {"Tecs::ECS::ObserverList", "writeQueue", "std::shared_ptr", false},
            {"Tecs::ECS::EntityMetadata", "generation", "int", false},
            {"Tecs::Lock", "instance", "ref", false},
            {"Tecs::Lock", "base", "std::shared_ptr", false},
            {"Tecs::Lock", "permissions", "std::bitset", false},
            {"Tecs::DynamicLock", "readPermissions", "std::bitset", false},
            {"Tecs::BaseTransaction", "instance", "ref", false},
            {"Tecs::BaseTransaction", "transactionId", "int", true},
            {"Tecs::BaseTransaction", "writeAccessedFlags", "std::bitset", false},
            {"Tecs::Observer", "ecs", "ptr", false},
            {"Tecs::Observer", "eventListWeak", "std::weak_ptr", false},
            {"Tecs::EntityView", "storage", "ptr", false},
            {"Tecs::EntityView", "start_index", "int", false},
            {"Tecs::EntityView", "end_index", "int", false},
            {"Tecs::EntityView::iterator", "view", "ref", false},
            {"Tecs::EntityView::iterator", "i", "int", false},
        };
        return t;
    }

    std::string plainName(const CXXRecordDecl *R) {
        std::string s = R->getNameAsString();
        for (const DeclContext *D = R->getDeclContext(); D; D = D->getParent()) {
            if (auto *N = dyn_cast<NamespaceDecl>(D)) {
                if (!N->isInline() && !N->isAnonymousNamespace()) s = N->getNameAsString() + "::" + s;
            } else if (auto *P = dyn_cast<CXXRecordDecl>(D))
                s = P->getNameAsString() + "::" + s;
        }
        return s;
    }

    std::string shape(QualType T, QualType own, int depth = 0) {
        T = C.getCanonicalType(T).getUnqualifiedType();
        if (!own.isNull() && C.hasSameType(T, own)) return "T";
        if (T->isReferenceType()) return "ref";
        if (T->isPointerType()) return "ptr";
        if (T->isBooleanType()) return "bool";
        if (T->isIntegralType(C)) return "int";
        auto *R = T->getAsCXXRecordDecl();
        if (!R) return "?";
        std::string n = plainName(R);
        if (depth == 0 && (n == "std::vector" || n == "std::tuple" || n == "std::deque")) {
            auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(R);
            if (CT && CT->getTemplateArgs().size()) {
                auto A = CT->getTemplateArgs()[0];
                if (A.getKind() == TemplateArgument::Pack && A.pack_size()) A = A.pack_elements()[0];
                if (A.getKind() == TemplateArgument::Type) n += "<" + shape(A.getAsType(), own, 1) + ">";
            }
        }
        return n;
    }

    std::map<const CXXRecordDecl *, std::map<unsigned, std::string>> roleMaps;
    std::map<const CXXRecordDecl *, std::vector<std::string>> roleMissing;

    const std::map<unsigned, std::string> &roles(const CXXRecordDecl *R) {
        R = R->getCanonicalDecl();
        auto it = roleMaps.find(R);
        if (it != roleMaps.end()) return it->second;
        auto &m = roleMaps[R];
        const CXXRecordDecl *D = R->getDefinition();
        if (!D || D->isDependentType() || D->isLambda()) return m;
        std::string q = plainName(D);
        if (q.compare(0, 6, "Tecs::") != 0) return m;
        QualType own;
        if (auto *CT = dyn_cast<ClassTemplateSpecializationDecl>(D))
            if (q == "Tecs::ComponentIndex" && CT->getTemplateArgs().size() && CT->getTemplateArgs()[0].getKind() == TemplateArgument::Type)
                own = C.getCanonicalType(CT->getTemplateArgs()[0].getAsType());
        std::map<std::string, std::vector<const Role *>> missing;
        std::map<std::string, std::vector<unsigned>> spare;
        std::set<std::string> known, present;
        for (auto &r : roleTable())
            if (q == r.rec) known.insert(r.name);
        if (known.empty()) return m;
        for (auto *F : D->fields())
            present.insert(F->getNameAsString());
        for (auto &r : roleTable())
            if (q == r.rec && !present.count(r.name)) missing[r.shape].push_back(&r);
        for (auto *F : D->fields())
            if (!known.count(F->getNameAsString())) spare[shape(F->getType(), own)].push_back(F->getFieldIndex());
        for (auto &kv : missing) {
            auto &c = spare[kv.first];
            size_t need = 0;
            for (auto *r : kv.second)
                need += !r->optional;
            if (c.size() == kv.second.size()) {
                for (size_t i = 0; i < c.size(); i++)
                    m[c[i]] = kv.second[i]->name;
            } else if (need) {
                for (auto *r : kv.second)
                    if (!r->optional) roleMissing[R].push_back(r->name);
            }
        }
        return m;
    }

    int typeId(QualType T) {
        T = C.getCanonicalType(T);
        auto it = typeIds.find(T.getAsOpaquePtr());
        if (it != typeIds.end()) return it->second;
        int id = types.size();
        typeIds[T.getAsOpaquePtr()] = id;
        types.push_back(nullptr);
        JO o;
        o["s"] = T.getAsString(PP);
        if (T.isConstQualified()) o["c"] = true;
        if (T->isReferenceType()) {
            o["k"] = "ref";
            o["p"] = typeId(T->getPointeeType());
            if (T->isRValueReferenceType()) o["rv"] = true;
        } else if (T->isPointerType()) {
            o["k"] = "ptr";
            o["p"] = typeId(T->getPointeeType());
        } else if (T->isBooleanType()) {
            o["k"] = "bool";
        } else if (T->isEnumeralType()) {
            o["k"] = "int";
            o["enum"] = true;
            o["bits"] = (int)C.getTypeSize(T);
            o["signed"] = T->isSignedIntegerOrEnumerationType();
        } else if (T->isIntegerType() && !T->isDependentType()) {
            o["k"] = "int";
            o["bits"] = (int)C.getTypeSize(T);
            o["signed"] = T->isSignedIntegerType();
        } else if (T->isRealFloatingType())
            o["k"] = "fp";
        else if (auto *R = T->getAsCXXRecordDecl()) {
            o["k"] = "rec";
            o["rec"] = recId(R);
        } else if (T->isVoidType())
            o["k"] = "void";
        else if (auto *A = dyn_cast<ConstantArrayType>(T.getTypePtr())) {
            o["k"] = "arr";
            o["p"] = typeId(A->getElementType());
            o["n"] = (int64_t)A->getSize().getZExtValue();
        } else if (T->isFunctionType())
            o["k"] = "fn";
        else if (T->isNullPtrType())
            o["k"] = "nullptr";
        else
            o["k"] = "other";
        types[id] = std::move(o);
        return id;
    }

    int fnId(const FunctionDecl *F) {
        F = canon(F);
        auto it = fnIds.find(F);
        if (it != fnIds.end()) return it->second;
        int id = fnById.size();
        fnIds[F] = id;
        fnById.push_back(F);
        work.push_back(F);
        return id;
    }

    // ---- emplace-like calls: the constructor eventually run by allocator construct() ----
    struct NewFinder : RecursiveASTVisitor<NewFinder> {
        QualType want;
        ASTContext &C;
        const CXXConstructExpr *found = nullptr;
        const CXXNewExpr *foundNew = nullptr;
        std::vector<const FunctionDecl *> callees;
        NewFinder(ASTContext &C) : C(C) {}
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool shouldVisitImplicitCode() const { return true; }
        bool VisitCXXNewExpr(CXXNewExpr *N) {
            if (C.hasSameUnqualifiedType(N->getAllocatedType(), want)) {
                foundNew = N;
                const Expr *I = N->getInitializer();
                while (I) {
                    if (auto *P = dyn_cast<ParenListExpr>(I)) {
                        I = P->getNumExprs() == 1 ? P->getExpr(0) : nullptr;
                        continue;
                    }
                    if (auto *CE = dyn_cast<CXXConstructExpr>(I)) {
                        found = CE;
                        break;
                    }
                    const Expr *J = I->IgnoreImplicit();
                    if (J == I) break;
                    I = J;
                }
                return false;
            }
            return true;
        }
        bool VisitCXXConstructExpr(CXXConstructExpr *E) {
            callees.push_back(E->getConstructor());
            return true;
        }
        bool VisitCallExpr(CallExpr *E) {
            if (auto *F = E->getDirectCallee()) callees.push_back(F);
            return true;
        }
    };
    std::map<std::pair<const FunctionDecl *, const void *>, const FunctionDecl *> emplaceMemo;
    const FunctionDecl *findCtor(const FunctionDecl *F, QualType want, int depth, std::set<const FunctionDecl *> &seen) {
        if (depth > 14) return nullptr;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) return nullptr;
        if (!seen.insert(Def).second) return nullptr;
        NewFinder NF(C);
        NF.want = want;
        NF.TraverseStmt(Def->getBody());
        if (auto *CD = dyn_cast<CXXConstructorDecl>(Def))
            for (auto *I : CD->inits())
                if (I->getInit()) NF.TraverseStmt(I->getInit());
        if (NF.foundNew) return NF.found ? NF.found->getConstructor() : nullptr;
        for (auto *c : NF.callees)
            if (auto *R = findCtor(c, want, depth + 1, seen)) return R;
        return nullptr;
    }
    QualType emplaceType(const FunctionDecl *F) {
        std::string n = F->getNameAsString();
        if (n == "make_shared" || n == "make_unique") {
            if (auto *A = F->getTemplateSpecializationArgs()) return A->get(0).getAsType();
            return QualType();
        }
        if (n == "emplace_back" || n == "emplace" || n == "emplace_front") {
            if (auto *M = dyn_cast<CXXMethodDecl>(F))
                if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent()))
                    if (S->getTemplateArgs().size() && S->getTemplateArgs()[0].getKind() == TemplateArgument::Type)
                        return S->getTemplateArgs()[0].getAsType();
        }
        return QualType();
    }

    // ---- expressions ----
    JA hdr(const char *op, const Expr *E) {
        JA a;
        a.push_back(op);
        a.push_back(typeId(E->getType()));
        a.push_back(E->isLValue() ? 1 : E->isXValue() ? 2 : 0);
        a.push_back(locId(E->getExprLoc()));
        return a;
    }

    JV intLit(const Expr *E, const llvm::APSInt &V) {
        JA a;
        a.push_back("int");
        a.push_back(typeId(E->getType()));
        a.push_back(0);
        a.push_back(locId(E->getExprLoc()));
        SmallString<32> S;
        V.toString(S, 10);
        a.push_back(S.str().str());
        return a;
    }

    void noteGlobal(const VarDecl *V) {
        const VarDecl *Def = V->getDefinition(C);
        if (!Def) Def = V;
        V = V->getCanonicalDecl();
        if (!globalsSeen.insert(V).second) return;
        JO o;
        o["n"] = qname(V);
        // the thread's list of active transactions, by role
        if (V->getTLSKind() != VarDecl::TLS_None && isa<NamespaceDecl>(V->getDeclContext()) && cast<NamespaceDecl>(V->getDeclContext())->getName() == "Tecs") {
            std::string sh = shape(V->getType(), QualType());
            if (sh == "std::array") o["n"] = "Tecs::activeTransactions";
            if (sh == "int") o["n"] = "Tecs::activeTransactionsCount";
        }
        o["t"] = typeId(V->getType());
        o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        o["sys"] = isSystem(V->getLocation());
        o["l"] = locId(V->getLocation());
        o["inline"] = V->isInline();
        o["local"] = V->isStaticLocal();
        const VarDecl *InitD = nullptr;
        const Expr *I = V->getAnyInitializer(InitD);
        if (I && !isSystem(V->getLocation())) o["init"] = expr(I);
        globals[std::to_string(declId(V))] = std::move(o);
    }

    JA exprs(ArrayRef<const Expr *> es) {
        JA a;
        for (auto *e : es)
            a.push_back(expr(e));
        return a;
    }
    template<typename It>
    JA exprRange(It b, It e) {
        JA a;
        for (; b != e; ++b)
            a.push_back(expr(*b));
        return a;
    }

    JV expr(const Expr *E) {
        if (!E) return nullptr;
        E = E->IgnoreParens();
        if (auto *CE = dyn_cast<ConstantExpr>(E)) return expr(CE->getSubExpr());
        if (auto *S = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(S->getReplacement());
        if (auto *S = dyn_cast<ChooseExpr>(E)) return expr(S->getChosenSubExpr());
        if (auto *G = dyn_cast<GenericSelectionExpr>(E)) return expr(G->getResultExpr());
        if (auto *O = dyn_cast<OpaqueValueExpr>(E)) {
            if (O->getSourceExpr()) return expr(O->getSourceExpr());
        }
        QualType T = E->getType();
        if (E->isPRValue() && (T->isIntegralOrEnumerationType()) && !E->isValueDependent()) {
            Expr::EvalResult R;
            if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isInt()) return intLit(E, R.Val.getInt());
        }
        switch (E->getStmtClass()) {
        case Stmt::FloatingLiteralClass: {
            JA a = hdr("fp", E);
            a.push_back(cast<FloatingLiteral>(E)->getValueAsApproximateDouble());
            return a;
        }
        case Stmt::StringLiteralClass: {
            JA a = hdr("str", E);
            auto *S = cast<StringLiteral>(E);
            a.push_back(S->isOrdinary() || S->isUTF8() ? json::fixUTF8(S->getString()) : std::string("?"));
            return a;
        }
        case Stmt::PredefinedExprClass: {
            JA a = hdr("str", E);
            a.push_back("__func__");
            return a;
        }
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass:
            return hdr("null", E);
        case Stmt::CXXThisExprClass:
            return hdr("this", E);
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass:
            return hdr("zero", E);
        case Stmt::DeclRefExprClass: {
            auto *D = cast<DeclRefExpr>(E)->getDecl();
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                JA a = hdr("fn", E);
                a.push_back(fnId(F));
                return a;
            }
            if (auto *V = dyn_cast<VarDecl>(D)) {
                bool local = V->hasLocalStorage();
                JA a = hdr(local ? "var" : "gvar", E);
                if (!local) noteGlobal(V);
                a.push_back(declId(V));
                a.push_back(V->getNameAsString());
                return a;
            }
            if (auto *B = dyn_cast<BindingDecl>(D)) {
                if (B->getHoldingVar()) {
                    JA a = hdr("var", E);
                    a.push_back(declId(B->getHoldingVar()));
                    a.push_back(B->getNameAsString());
                    return a;
                }
                if (B->getBinding()) return expr(B->getBinding());
            }
            break;
        }
        case Stmt::MemberExprClass: {
            auto *M = cast<MemberExpr>(E);
            if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
                JA a = hdr("mem", E);
                a.push_back(expr(M->getBase()));
                a.push_back(fieldName(F));
                a.push_back(M->isArrow());
                return a;
            }
            if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) {
                JA a = hdr("gvar", E);
                noteGlobal(V);
                a.push_back(declId(V));
                a.push_back(V->getNameAsString());
                return a;
            }
            if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) {
                JA a = hdr("fn", E);
                a.push_back(fnId(F));
                return a;
            }
            break;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *M = cast<CXXMemberCallExpr>(E);
            auto *F = M->getMethodDecl();
            if (!F) break;
            const Expr *callee = M->getCallee()->IgnoreParens();
            bool arrow = false, virt = false;
            if (auto *ME = dyn_cast<MemberExpr>(callee)) {
                arrow = ME->isArrow();
                virt = F->isVirtual() && !ME->hasQualifier();
            }
            if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) (void)DD;
            JA a = hdr("mcall", E);
            a.push_back(fnId(F));
            a.push_back(expr(M->getImplicitObjectArgument()));
            a.push_back(exprRange(M->arg_begin(), M->arg_end()));
            a.push_back(arrow);
            a.push_back(virt);
            QualType ET = emplaceType(F);
            if (!ET.isNull()) a.push_back(ctorForEmplace(F, ET));
            return a;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto *O = cast<CXXOperatorCallExpr>(E);
            auto *F = O->getDirectCallee();
            if (!F) break;
            if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                JA a = hdr("mcall", E);
                a.push_back(fnId(F));
                a.push_back(expr(O->getArg(0)));
                JA args;
                for (unsigned i = 1; i < O->getNumArgs(); i++)
                    args.push_back(expr(O->getArg(i)));
                a.push_back(std::move(args));
                a.push_back(false);
                a.push_back(false);
                return a;
            }
            JA a = hdr("call", E);
            a.push_back(fnId(F));
            a.push_back(exprRange(O->arg_begin(), O->arg_end()));
            return a;
        }
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CallExprClass: {
            auto *X = cast<CallExpr>(E);
            if (auto *F = X->getDirectCallee()) {
                JA a = hdr("call", E);
                a.push_back(fnId(F));
                a.push_back(exprRange(X->arg_begin(), X->arg_end()));
                QualType ET = emplaceType(F);
                if (!ET.isNull()) a.push_back(ctorForEmplace(F, ET));
                return a;
            }
            if (auto *PD = dyn_cast<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) {
                (void)PD;
                return hdr("nop", E);
            }
            JA a = hdr("icall", E);
            a.push_back(expr(X->getCallee()));
            a.push_back(exprRange(X->arg_begin(), X->arg_end()));
            return a;
        }
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: {
            auto *X = cast<CXXConstructExpr>(E);
            JA a = hdr("ctor", E);
            a.push_back(fnId(X->getConstructor()));
            a.push_back(exprRange(X->arg_begin(), X->arg_end()));
            a.push_back(X->isElidable());
            a.push_back(X->requiresZeroInitialization());
            if (X->getConstructor()->getParent()->getNameAsString() == "optional" ||
                X->getConstructor()->getParent()->getNameAsString() == "function")
                a.push_back(JO());
            return a;
        }
        case Stmt::CXXInheritedCtorInitExprClass: {
            auto *X = cast<CXXInheritedCtorInitExpr>(E);
            JA a = hdr("inhctor", E);
            a.push_back(fnId(X->getConstructor()));
            return a;
        }
        case Stmt::CXXNewExprClass: {
            auto *N = cast<CXXNewExpr>(E);
            JA a = hdr("new", E);
            a.push_back(typeId(N->getAllocatedType()));
            const Expr *I = N->getInitializer();
            a.push_back(expr(I));
            a.push_back(exprRange(N->placement_arg_begin(), N->placement_arg_end()));
            a.push_back(N->isArray());
            return a;
        }
        case Stmt::CXXDeleteExprClass: {
            JA a = hdr("delete", E);
            a.push_back(expr(cast<CXXDeleteExpr>(E)->getArgument()));
            a.push_back(typeId(cast<CXXDeleteExpr>(E)->getDestroyedType()));
            return a;
        }
        case Stmt::LambdaExprClass: {
            auto *L = cast<LambdaExpr>(E);
            JA a = hdr("lambda", E);
            a.push_back(recId(L->getLambdaClass()));
            JA caps;
            auto ii = L->capture_init_begin();
            std::vector<const FieldDecl *> fields;
            for (auto *F : L->getLambdaClass()->fields())
                fields.push_back(F);
            unsigned k = 0;
            for (auto &cap : L->captures()) {
                JO c;
                c["f"] = k < fields.size() ? fieldName(fields[k]) : std::string("?");
                if (cap.capturesThis()) {
                    c["k"] = cap.getCaptureKind() == LCK_StarThis ? "starthis" : "this";
                } else if (cap.capturesVariable()) {
                    c["k"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    c["d"] = declId(cap.getCapturedVar());
                } else
                    c["k"] = "vla";
                c["i"] = expr(*ii);
                ++ii;
                ++k;
                caps.push_back(std::move(c));
            }
            a.push_back(std::move(caps));
            JA ops;
            auto *Op = L->getCallOperator();
            if (auto *TD = Op->getDescribedFunctionTemplate()) {
                for (auto *S : TD->specializations())
                    ops.push_back(fnId(S));
            } else
                ops.push_back(fnId(Op));
            a.push_back(std::move(ops));
            return a;
        }
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXDynamicCastExprClass:
        case Stmt::BuiltinBitCastExprClass: {
            auto *X = cast<CastExpr>(E);
            auto k = X->getCastKind();
            if (k == CK_ConstructorConversion || k == CK_UserDefinedConversion) return expr(X->getSubExpr());
            JA a = hdr("cast", E);
            a.push_back(X->getCastKindName());
            a.push_back(expr(X->getSubExpr()));
            return a;
        }
        case Stmt::UnaryOperatorClass: {
            auto *U = cast<UnaryOperator>(E);
            JA a = hdr("un", E);
            std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op = "post" + op;
            a.push_back(op);
            a.push_back(expr(U->getSubExpr()));
            return a;
        }
        case Stmt::CompoundAssignOperatorClass:
        case Stmt::BinaryOperatorClass: {
            auto *B = cast<BinaryOperator>(E);
            JA a = hdr(B->isAssignmentOp() ? "asg" : "bin", E);
            a.push_back(B->getOpcodeStr().str());
            a.push_back(expr(B->getLHS()));
            a.push_back(expr(B->getRHS()));
            if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) {
                a.push_back(typeId(CA->getComputationLHSType()));
                a.push_back(typeId(CA->getComputationResultType()));
            }
            return a;
        }
        case Stmt::CXXRewrittenBinaryOperatorClass:
            return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
        case Stmt::ConditionalOperatorClass: {
            auto *X = cast<ConditionalOperator>(E);
            JA a = hdr("cond", E);
            a.push_back(expr(X->getCond()));
            a.push_back(expr(X->getTrueExpr()));
            a.push_back(expr(X->getFalseExpr()));
            return a;
        }
        case Stmt::InitListExprClass: {
            auto *X = cast<InitListExpr>(E);
            if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
            JA a = hdr("init", X);
            JA es;
            for (auto *e : X->inits())
                es.push_back(expr(e));
            a.push_back(std::move(es));
            a.push_back(X->isTransparent());
            if (X->hasArrayFiller()) a.push_back(expr(X->getArrayFiller()));
            return a;
        }
        case Stmt::ArraySubscriptExprClass: {
            auto *X = cast<ArraySubscriptExpr>(E);
            JA a = hdr("idx", E);
            a.push_back(expr(X->getBase()));
            a.push_back(expr(X->getIdx()));
            return a;
        }
        case Stmt::CXXThrowExprClass: {
            JA a = hdr("throw", E);
            a.push_back(expr(cast<CXXThrowExpr>(E)->getSubExpr()));
            return a;
        }
        case Stmt::CXXDefaultArgExprClass:
            return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
        case Stmt::CXXDefaultInitExprClass:
            return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
        case Stmt::MaterializeTemporaryExprClass: {
            JA a = hdr("tmp", E);
            auto *M = cast<MaterializeTemporaryExpr>(E);
            a.push_back(expr(M->getSubExpr()));
            a.push_back(M->getExtendingDecl() != nullptr);
            return a;
        }
        case Stmt::CXXBindTemporaryExprClass: {
            JA a = hdr("bind", E);
            a.push_back(expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr()));
            return a;
        }
        case Stmt::ExprWithCleanupsClass: {
            JA a = hdr("clean", E);
            a.push_back(expr(cast<ExprWithCleanups>(E)->getSubExpr()));
            return a;
        }
        case Stmt::CXXStdInitializerListExprClass: {
            JA a = hdr("initlist", E);
            a.push_back(expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr()));
            return a;
        }
        case Stmt::CXXTypeidExprClass: {
            JA a = hdr("typeid", E);
            auto *TI = cast<CXXTypeidExpr>(E);
            a.push_back(TI->isTypeOperand() ? typeId(TI->getTypeOperand(C)) : typeId(TI->getExprOperand()->getType()));
            return a;
        }
        case Stmt::CXXParenListInitExprClass: {
            auto *X = cast<CXXParenListInitExpr>(E);
            JA a = hdr("init", E);
            JA es;
            for (auto *e : X->getInitExprs())
                es.push_back(expr(e));
            a.push_back(std::move(es));
            a.push_back(false);
            return a;
        }
        case Stmt::AtomicExprClass:
        default:
            break;
        }
        unsupported++;
        JA a = hdr("unsup", E);
        a.push_back(E->getStmtClassName());
        return a;
    }

    JV ctorForEmplace(const FunctionDecl *F, QualType ET) {
        std::set<const FunctionDecl *> seen;
        const FunctionDecl *K = findCtor(F, ET, 0, seen);
        JO o;
        o["t"] = typeId(ET);
        if (K) o["ctor"] = fnId(K);
        return o;
    }

    // ---- statements ----
    JV varDecl(const VarDecl *V) {
        JO o;
        o["d"] = declId(V);
        o["n"] = V->getNameAsString();
        o["t"] = typeId(V->getType());
        o["l"] = locId(V->getLocation());
        if (V->getInit()) o["i"] = expr(V->getInit());
        if (V->isStaticLocal()) {
            o["static"] = true;
            noteGlobal(V);
        }
        if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            JA bs;
            for (auto *B : DD->bindings())
                if (auto *HV = B->getHoldingVar()) bs.push_back(varDecl(HV));
            o["binds"] = std::move(bs);
        }
        return o;
    }

    JA shdr(const char *op, const Stmt *S) {
        JA a;
        a.push_back(op);
        a.push_back(locId(S->getBeginLoc()));
        return a;
    }

    JV stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            JA a = shdr("expr", S);
            a.push_back(expr(E));
            return a;
        }
        switch (S->getStmtClass()) {
        case Stmt::NullStmtClass:
            return shdr("null", S);
        case Stmt::CompoundStmtClass: {
            JA a = shdr("seq", S);
            JA b;
            for (auto *c : cast<CompoundStmt>(S)->body())
                b.push_back(stmt(c));
            a.push_back(std::move(b));
            return a;
        }
        case Stmt::DeclStmtClass: {
            JA a = shdr("decl", S);
            JA b;
            for (auto *d : cast<DeclStmt>(S)->decls())
                if (auto *V = dyn_cast<VarDecl>(d)) b.push_back(varDecl(V));
            a.push_back(std::move(b));
            return a;
        }
        case Stmt::IfStmtClass: {
            auto *I = cast<IfStmt>(S);
            if (I->isConsteval()) return stmt(I->isNegatedConsteval() ? I->getThen() : I->getElse());
            JA a = shdr("if", S);
            a.push_back(stmt(I->getInit()));
            a.push_back(I->getConditionVariable() ? varDecl(I->getConditionVariable()) : JV(nullptr));
            a.push_back(expr(I->getCond()));
            a.push_back(stmt(I->getThen()));
            a.push_back(stmt(I->getElse()));
            return a;
        }
        case Stmt::WhileStmtClass: {
            auto *I = cast<WhileStmt>(S);
            JA a = shdr("while", S);
            a.push_back(I->getConditionVariable() ? varDecl(I->getConditionVariable()) : JV(nullptr));
            a.push_back(expr(I->getCond()));
            a.push_back(stmt(I->getBody()));
            return a;
        }
        case Stmt::DoStmtClass: {
            auto *I = cast<DoStmt>(S);
            JA a = shdr("do", S);
            a.push_back(stmt(I->getBody()));
            a.push_back(expr(I->getCond()));
            return a;
        }
        case Stmt::ForStmtClass: {
            auto *I = cast<ForStmt>(S);
            JA a = shdr("for", S);
            a.push_back(stmt(I->getInit()));
            a.push_back(I->getConditionVariable() ? varDecl(I->getConditionVariable()) : JV(nullptr));
            a.push_back(expr(I->getCond()));
            a.push_back(expr(I->getInc()));
            a.push_back(stmt(I->getBody()));
            return a;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *I = cast<CXXForRangeStmt>(S);
            JA a = shdr("rfor", S);
            JA pre;
            if (I->getInit()) pre.push_back(stmt(I->getInit()));
            pre.push_back(stmt(I->getRangeStmt()));
            pre.push_back(stmt(I->getBeginStmt()));
            pre.push_back(stmt(I->getEndStmt()));
            a.push_back(std::move(pre));
            a.push_back(expr(I->getCond()));
            a.push_back(expr(I->getInc()));
            a.push_back(stmt(I->getLoopVarStmt()));
            a.push_back(stmt(I->getBody()));
            return a;
        }
        case Stmt::ReturnStmtClass: {
            JA a = shdr("ret", S);
            a.push_back(expr(cast<ReturnStmt>(S)->getRetValue()));
            return a;
        }
        case Stmt::BreakStmtClass:
            return shdr("brk", S);
        case Stmt::ContinueStmtClass:
            return shdr("cont", S);
        case Stmt::SwitchStmtClass: {
            auto *I = cast<SwitchStmt>(S);
            JA a = shdr("switch", S);
            a.push_back(stmt(I->getInit()));
            a.push_back(I->getConditionVariable() ? varDecl(I->getConditionVariable()) : JV(nullptr));
            a.push_back(expr(I->getCond()));
            a.push_back(stmt(I->getBody()));
            return a;
        }
        case Stmt::CaseStmtClass: {
            auto *I = cast<CaseStmt>(S);
            JA a = shdr("case", S);
            a.push_back(expr(I->getLHS()));
            a.push_back(stmt(I->getSubStmt()));
            return a;
        }
        case Stmt::DefaultStmtClass: {
            JA a = shdr("default", S);
            a.push_back(stmt(cast<DefaultStmt>(S)->getSubStmt()));
            return a;
        }
        case Stmt::CXXTryStmtClass: {
            auto *I = cast<CXXTryStmt>(S);
            JA a = shdr("try", S);
            a.push_back(stmt(I->getTryBlock()));
            JA hs;
            for (unsigned i = 0; i < I->getNumHandlers(); i++) {
                auto *H = I->getHandler(i);
                JO o;
                if (H->getExceptionDecl()) o["v"] = varDecl(H->getExceptionDecl());
                o["t"] = H->getExceptionDecl() ? JV(typeId(H->getCaughtType().getNonReferenceType())) : JV(nullptr);
                o["b"] = stmt(H->getHandlerBlock());
                hs.push_back(std::move(o));
            }
            a.push_back(std::move(hs));
            return a;
        }
        case Stmt::AttributedStmtClass:
            return stmt(cast<AttributedStmt>(S)->getSubStmt());
        case Stmt::LabelStmtClass: {
            JA a = shdr("label", S);
            a.push_back(declId(cast<LabelStmt>(S)->getDecl()));
            a.push_back(stmt(cast<LabelStmt>(S)->getSubStmt()));
            return a;
        }
        case Stmt::GotoStmtClass: {
            JA a = shdr("goto", S);
            a.push_back(declId(cast<GotoStmt>(S)->getLabel()));
            return a;
        }
        default:
            break;
        }
        unsupported++;
        JA a = shdr("unsup", S);
        a.push_back(S->getStmtClassName());
        return a;
    }

    // ---- functions ----
    JV function(const FunctionDecl *F) {
        JO o;
        o["n"] = F->getNameAsString();
        o["q"] = qname(F);
        o["l"] = locId(F->getLocation());
        o["ret"] = typeId(F->getReturnType());
        bool sys = isSystemFn(F);
        o["sys"] = sys;
        if (auto *A = F->getTemplateSpecializationArgs()) o["targs"] = targList(A->asArray());
        JA ps;
        for (auto *P : F->parameters()) {
            JO p;
            p["d"] = declId(P);
            p["n"] = P->getNameAsString();
            p["t"] = typeId(P->getType());
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (F->isVariadic()) o["variadic"] = true;
        if (F->isDeleted()) o["deleted"] = true;
        if (SM.isInMainFile(SM.getExpansionLoc(F->getLocation()))) o["main"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recId(M->getParent());
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            if (M->isVirtual()) o["virtual"] = true;
            if (M->isCopyAssignmentOperator()) o["special"] = "copyasg";
            if (M->isMoveAssignmentOperator()) o["special"] = "moveasg";
            if (M->isDefaulted()) o["defaulted"] = true;
            if (M->isTrivial()) o["trivial"] = true;
        }
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["kind"] = "ctor";
            if (K->isCopyConstructor()) o["special"] = "copyctor";
            else if (K->isMoveConstructor()) o["special"] = "movector";
            else if (K->isDefaultConstructor()) o["special"] = "defctor";
        } else if (isa<CXXDestructorDecl>(F))
            o["kind"] = "dtor";
        else if (isa<CXXConversionDecl>(F))
            o["kind"] = "conv";
        else if (isa<CXXMethodDecl>(F))
            o["kind"] = "method";
        else
            o["kind"] = "fn";
        if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        if (!sys) {
            const FunctionDecl *Def = nullptr;
            if (F->hasBody(Def)) {
                o["hasbody"] = true;
                if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
                    JA is;
                    for (auto *I : K->inits()) {
                        JO i;
                        if (I->isAnyMemberInitializer()) i["f"] = fieldName(I->getAnyMember());
                        else if (I->isDelegatingInitializer()) i["deleg"] = true;
                        else if (I->isBaseInitializer()) i["base"] = typeId(QualType(I->getBaseClass(), 0));
                        i["i"] = expr(I->getInit());
                        if (I->isAnyMemberInitializer()) i["t"] = typeId(I->getAnyMember()->getType());
                        is.push_back(std::move(i));
                    }
                    o["inits"] = std::move(is);
                }
                o["body"] = stmt(Def->getBody());
                o["endl"] = locId(Def->getBody()->getEndLoc());
            }
            if (auto *Dt = dyn_cast<CXXDestructorDecl>(F)) {
                auto *R = Dt->getParent();
                JA bs;
                for (auto &B : R->bases())
                    if (auto *BR = B.getType()->getAsCXXRecordDecl())
                        if (auto *BD = BR->getDestructor())
                            if (!BD->isTrivial()) bs.push_back(fnId(BD));
                o["basedtors"] = std::move(bs);
            }
        }
        return o;
    }

    void run(TranslationUnitDecl *TU) {
        fileNames.push_back("?");
        files["?"] = 0;
        struct Roots : RecursiveASTVisitor<Roots> {
            Exporter &X;
            std::vector<const FunctionDecl *> fs;
            Roots(Exporter &X) : X(X) {}
            bool shouldVisitTemplateInstantiations() const { return true; }
            bool VisitFunctionDecl(FunctionDecl *F) {
                if (F->isDependentContext() || !F->doesThisDeclarationHaveABody()) return true;
                if (!X.SM.isInMainFile(X.SM.getExpansionLoc(F->getLocation()))) return true;
                if (auto *M = dyn_cast<CXXMethodDecl>(F))
                    if (M->getParent()->isLambda()) return true;
                fs.push_back(F);
                return true;
            }
        } R(*this);
        R.TraverseDecl(TU);
        JA roots;
        for (auto *F : R.fs)
            roots.push_back(fnId(F));
        while (!work.empty()) {
            auto *F = work.front();
            work.pop_front();
            int id = fnIds[F];
            JV v = function(F);
            fnOut.emplace(id, std::move(v));
        }
        JA fns;
        for (size_t i = 0; i < fnById.size(); i++) {
            auto it = fnOut.find(i);
            fns.push_back(it == fnOut.end() ? JV(nullptr) : std::move(it->second));
        }
        JO o;
        o["fns"] = std::move(fns);
        o["roots"] = std::move(roots);
        o["types"] = std::move(types);
        o["records"] = std::move(records);
        o["files"] = std::move(fileNames);
        o["globals"] = std::move(globals);
        o["unsupported"] = unsupported;
        std::error_code EC;
        llvm::raw_fd_ostream os(gOut, EC);
        os << JV(std::move(o));
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance &CI;
    Consumer(CompilerInstance &CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Exporter X(C);
        X.run(C.getTranslationUnitDecl());
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
        return std::make_unique<Consumer>(CI);
    }
};

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    gOut = argv[1];
    std::vector<std::string> args;
    args.push_back("clang++");
    for (int i = 3; i < argc; i++)
        args.push_back(argv[i]);
    args.push_back("-fsyntax-only");
    llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), FM.get());
    return inv.run() ? 0 : 1;
}
