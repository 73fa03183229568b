// lxdump: dumps the resolved (template-instantiated, overload-resolved) program
// of every function/record/variable declared under a given source root as JSON.
// No source text is emitted; only what clang's semantic analysis resolved.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  int NextId = 1;
  std::string Buf;
  llvm::raw_string_ostream OS;
  json::OStream J;
  std::set<const FunctionDecl *> FnDone;
  std::set<const Decl *> RecDone, VarDone;
  std::vector<const CXXMethodDecl *> PendingLambda;

  Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), OS(Buf), J(OS) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
  }

  int id(const Decl *D) {
    if (!D) return 0;
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    return Ids[D] = NextId++;
  }
  bool inRoot(SourceLocation L, std::string *File = nullptr) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    for (auto &R : Roots)
      if (F.starts_with(R)) {
        if (File) *File = F.str();
        return true;
      }
    return false;
  }
  unsigned line(SourceLocation L) {
    return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L);
  }
  std::string ty(QualType T) {
    return T.isNull() ? std::string() : T.getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream O(S);
    D->printQualifiedName(O, PP);
    return S;
  }
  std::string cname(const CXXRecordDecl *R) {
    return ty(C.getTypeDeclType(R));
  }
  void stmts(const char *K, ArrayRef<const Stmt *> A) {
    J.attributeArray(K, [&] { for (auto *S : A) stmt(S); });
  }
  void attrStmt(const char *K, const Stmt *S) {
    if (!S) return;
    J.attributeBegin(K);
    stmt(S);
    J.attributeEnd();
  }
  template <class F> void node(const char *Kind, const Stmt *S, F f) {
    J.object([&] {
      J.attribute("k", Kind);
      if (S) J.attribute("l", (int64_t)line(S->getBeginLoc()));
      if (auto *E = dyn_cast_or_null<Expr>(S)) {
        if (!E->getType().isNull()) J.attribute("t", ty(E->getType()));
        if (E->isGLValue()) J.attribute("lv", true);
        constant(E);
      }
      f();
    });
  }
  void constant(const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T.isNull() || !T->isIntegralOrEnumerationType()) return;
    if (isa<IntegerLiteral>(E) || isa<CharacterLiteral>(E)) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
      auto &I = R.Val.getInt();
      if (I.isSigned() || I.getActiveBits() < 64)
        J.attribute("c", I.getExtValue());
      else
        J.attribute("c", (int64_t)I.getZExtValue());
    }
  }
  const Expr *skip(const Expr *E) {
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_IntegralCast: case CK_IntegralToBoolean: case CK_UserDefinedConversion:
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        case CK_PointerToBoolean: case CK_ConstructorConversion:
          if (P->getCastKind() == CK_IntegralCast || P->getCastKind() == CK_IntegralToBoolean ||
              P->getCastKind() == CK_PointerToBoolean)
            return E;
          E = P->getSubExpr();
          break;
        default: E = P->getSubExpr();
        }
      } else if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
        // elidable copy/move
        if (P->isElidable() && P->getNumArgs() == 1) { E = P->getArg(0); continue; }
        return E;
      } else if (auto *P = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (P->getCastKind() == CK_ConstructorConversion || P->getCastKind() == CK_NoOp) { E = P->getSubExpr(); continue; }
        return E;
      } else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else return E;
    }
  }
  void fnref(const char *K, const FunctionDecl *F) {
    if (!F) return;
    J.attribute(K, (int64_t)id(F));
    J.attribute("n", F->getNameAsString());
    J.attribute("q", qname(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", cname(M->getParent()));
      if (M->isConst()) J.attribute("const", true);
      if (M->isStatic()) J.attribute("static", true);
      if (M->isVirtual()) J.attribute("virtual", true);
    }
    if (auto *FT = F->getType()->getAs<FunctionProtoType>())
      if (FT->isNothrow()) J.attribute("noexcept", true);
    J.attributeArray("pt", [&] { for (auto *P : F->parameters()) J.value(ty(P->getType())); });
  }
  void str(const StringLiteral *S) {
    J.attribute("w", (int64_t)S->getCharByteWidth());
    J.attributeArray("v", [&] {
      for (unsigned i = 0; i < S->getLength(); ++i) J.value((int64_t)S->getCodeUnit(i));
    });
  }
  void expr(const Expr *E0) {
    const Expr *E = skip(E0);
    if (auto *X = dyn_cast<IntegerLiteral>(E))
      return node("int", E, [&] { J.attribute("v", (int64_t)X->getValue().getZExtValue()); });
    if (auto *X = dyn_cast<CharacterLiteral>(E))
      return node("int", E, [&] { J.attribute("v", (int64_t)X->getValue()); J.attribute("chr", true); });
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E))
      return node("int", E, [&] { J.attribute("v", (int64_t)X->getValue()); });
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return node("null", E, [&] {});
    if (auto *X = dyn_cast<StringLiteral>(E))
      return node("str", E, [&] { str(X); });
    if (auto *X = dyn_cast<PredefinedExpr>(E))
      return node("str", E, [&] { J.attribute("predef", true); J.attribute("w", 1); J.attributeArray("v", [&] {}); });
    if (isa<CXXThisExpr>(E)) return node("this", E, [&] {});
    if (auto *X = dyn_cast<DeclRefExpr>(E))
      return node("ref", E, [&] {
        const ValueDecl *D = X->getDecl();
        if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("dk", "fn"); fnref("d", F); return; }
        J.attribute("d", (int64_t)id(D));
        J.attribute("n", D->getNameAsString());
        if (isa<EnumConstantDecl>(D)) {
          J.attribute("dk", "enum"); J.attribute("q", qname(D));
        } else if (auto *V = dyn_cast<VarDecl>(D)) {
          bool G = V->hasGlobalStorage();
          J.attribute("dk", isa<ParmVarDecl>(V) ? "parm" : G ? "global" : "var");
          if (G) J.attribute("q", qname(V));
        } else if (isa<BindingDecl>(D)) J.attribute("dk", "binding");
        else J.attribute("dk", "other");
      });
    if (auto *X = dyn_cast<MemberExpr>(E))
      return node("mem", E, [&] {
        J.attribute("n", X->getMemberDecl()->getNameAsString());
        J.attribute("d", (int64_t)id(X->getMemberDecl()));
        if (X->isArrow()) J.attribute("arrow", true);
        if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl()))
          J.attribute("cls", ty(C.getTypeDeclType(F->getParent())));
        attrStmt("b", X->getBase());
      });
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E))
      return node("call", E, [&] {
        auto *M = X->getMethodDecl();
        if (M) fnref("fn", M);
        if (X->getImplicitObjectArgument()) {
          attrStmt("obj", X->getImplicitObjectArgument());
          if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) {
            if (ME->isArrow()) J.attribute("arrow", true);
            if (M && M->isVirtual() && !ME->hasQualifier()) J.attribute("vdisp", true);
          }
        }
        J.attributeArray("a", [&] { for (auto *A : X->arguments()) stmt(A); });
      });
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
      return node("op", E, [&] {
        J.attribute("op", getOperatorSpelling(X->getOperator()));
        auto *F = X->getDirectCallee();
        if (F) fnref("fn", F);
        J.attributeArray("a", [&] { for (auto *A : X->arguments()) stmt(A); });
      });
    if (auto *X = dyn_cast<CallExpr>(E))
      return node("call", E, [&] {
        if (auto *F = X->getDirectCallee()) fnref("fn", F);
        else attrStmt("callee", X->getCallee());
        J.attributeArray("a", [&] { for (auto *A : X->arguments()) stmt(A); });
      });
    if (auto *X = dyn_cast<CXXConstructExpr>(E))
      return node("ctor", E, [&] {
        fnref("fn", X->getConstructor());
        if (X->getConstructor()->isCopyOrMoveConstructor()) J.attribute("cm", X->getConstructor()->isCopyConstructor() ? "copy" : "move");
        J.attributeArray("a", [&] { for (auto *A : X->arguments()) stmt(A); });
      });
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E))
      return node("ctor", E, [&] { fnref("fn", X->getConstructor()); J.attributeArray("a", [&] {}); });
    if (auto *X = dyn_cast<CXXNewExpr>(E))
      return node("new", E, [&] {
        J.attribute("of", ty(X->getAllocatedType()));
        if (X->isArray()) J.attribute("array", true);
        if (X->getArraySize() && *X->getArraySize()) attrStmt("size", *X->getArraySize());
        if (X->getInitializer()) attrStmt("init", X->getInitializer());
      });
    if (auto *X = dyn_cast<CXXDeleteExpr>(E))
      return node("delete", E, [&] { if (X->isArrayForm()) J.attribute("array", true); attrStmt("e", X->getArgument()); });
    if (auto *X = dyn_cast<CXXThrowExpr>(E))
      return node("throw", E, [&] {
        if (X->getSubExpr()) {
          J.attribute("tt", ty(X->getSubExpr()->getType()));
          attrStmt("e", X->getSubExpr());
        }
      });
    if (auto *X = dyn_cast<UnaryOperator>(E))
      return node("un", E, [&] {
        J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
        if (X->isPostfix()) J.attribute("post", true);
        attrStmt("e", X->getSubExpr());
      });
    if (auto *X = dyn_cast<BinaryOperator>(E))
      return node("bin", E, [&] {
        J.attribute("op", X->getOpcodeStr());
        attrStmt("x", X->getLHS());
        attrStmt("y", X->getRHS());
      });
    if (auto *X = dyn_cast<ConditionalOperator>(E))
      return node("cond", E, [&] {
        attrStmt("c_", X->getCond()); attrStmt("x", X->getTrueExpr()); attrStmt("y", X->getFalseExpr());
      });
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
      return node("sub", E, [&] { attrStmt("x", X->getBase()); attrStmt("y", X->getIdx()); });
    if (auto *X = dyn_cast<CXXDynamicCastExpr>(E))
      return node("cast", E, [&] { J.attribute("ck", "dynamic"); attrStmt("e", X->getSubExpr()); });
    if (auto *X = dyn_cast<CastExpr>(E))
      return node("cast", E, [&] {
        J.attribute("ck", isa<CXXStaticCastExpr>(E) ? "static" : isa<CXXConstCastExpr>(E) ? "const" :
          isa<CXXReinterpretCastExpr>(E) ? "reinterpret" : isa<CStyleCastExpr>(E) ? "c" :
          isa<CXXFunctionalCastExpr>(E) ? "fn" : "implicit");
        J.attribute("cc", X->getCastKindName());
        attrStmt("e", X->getSubExpr());
      });
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      return node("lambda", E, [&] {
        J.attribute("fn", (int64_t)id(X->getCallOperator()));
        J.attributeArray("caps", [&] {
          auto II = X->capture_init_begin();
          for (auto CI = X->capture_begin(); CI != X->capture_end(); ++CI, ++II) {
            J.object([&] {
              if (CI->capturesThis()) { J.attribute("this", true); return; }
              if (!CI->capturesVariable()) return;
              J.attribute("d", (int64_t)id(CI->getCapturedVar()));
              J.attribute("n", CI->getCapturedVar()->getNameAsString());
              if (CI->getCaptureKind() == LCK_ByRef) J.attribute("byref", true);
              if (X->isInitCapture(&*CI)) J.attribute("initcap", true);
              if (*II) attrStmt("i", *II);
            });
          }
        });
        PendingLambda.push_back(X->getCallOperator());
      });
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      return node("init", E, [&] {
        J.attributeArray("a", [&] { for (auto *A : X->inits()) stmt(A); });
      });
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
      return node("zero", E, [&] {});
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
      return node("sizeof", E, [&] {});
    if (auto *X = dyn_cast<FloatingLiteral>(E)) return node("float", E, [&] {});
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) return node("other", E, [&] {});
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) return node("other", E, [&] {});
    return node("other", E, [&] {
      J.attribute("cls", E->getStmtClassName());
      J.attributeArray("a", [&] { for (auto *A : E->children()) if (A) stmt(A); });
    });
  }
  void vardecl(const VarDecl *V) {
    J.object([&] {
      J.attribute("k", "var");
      J.attribute("l", (int64_t)line(V->getLocation()));
      J.attribute("d", (int64_t)id(V));
      J.attribute("n", V->getNameAsString());
      J.attribute("t", ty(V->getType()));
      if (V->getType()->isReferenceType()) J.attribute("isref", true);
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->isConstexpr()) J.attribute("constexpr", true);
      if (auto *DD = dyn_cast<DecompositionDecl>(V))
        J.attributeArray("bindings", [&] { for (auto *B : DD->bindings()) J.object([&] {
          J.attribute("d", (int64_t)id(B)); J.attribute("n", B->getNameAsString());
          attrStmt("e", B->getBinding());
        }); });
      if (V->getInit()) attrStmt("i", V->getInit());
    });
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    if (auto *X = dyn_cast<CompoundStmt>(S))
      return node("block", S, [&] { J.attributeArray("s", [&] { for (auto *A : X->body()) stmt(A); }); });
    if (auto *X = dyn_cast<DeclStmt>(S))
      return node("decl", S, [&] {
        J.attributeArray("v", [&] { for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) vardecl(V); });
      });
    if (auto *X = dyn_cast<IfStmt>(S))
      return node("if", S, [&] {
        if (X->isConstexpr()) J.attribute("constexpr", true);
        attrStmt("init", X->getInit());
        if (X->getConditionVariable()) { J.attributeBegin("cv"); vardecl(X->getConditionVariable()); J.attributeEnd(); }
        attrStmt("c_", X->getCond()); attrStmt("x", X->getThen()); attrStmt("y", X->getElse());
      });
    if (auto *X = dyn_cast<ForStmt>(S))
      return node("for", S, [&] {
        attrStmt("init", X->getInit()); attrStmt("c_", X->getCond()); attrStmt("inc", X->getInc()); attrStmt("x", X->getBody());
      });
    if (auto *X = dyn_cast<WhileStmt>(S))
      return node("while", S, [&] {
        if (X->getConditionVariable()) { J.attributeBegin("cv"); vardecl(X->getConditionVariable()); J.attributeEnd(); }
        attrStmt("c_", X->getCond()); attrStmt("x", X->getBody());
      });
    if (auto *X = dyn_cast<DoStmt>(S))
      return node("do", S, [&] { attrStmt("c_", X->getCond()); attrStmt("x", X->getBody()); });
    if (auto *X = dyn_cast<CXXForRangeStmt>(S))
      return node("rfor", S, [&] {
        attrStmt("init", X->getInit());
        J.attributeBegin("var"); vardecl(X->getLoopVariable()); J.attributeEnd();
        attrStmt("range", X->getRangeInit()); attrStmt("x", X->getBody());
      });
    if (auto *X = dyn_cast<SwitchStmt>(S))
      return node("switch", S, [&] {
        attrStmt("init", X->getInit());
        if (X->isAllEnumCasesCovered()) J.attribute("covered", true);
        attrStmt("c_", X->getCond()); attrStmt("x", X->getBody());
      });
    if (auto *X = dyn_cast<CaseStmt>(S))
      return node("case", S, [&] { attrStmt("c_", X->getLHS()); attrStmt("c2", X->getRHS()); attrStmt("x", X->getSubStmt()); });
    if (auto *X = dyn_cast<DefaultStmt>(S))
      return node("default", S, [&] { attrStmt("x", X->getSubStmt()); });
    if (isa<BreakStmt>(S)) return node("break", S, [&] {});
    if (isa<ContinueStmt>(S)) return node("continue", S, [&] {});
    if (isa<NullStmt>(S)) return node("nop", S, [&] {});
    if (auto *X = dyn_cast<ReturnStmt>(S))
      return node("return", S, [&] { attrStmt("e", X->getRetValue()); });
    if (auto *X = dyn_cast<GotoStmt>(S))
      return node("goto", S, [&] { J.attribute("label", X->getLabel()->getNameAsString()); });
    if (auto *X = dyn_cast<LabelStmt>(S))
      return node("label", S, [&] { J.attribute("label", X->getDecl()->getNameAsString()); attrStmt("x", X->getSubStmt()); });
    if (auto *X = dyn_cast<CXXTryStmt>(S))
      return node("try", S, [&] {
        attrStmt("x", X->getTryBlock());
        J.attributeArray("h", [&] {
          for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
            auto *H = X->getHandler(i);
            J.object([&] {
              J.attribute("k", "catch");
              J.attribute("l", (int64_t)line(H->getBeginLoc()));
              J.attribute("t", H->getExceptionDecl() ? ty(H->getCaughtType()) : std::string("..."));
              if (H->getExceptionDecl()) J.attribute("d", (int64_t)id(H->getExceptionDecl()));
              attrStmt("x", H->getHandlerBlock());
            });
          }
        });
      });
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    return node("ostmt", S, [&] {
      J.attribute("cls", S->getStmtClassName());
      J.attributeArray("a", [&] { for (auto *A : S->children()) if (A) stmt(A); });
    });
  }
  void function(const FunctionDecl *F, bool Lambda = false) {
    const FunctionDecl *Def = nullptr;
    std::string File;
    if (F->isDependentContext()) return;
    if (!F->getBody(Def) && !F->isDefaulted() && !F->isDeleted()) {
      // declared, never instantiated/defined: note pure declarations in root
      return;
    }
    if (!Def) Def = F;
    if (!inRoot(Def->getLocation(), &File)) return;
    if (!FnDone.insert(F->getCanonicalDecl()).second) return;
    J.object([&] {
      J.attribute("k", "fn");
      J.attribute("id", (int64_t)id(F));
      J.attribute("n", F->getNameAsString());
      J.attribute("q", qname(F));
      J.attribute("file", File);
      J.attribute("l", (int64_t)line(Def->getLocation()));
      J.attribute("rt", ty(Def->getReturnType()));
      if (Def->isDefaulted()) J.attribute("defaulted", true);
      if (Def->isImplicit()) J.attribute("implicit", true);
      if (Def->isDeleted()) J.attribute("deleted", true);
      if (Lambda) J.attribute("lambda", true);
      if (auto *FT = Def->getType()->getAs<FunctionProtoType>())
        if (!isUnresolvedExceptionSpec(FT->getExceptionSpecType()) && FT->isNothrow()) J.attribute("noexcept", true);
      if (auto *TA = Def->getTemplateSpecializationArgs()) {
        std::string S; llvm::raw_string_ostream O(S);
        for (auto &A : TA->asArray()) { A.print(PP, O, true); O << ","; }
        J.attribute("targs", S);
      }
      if (auto *M = dyn_cast<CXXMethodDecl>(Def)) {
        J.attribute("cls", cname(M->getParent()));
        J.attribute("clsname", M->getParent()->getNameAsString());
        if (M->isConst()) J.attribute("const", true);
        if (M->isStatic()) J.attribute("static", true);
        if (M->isVirtual()) J.attribute("virtual", true);
        J.attributeArray("ovr", [&] { for (auto *O : M->overridden_methods()) J.value((int64_t)id(O)); });
        switch (F->getAccess()) { case AS_public: J.attribute("acc", "public"); break;
          case AS_private: J.attribute("acc", "private"); break; case AS_protected: J.attribute("acc", "protected"); break; default: break; }
        if (isa<CXXDestructorDecl>(M)) J.attribute("mk", "dtor");
        else if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
          J.attribute("mk", CD->isCopyConstructor() ? "copyctor" : CD->isMoveConstructor() ? "movector" : CD->isDefaultConstructor() ? "defctor" : "ctor");
          J.attributeArray("inits", [&] {
            for (auto *I : CD->inits()) J.object([&] {
              if (I->isAnyMemberInitializer()) {
                J.attribute("field", I->getAnyMember()->getNameAsString());
                J.attribute("d", (int64_t)id(I->getAnyMember()));
              } else if (I->isBaseInitializer()) J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
              else J.attribute("delegating", true);
              J.attribute("l", (int64_t)line(I->getSourceLocation()));
              if (I->isWritten()) J.attribute("written", true);
              if (I->getInit()) attrStmt("e", I->getInit());
            });
          });
        } else if (M->isCopyAssignmentOperator()) J.attribute("mk", "copyassign");
        else if (M->isMoveAssignmentOperator()) J.attribute("mk", "moveassign");
      }
      J.attributeArray("params", [&] {
        for (auto *P : Def->parameters()) J.object([&] {
          J.attribute("d", (int64_t)id(P)); J.attribute("n", P->getNameAsString()); J.attribute("t", ty(P->getType()));
          if (P->getType()->isReferenceType()) J.attribute("isref", true);
        });
      });
      if (Def->hasBody()) attrStmt("body", Def->getBody());
    });
  }
  void record(const CXXRecordDecl *R) {
    std::string File;
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
    if (R->isLambda()) return;
    SourceLocation RL = R->getLocation();
    if (auto *P = R->getTemplateInstantiationPattern()) RL = P->getLocation();
    if (!inRoot(RL, &File)) return;
    if (!RecDone.insert(R).second) return;
    J.object([&] {
      J.attribute("k", "record");
      J.attribute("id", (int64_t)id(R));
      J.attribute("n", R->getNameAsString());
      J.attribute("q", qname(R));
      J.attribute("t", cname(R));
      J.attribute("file", File);
      J.attribute("l", (int64_t)line(RL));
      J.attributeArray("bases", [&] { for (auto &B : R->bases()) J.value(ty(B.getType())); });
      J.attributeArray("fields", [&] {
        for (auto *F : R->fields()) J.object([&] {
          J.attribute("n", F->getNameAsString()); J.attribute("d", (int64_t)id(F)); J.attribute("t", ty(F->getType()));
          J.attribute("l", (int64_t)line(F->getLocation()));
          if (F->isMutable()) J.attribute("mutable", true);
          if (F->getType()->isReferenceType()) J.attribute("isref", true);
          if (F->hasInClassInitializer() && F->getInClassInitializer()) attrStmt("i", F->getInClassInitializer());
          switch (F->getAccess()) { case AS_public: J.attribute("acc", "public"); break;
            case AS_private: J.attribute("acc", "private"); break; default: break; }
        });
      });
      J.attributeArray("methods", [&] {
        for (auto *M : R->methods()) J.object([&] {
          J.attribute("n", M->getNameAsString()); J.attribute("d", (int64_t)id(M));
          if (M->isDeleted()) J.attribute("deleted", true);
          if (M->isDefaulted()) J.attribute("defaulted", true);
          if (M->isImplicit()) J.attribute("implicit", true);
          if (M->isConst()) J.attribute("const", true);
          if (M->isPureVirtual()) J.attribute("pure", true);
          if (M->isVirtual()) J.attribute("virtual", true);
          J.attributeArray("pt", [&] { for (auto *P : M->parameters()) J.value(ty(P->getType())); });
        });
      });
    });
  }
  void var(const VarDecl *V) {
    std::string File;
    if (!V->hasGlobalStorage() || V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) return;
    if (!inRoot(V->getLocation(), &File)) return;
    if (!VarDone.insert(V->getCanonicalDecl()).second) return;
    J.object([&] {
      J.attribute("k", "global");
      J.attribute("d", (int64_t)id(V));
      J.attribute("n", V->getNameAsString()); J.attribute("q", qname(V)); J.attribute("t", ty(V->getType()));
      J.attribute("file", File); J.attribute("l", (int64_t)line(V->getLocation()));
      if (V->getType().isConstQualified() || V->isConstexpr()) J.attribute("isconst", true);
      else if (auto *AT = C.getAsArrayType(V->getType())) { if (C.getBaseElementType(V->getType()).isConstQualified()) J.attribute("isconst", true); }
      if (V->isConstexpr()) J.attribute("constexpr", true);
      if (V->isStaticLocal()) J.attribute("staticlocal", true);
      if (V->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
      if (V->getInit()) attrStmt("i", V->getInit());
    });
  }
  void enumd(const EnumDecl *E) {
    std::string File;
    if (!inRoot(E->getLocation(), &File) || !E->isThisDeclarationADefinition()) return;
    if (E->getDeclContext()->isDependentContext()) return;
    J.object([&] {
      J.attribute("k", "enum"); J.attribute("n", E->getNameAsString()); J.attribute("q", qname(E));
      J.attribute("file", File); J.attribute("l", (int64_t)line(E->getLocation()));
      J.attributeArray("vals", [&] {
        for (auto *V : E->enumerators()) J.object([&] { J.attribute("n", V->getNameAsString()); J.attribute("d", (int64_t)id(V)); J.attribute("v", V->getInitVal().getExtValue()); });
      });
    });
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  Dumper &D;
public:
  explicit Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool TraverseDecl(Decl *X) {
    // skip system headers wholesale
    if (X && !isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X)) {
      if (X->getDeclContext()->isFileContext() && !D.inRoot(X->getLocation())) {
        auto *S = dyn_cast<ClassTemplateSpecializationDecl>(X);
        if (!S || !D.inRoot(S->getSpecializedTemplate()->getLocation())) return true;
      }
    }
    return RecursiveASTVisitor::TraverseDecl(X);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { D.function(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitVarDecl(VarDecl *V) { D.var(V); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enumd(E); return true; }
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;
public:
  explicit Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    D.J.arrayBegin();
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < D.PendingLambda.size(); ++i) D.function(D.PendingLambda[i], true);
    D.J.arrayEnd();
    D.OS.flush();
    std::error_code EC;
    llvm::raw_fd_ostream Out(OutFile, EC);
    if (EC) { llvm::errs() << "cannot write " << OutFile << "\n"; exit(3); }
    Out << D.Buf;
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

int main(int argc, char **argv) {
  // lxdump OUT SRC ROOT[,ROOT] -- flags...
  if (argc < 4) { llvm::errs() << "usage: lxdump out src roots -- flags\n"; return 2; }
  OutFile = argv[1];
  std::string Src = argv[2];
  StringRef R(argv[3]);
  llvm::SmallVector<StringRef, 4> Parts;
  R.split(Parts, ',');
  for (auto P : Parts) Roots.push_back(P.str());
  std::vector<std::string> Flags;
  for (int i = 4; i < argc; ++i) if (std::string(argv[i]) != "--") Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
