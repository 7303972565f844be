// tdyfacts: dumps the type-checked syntax of one translation unit as JSON.
// Every callee, variable, field and enum constant is resolved by clang; macro
// expansions are analysed expanded, with the outermost macro's name attached.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <string>
using namespace clang;
using llvm::json::OStream;

static std::string Root;
static std::string OutPath;

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  OStream &J;
  std::map<const Decl *, int> ids;
  std::map<std::string, int> types;
  std::vector<std::string> typeList;
  std::vector<std::pair<std::string,std::string>> typeInfo;
  std::vector<std::string> canon;
  Dumper(ASTContext &C, OStream &J) : C(C), SM(C.getSourceManager()), J(J) {}

  std::string fileOf(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? std::string(P.getFilename()) : "";
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.rfind(Root, 0) == 0;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  int type(QualType T) {
    std::string s = T.getAsString();
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int n = typeList.size();
    types[s] = n;
    typeList.push_back(s);
    QualType CT = T.getCanonicalType();
    canon.push_back(CT.getAsString());
    std::string kind = "other", extra = "";
    if (CT->isEnumeralType()) kind = "enum";
    else if (CT->isBooleanType()) kind = "bool";
    else if (CT->isIntegerType()) kind = "int";
    else if (CT->isRealFloatingType()) kind = "flt";
    else if (CT->isFunctionPointerType()) kind = "fnptr";
    else if (CT->isPointerType()) { kind = "ptr"; }
    else if (CT->isConstantArrayType()) { kind = "carr"; extra = std::to_string(cast<ConstantArrayType>(CT)->getSize().getZExtValue()); }
    else if (CT->isVariableArrayType()) kind = "vla";
    else if (CT->isArrayType()) kind = "arr";
    else if (CT->isRecordType()) kind = "rec";
    else if (CT->isVoidType()) kind = "void";
    else if (CT->isFunctionType()) kind = "func";
    typeInfo.push_back({kind, extra});
    return n;
  }
  void loc(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isValid()) { J.attribute("l", (int64_t)P.getLine()); J.attribute("c", (int64_t)P.getColumn()); }
    if (L.isMacroID() && !SM.isMacroArgExpansion(L)) {
      // walk to the outermost macro
      SourceLocation M = L;
      std::string name;
      while (M.isMacroID()) {
        if (SM.isMacroArgExpansion(M)) { M = SM.getImmediateMacroCallerLoc(M); continue; }
        name = Lexer::getImmediateMacroName(M, SM, C.getLangOpts()).str();
        M = SM.getImmediateExpansionRange(M).getBegin();
      }
      if (!name.empty()) J.attribute("m", name);
    }
  }
  void ref(const ValueDecl *D) {
    J.attribute("n", D->getNameAsString());
    if (isa<EnumConstantDecl>(D)) {
      J.attribute("dk", "enum");
      auto *E = cast<EnumConstantDecl>(D);
      J.attribute("v", (int64_t)E->getInitVal().getExtValue());
    } else if (isa<FunctionDecl>(D)) {
      J.attribute("dk", "func");
      if (!cast<FunctionDecl>(D)->isExternallyVisible()) J.attribute("st", true);
    } else if (isa<ParmVarDecl>(D)) {
      J.attribute("dk", "parm"); J.attribute("d", id(D));
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage()) {
        J.attribute("dk", V->isStaticLocal() ? "slocal" : "global");
        if (!V->isExternallyVisible()) J.attribute("st", true);
      } else J.attribute("dk", "local");
      J.attribute("d", id(D));
    } else J.attribute("dk", "other");
  }
  void child(const char *key, const Stmt *S) {
    J.attributeBegin(key); stmt(S); J.attributeEnd();
  }
  void var(const VarDecl *V) {
    J.object([&] {
      J.attribute("k", "var");
      J.attribute("n", V->getNameAsString());
      J.attribute("d", id(V));
      J.attribute("t", type(V->getType()));
      if (V->isStaticLocal()) J.attribute("static", true);
      loc(V->getLocation());
      if (auto *VT = C.getAsVariableArrayType(V->getType()))
        if (VT->getSizeExpr()) child("vla", VT->getSizeExpr());
      if (V->getInit()) child("init", V->getInit());
    });
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
    J.object([&] {
      auto K = [&](const char *k) { J.attribute("k", k); loc(S->getBeginLoc()); };
      if (auto *X = dyn_cast<CompoundStmt>(S)) {
        K("comp");
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(X->getEndLoc()));
        if (P.isValid()) J.attribute("el", (int64_t)P.getLine());
        J.attributeArray("b", [&] { for (auto *s : X->body()) stmt(s); });
      } else if (auto *X = dyn_cast<DeclStmt>(S)) {
        K("decl");
        J.attributeArray("v", [&] {
          for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) var(V); });
      } else if (auto *X = dyn_cast<IfStmt>(S)) {
        K("if"); child("cond", X->getCond()); child("then", X->getThen());
        if (X->getElse()) child("else", X->getElse());
      } else if (auto *X = dyn_cast<ForStmt>(S)) {
        K("for");
        if (X->getInit()) child("init", X->getInit());
        if (X->getCond()) child("cond", X->getCond());
        if (X->getInc()) child("inc", X->getInc());
        child("body", X->getBody());
      } else if (auto *X = dyn_cast<WhileStmt>(S)) {
        K("while"); child("cond", X->getCond()); child("body", X->getBody());
      } else if (auto *X = dyn_cast<DoStmt>(S)) {
        K("do"); child("cond", X->getCond()); child("body", X->getBody());
      } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
        K("switch"); child("cond", X->getCond()); child("body", X->getBody());
      } else if (auto *X = dyn_cast<CaseStmt>(S)) {
        K("case");
        Expr::EvalResult R;
        if (X->getLHS()->EvaluateAsInt(R, C)) J.attribute("v", (int64_t)R.Val.getInt().getExtValue());
        child("val", X->getLHS());
        child("sub", X->getSubStmt());
      } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
        K("default"); child("sub", X->getSubStmt());
      } else if (isa<BreakStmt>(S)) K("break");
      else if (isa<ContinueStmt>(S)) K("continue");
      else if (auto *X = dyn_cast<ReturnStmt>(S)) {
        K("ret"); if (X->getRetValue()) child("e", X->getRetValue());
      } else if (isa<NullStmt>(S)) K("null");
      else if (auto *X = dyn_cast<LabelStmt>(S)) { K("label"); J.attribute("n", X->getName()); child("sub", X->getSubStmt()); }
      else if (auto *X = dyn_cast<GotoStmt>(S)) { K("goto"); J.attribute("n", X->getLabel()->getName()); }
      else if (auto *X = dyn_cast<AttributedStmt>(S)) { K("comp"); J.attributeArray("b", [&] { stmt(X->getSubStmt()); }); }
      else { K("unknown_stmt"); J.attribute("cls", S->getStmtClassName()); }
    });
  }
  void expr(const Expr *E) {
    // transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E)) { expr(X->getSubExpr()); return; }
    if (auto *X = dyn_cast<ConstantExpr>(E)) { expr(X->getSubExpr()); return; }
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) { expr(X->getSubExpr()); return; }
    if (auto *X = dyn_cast<ChooseExpr>(E)) { expr(X->getChosenSubExpr()); return; }
    if (auto *X = dyn_cast<GenericSelectionExpr>(E)) { expr(X->getResultExpr()); return; }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { expr(X->getSourceExpr()); return; } }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      CastKind k = X->getCastKind();
      bool keep = k == CK_FloatingToIntegral || k == CK_IntegralToFloating || k == CK_BitCast;
      if (!keep) {
        // a null pointer constant keeps its type by the "null" marker
        if (k == CK_NullToPointer) {
          J.object([&] { J.attribute("k", "nullp"); J.attribute("t", type(E->getType())); loc(E->getBeginLoc()); });
          return;
        }
        expr(X->getSubExpr()); return;
      }
    }
    J.object([&] {
      auto K = [&](const char *k) {
        J.attribute("k", k); J.attribute("t", type(E->getType())); loc(E->getExprLoc());
      };
      if (auto *X = dyn_cast<IntegerLiteral>(E)) { K("int"); J.attribute("v", (int64_t)X->getValue().getLimitedValue()); }
      else if (auto *X = dyn_cast<FloatingLiteral>(E)) { K("flt"); J.attribute("v", X->getValueAsApproximateDouble()); }
      else if (auto *X = dyn_cast<CharacterLiteral>(E)) { K("int"); J.attribute("v", (int64_t)X->getValue()); }
      else if (auto *X = dyn_cast<StringLiteral>(E)) {
        K("str"); std::string s = X->isOrdinary() || X->isUTF8() ? X->getString().str() : "";
        if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
        J.attribute("v", s);
      }
      else if (auto *X = dyn_cast<PredefinedExpr>(E)) { K("str"); J.attribute("v", "__func__"); (void)X; }
      else if (auto *X = dyn_cast<DeclRefExpr>(E)) { K("ref"); ref(X->getDecl()); }
      else if (auto *X = dyn_cast<MemberExpr>(E)) {
        K("mem"); J.attribute("f", X->getMemberDecl()->getNameAsString());
        if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
          std::string rn = F->getParent()->getNameAsString();
          if (rn.empty()) { if (auto *TD = F->getParent()->getTypedefNameForAnonDecl()) rn = TD->getNameAsString(); }
          J.attribute("r", rn);
        }
        if (X->isArrow()) J.attribute("arrow", true);
        child("b", X->getBase());
      }
      else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { K("idx"); child("b", X->getBase()); child("i", X->getIdx()); }
      else if (auto *X = dyn_cast<CallExpr>(E)) {
        K("call");
        {
          SourceLocation B = SM.getExpansionLoc(E->getBeginLoc());
          SourceLocation L = Lexer::getLocForEndOfToken(SM.getExpansionRange(E->getEndLoc()).getEnd(), 0, SM, C.getLangOpts());
          PresumedLoc P = SM.getPresumedLoc(L), Q = SM.getPresumedLoc(B);
          if (P.isValid() && Q.isValid()) J.attributeArray("rng", [&] { J.value((int64_t)Q.getLine()); J.value((int64_t)Q.getColumn()); J.value((int64_t)P.getLine()); J.value((int64_t)P.getColumn()); });
        }
        if (auto *F = X->getDirectCallee()) {
          J.attribute("fn", F->getNameAsString());
          if (!F->isExternallyVisible()) J.attribute("st", true);
        } else child("fe", X->getCallee());
        J.attributeArray("a", [&] { for (auto *a : X->arguments()) expr(a); });
        // positions handed over as pointers to constant objects
        if (auto *FT = X->getCallee()->getType().getCanonicalType().getTypePtr()) {
          const Type *T = FT;
          if (T->isPointerType()) T = T->getPointeeType().getTypePtr();
          if (auto *P = T->getAs<FunctionProtoType>()) {
            std::vector<int64_t> cp;
            for (unsigned i = 0; i < P->getNumParams(); i++) {
              QualType q = P->getParamType(i);
              if (q->isPointerType() && q->getPointeeType().isConstQualified() && !q->getPointeeType()->isPointerType()) cp.push_back(i);
            }
            if (!cp.empty()) J.attributeArray("cp", [&] { for (auto v : cp) J.value(v); });
          }
        }
      }
      else if (auto *X = dyn_cast<UnaryOperator>(E)) {
        K("un"); J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()).str());
        if (X->isPostfix()) J.attribute("post", true);
        child("e", X->getSubExpr());
      }
      else if (auto *X = dyn_cast<BinaryOperator>(E)) {
        K(X->isAssignmentOp() ? "asg" : "bin");
        J.attribute("op", X->getOpcodeStr().str());
        child("l_", X->getLHS()); child("r_", X->getRHS());
      }
      else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
        K("cond"); child("q", X->getCond()); child("y", X->getTrueExpr()); child("z", X->getFalseExpr());
      }
      else if (auto *X = dyn_cast<CastExpr>(E)) {
        K("cast"); J.attribute("ck", X->getCastKindName());
        if (isa<ExplicitCastExpr>(X)) J.attribute("ex", true);
        child("e", X->getSubExpr());
      }
      else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
        K("sizeof");
        J.attribute("at", type(X->isArgumentType() ? X->getArgumentType() : X->getArgumentExpr()->getType()));
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) J.attribute("v", (int64_t)R.Val.getInt().getExtValue());
        if (!X->isArgumentType()) child("e", X->getArgumentExpr());
      }
      else if (auto *X = dyn_cast<InitListExpr>(E)) {
        K("initl");
        const InitListExpr *I = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
        if (auto *RD = I->getType()->getAsRecordDecl()) {
          J.attributeArray("fields", [&] { for (auto *F : RD->fields()) J.value(F->getNameAsString()); });
        }
        J.attributeArray("a", [&] { for (unsigned i = 0; i < I->getNumInits(); ++i) expr(I->getInit(i)); });
      }
      else if (isa<ImplicitValueInitExpr>(E)) { K("zero"); }
      else if (auto *X = dyn_cast<CompoundLiteralExpr>(E)) { K("clit"); child("e", X->getInitializer()); }
      else if (auto *X = dyn_cast<StmtExpr>(E)) { K("stmtexpr"); child("s", X->getSubStmt()); }
      else if (auto *X = dyn_cast<VAArgExpr>(E)) { K("vaarg"); child("e", X->getSubExpr()); }
      else if (auto *X = dyn_cast<OffsetOfExpr>(E)) { K("offsetof"); (void)X; }
      else { K("unknown_expr"); J.attribute("cls", E->getStmtClassName());
        J.attributeArray("a", [&] { for (auto *c : E->children()) if (c) stmt(c); }); }
    });
  }
  void function(const FunctionDecl *F) {
    J.object([&] {
      J.attribute("name", F->getNameAsString());
      J.attribute("file", fileOf(F->getLocation()));
      J.attribute("ret", type(F->getReturnType()));
      if (!F->isExternallyVisible()) J.attribute("static", true);
      if (F->isVariadic()) J.attribute("variadic", true);
      loc(F->getLocation());
      PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(F->getEndLoc()));
      if (P.isValid()) J.attribute("el", (int64_t)P.getLine());
      J.attributeArray("params", [&] {
        for (auto *p : F->parameters())
          J.object([&] { J.attribute("n", p->getNameAsString()); J.attribute("d", id(p));
            J.attribute("t", type(p->getType()));
            J.attribute("ot", type(p->getOriginalType())); });
      });
      if (F->isThisDeclarationADefinition()) child("body", F->getBody());
    });
  }
  void run() {
    std::vector<const FunctionDecl *> defs, decls;
    std::vector<const VarDecl *> vars;
    std::vector<const RecordDecl *> recs;
    std::vector<const EnumDecl *> enums;
    std::vector<const TypedefNameDecl *> tds;
    for (auto *D : C.getTranslationUnitDecl()->decls()) {
      if (auto *L = dyn_cast<LinkageSpecDecl>(D)) { (void)L; continue; }
      bool in = inRoot(D->getLocation());
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        if (!in) continue;
        if (F->isThisDeclarationADefinition()) defs.push_back(F); else decls.push_back(F);
      } else if (auto *V = dyn_cast<VarDecl>(D)) { if (in) vars.push_back(V); }
      else if (auto *R = dyn_cast<RecordDecl>(D)) { if (in && R->isCompleteDefinition()) recs.push_back(R); }
      else if (auto *E = dyn_cast<EnumDecl>(D)) { if (in && E->isCompleteDefinition()) enums.push_back(E); }
      else if (auto *T = dyn_cast<TypedefNameDecl>(D)) { if (in) tds.push_back(T); }
    }
    J.object([&] {
      J.attributeArray("functions", [&] { for (auto *F : defs) function(F); });
      J.attributeArray("decls", [&] { for (auto *F : decls) function(F); });
      J.attributeArray("globals", [&] {
        for (auto *V : vars) J.object([&] {
          J.attribute("name", V->getNameAsString());
          J.attribute("d", id(V));
          J.attribute("file", fileOf(V->getLocation()));
          J.attribute("t", type(V->getType()));
          if (!V->isExternallyVisible()) J.attribute("static", true);
          if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) J.attribute("extern", true);
          loc(V->getLocation());
          if (V->getInit()) child("init", V->getInit());
        });
      });
      J.attributeArray("records", [&] {
        for (auto *R : recs) J.object([&] {
          std::string rn = R->getNameAsString();
          if (rn.empty()) if (auto *TD = R->getTypedefNameForAnonDecl()) rn = TD->getNameAsString();
          J.attribute("name", rn);
          J.attribute("file", fileOf(R->getLocation()));
          loc(R->getLocation());
          if (R->isUnion()) J.attribute("union", true);
          J.attributeArray("fields", [&] { for (auto *F : R->fields()) J.object([&] {
            J.attribute("n", F->getNameAsString()); J.attribute("t", type(F->getType()));
            loc(F->getLocation()); }); });
        });
      });
      J.attributeArray("enums", [&] {
        for (auto *E : enums) J.object([&] {
          std::string rn = E->getNameAsString();
          if (rn.empty()) if (auto *TD = E->getTypedefNameForAnonDecl()) rn = TD->getNameAsString();
          J.attribute("name", rn);
          J.attribute("file", fileOf(E->getLocation()));
          loc(E->getLocation());
          J.attributeArray("consts", [&] { for (auto *c : E->enumerators()) J.array([&] {
            J.value(c->getNameAsString()); J.value((int64_t)c->getInitVal().getExtValue()); }); });
        });
      });
      J.attributeArray("typedefs", [&] {
        for (auto *T : tds) J.object([&] {
          J.attribute("name", T->getNameAsString()); J.attribute("t", type(T->getUnderlyingType()));
          J.attribute("file", fileOf(T->getLocation())); });
      });
      J.attributeArray("types", [&] {
        for (size_t i = 0; i < typeList.size(); ++i) J.array([&] {
          J.value(typeList[i]); J.value(canon[i]); J.value(typeInfo[i].first); J.value(typeInfo[i].second); });
      });
    });
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OStream J(OS);
    Dumper D(C, J);
    D.run();
    OS << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}

// usage: tdyfacts ROOT OUT.json FILE.c -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: tdyfacts ROOT OUT FILE -- flags\n"; return 2; }
  Root = argv[1]; OutPath = argv[2];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool Tool(DB, {argv[3]});
  return Tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
