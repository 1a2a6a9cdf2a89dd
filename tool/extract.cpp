// Mechanical extractor: walks clang's AST of a driver TU and prints, as JSON,
// every function (member, free, template instantiation, lambda body) whose
// definition lies under the given source roots, with all types resolved.
// Usage: extract <root> <file> -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root;

static json::Value big(const llvm::APSInt &v) {
  if (v.isRepresentableByInt64()) return v.getExtValue();
  return llvm::toString(v, 10);
}

struct Emitter {
  ASTContext &C;
  PrintingPolicy PP;
  json::Object Funcs, Recs, Types;
  std::map<const void *, unsigned> Ids;
  std::map<const Type *, std::string> TypeIds;
  std::set<std::string> DoneRecs;
  std::vector<const FunctionDecl *> Queue;
  std::set<const FunctionDecl *> Seen;

  Emitter(ASTContext &Ctx) : C(Ctx), PP(Ctx.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.SuppressInlineNamespace = true;
    PP.AnonymousTagLocations = false;
    PP.UsePreferredNames = false;
  }

  unsigned id(const void *p) {
    auto it = Ids.find(p);
    if (it != Ids.end()) return it->second;
    unsigned n = Ids.size() + 1;
    Ids[p] = n;
    return n;
  }

  std::string loc(SourceLocation L) {
    auto P = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(L));
    if (P.isInvalid()) return "";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }
  int line(SourceLocation L) {
    auto P = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(L));
    return P.isInvalid() ? 0 : P.getLine();
  }

  bool inRoot(const Decl *D) {
    auto &SM = C.getSourceManager();
    // the driver's own named copies
    if (auto *F = dyn_cast<FunctionDecl>(D))
      if (F->getDeclName().isIdentifier() && F->getName().starts_with("verif_")) return true;
    if (auto *CR = dyn_cast<CXXRecordDecl>(D))
      if (auto *T = CR->getTemplateInstantiationPattern()) D = T;
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(D->getLocation()));
    if (P.isInvalid()) return false;
    return llvm::StringRef(P.getFilename()).starts_with(Root);
  }

  std::string recKey(const RecordDecl *R) {
    if (auto *CR = dyn_cast<CXXRecordDecl>(R))
      if (CR->isLambda()) return "lambda#" + std::to_string(id(CR->getCanonicalDecl()));
    std::string S;
    llvm::raw_string_ostream OS(S);
    R->getNameForDiagnostic(OS, PP, true);
    OS.flush();
    if (R->getName().empty()) S += "<anon" + std::to_string(line(R->getLocation())) + ">";
    return S;
  }

  std::string tstr(QualType T) {
    return T.getCanonicalType().getUnqualifiedType().getAsString(PP);
  }

  std::string fkey(const FunctionDecl *F) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      OS << recKey(M->getParent()) << "::";
      if (isa<CXXConstructorDecl>(F)) OS << "#ctor";
      else if (isa<CXXDestructorDecl>(F)) OS << "#dtor";
      else if (auto *CV = dyn_cast<CXXConversionDecl>(F)) OS << "operator " << tstr(CV->getConversionType());
      else OS << F->getNameAsString();
      if (auto *A = F->getTemplateSpecializationArgs()) {
        OS << "<";
        for (unsigned i = 0; i < A->size(); ++i) { if (i) OS << ", "; A->get(i).print(PP, OS, true); }
        OS << ">";
      }
    } else F->getNameForDiagnostic(OS, PP, true);
    OS << "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      if (i) OS << ", ";
      OS << F->getParamDecl(i)->getType().getCanonicalType().getAsString(PP);
    }
    OS << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) OS << " const";
      if (M->getRefQualifier() == RQ_RValue) OS << " &&";
    }
    OS.flush();
    return S;
  }

  // returns type id (string key into Types)
  std::string ty(QualType QT) {
    QT = QT.getCanonicalType();
    bool isConst = QT.isConstQualified();
    (void)isConst;
    const Type *T = QT.getTypePtr();
    auto it = TypeIds.find(T);
    if (it != TypeIds.end()) return it->second;
    std::string name = "t" + std::to_string(TypeIds.size());
    TypeIds[T] = name;
    json::Object O;
    O["s"] = tstr(QT);
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->isBooleanType()) O["c"] = "bool";
      else if (B->isInteger()) {
        O["c"] = "int"; O["w"] = (int64_t)C.getTypeSize(QT); O["sg"] = B->isSignedInteger();
      } else if (B->isFloatingPoint()) { O["c"] = "float"; O["w"] = (int64_t)C.getTypeSize(QT); }
      else if (B->isVoidType()) O["c"] = "void";
      else O["c"] = "other";
    } else if (auto *R = dyn_cast<ReferenceType>(T)) {
      O["c"] = "ref"; O["e"] = ty(R->getPointeeType());
      O["const"] = R->getPointeeType().isConstQualified();
      O["rv"] = isa<RValueReferenceType>(T);
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      O["c"] = "ptr"; O["e"] = ty(P->getPointeeType());
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      O["c"] = "enum"; O["w"] = (int64_t)C.getTypeSize(QT);
      O["sg"] = E->getDecl()->getIntegerType().isNull() ? false : E->getDecl()->getIntegerType()->isSignedIntegerType();
      json::Array vs;
      for (auto *ec : E->getDecl()->enumerators()) vs.push_back(big(ec->getInitVal()));
      O["vals"] = std::move(vs);
    } else if (auto *RT = dyn_cast<RecordType>(T)) {
      O["c"] = "rec"; O["rec"] = recKey(RT->getDecl());
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RT->getDecl())) {
        json::Array A;
        std::string n; llvm::raw_string_ostream os(n);
        S->printQualifiedName(os, PP); os.flush();
        O["tmpl"] = n;
        std::function<void(const TemplateArgument&)> add = [&](const TemplateArgument &a) {
          if (a.getKind() == TemplateArgument::Type) A.push_back(ty(a.getAsType()));
          else if (a.getKind() == TemplateArgument::Integral) A.push_back(big(a.getAsIntegral()));
          else if (a.getKind() == TemplateArgument::Pack) for (auto &b : a.pack_elements()) add(b);
          else A.push_back(nullptr);
        };
        for (auto &a : S->getTemplateArgs().asArray()) add(a);
        O["targs"] = std::move(A);
      }
      record(RT->getDecl());
    } else if (auto *CA = dyn_cast<ConstantArrayType>(T)) {
      O["c"] = "arr"; O["e"] = ty(CA->getElementType()); O["n"] = (int64_t)CA->getSize().getZExtValue();
    } else if (isa<FunctionProtoType>(T)) O["c"] = "func";
    else { O["c"] = "other"; O["cls"] = T->getTypeClassName(); }
    Types[name] = std::move(O);
    return name;
  }

  void record(const RecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD) return;
    std::string k = recKey(RD);
    if (!DoneRecs.insert(k).second) return;
    auto *CR = dyn_cast<CXXRecordDecl>(RD);
    bool mine = inRoot(RD) || (CR && CR->isLambda());
    if (!mine) return;
    json::Object O;
    json::Array F;
    for (auto *f : RD->fields()) {
      json::Object fo;
      fo["name"] = f->getNameAsString();
      fo["t"] = ty(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      F.push_back(std::move(fo));
    }
    O["fields"] = std::move(F);
    O["union"] = RD->isUnion();
    O["loc"] = loc(RD->getLocation());
    if (CR) {
      json::Array B;
      for (auto &b : CR->bases()) {
        ty(b.getType());
        if (auto *br = b.getType()->getAsCXXRecordDecl()) B.push_back(recKey(br));
      }
      O["bases"] = std::move(B);
      O["poly"] = CR->isPolymorphic();
      O["agg"] = CR->isAggregate();
      json::Array V;
      for (auto *m : CR->methods()) {
        json::Object mo;
        mo["key"] = fkey(m);
        mo["name"] = m->getNameAsString();
        mo["virtual"] = m->isVirtual();
        mo["static"] = m->isStatic();
        mo["const"] = m->isConst();
        if (!isa<CXXConstructorDecl>(m) && !isa<CXXDestructorDecl>(m)) mo["ret"] = ty(m->getReturnType());
        { json::Array ps; for (auto *q : m->parameters()) ps.push_back(q->getNameAsString()); mo["params"] = std::move(ps); }
        mo["implicit"] = m->isImplicit() || m->isDefaulted();
        json::Array ov;
        for (auto *o : m->overridden_methods()) ov.push_back(fkey(o));
        mo["overrides"] = std::move(ov);
        V.push_back(std::move(mo));
      }
      O["methods"] = std::move(V);
    }
    Recs[k] = std::move(O);
  }

  json::Value null() { return nullptr; }

  void enqueue(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def) {
      if (inRoot(Def) && Seen.insert(Def).second) Queue.push_back(Def);
    }
  }

  json::Object declref(const ValueDecl *D) {
    json::Object O;
    O["name"] = D->getNameAsString();
    if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "func"; O["fn"] = fkey(F); enqueue(F); }
    else if (auto *E = dyn_cast<EnumConstantDecl>(D)) { O["dk"] = "enum"; O["v"] = big(E->getInitVal()); }
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      const VarDecl *can = V->getCanonicalDecl();
      O["id"] = (int64_t)id(can);
      O["dk"] = isa<ParmVarDecl>(V) ? "parm" : (V->hasLocalStorage() ? "local" : (V->isStaticLocal() ? "static" : "global"));
      if (!V->hasLocalStorage()) {
        std::string n; llvm::raw_string_ostream os(n); V->printQualifiedName(os, PP); os.flush();
        O["qn"] = n;
        O["t"] = ty(V->getType());
        const VarDecl *DV = nullptr; const Expr *init = V->getAnyInitializer(DV);
        if (init && !init->isValueDependent() && (V->isConstexpr() || V->getType().isConstQualified())) {
          APValue *AV = DV->evaluateValue();
          if (AV && AV->isInt()) O["cv"] = big(AV->getInt());
          else if (AV && AV->isFloat()) { llvm::SmallString<32> s; AV->getFloat().toString(s, 25); O["cvf"] = std::string(s); }
          else if (!V->isStaticLocal()) O["init"] = expr(init);
        }
      }
    } else O["dk"] = D->getDeclKindName();
    return O;
  }

  json::Value exprs(llvm::ArrayRef<const Expr *> A) {
    json::Array R;
    for (auto *e : A) R.push_back(expr(e));
    return std::move(R);
  }
  template <class It> json::Value exprsR(It R) {
    json::Array A;
    for (const Expr *e : R) A.push_back(expr(e));
    return std::move(A);
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // peel
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    json::Object O;
    O["l"] = line(E->getExprLoc());
    O["t"] = ty(E->getType());
    O["lv"] = E->isGLValue();
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
      O["k"] = "Mat"; O["e"] = expr(P->getSubExpr());
    } else if (auto *P = dyn_cast<IntegerLiteral>(E)) {
      O["k"] = "Int"; llvm::SmallString<32> s; P->getValue().toString(s, 10, E->getType()->isSignedIntegerType()); O["v"] = std::string(s);
    } else if (auto *P = dyn_cast<CharacterLiteral>(E)) {
      O["k"] = "Int"; O["v"] = std::to_string(P->getValue());
    } else if (auto *P = dyn_cast<FloatingLiteral>(E)) {
      O["k"] = "Float"; llvm::SmallString<32> s; P->getValue().toString(s, 25); O["v"] = std::string(s);
      // source spelling
      auto &SM = C.getSourceManager();
      auto sp = SM.getSpellingLoc(E->getBeginLoc());
      bool inv = false;
      const char *c = SM.getCharacterData(sp, &inv);
      if (!inv) { unsigned len = Lexer::MeasureTokenLength(sp, SM, C.getLangOpts()); O["src"] = std::string(c, len); }
    } else if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) {
      O["k"] = "Bool"; O["v"] = P->getValue();
    } else if (isa<CXXNullPtrLiteralExpr>(E)) O["k"] = "Null";
    else if (auto *P = dyn_cast<StringLiteral>(E)) { O["k"] = "Str"; O["v"] = P->isOrdinary() ? json::fixUTF8(P->getString()) : std::string("?"); }
    else if (auto *P = dyn_cast<DeclRefExpr>(E)) { O["k"] = "Ref"; O["d"] = declref(P->getDecl()); }
    else if (auto *P = dyn_cast<MemberExpr>(E)) {
      O["k"] = "Mem"; O["b"] = expr(P->getBase()); O["arrow"] = P->isArrow();
      auto *D = P->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) { O["f"] = F->getNameAsString(); O["rec"] = recKey(F->getParent()); }
      else if (auto *M = dyn_cast<CXXMethodDecl>(D)) { O["m"] = fkey(M); enqueue(M); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { O["k"] = "Ref"; O["d"] = declref(V); }
    } else if (isa<CXXThisExpr>(E)) O["k"] = "This";
    else if (auto *P = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "Un"; O["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str(); O["post"] = P->isPostfix(); O["e"] = expr(P->getSubExpr());
    } else if (auto *P = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "CAsg"; O["op"] = BinaryOperator::getOpcodeStr(P->getOpcode()).str(); O["a"] = expr(P->getLHS()); O["b"] = expr(P->getRHS());
      O["ct"] = ty(P->getComputationResultType()); O["clt"] = ty(P->getComputationLHSType());
    } else if (auto *P = dyn_cast<BinaryOperator>(E)) {
      O["k"] = "Bin"; O["op"] = BinaryOperator::getOpcodeStr(P->getOpcode()).str(); O["a"] = expr(P->getLHS()); O["b"] = expr(P->getRHS());
    } else if (auto *P = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "Cond"; O["c"] = expr(P->getCond()); O["a"] = expr(P->getTrueExpr()); O["b"] = expr(P->getFalseExpr());
    } else if (auto *P = dyn_cast<CastExpr>(E)) {
      O["k"] = "Cast"; O["ck"] = P->getCastKindName(); O["e"] = expr(P->getSubExpr());
      O["impl"] = isa<ImplicitCastExpr>(E);
      if (auto *cf = P->getConversionFunction()) { if (auto *m = dyn_cast<FunctionDecl>(cf)) { O["cf"] = fkey(m); enqueue(m); } }
    } else if (auto *P = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "OpCall"; O["op"] = getOperatorSpelling(P->getOperator());
      if (auto *F = P->getDirectCallee()) {
        O["fn"] = fkey(F); enqueue(F);
        O["member"] = isa<CXXMethodDecl>(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["virt"] = M->isVirtual(); O["cls"] = recKey(M->getParent()); }
        O["builtin"] = F->isDefaulted();
        json::Array pt; for (auto *p : F->parameters()) pt.push_back(ty(p->getType())); O["pt"] = std::move(pt);
      }
      O["args"] = exprsR(P->arguments());
    } else if (auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "MCall";
      if (auto *M = P->getMethodDecl()) {
        O["fn"] = fkey(M); O["name"] = M->getNameAsString(); enqueue(M); O["cls"] = recKey(M->getParent());
        bool q = false;
        if (auto *me = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens())) { q = me->hasQualifier(); O["arrow"] = me->isArrow(); }
        O["virt"] = M->isVirtual() && !q;
        json::Array pt; for (auto *p : M->parameters()) pt.push_back(ty(p->getType())); O["pt"] = std::move(pt);
        if (isa<CXXConversionDecl>(M)) O["conv"] = true;
      }
      O["obj"] = expr(P->getImplicitObjectArgument());
      O["args"] = exprsR(P->arguments());
    } else if (auto *P = dyn_cast<CallExpr>(E)) {
      O["k"] = "Call";
      if (auto *F = P->getDirectCallee()) {
        O["fn"] = fkey(F); enqueue(F);
        std::string n; llvm::raw_string_ostream os(n); F->printQualifiedName(os, PP); os.flush(); O["qn"] = n;
        if (auto *A = F->getTemplateSpecializationArgs()) {
          json::Array ta; 
          std::function<void(const TemplateArgument&)> add = [&](const TemplateArgument &a) {
            if (a.getKind() == TemplateArgument::Type) ta.push_back(ty(a.getAsType()));
            else if (a.getKind() == TemplateArgument::Integral) ta.push_back(big(a.getAsIntegral()));
            else if (a.getKind() == TemplateArgument::Pack) for (auto &b : a.pack_elements()) add(b);
            else ta.push_back(nullptr); };
          for (auto &a : A->asArray()) add(a);
          O["targs"] = std::move(ta);
        }
        json::Array pt; for (auto *p : F->parameters()) pt.push_back(ty(p->getType())); O["pt"] = std::move(pt);
      } else O["callee"] = expr(P->getCallee());
      O["args"] = exprsR(P->arguments());
    } else if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "Ctor";
      auto *K = P->getConstructor();
      O["fn"] = fkey(K); O["cls"] = recKey(K->getParent()); enqueue(K);
      O["ty"] = ty(E->getType());
      O["cm"] = K->isCopyOrMoveConstructor();
      O["mv"] = K->isMoveConstructor();
      O["dflt"] = K->isDefaultConstructor();
      O["triv"] = K->isTrivial();
      O["impl"] = K->isDefaulted();
      O["list"] = P->isListInitialization();
      O["sil"] = P->isStdInitListInitialization();
      O["zero"] = P->requiresZeroInitialization();
      json::Array pt; for (auto *p : K->parameters()) pt.push_back(ty(p->getType())); O["pt"] = std::move(pt);
      O["args"] = exprsR(P->arguments());
    } else if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "InhCtor"; O["fn"] = fkey(P->getConstructor()); enqueue(P->getConstructor());
    } else if (auto *P = dyn_cast<InitListExpr>(E)) {
      O["k"] = "List";
      json::Array A; for (auto *i : P->inits()) A.push_back(expr(i)); O["args"] = std::move(A);
      if (P->hasArrayFiller()) O["filler"] = expr(P->getArrayFiller());
    } else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
      O["k"] = "StdIL"; O["e"] = expr(P->getSubExpr());
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) O["k"] = "Zero";
    else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    else if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "Idx"; O["a"] = expr(P->getBase()); O["i"] = expr(P->getIdx()); }
    else if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { O["k"] = "Int"; O["v"] = llvm::toString(R.Val.getInt(), 10); }
      else O["k"] = "Unsup";
      (void)P;
    } else if (auto *P = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "Lambda";
      auto *CR = P->getLambdaClass();
      O["rec"] = recKey(CR);
      json::Array caps;
      auto ii = P->capture_init_begin();
      for (auto &c : P->captures()) {
        json::Object co;
        if (c.capturesThis()) co["ck"] = "this";
        else if (c.capturesVariable()) {
          co["ck"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          co["id"] = (int64_t)id(cast<VarDecl>(c.getCapturedVar())->getCanonicalDecl());
          co["name"] = c.getCapturedVar()->getNameAsString();
          if (cast<VarDecl>(c.getCapturedVar())->isInitCapture()) co["init"] = expr(*ii);
        }
        ++ii;
        caps.push_back(std::move(co));
      }
      O["caps"] = std::move(caps);
      auto *M = P->getCallOperator();
      if (!P->isGenericLambda()) O["f"] = func(M);
      else { json::Array sp; for (auto *s : M->getDescribedFunctionTemplate()->specializations()) if (s->hasBody()) sp.push_back(func(s)); O["gen"] = std::move(sp); }
    } else if (auto *P = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "New"; O["at"] = ty(P->getAllocatedType()); O["init"] = P->getInitializer() ? expr(P->getInitializer()) : json::Value(nullptr);
      O["ctor"] = P->getConstructExpr() ? expr(P->getConstructExpr()) : json::Value(nullptr);
      O["isarr"] = P->isArray();
      if (P->isArray() && P->getArraySize())
        O["n"] = expr(*P->getArraySize());
    } else if (auto *P = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "Del"; O["e"] = expr(P->getArgument()); }
    else if (isa<CXXThrowExpr>(E)) O["k"] = "Throw";
    else if (auto *P = dyn_cast<ArrayInitLoopExpr>(E)) { O["k"] = "ArrCopy"; O["e"] = expr(P->getCommonExpr()); }
    else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { return expr(P->getSourceExpr()); }
    else if (auto *P = dyn_cast<TypeTraitExpr>(E)) { O["k"] = "Bool"; O["v"] = P->getValue(); }
    else if (auto *P = dyn_cast<CXXNoexceptExpr>(E)) { O["k"] = "Bool"; O["v"] = P->getValue(); }
    else if (isa<PredefinedExpr>(E)) { O["k"] = "Str"; O["v"] = "?"; }
    else { O["k"] = "Unsup"; O["cls"] = E->getStmtClassName(); }
    return std::move(O);
  }

  json::Object vardecl(const VarDecl *V) {
    json::Object O;
    O["id"] = (int64_t)id(V->getCanonicalDecl());
    O["name"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["static"] = V->isStaticLocal();
    O["const"] = V->getType().isConstQualified();
    O["l"] = line(V->getLocation());
    if (V->isConstexpr() || (V->isStaticLocal() && V->getType().isConstQualified() && V->getInit() && !V->getInit()->isValueDependent())) {
      APValue *AV = V->getInit() ? V->evaluateValue() : nullptr;
      if (AV && AV->isInt()) O["cv"] = big(AV->getInt());
      else if (AV && AV->isFloat()) { llvm::SmallString<32> s; AV->getFloat().toString(s, 25); O["cvf"] = std::string(s); }
    }
    O["init"] = V->getInit() ? expr(V->getInit()) : json::Value(nullptr);
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object O; O["k"] = "Expr"; O["e"] = expr(E); O["l"] = line(E->getExprLoc()); return std::move(O);
    }
    json::Object O;
    O["l"] = line(S->getBeginLoc());
    O["le"] = line(S->getEndLoc());
    if (auto *P = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "Block"; json::Array A; for (auto *s : P->body()) A.push_back(stmt(s)); O["b"] = std::move(A);
    } else if (auto *P = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl"; json::Array A;
      for (auto *d : P->decls()) if (auto *v = dyn_cast<VarDecl>(d)) A.push_back(vardecl(v));
      O["d"] = std::move(A);
    } else if (auto *P = dyn_cast<IfStmt>(S)) {
      O["k"] = "If"; O["init"] = stmt(P->getInit()); O["cv"] = P->getConditionVariable() ? json::Value(vardecl(P->getConditionVariable())) : json::Value(nullptr);
      O["c"] = expr(P->getCond()); O["a"] = stmt(P->getThen()); O["b"] = stmt(P->getElse());
    } else if (auto *P = dyn_cast<WhileStmt>(S)) {
      O["k"] = "While"; O["c"] = expr(P->getCond()); O["b"] = stmt(P->getBody());
      O["cv"] = P->getConditionVariable() ? json::Value(vardecl(P->getConditionVariable())) : json::Value(nullptr);
    } else if (auto *P = dyn_cast<DoStmt>(S)) { O["k"] = "Do"; O["c"] = expr(P->getCond()); O["b"] = stmt(P->getBody()); }
    else if (auto *P = dyn_cast<ForStmt>(S)) {
      O["k"] = "For"; O["init"] = stmt(P->getInit()); O["c"] = expr(P->getCond()); O["inc"] = expr(P->getInc()); O["b"] = stmt(P->getBody());
    } else if (auto *P = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "Range"; O["v"] = vardecl(P->getLoopVariable()); O["r"] = expr(P->getRangeInit()); O["b"] = stmt(P->getBody());
    } else if (auto *P = dyn_cast<ReturnStmt>(S)) { O["k"] = "Ret"; O["e"] = expr(P->getRetValue()); }
    else if (isa<BreakStmt>(S)) O["k"] = "Break";
    else if (isa<ContinueStmt>(S)) O["k"] = "Cont";
    else if (isa<NullStmt>(S)) O["k"] = "Nop";
    else if (auto *P = dyn_cast<SwitchStmt>(S)) { O["k"] = "Switch"; O["c"] = expr(P->getCond()); O["b"] = stmt(P->getBody()); O["init"] = stmt(P->getInit()); }
    else if (auto *P = dyn_cast<CaseStmt>(S)) { O["k"] = "Case"; O["v"] = expr(P->getLHS()); 
      Expr::EvalResult R; if (P->getLHS()->EvaluateAsInt(R, C)) O["cv"] = big(R.Val.getInt());
      O["b"] = stmt(P->getSubStmt()); }
    else if (auto *P = dyn_cast<DefaultStmt>(S)) { O["k"] = "Default"; O["b"] = stmt(P->getSubStmt()); }
    else if (auto *P = dyn_cast<CXXTryStmt>(S)) { O["k"] = "Unsup"; O["cls"] = "Try"; (void)P; }
    else { O["k"] = "Unsup"; O["cls"] = S->getStmtClassName(); }
    return std::move(O);
  }

  json::Object func(const FunctionDecl *F) {
    json::Object O;
    O["key"] = fkey(F);
    O["name"] = F->getNameAsString();
    O["loc"] = loc(F->getLocation());
    O["ret"] = ty(F->getReturnType());
    json::Array P;
    for (auto *p : F->parameters()) {
      json::Object po;
      po["id"] = (int64_t)id(cast<VarDecl>(p)->getCanonicalDecl()); po["name"] = p->getNameAsString(); po["t"] = ty(p->getType());
      if (isa<CXXConstructorDecl>(F) && p->hasDefaultArg() && !p->hasUnparsedDefaultArg()) {
        const Expr *de = p->hasUninstantiatedDefaultArg() ? p->getUninstantiatedDefaultArg() : p->getDefaultArg();
        if (de && !de->isTypeDependent() && !de->isValueDependent()) po["dflt"] = expr(de);
      }
      P.push_back(std::move(po));
    }
    O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recKey(M->getParent()); O["static"] = M->isStatic(); O["const"] = M->isConst(); O["priv"] = M->getAccess() == AS_private || M->getAccess() == AS_protected; O["virt"] = M->isVirtual();
      record(M->getParent());
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      json::Array I;
      for (auto *i : K->inits()) {
        json::Object io;
        if (i->isMemberInitializer()) io["field"] = i->getMember()->getNameAsString();
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        else if (i->isBaseInitializer()) { if (auto *b = i->getBaseClass()->getAsCXXRecordDecl()) io["base"] = recKey(b); }
        io["e"] = expr(i->getInit());
        io["written"] = i->isWritten();
        I.push_back(std::move(io));
      }
      O["inits"] = std::move(I);
    }
    O["defaulted"] = F->isDefaulted();
    const Stmt *B = F->getBody();
    O["body"] = B ? stmt(B) : json::Value(nullptr);
    return O;
  }
};

class Collector : public RecursiveASTVisitor<Collector> {
public:
  Emitter &Em;
  Collector(Emitter &E) : Em(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!F->isThisDeclarationADefinition()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    Em.enqueue(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isDependentContext() && R->isThisDeclarationADefinition() && !R->isLambda() && Em.inRoot(R)) {
      Em.record(R);
    }
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Emitter Em(C);
    Collector Co(Em);
    Co.TraverseDecl(C.getTranslationUnitDecl());
    while (!Em.Queue.empty()) {
      auto Q = std::move(Em.Queue); Em.Queue.clear();
      for (auto *F : Q) {
        if (F->isDependentContext()) continue;
        auto o = Em.func(F);
        std::string key = o.getString("key")->str(); Em.Funcs[std::move(key)] = std::move(o);
      }
    }
    json::Object R;
    R["funcs"] = std::move(Em.Funcs); R["recs"] = std::move(Em.Recs); R["types"] = std::move(Em.Types);
    llvm::outs() << json::Value(std::move(R)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  Root = argv[1];
  std::string file = argv[2];
  std::vector<std::string> args;
  for (int i = 3; i < argc; ++i) args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(".", args);
  clang::tooling::ClangTool T(DB, {file});
  return T.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
