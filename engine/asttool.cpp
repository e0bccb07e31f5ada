// asttool SOURCE -- FLAGS : type-checks SOURCE and prints, for every class (instantiated or not) whose
// qualified name matches -class=REGEX, one JSON line per public member function, conversion,
// constructor and data member with canonical types.  Nothing is executed.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <fstream>
#include <iostream>
#include <set>
using namespace clang;
static std::string Pat;
static llvm::json::Value ty(ASTContext& C, QualType q) {
  q = q.getCanonicalType();
  llvm::json::Object o;
  o["s"] = q.getAsString(PrintingPolicy(C.getLangOpts()));
  std::string ref = "";
  if (q->isReferenceType()) {
    ref = q->isLValueReferenceType() ? "&" : "&&";
    q = q->getPointeeType();
  } else if (q->isPointerType()) {
    ref = "*";
    q = q->getPointeeType();
  }
  o["ref"] = ref;
  o["const"] = q.isConstQualified();
  o["dep"] = q->isDependentType();
  o["auto"] = q->getContainedAutoType() != nullptr;
  if (auto* r = q->getAsCXXRecordDecl()) {
    QualType u = q.getUnqualifiedType();
    o["cls"] = u.getAsString(PrintingPolicy(C.getLangOpts()));
  } else {
    o["base"] = q.getUnqualifiedType().getAsString(PrintingPolicy(C.getLangOpts()));
  }
  return o;
}
struct V : RecursiveASTVisitor<V> {
  ASTContext& C;
  std::set<const void*> seen;
  explicit V(ASTContext& c) : C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  std::string loc(SourceLocation l) {
    auto p = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(l));
    if (p.isInvalid()) return "?";
    return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
  }
  void method(llvm::json::Object base, const CXXMethodDecl* m, bool tmpl) {
    if (m->getAccess() != AS_public) return;
    llvm::json::Object o = std::move(base);
    o["loc"] = loc(m->getLocation());
    o["name"] = m->getNameAsString();
    o["tmpl"] = tmpl;
    o["deleted"] = m->isDeleted();
    o["static"] = m->isStatic();
    o["const"] = m->isConst();
    o["rvalue"] = m->getRefQualifier() == RQ_RValue;
    llvm::json::Array ps;
    for (auto* p : m->parameters()) ps.push_back(ty(C, p->getType()));
    o["params"] = std::move(ps);
    if (auto* k = dyn_cast<CXXConstructorDecl>(m)) {
      o["kind"] = "ctor";
      o["implicit"] = k->isImplicit();
    } else if (isa<CXXDestructorDecl>(m)) {
      return;
    } else {
      o["kind"] = "method";
      o["ret"] = ty(C, m->getReturnType());
      o["constrained"] = m->getTrailingRequiresClause() != nullptr;
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    os << llvm::json::Value(std::move(o));
    std::cout << s << "\n";
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isCompleteDefinition() || r->isDependentContext() || !seen.insert(r).second) return true;
    std::string q = C.getRecordType(r).getCanonicalType().getAsString(PrintingPolicy(C.getLangOpts()));
    std::string qn = r->getQualifiedNameAsString();
    if (!llvm::Regex(Pat).match(qn)) return true;
    llvm::json::Object base;
    base["class"] = q;
    for (auto* d : r->decls()) {
      if (auto* f = dyn_cast<FunctionTemplateDecl>(d)) {
        if (auto* m = dyn_cast<CXXMethodDecl>(f->getTemplatedDecl())) method(llvm::json::Object(base), m, true);
      } else if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
        method(llvm::json::Object(base), m, false);
      } else if (auto* f = dyn_cast<FieldDecl>(d)) {
        if (f->getAccess() != AS_public) continue;
        llvm::json::Object o(base);
        o["loc"] = loc(f->getLocation());
        o["kind"] = "field";
        o["name"] = f->getNameAsString();
        o["mutable"] = f->isMutable();
        o["type"] = ty(C, f->getType());
        std::string s;
        llvm::raw_string_ostream os(s);
        os << llvm::json::Value(std::move(o));
        std::cout << s << "\n";
      }
    }
    for (auto& b : r->bases()) {
      if (b.getAccessSpecifier() != AS_public) continue;
      llvm::json::Object o(base);
      o["kind"] = "base";
      o["loc"] = loc(r->getLocation());
      o["type"] = ty(C, b.getType());
      std::string s;
      llvm::raw_string_ostream os(s);
      os << llvm::json::Value(std::move(o));
      std::cout << s << "\n";
    }
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Cons>();
  }
};
int main(int argc, char** argv) {
  std::string src = argv[1];
  Pat = argv[2];
  std::vector<std::string> flags;
  for (int i = 3; i < argc; i++) flags.push_back(argv[i]);
  std::ifstream f(src);
  std::string code((std::istreambuf_iterator<char>(f)), {});
  return tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), code, flags, src, "/usr/lib/llvm-18/bin/clang") ? 0 : 1;
}
