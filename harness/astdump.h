// Reads a syntax tree through its accessors into the textual form used by the
// reference grammar, checking on the way that children refer to their parents.
#ifndef VERIF_ASTDUMP_H
#define VERIF_ASTDUMP_H

#include "marco/AST/BaseModelica/AST.h"
#include <set>
#include <string>

namespace ad {
using namespace marco::ast;
using namespace marco::ast::bmodelica;

struct Dump {
  bool locations = false;
  bool badParent = false;
  std::string where;
  std::set<const ASTNode *> nodes;
  bool duplicate = false;

  template <typename T>
  std::string child(const ASTNode *parent, const T *node) {
    const ASTNode *n = static_cast<const ASTNode *>(node);
    if (!n) {
      return "<null>";
    }
    if (n->getParent() != parent) {
      badParent = true;
      if (where.empty()) {
        where = "kind " + std::to_string(n->getKind<int32_t>()) + " below kind " + std::to_string(parent->getKind<int32_t>());
      }
    }
    return read(n);
  }

  std::string loc(const ASTNode *n) {
    if (!locations) {
      return "";
    }
    marco::SourceRange r = n->getLocation();
    return "@" + std::to_string(r.begin.line) + "." + std::to_string(r.begin.column) + "-" + std::to_string(r.end.line) + "." +
           std::to_string(r.end.column) + (r.begin.file != r.end.file ? "!" : "");
  }

  std::string children(const ASTNode *parent, llvm::ArrayRef<std::unique_ptr<ASTNode>> l) {
    std::string r;
    for (auto &n : l) {
      r += " " + child(parent, n.get());
    }
    return r;
  }

  static const char *opName(OperationKind k) {
    switch (k) {
    case OperationKind::unknown: return "unknown";
    case OperationKind::negate: return "negate";
    case OperationKind::add: return "add";
    case OperationKind::addEW: return "addEW";
    case OperationKind::subtract: return "subtract";
    case OperationKind::subtractEW: return "subtractEW";
    case OperationKind::multiply: return "multiply";
    case OperationKind::multiplyEW: return "multiplyEW";
    case OperationKind::divide: return "divide";
    case OperationKind::divideEW: return "divideEW";
    case OperationKind::ifelse: return "ifelse";
    case OperationKind::greater: return "greater";
    case OperationKind::greaterEqual: return "greaterEqual";
    case OperationKind::equal: return "equal";
    case OperationKind::different: return "different";
    case OperationKind::lessEqual: return "lessEqual";
    case OperationKind::less: return "less";
    case OperationKind::land: return "land";
    case OperationKind::lor: return "lor";
    case OperationKind::lnot: return "lnot";
    case OperationKind::subscription: return "subscription";
    case OperationKind::powerOf: return "powerOf";
    case OperationKind::powerOfEW: return "powerOfEW";
    case OperationKind::range: return "range";
    }
    return "?";
  }

  std::string classBody(const Class *c) {
    std::string r = c->getName().str() + " (variables";
    for (auto &v : c->getVariables()) {
      r += v->cast<Member>()->isPublic() ? " public:" : " protected:";
      r += child(c, v.get());
    }
    r += ") (equations" + children(c, c->getEquationSections()) + ") (algorithms" + children(c, c->getAlgorithms()) +
         ") (classes" + children(c, c->getInnerClasses()) + ")";
    if (c->isExternal()) {
      r += " (external " + c->getExternalLanguage().str();
      if (c->hasExternalFunctionCall()) {
        r += " " + child(c, c->getExternalFunctionCall());
      }
      if (c->hasExternalAnnotation()) {
        r += " " + child(c, c->getExternalAnnotation());
      }
      r += ")";
    } else if (c->hasExternalFunctionCall() || c->hasExternalAnnotation()) {
      r += " unexpected-external";
    }
    if (c->hasAnnotation()) {
      r += " " + child(c, c->getAnnotation());
    }
    return r + ")";
  }

  std::string read(const ASTNode *n) {
    std::string s = readNode(n);
    return s + loc(n);
  }

  std::string readNode(const ASTNode *n) {
    if (!nodes.insert(n).second) {
      duplicate = true;
      return "<shared>";
    }
    switch (n->getKind<ASTNodeKind>()) {
    case ASTNodeKind::Root:
      return "(root" + children(n, n->cast<Root>()->getInnerClasses()) + ")";
    case ASTNodeKind::Class_Model:
      return "(model " + classBody(n->cast<Class>());
    case ASTNodeKind::Class_Package:
      return "(package " + classBody(n->cast<Class>());
    case ASTNodeKind::Class_Record:
      return "(record " + classBody(n->cast<Class>());
    case ASTNodeKind::Class_Function_StandardFunction:
      return std::string("(function ") + (n->cast<StandardFunction>()->isPure() ? "pure " : "impure ") + classBody(n->cast<Class>());
    case ASTNodeKind::Class_Function_PartialDerFunction: {
      auto *f = n->cast<PartialDerFunction>();
      return "(partialder " + f->getName().str() + " " + child(n, f->getDerivedFunction()) + " (vars" +
             children(n, f->getIndependentVariables()) + "))";
    }
    case ASTNodeKind::ExternalFunctionCall: {
      auto *c = n->cast<ExternalFunctionCall>();
      std::string r = "(externalcall " + (c->hasDestination() ? child(n, c->getDestination()) : std::string("none")) + " " +
                      c->getCallee().str();
      for (size_t i = 0; i < c->getNumOfArguments(); ++i) {
        r += " " + child(n, c->getArgument(i));
      }
      return r + ")";
    }
    case ASTNodeKind::Annotation:
      return "(annotation " + child(n, n->cast<Annotation>()->getProperties()) + ")";
    case ASTNodeKind::Modification: {
      auto *m = n->cast<Modification>();
      std::string r = "(mod";
      if (m->hasClassModification()) {
        r += " " + child(n, m->getClassModification());
      }
      if (m->hasExpression()) {
        r += " " + child(n, m->getExpression());
      }
      return r + ")";
    }
    case ASTNodeKind::ClassModification:
      return "(cmod" + children(n, n->cast<ClassModification>()->getArguments()) + ")";
    case ASTNodeKind::Argument_ElementModification: {
      auto *m = n->cast<ElementModification>();
      return std::string("(emod ") + (m->hasEachProperty() ? "each " : "") + (m->hasFinalProperty() ? "final " : "") +
             m->getName().str() + (m->hasModification() ? " " + child(n, m->getModification()) : std::string()) + ")";
    }
    case ASTNodeKind::Member: {
      auto *m = n->cast<Member>();
      std::string r = "(member " + m->getName().str() + " " + child(n, m->getType());
      std::string prefix = child(n, m->getTypePrefix());
      if (locations) {
        r += prefix;
      }
      r += m->isDiscrete() ? " discrete" : "";
      r += m->isParameter() ? " parameter" : "";
      r += m->isConstant() ? " constant" : "";
      r += m->isInput() ? " input" : "";
      r += m->isOutput() ? " output" : "";
      if (m->hasModification()) {
        r += " " + child(n, m->getModification());
      }
      return r + ")";
    }
    case ASTNodeKind::TypePrefix: {
      auto *p = n->cast<TypePrefix>();
      return std::string("(prefix") + (p->isDiscrete() ? " d" : "") + (p->isParameter() ? " p" : "") + (p->isConstant() ? " c" : "") +
             (p->isInput() ? " i" : "") + (p->isOutput() ? " o" : "") + ")";
    }
    case ASTNodeKind::VariableType_BuiltIn: {
      auto *t = n->cast<BuiltInType>();
      const char *name = "?";
      switch (t->getBuiltInTypeKind()) {
      case BuiltInType::Kind::Boolean: name = "Boolean"; break;
      case BuiltInType::Kind::Integer: name = "Integer"; break;
      case BuiltInType::Kind::Real: name = "Real"; break;
      case BuiltInType::Kind::String: name = "String"; break;
      }
      return std::string("(type builtin ") + name + dims(t) + ")";
    }
    case ASTNodeKind::VariableType_UserDefined: {
      auto *t = n->cast<UserDefinedType>();
      std::string r = std::string("(type") + (t->isGlobalLookup() ? " global" : "");
      for (size_t i = 0; i < t->getPathLength(); ++i) {
        r += " " + t->getElement(i).str();
      }
      return r + dims(t) + ")";
    }
    case ASTNodeKind::ArrayDimension: {
      auto *d = n->cast<ArrayDimension>();
      if (d->hasExpression()) {
        return "(dim (expr " + child(n, d->getExpression()) + "))";
      }
      return d->isDynamic() ? "(dim :)" : "(dim " + std::to_string(d->getNumericSize()) + ")";
    }
    case ASTNodeKind::Algorithm: {
      auto *a = n->cast<Algorithm>();
      std::string r = std::string("(section") + (a->isInitial() ? " initial" : "");
      for (size_t i = 0; i < a->size(); ++i) {
        r += " " + child(n, (*a)[i]);
      }
      return r + ")" + (a->empty() != (a->size() == 0) ? "!" : "");
    }
    case ASTNodeKind::EquationSection: {
      auto *a = n->cast<EquationSection>();
      std::string r = std::string("(section") + (a->isInitial() ? " initial" : "");
      for (size_t i = 0; i < a->getNumOfEquations(); ++i) {
        r += " " + child(n, a->getEquation(i));
      }
      return r + ")" + (a->empty() != (a->getNumOfEquations() == 0) ? "!" : "");
    }
    case ASTNodeKind::Equation_Equality: {
      auto *e = n->cast<EqualityEquation>();
      return "(eq " + child(n, e->getLhsExpression()) + " " + child(n, e->getRhsExpression()) + ")";
    }
    case ASTNodeKind::Equation_If: {
      auto *e = n->cast<IfEquation>();
      std::string r = "(if (" + child(n, e->getIfCondition());
      for (size_t i = 0; i < e->getNumOfIfEquations(); ++i) {
        r += " " + child(n, e->getIfEquation(i));
      }
      r += ")";
      for (size_t c = 0; c < e->getNumOfElseIfConditions(); ++c) {
        r += " (" + child(n, e->getElseIfCondition(c));
        for (size_t i = 0; i < e->getNumOfElseIfEquations(c); ++i) {
          r += " " + child(n, e->getElseIfEquation(c, i));
        }
        r += ")";
      }
      if (e->hasElseEquations()) {
        r += " (else";
        for (size_t i = 0; i < e->getNumOfElseEquations(); ++i) {
          r += " " + child(n, e->getElseEquation(i));
        }
        r += ")";
      }
      return r + ")";
    }
    case ASTNodeKind::Equation_When: {
      auto *e = n->cast<WhenEquation>();
      std::string r = "(when (" + child(n, e->getWhenCondition());
      for (size_t i = 0; i < e->getNumOfWhenEquations(); ++i) {
        r += " " + child(n, e->getWhenEquation(i));
      }
      r += ")";
      for (size_t c = 0; c < e->getNumOfElseWhenConditions(); ++c) {
        r += " (" + child(n, e->getElseWhenCondition(c));
        for (size_t i = 0; i < e->getNumOfElseWhenEquations(c); ++i) {
          r += " " + child(n, e->getElseWhenEquation(c, i));
        }
        r += ")";
      }
      if (e->hasElseEquations()) {
        r += " (else";
        for (size_t i = 0; i < e->getNumOfElseEquations(); ++i) {
          r += " " + child(n, e->getElseEquation(i));
        }
        r += ")";
      }
      return r + ")";
    }
    case ASTNodeKind::Equation_For: {
      auto *e = n->cast<ForEquation>();
      std::string r = "(for (indices";
      for (size_t i = 0; i < e->getNumOfForIndices(); ++i) {
        r += " " + child(n, e->getForIndex(i));
      }
      r += ")";
      for (size_t i = 0; i < e->getNumOfEquations(); ++i) {
        r += " " + child(n, e->getEquation(i));
      }
      return r + ")";
    }
    case ASTNodeKind::ForIndex: {
      auto *i = n->cast<ForIndex>();
      return "(index " + i->getName().str() + (i->hasExpression() ? " " + child(n, i->getExpression()) : std::string()) + ")";
    }
    case ASTNodeKind::StatementsBlock: {
      auto *b = n->cast<StatementsBlock>();
      std::string r = "(block";
      for (size_t i = 0; i < b->size(); ++i) {
        r += " " + child(n, (*b)[i]);
      }
      return r + ")";
    }
    case ASTNodeKind::Statement_Assignment: {
      auto *s = n->cast<AssignmentStatement>();
      return "(assign " + child(n, s->getDestinations()) + " " + child(n, s->getExpression()) + ")";
    }
    case ASTNodeKind::Statement_Call:
      return "(callstatement " + child(n, n->cast<CallStatement>()->getCall()) + ")";
    case ASTNodeKind::Statement_Break:
      return "(break)";
    case ASTNodeKind::Statement_Return:
      return "(return)";
    case ASTNodeKind::Statement_If: {
      auto *s = n->cast<IfStatement>();
      std::string r = "(if (" + child(n, s->getIfCondition()) + " " + child(n, s->getIfBlock()) + ")";
      for (size_t i = 0; i < s->getNumOfElseIfBlocks(); ++i) {
        r += " (" + child(n, s->getElseIfCondition(i)) + " " + child(n, s->getElseIfBlock(i)) + ")";
      }
      if (s->hasElseBlock()) {
        r += " (else " + child(n, s->getElseBlock()) + ")";
      }
      return r + ")";
    }
    case ASTNodeKind::Statement_For: {
      auto *s = n->cast<ForStatement>();
      std::string r = "(for (indices";
      for (size_t i = 0; i < s->getNumOfForIndices(); ++i) {
        r += " " + child(n, s->getForIndex(i));
      }
      r += ")";
      for (size_t i = 0; i < s->getNumOfStatements(); ++i) {
        r += " " + child(n, s->getStatement(i));
      }
      return r + ")";
    }
    case ASTNodeKind::Statement_While: {
      auto *s = n->cast<WhileStatement>();
      std::string r = "(while " + child(n, s->getCondition());
      for (size_t i = 0; i < s->size(); ++i) {
        r += " " + child(n, (*s)[i]);
      }
      return r + ")";
    }
    case ASTNodeKind::Statement_When: {
      auto *s = n->cast<WhenStatement>();
      std::string r = "(when " + child(n, s->getCondition());
      for (size_t i = 0; i < s->size(); ++i) {
        r += " " + child(n, (*s)[i]);
      }
      return r + ")";
    }
    case ASTNodeKind::Expression_Constant:
      return n->cast<Constant>()->visit(Show());
    case ASTNodeKind::Expression_ComponentReference: {
      auto *c = n->cast<ComponentReference>();
      if (c->isDummy()) {
        return "_";
      }
      std::string r = std::string("(ref") + (c->isGlobalLookup() ? " global" : "");
      for (size_t i = 0; i < c->getPathLength(); ++i) {
        r += " " + child(n, c->getElement(i));
      }
      return r + ")";
    }
    case ASTNodeKind::ComponentReferenceEntry: {
      auto *e = n->cast<ComponentReferenceEntry>();
      if (e->getNumOfSubscripts() == 0) {
        return e->getName().str();
      }
      std::string r = "(at " + e->getName().str();
      for (size_t i = 0; i < e->getNumOfSubscripts(); ++i) {
        r += " " + child(n, e->getSubscript(i));
      }
      return r + ")";
    }
    case ASTNodeKind::Expression_Subscript: {
      auto *s = n->cast<Subscript>();
      return s->isUnbounded() ? "(sub)" : "(sub " + child(n, s->getExpression()) + ")";
    }
    case ASTNodeKind::Expression_Operation: {
      auto *o = n->cast<Operation>();
      std::string r = std::string("(") + opName(o->getOperationKind());
      // The arguments of a subscription are not all expressions.
      return r + children(n, o->getArguments()) + ")";
    }
    case ASTNodeKind::Expression_Tuple: {
      auto *t = n->cast<Tuple>();
      std::string r = "(tuple";
      for (size_t i = 0; i < t->size(); ++i) {
        r += " " + child(n, t->getExpression(i));
      }
      return r + ")";
    }
    case ASTNodeKind::Expression_ArrayGenerator_ArrayConstant: {
      auto *t = n->cast<ArrayConstant>();
      std::string r = "(array";
      for (size_t i = 0; i < t->size(); ++i) {
        r += " " + child(n, (*t)[i]);
      }
      return r + ")";
    }
    case ASTNodeKind::Expression_ArrayGenerator_ArrayForGenerator: {
      auto *t = n->cast<ArrayForGenerator>();
      std::string r = "(arrayfor " + child(n, t->getValue());
      for (size_t i = 0; i < t->getNumIndices(); ++i) {
        r += " " + child(n, t->getIndex(i));
      }
      return r + ")";
    }
    case ASTNodeKind::Expression_Call: {
      auto *c = n->cast<Call>();
      std::string r = "(call " + child(n, c->getCallee());
      for (size_t i = 0; i < c->getNumOfArguments(); ++i) {
        r += " " + child(n, c->getArgument(i));
      }
      return r + ")";
    }
    case ASTNodeKind::FunctionArgument_Expression:
      return "(arg " + child(n, n->cast<ExpressionFunctionArgument>()->getExpression()) + ")";
    case ASTNodeKind::FunctionArgument_Named: {
      auto *a = n->cast<NamedFunctionArgument>();
      return "(named " + a->getName().str() + " " + child(n, a->getValue()) + ")";
    }
    case ASTNodeKind::FunctionArgument_Reduction: {
      auto *a = n->cast<ReductionFunctionArgument>();
      return "(reduction " + child(n, a->getExpression()) + children(n, a->getForIndices()) + ")";
    }
    default:
      return "<unexpected kind " + std::to_string(n->getKind<int32_t>()) + ">";
    }
  }

  template <typename T>
  std::string dims(const T *t) {
    std::string r;
    for (size_t i = 0; i < t->getRank(); ++i) {
      r += " " + child(t, (*t)[i]);
    }
    return r;
  }

  struct Show {
    std::string operator()(bool b) const { return b ? "b:true" : "b:false"; }
    std::string operator()(int64_t i) const { return "i:" + std::to_string(i); }
    std::string operator()(double d) const {
      char b[40];
      snprintf(b, sizeof b, "r:%.12g", d);
      return b;
    }
    std::string operator()(const std::string &s) const { return "s:" + s; }
  };
};
} // namespace ad

#endif
