// The subset of Base Modelica supported by MARCO, as a context-free grammar with
// the syntax tree prescribed for each production (written as a text).
#ifndef VERIF_BMGRAMMAR_H
#define VERIF_BMGRAMMAR_H

#include "earley.h"
#include <cstring>
#include <set>

namespace bm {
using earley::Grammar;
using earley::Token;
using earley::V;

inline bool &mismatchedEnd() {
  static bool b;
  return b;
}

inline V text(std::string s) {
  V v;
  v.s = std::move(s);
  return v;
}

inline std::string join(const std::vector<std::string> &l) {
  std::string r;
  for (auto &s : l) {
    r += " " + s;
  }
  return r;
}

inline void define(Grammar &g) {
  auto wrap = [](const char *name) {
    return [name](std::vector<V> &c) {
      std::string r = std::string("(") + name;
      for (auto &v : c) {
        if (v.present && !v.s.empty()) {
          r += " " + v.s;
        }
      }
      return text(r + ")");
    };
  };
  (void)wrap;
  auto list = [&](const std::string &name, const std::string &element, const std::string &separator) {
    g.rule(name, element, [](std::vector<V> &c) {
      V v;
      v.l.push_back(c[0].s);
      return v;
    });
    g.rule(name, separator.empty() ? name + " " + element : name + " " + separator + " " + element, [](std::vector<V> &c) {
      V v;
      v.l = c[0].l;
      v.l.push_back(c.back().s);
      return v;
    });
  };
  auto binary = [](const char *op) {
    return [op](std::vector<V> &c) { return text(std::string("(") + op + " " + c[0].s + " " + c[2].s + ")"); };
  };

  // Names. A builtin type name is an ordinary identifier elsewhere.
  g.rule("id", "ID");
  g.rule("id", "BUILTIN");

  // Expressions.
  g.rule("expr", "'if' expr 'then' expr 'else' expr",
         [](std::vector<V> &c) { return text("(ifelse " + c[1].s + " " + c[3].s + " " + c[5].s + ")"); });
  g.rule("expr", "simple");
  g.rule("simple", "lor");
  g.rule("simple", "lor ':' lor", [](std::vector<V> &c) { return text("(range " + c[0].s + " " + c[2].s + ")"); });
  g.rule("simple", "lor ':' lor ':' lor",
         [](std::vector<V> &c) { return text("(range " + c[0].s + " " + c[2].s + " " + c[4].s + ")"); });
  list("lor-list", "land", "'or'");
  list("land-list", "lnot", "'and'");
  auto nary = [](const char *op) {
    return [op](std::vector<V> &c) {
      return c[0].l.size() == 1 ? text(c[0].l[0]) : text(std::string("(") + op + join(c[0].l) + ")");
    };
  };
  g.rule("lor", "lor-list", nary("lor"));
  g.rule("land", "land-list", nary("land"));
  g.rule("lnot", "relation");
  g.rule("lnot", "'not' relation", [](std::vector<V> &c) { return text("(lnot " + c[1].s + ")"); });
  g.rule("relation", "sum");
  const char *relations[][2] = {{"<", "less"},     {"<=", "lessEqual"}, {">", "greater"},
                                {">=", "greaterEqual"}, {"==", "equal"},     {"<>", "different"}};
  for (auto &r : relations) {
    g.rule("relation", std::string("sum '") + r[0] + "' sum", binary(r[1]));
  }
  g.rule("sum", "term");
  g.rule("sum", "'+' term", [](std::vector<V> &c) { return c[1]; });
  g.rule("sum", "'-' term", [](std::vector<V> &c) { return text("(negate " + c[1].s + ")"); });
  const char *sums[][2] = {{"+", "add"}, {"-", "subtract"}, {".+", "addEW"}, {".-", "subtractEW"}};
  for (auto &r : sums) {
    g.rule("sum", std::string("sum '") + r[0] + "' term", binary(r[1]));
  }
  g.rule("term", "factor");
  const char *products[][2] = {{"*", "multiply"}, {"/", "divide"}, {".*", "multiplyEW"}, {"./", "divideEW"}};
  for (auto &r : products) {
    g.rule("term", std::string("term '") + r[0] + "' factor", binary(r[1]));
  }
  g.rule("factor", "primary");
  g.rule("factor", "factor '^' primary", binary("powerOf"));
  g.rule("factor", "factor '.^' primary", binary("powerOfEW"));

  g.rule("primary", "INT", [](std::vector<V> &c) { return text("i:" + c[0].s); });
  g.rule("primary", "FLOAT", [](std::vector<V> &c) {
    char b[40];
    snprintf(b, sizeof b, "r:%.12g", strtod(c[0].s.c_str(), nullptr));
    return text(b);
  });
  g.rule("primary", "STR", [](std::vector<V> &c) { return text("s:" + c[0].s); });
  g.rule("primary", "'true'", [](std::vector<V> &) { return text("b:true"); });
  g.rule("primary", "'false'", [](std::vector<V> &) { return text("b:false"); });
  g.rule("primary", "reference");
  g.rule("primary", "indexable");
  g.rule("primary", "indexable '[' subscripts ']'",
         [](std::vector<V> &c) { return text("(subscription " + c[0].s + join(c[2].l) + ")"); });
  g.rule("indexable", "'(' outputs? ')'", [](std::vector<V> &c) {
    return c[1].l.size() == 1 ? text(c[1].l[0]) : text("(tuple" + join(c[1].l) + ")");
  });
  // Comma separated expressions, any of which may be omitted.
  g.rule("outputs", "expr", [](std::vector<V> &c) {
    V v;
    v.l = {c[0].s};
    return v;
  });
  g.rule("outputs", "',' expr?", [](std::vector<V> &c) {
    V v;
    v.l = {"_", c[1].present ? c[1].s : "_"};
    return v;
  });
  g.rule("outputs", "outputs ',' expr?", [](std::vector<V> &c) {
    V v;
    v.l = c[0].l;
    v.l.push_back(c[2].present ? c[2].s : "_");
    return v;
  });
  list("exprs", "expr", "','");
  g.rule("indexable", "'{' exprs '}'", [](std::vector<V> &c) { return text("(array" + join(c[1].l) + ")"); });
  g.rule("indexable", "'{' expr 'for' indices '}'",
         [](std::vector<V> &c) { return text("(arrayfor " + c[1].s + join(c[3].l) + ")"); });
  g.rule("indexable", "'der' call-args", [](std::vector<V> &c) { return text("(call (ref der)" + join(c[1].l) + ")"); });
  g.rule("indexable", "reference call-args", [](std::vector<V> &c) { return text("(call " + c[0].s + join(c[1].l) + ")"); });

  g.rule("reference", "'.'? entries", [](std::vector<V> &c) {
    return text(std::string("(ref ") + (c[0].present ? "global " : "") + join(c[1].l).substr(1) + ")");
  });
  list("entries", "entry", "'.'");
  g.rule("entry", "id");
  g.rule("entry", "id '[' subscripts ']'", [](std::vector<V> &c) { return text("(at " + c[0].s + join(c[2].l) + ")"); });
  list("subscripts", "subscript", "','");
  g.rule("subscript", "':'", [](std::vector<V> &) { return text("(sub)"); });
  g.rule("subscript", "expr", [](std::vector<V> &c) { return text("(sub " + c[0].s + ")"); });

  list("indices", "index", "','");
  g.rule("index", "id", [](std::vector<V> &c) { return text("(index " + c[0].s + ")"); });
  g.rule("index", "id 'in' expr", [](std::vector<V> &c) { return text("(index " + c[0].s + " " + c[2].s + ")"); });

  g.rule("call-args", "'(' args? ')'", [](std::vector<V> &c) {
    V v;
    v.l = c[1].l;
    return v;
  });
  list("positional", "argument", "','");
  list("named", "named-argument", "','");
  g.rule("argument", "expr", [](std::vector<V> &c) { return text("(arg " + c[0].s + ")"); });
  g.rule("named-argument", "id '=' expr", [](std::vector<V> &c) { return text("(named " + c[0].s + " (arg " + c[2].s + "))"); });
  g.rule("args", "positional");
  g.rule("args", "named");
  g.rule("args", "positional ',' named", [](std::vector<V> &c) {
    V v;
    v.l = c[0].l;
    v.l.insert(v.l.end(), c[2].l.begin(), c[2].l.end());
    return v;
  });
  g.rule("args", "expr 'for' indices", [](std::vector<V> &c) {
    V v;
    v.l = {"(reduction " + c[0].s + join(c[2].l) + ")"};
    return v;
  });

  // Equations.
  list("equations", "equation-end", "");
  g.rule("equation-end", "equation ';'");
  g.rule("equation", "simple '=' expr STR?", [](std::vector<V> &c) { return text("(eq " + c[0].s + " " + c[2].s + ")"); });
  auto branches = [](const char *name) {
    return [name](std::vector<V> &c) {
      std::string r = std::string("(") + name + " (" + c[1].s + join(c[3].l) + ")" + join(c[4].l);
      if (!c[6].l.empty()) {
        r += " (else" + join(c[6].l) + ")";
      }
      return text(r + ")");
    };
  };
  // An absent 'else' and an empty one are the same equation.
  auto conditional = [&](const std::string &name, const std::string &keyword, const std::string &elseKeyword,
                         const char *label) {
    std::string other = name + "-other";
    g.rule(other, "'" + elseKeyword + "' expr 'then' equations?",
           [](std::vector<V> &c) { return text("(" + c[1].s + join(c[3].l) + ")"); });
    list(other + "s", other, "");
    g.rule("equation",
           "'" + keyword + "' expr 'then' equations? " + other + "s? " + name + "-else? 'end' '" + keyword + "'",
           [label](std::vector<V> &c) {
             std::string r = std::string("(") + label + " (" + c[1].s + join(c[3].l) + ")" + join(c[4].l);
             if (!c[5].l.empty()) {
               r += " (else" + join(c[5].l) + ")";
             }
             return text(r + ")");
           });
    g.rule(name + "-else", "'else' equations?", [](std::vector<V> &c) {
      V v;
      v.l = c[1].l;
      return v;
    });
  };
  (void)branches;
  conditional("if-equation", "if", "elseif", "if");
  conditional("when-equation", "when", "elsewhen", "when");
  g.rule("equation", "'for' indices 'loop' equations? 'end' 'for'",
         [](std::vector<V> &c) { return text("(for (indices" + join(c[1].l) + ")" + join(c[3].l) + ")"); });

  // Statements.
  list("statements", "statement-end", "");
  g.rule("statement-end", "statement ';'");
  g.rule("statement", "reference ':=' expr", [](std::vector<V> &c) { return text("(assign (tuple " + c[0].s + ") " + c[2].s + ")"); });
  g.rule("statement", "'(' outputs? ')' ':=' reference call-args", [](std::vector<V> &c) {
    return text("(assign (tuple" + join(c[1].l) + ") (call " + c[4].s + join(c[5].l) + "))");
  });
  g.rule("statement", "reference call-args",
         [](std::vector<V> &c) { return text("(callstatement (call " + c[0].s + join(c[1].l) + "))"); });
  g.rule("statement", "'break'", [](std::vector<V> &) { return text("(break)"); });
  g.rule("statement", "'return'", [](std::vector<V> &) { return text("(return)"); });
  auto block = [](const V &v) { return "(block" + join(v.l) + ")"; };
  g.rule("if-statement-other", "'elseif' expr 'then' statements?",
         [block](std::vector<V> &c) { return text("(" + c[1].s + " " + block(c[3]) + ")"); });
  list("if-statement-others", "if-statement-other", "");
  g.rule("if-statement-else", "'else' statements?", [block](std::vector<V> &c) { return text("(else " + block(c[1]) + ")"); });
  g.rule("statement", "'if' expr 'then' statements? if-statement-others? if-statement-else? 'end' 'if'",
         [block](std::vector<V> &c) {
           return text("(if (" + c[1].s + " " + block(c[3]) + ")" + join(c[4].l) + (c[5].present ? " " + c[5].s : "") + ")");
         });
  g.rule("statement", "'for' indices 'loop' statements? 'end' 'for'",
         [](std::vector<V> &c) { return text("(for (indices" + join(c[1].l) + ")" + join(c[3].l) + ")"); });
  g.rule("statement", "'while' expr 'loop' statements? 'end' 'while'",
         [](std::vector<V> &c) { return text("(while " + c[1].s + join(c[3].l) + ")"); });
  g.rule("statement", "'when' expr 'then' statements? 'end' 'when'",
         [](std::vector<V> &c) { return text("(when " + c[1].s + join(c[3].l) + ")"); });

  // Modifications.
  g.rule("modification", "'=' expr", [](std::vector<V> &c) { return text("(mod " + c[1].s + ")"); });
  g.rule("modification", "':=' expr", [](std::vector<V> &c) { return text("(mod " + c[1].s + ")"); });
  g.rule("modification", "class-modification", [](std::vector<V> &c) { return text("(mod " + c[0].s + ")"); });
  g.rule("modification", "class-modification '=' expr", [](std::vector<V> &c) { return text("(mod " + c[0].s + " " + c[2].s + ")"); });
  g.rule("class-modification", "'(' modifications ')'", [](std::vector<V> &c) { return text("(cmod" + join(c[1].l) + ")"); });
  list("modifications", "modification-argument", "','");
  g.rule("modification-argument", "'each'? 'final'? id modification?", [](std::vector<V> &c) {
    return text(std::string("(emod ") + (c[0].present ? "each " : "") + (c[1].present ? "final " : "") + c[2].s +
                (c[3].present ? " " + c[3].s : "") + ")");
  });
  g.rule("annotation", "'annotation' class-modification", [](std::vector<V> &c) { return text("(annotation " + c[1].s + ")"); });

  // Elements.
  list("elements", "element-end", "");
  g.rule("element-end", "element ';'");
  g.rule("variability", "'discrete'");
  g.rule("variability", "'parameter'");
  g.rule("variability", "'constant'");
  g.rule("io", "'input'");
  g.rule("io", "'output'");
  // Only a list of modifications or a value may follow a declared name.
  g.rule("declaration-modification", "'=' expr", [](std::vector<V> &c) { return text("(mod " + c[1].s + ")"); });
  g.rule("declaration-modification", "class-modification", [](std::vector<V> &c) { return text("(mod " + c[0].s + ")"); });
  g.rule("declaration-modification", "class-modification '=' expr",
         [](std::vector<V> &c) { return text("(mod " + c[0].s + " " + c[2].s + ")"); });
  g.rule("element", "'final'? variability? io? type id declaration-modification? STR? annotation?", [](std::vector<V> &c) {
    return text("(member " + c[4].s + " " + c[3].s + (c[1].present ? " " + c[1].s : "") + (c[2].present ? " " + c[2].s : "") +
                (c[5].present ? " " + c[5].s : "") + ")");
  });
  g.rule("type", "type-name dims?", [](std::vector<V> &c) { return text("(type " + c[0].s + join(c[1].l) + ")"); });
  g.rule("type-name", "'.'? BUILTIN", [](std::vector<V> &c) { return text("builtin " + c[1].s); });
  g.rule("type-name", "'.'? ID", [](std::vector<V> &c) { return text((c[0].present ? "global " : "") + c[1].s); });
  g.rule("type-name", "'.'? ID type-path", [](std::vector<V> &c) { return text((c[0].present ? "global " : "") + c[1].s + join(c[2].l)); });
  list("type-path", "type-path-entry", "");
  g.rule("type-path-entry", "'.' id", [](std::vector<V> &c) { return c[1]; });
  g.rule("dims", "'[' dim-list ']'", [](std::vector<V> &c) { return c[1]; });
  list("dim-list", "dim", "','");
  g.rule("dim", "':'", [](std::vector<V> &) { return text("(dim :)"); });
  g.rule("dim", "expr", [](std::vector<V> &c) {
    // An integer alone is stored as a number.
    if (c[0].end == c[0].begin + 1 && !strncmp(c[0].s.c_str(), "i:", 2)) {
      return text("(dim " + c[0].s.substr(2) + ")");
    }
    return text("(dim (expr " + c[0].s + "))");
  });

  // Classes.
  list("classes", "class", "");
  g.rule("root", "classes", [](std::vector<V> &c) { return text("(root" + join(c[0].l) + ")"); });
  auto head = [&](const std::string &rhs, const char *kind) {
    g.rule(std::string(strncmp(kind, "function", 8) ? "class-head" : "function-head"), rhs,
           [kind](std::vector<V> &) { return text(kind); });
  };
  head("'model'", "model");
  head("'class'", "model");
  head("'package'", "package");
  head("'record'", "record");
  head("'operator' 'record'", "record");
  head("'function'", "function pure");
  head("'operator' 'function'", "function pure");
  head("'pure' 'operator'? 'function'", "function pure");
  head("'impure' 'operator'? 'function'", "function impure");
  g.rule("any-head", "class-head");
  g.rule("any-head", "function-head");
  g.rule("class", "function-head id '=' 'der' '(' exprs ')' STR? ';'", [](std::vector<V> &c) {
    std::vector<std::string> vars(c[5].l.begin() + 1, c[5].l.end());
    return text("(partialder " + c[1].s + " " + c[5].l[0] + " (vars" + join(vars) + "))");
  });
  // Sections. Elements and inner classes may not follow equations or
  // algorithms, unless a visibility keyword comes in between.
  struct Kind {
    const char *tag;
  };
  auto tagged = [](std::string tag, std::vector<std::string> l) {
    V v;
    for (auto &s : l) {
      v.l.push_back(tag + s);
    }
    return v;
  };
  g.rule("decl", "element-end", [tagged](std::vector<V> &c) { return tagged("V", {c[0].s}); });
  g.rule("decl", "class", [tagged](std::vector<V> &c) { return tagged("C", {c[0].s}); });
  g.rule("visibility", "'public'", [tagged](std::vector<V> &) { return tagged("P", {""}); });
  g.rule("visibility", "'protected'", [tagged](std::vector<V> &) { return tagged("Q", {""}); });
  g.rule("behaviour", "'initial'? 'equation' equations?", [tagged](std::vector<V> &c) {
    return tagged("E", {std::string("(section") + (c[0].present ? " initial" : "") + join(c[2].l) + ")"});
  });
  g.rule("behaviour", "'initial'? 'algorithm' statements?", [tagged](std::vector<V> &c) {
    return tagged("A", {std::string("(section") + (c[0].present ? " initial" : "") + join(c[2].l) + ")"});
  });
  auto append = [](std::vector<V> &c) {
    V v;
    for (auto &x : c) {
      v.l.insert(v.l.end(), x.l.begin(), x.l.end());
    }
    return v;
  };
  // Ending with a declaration or a visibility / with a behaviour.
  g.rule("open", "decl", append);
  g.rule("open", "visibility", append);
  g.rule("open", "open decl", append);
  g.rule("open", "open visibility", append);
  g.rule("open", "closed visibility", append);
  g.rule("closed", "behaviour", append);
  g.rule("closed", "open behaviour", append);
  g.rule("closed", "closed behaviour", append);
  g.rule("sections", "open");
  g.rule("sections", "closed");
  g.rule("external", "'external' STR? external-call? annotation? ';'", [](std::vector<V> &c) {
    return text("(external " + (c[1].present ? c[1].s : "C") + (c[2].present ? " " + c[2].s : "") +
                (c[3].present ? " " + c[3].s : "") + ")");
  });
  g.rule("external-destination", "reference '='", [](std::vector<V> &c) { return c[0]; });
  g.rule("external-call", "external-destination? id '(' exprs? ')'", [](std::vector<V> &c) {
    return text("(externalcall " + (c[0].present ? c[0].s : "none") + " " + c[1].s + join(c[3].l) + ")");
  });
  g.rule("class-annotation", "annotation ';'", [](std::vector<V> &c) { return c[0]; });
  g.rule("class", "any-head id STR? sections? external? class-annotation? 'end' id ';'", [](std::vector<V> &c) {
    if (c[1].s != c[7].s) {
      mismatchedEnd() = true;
    }
    std::string vars, classes, eqs, algs;
    bool isPublic = true;
    for (auto &s : c[3].l) {
      if (s[0] == 'P') {
        isPublic = true;
      } else if (s[0] == 'Q') {
        isPublic = false;
      } else if (s[0] == 'V') {
        vars += std::string(isPublic ? " public:" : " protected:") + s.substr(1);
      } else if (s[0] == 'C') {
        classes += " " + s.substr(1);
      } else if (s[0] == 'E') {
        eqs += " " + s.substr(1);
      } else {
        algs += " " + s.substr(1);
      }
    }
    return text("(" + c[0].s + " " + c[1].s + " (variables" + vars + ") (equations" + eqs + ") (algorithms" + algs + ") (classes" +
                classes + ")" + (c[4].present ? " " + c[4].s : "") + (c[5].present ? " " + c[5].s : "") + ")");
  });
  // Tokens of the language that no supported production uses are still known.
  g.check();
}

// Spelling -> token. '@' in a spelling stands for a number that identifies the position.
inline Token token(Grammar &g, const std::string &spelling) {
  static const std::set<std::string> builtin{"Real", "Integer", "Boolean", "String"};
  static const std::set<std::string> reserved{
      "algorithm", "and", "annotation", "block", "break", "class", "connect", "connector", "constant", "constrainedby", "der",
      "discrete", "each", "else", "elseif", "elsewhen", "encapsulated", "end", "enumeration", "equation", "expandable",
      "extends", "external", "false", "final", "flow", "for", "function", "if", "import", "impure", "in", "initial", "inner",
      "input", "loop", "model", "not", "operator", "or", "outer", "output", "package", "parameter", "partial", "protected",
      "public", "pure", "record", "redeclare", "replaceable", "return", "stream", "then", "true", "type", "when", "while",
      "within"};
  char c = spelling[0];
  const char *t = nullptr;
  std::string value = spelling;
  if (c == '"') {
    t = "STR";
    value = spelling.substr(1, spelling.size() - 2);
  } else if (isdigit(c)) {
    t = spelling.find_first_of(".eE") == std::string::npos ? "INT" : "FLOAT";
    if (t[0] == 'I' && spelling.size() > 18) {
      t = "UNKNOWN";
    }
  } else if (c == '?' || c == '$' || c == '#') {
    t = "UNKNOWN";
  } else if (builtin.count(spelling)) {
    t = "BUILTIN";
  } else if ((isalpha(c) || c == '_') && !reserved.count(spelling)) {
    t = "ID";
  }
  return {g.sym(t ? t : spelling, true), value};
}
} // namespace bm

#endif
