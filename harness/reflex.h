// Reference tokenisation of (Base) Modelica: longest match over the whole text,
// written from the lexical grammar of the language specification.
#ifndef VERIF_REFLEX_H
#define VERIF_REFLEX_H

#include "marco/Parser/BaseModelica/Token.h"
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

namespace rl {
using TK = marco::parser::bmodelica::TokenKind;

struct Tok {
  TK kind;
  std::string text;  // spelling
  std::string value; // content of identifiers and strings
  size_t begin = 0, end = 0; // offsets of the first and last characters
  bool tooBig = false;
};

inline const std::map<std::string, TK> &keywords() {
  static const std::map<std::string, TK> m{
      {"algorithm", TK::Algorithm}, {"and", TK::And}, {"annotation", TK::Annotation}, {"block", TK::Block},
      {"break", TK::Break}, {"class", TK::Class}, {"connect", TK::Connect}, {"connector", TK::Connector},
      {"constant", TK::Constant}, {"constrainedby", TK::ConstrainedBy}, {"der", TK::Der}, {"discrete", TK::Discrete},
      {"each", TK::Each}, {"else", TK::Else}, {"elseif", TK::ElseIf}, {"elsewhen", TK::ElseWhen},
      {"encapsulated", TK::Encapsulated}, {"end", TK::End}, {"enumeration", TK::Enumeration}, {"equation", TK::Equation},
      {"expandable", TK::Expandable}, {"extends", TK::Extends}, {"external", TK::External}, {"false", TK::False},
      {"final", TK::Final}, {"flow", TK::Flow}, {"for", TK::For}, {"function", TK::Function}, {"if", TK::If},
      {"import", TK::Import}, {"impure", TK::Impure}, {"in", TK::In}, {"initial", TK::Initial}, {"inner", TK::Inner},
      {"input", TK::Input}, {"loop", TK::Loop}, {"model", TK::Model}, {"not", TK::Not}, {"operator", TK::Operator},
      {"or", TK::Or}, {"outer", TK::Outer}, {"output", TK::Output}, {"package", TK::Package},
      {"parameter", TK::Parameter}, {"partial", TK::Partial}, {"protected", TK::Protected}, {"public", TK::Public},
      {"pure", TK::Pure}, {"record", TK::Record}, {"redeclare", TK::Redeclare}, {"replaceable", TK::Replaceable},
      {"return", TK::Return}, {"stream", TK::Stream}, {"then", TK::Then}, {"true", TK::True}, {"type", TK::Type},
      {"when", TK::When}, {"while", TK::While}, {"within", TK::Within}};
  return m;
}

inline const std::vector<std::pair<std::string, TK>> &symbols() {
  // Two-character symbols first.
  static const std::vector<std::pair<std::string, TK>> v{
      {".+", TK::PlusEW}, {".-", TK::MinusEW}, {".*", TK::ProductEW}, {"./", TK::DivisionEW}, {".^", TK::PowEW},
      {"==", TK::Equal}, {"<>", TK::NotEqual}, {"<=", TK::LessEqual}, {">=", TK::GreaterEqual},
      {":=", TK::AssignmentOperator},
      {"+", TK::Plus}, {"-", TK::Minus}, {"*", TK::Product}, {"/", TK::Division}, {"^", TK::Pow}, {".", TK::Dot},
      {"<", TK::Less}, {">", TK::Greater}, {",", TK::Comma}, {";", TK::Semicolon}, {":", TK::Colon},
      {"(", TK::LPar}, {")", TK::RPar}, {"[", TK::LSquare}, {"]", TK::RSquare}, {"{", TK::LCurly},
      {"}", TK::RCurly}, {"=", TK::EqualityOperator}};
  return v;
}

inline bool dig(int c) { return c >= '0' && c <= '9'; }
inline bool nond(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
inline char unescape(char c) {
  const char *k = "abfnrtv", *v = "\a\b\f\n\r\t\v";
  for (int i = 0; k[i]; ++i) {
    if (k[i] == c) {
      return v[i];
    }
  }
  return c;
}

// The tokens of a text up to the end of file, or up to (and including) the first error.
inline std::vector<Tok> lex(const std::string &s) {
  std::vector<Tok> r;
  size_t n = s.size(), i = 0;
  auto at = [&](size_t k) { return k < n ? (unsigned char)s[k] : 0; };
  auto add = [&](TK k, size_t b, size_t e, std::string value = "") {
    r.push_back(Tok{k, s.substr(b, e - b), std::move(value), b, e - 1});
  };
  for (;;) {
    while (i < n && space(at(i))) {
      ++i;
    }
    if (i >= n) {
      r.push_back(Tok{TK::EndOfFile, "", "", n, n});
      return r;
    }
    size_t b = i;
    int c = at(i);
    if (c == '/' && at(i + 1) == '/') {
      while (i < n && at(i) != '\n') {
        ++i;
      }
      continue;
    }
    if (c == '/' && at(i + 1) == '*') {
      size_t e = s.find("*/", i + 2);
      if (e == std::string::npos) {
        add(TK::Error, b, n);
        return r;
      }
      i = e + 2;
      continue;
    }
    if (nond(c) || (c == '$' && nond(at(i + 1)))) {
      ++i;
      while (nond(at(i)) || dig(at(i))) {
        ++i;
      }
      std::string t = s.substr(b, i - b);
      auto k = keywords().find(t);
      add(k == keywords().end() ? TK::Identifier : k->second, b, i, k == keywords().end() ? t : "");
      continue;
    }
    if (c == '\'' || c == '"') {
      std::string v;
      ++i;
      while (i < n && at(i) != c) {
        if (at(i) == '\\') {
          if (++i >= n) {
            break;
          }
          v += unescape(s[i++]);
        } else {
          v += s[i++];
        }
      }
      if (i >= n) {
        add(TK::Error, b, n);
        return r;
      }
      ++i;
      add(c == '"' ? TK::String : TK::Identifier, b, i, v);
      continue;
    }
    if (dig(c)) {
      bool real = false;
      while (dig(at(i))) {
        ++i;
      }
      if (at(i) == '.') {
        real = true;
        ++i;
        while (dig(at(i))) {
          ++i;
        }
      }
      if (at(i) == 'e' || at(i) == 'E') {
        real = true;
        ++i;
        if (at(i) == '+' || at(i) == '-') {
          ++i;
        }
        if (!dig(at(i))) {
          add(TK::Error, b, i);
          return r;
        }
        while (dig(at(i))) {
          ++i;
        }
      }
      if (!real) {
        unsigned __int128 v = 0;
        for (size_t k = b; k < i; ++k) {
          v = v * 10 + (s[k] - '0');
          if (v > INT64_MAX) {
            add(TK::Error, b, i);
            r.back().tooBig = true;
            return r;
          }
        }
      }
      add(real ? TK::FloatingPoint : TK::Integer, b, i);
      continue;
    }
    bool found = false;
    for (auto &sym : symbols()) {
      if (s.compare(i, sym.first.size(), sym.first) == 0) {
        i += sym.first.size();
        add(sym.second, b, i);
        found = true;
        break;
      }
    }
    if (!found) {
      add(TK::Error, b, b + 1);
      return r;
    }
  }
}
} // namespace rl

#endif // VERIF_REFLEX_H
