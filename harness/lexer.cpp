// Exhaustive exploration of the lexer's character automaton over all the texts
// up to a length over several alphabets, compared with a reference tokenisation.
// --prop 15: kinds and contents; 16: values of the numbers; 17: locations.
#include "mc.h"
#include "reflex.h"
#include "marco/Lexer/Lexer.h"
#include "marco/Parser/BaseModelica/StateMachine.h"
#include <cmath>

using namespace marco;
using namespace marco::parser::bmodelica;
using rl::TK;
using rl::Tok;
using Lexer = marco::lexer::Lexer<StateMachine>;
static mc::Ctx ctx;
static int prop = 15;

static std::string show(const std::string &s) {
  std::string r = "`";
  for (unsigned char c : s) {
    char b[8];
    if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + "`";
}

// Distance in units in the last place.
static bool closeTo(double a, double b) {
  if (a == b) {
    return true;
  }
  if (!std::isfinite(a) || !std::isfinite(b) || (a < 0) != (b < 0)) {
    // Rounding may tip the largest values over.
    return (std::isinf(a) && b >= 1.79769313486231e308) || (std::isinf(b) && a >= 1.79769313486231e308);
  }
  int64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  return std::llabs(x - y) <= 8;
}

static void check(const std::string &s) {
  if (ctx.replaying()) {
    ctx.describe([&] { return show(s); });
  }
  ++ctx.traces;
  std::vector<Tok> ref = rl::lex(s);
  auto file = std::make_shared<SourceFile>("-");
  auto buffer = llvm::MemoryBuffer::getMemBufferCopy(s);
  file->setMemoryBuffer(buffer.get());
  Lexer lexer(file);
  std::string kinds;
  size_t line = 1, col = 0, off = 0;
  auto position = [&](size_t o) {
    // Called with non-decreasing offsets.
    for (; off <= o; ++off) {
      ++col;
      if (off < s.size() && s[off] == '\n') {
        ++line;
        col = 0;
      }
    }
    return std::make_pair((int64_t)line, (int64_t)col);
  };
  auto bad = [&](int p, const char *sig, size_t k, const std::string &what) {
    if (p == prop) {
      ctx.fail(sig, show(s) + " => token " + std::to_string(k + 1) + ": " + what);
    }
  };
  size_t k = 0;
  bool follow = true;
  for (; k < ref.size(); ++k) {
    ++ctx.transitions;
    Token t = lexer.scan();
    const Tok &e = ref[k];
    if (t.getKind() != e.kind) {
      bool num = e.kind == TK::Integer || e.kind == TK::FloatingPoint || e.tooBig;
      bad(num ? 16 : 15, e.tooBig ? "literal out of range accepted" : "wrong token", k,
          toString(t.getKind()) + " instead of " + toString(e.kind) + " " + show(e.text));
      if (num && prop == 15 && !e.tooBig) {
        bad(15, "wrong token", k, toString(t.getKind()) + " instead of " + toString(e.kind) + " " + show(e.text));
      }
      follow = false;
      break;
    }
    kinds += (char)(int)e.kind;
    if (e.kind == TK::EndOfFile) {
      break;
    }
    if (e.kind == TK::Identifier || e.kind == TK::String) {
      if (t.getString() != e.value) {
        bad(15, "wrong content", k, show(t.getString()) + " instead of " + show(e.value));
      }
    } else if (e.kind == TK::Integer) {
      if (t.getInt() != (int64_t)strtoull(e.text.c_str(), nullptr, 10)) {
        bad(16, "wrong integer", k, std::to_string(t.getInt()) + " instead of " + e.text);
      }
    } else if (e.kind == TK::FloatingPoint) {
      double want = strtod(e.text.c_str(), nullptr);
      if (!closeTo(t.getFloat(), want)) {
        char b[96];
        snprintf(b, sizeof b, "%.17g instead of %.17g", t.getFloat(), want);
        bad(16, "wrong floating point", k, b);
      }
    }
    if (prop == 17) {
      SourceRange r = t.getLocation();
      auto wb = position(e.begin);
      if (r.begin.line != wb.first || r.begin.column != wb.second) {
        bad(17, "wrong begin", k,
            show(e.text) + " begins at " + std::to_string(wb.first) + ":" + std::to_string(wb.second) + ", reported " +
                std::to_string(r.begin.line) + ":" + std::to_string(r.begin.column));
      }
      if (r.begin.file != file || r.end.file != file) {
        bad(17, "wrong file", k, show(e.text));
      }
      if (e.kind != TK::Error) {
        auto we = position(e.end);
        if (r.end.line != we.first || r.end.column != we.second) {
          bad(17, "wrong end", k,
              show(e.text) + " ends at " + std::to_string(we.first) + ":" + std::to_string(we.second) + ", reported " +
                  std::to_string(r.end.line) + ":" + std::to_string(r.end.column));
        }
      }
    }
    if (e.kind == TK::Error) {
      follow = false;
      break;
    }
  }
  ctx.state(kinds);
  ctx.outcome(follow ? "tokenised to the end" : "malformed text rejected");
  // The rest (recovery after an error, or more requests at the end) is only required to end.
  for (size_t i = 0;; ++i) {
    ++ctx.transitions;
    bool eof = lexer.scan().isa<TokenKind::EndOfFile>();
    if (follow) {
      if (!eof) {
        bad(15, "token after the end of the file", k, "");
      }
      if (i == 1) {
        break;
      }
    } else {
      if (eof) {
        break;
      }
      if (i > 2 * s.size() + 4) {
        bad(15, "no end after an error", k, "");
        break;
      }
    }
  }
}

// All the texts over a menu of pieces, up to a number of pieces.
static void all(const std::string &name, const std::vector<std::string> &menu, int length, int head,
                const std::string &before = "", const std::string &after = "") {
  if (!ctx.suite(name)) {
    return;
  }
  std::function<void(std::string, int)> rec = [&](std::string s, int left) {
    check(before + s + after);
    ctx.progress();
    if (left > 0) {
      for (auto &m : menu) {
        rec(s + m, left - 1);
      }
    }
  };
  std::function<void(std::string, int)> top = [&](std::string s, int done) {
    if (done == head) {
      if (ctx.take()) {
        ctx.describe([&] { return "the texts beginning by " + show(before + s); });
        rec(s, length - head);
      }
      return;
    }
    if (ctx.take()) {
      ctx.describe([&] { return show(before + s + after); });
      check(before + s + after);
    }
    for (auto &m : menu) {
      top(s + m, done + 1);
    }
  };
  top("", 0);
}

static std::vector<std::string> chars(const std::string &s) {
  std::vector<std::string> r;
  for (char c : s) {
    r.push_back(std::string(1, c));
  }
  return r;
}

// All the sequences of tokens t1 s1 t2 s2 ... with separators.
static void sequences(const std::string &name, const std::vector<std::string> &toks,
                      const std::vector<std::string> &seps, int length, const std::string &lead = "") {
  if (!ctx.suite(name)) {
    return;
  }
  std::function<void(std::string, int)> rec = [&](std::string s, int left) {
    check(s);
    ctx.progress();
    if (left > 0) {
      for (auto &p : seps) {
        for (auto &t : toks) {
          rec(s + p + t, left - 1);
        }
      }
    }
  };
  for (auto &t : toks) {
    for (auto &p : seps) {
      for (auto &t2 : toks) {
        if (ctx.take()) {
          ctx.describe([&] { return "sequences from " + show(lead + t + p + t2); });
          rec(lead + t + p + t2, length - 2);
        }
      }
    }
  }
}

static std::vector<std::string> spellings() {
  std::vector<std::string> r{"1", "23", "0", "1.", "1.5", "0.25", "1e3", "2E-4", "1.e2", "3.5e+1", "x", "x1", "_a", "$v", "'q'",
                             "'a b'", "'\\''", "\"s\"", "\"\"", "\"a\\\"b\"", "\"a\nb\""};
  for (auto &s : rl::symbols()) {
    r.push_back(s.first);
  }
  for (auto &k : {"end", "in", "if", "der", "elseif", "inner", "not"}) {
    r.push_back(k);
  }
  return r;
}

static const std::vector<std::string> separators{"", " ", "\n", "\t", "\r\n", "/*c*/", "/**/", "/* * / */", "//c\n", " \n ", "/*a\nb*/ "};

static void contents(bool th) {
  all("operators", chars("+-*/^=<>:,.;()[]{}a"), th ? 5 : 4, 2);
  all("numbers", chars("01.eE+-x ;*"), th ? 7 : 6, 2);
  all("numbers and dots", chars("1.e+*/"), th ? 9 : 7, 2);
  all("strings", {"\"", "\\", "a", "n", "'", " ", "\n"}, th ? 8 : 6, 2);
  all("quoted identifiers", {"'", "\\", "a", "1", "\"", "t"}, th ? 8 : 6, 2);
  all("comments", {"/", "*", "\n", "a", " ", "\""}, th ? 9 : 7, 2);
  all("comments of slashes and stars", chars("/*\n1"), th ? 11 : 9, 2);
  all("identifiers", chars("aZ_$19 .'"), th ? 7 : 5, 2);
  std::string any;
  for (int c = 1; c < 256; ++c) {
    any += (char)c;
  }
  all("any character", chars(any), th ? 3 : 2, 1);
  all("any character between tokens", chars(any), th ? 2 : 1, 1, "a ", " 1");
  std::string print;
  for (int c = 32; c < 127; ++c) {
    print += (char)c;
  }
  all("printable characters", chars(print + "\n\t"), 3, 2);
  sequences("token sequences", spellings(), th ? separators : std::vector<std::string>{"", " ", "/**/", "//c\n", "\n"}, th ? 3 : 2);
  sequences("three tokens", spellings(), {""}, 3);
  // Keywords: their neighbours in the language of the identifiers, and pairs.
  if (ctx.suite("keywords")) {
    for (auto &kv : rl::keywords()) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return "keyword " + kv.first; });
      const std::string &k = kv.first;
      std::vector<std::string> v{k};
      for (size_t i = 0; i <= k.size(); ++i) {
        v.push_back(k.substr(0, i));
        v.push_back(k.substr(i));
        if (i < k.size()) {
          v.push_back(k.substr(0, i) + k.substr(i + 1));
          std::string u = k;
          u[i] = toupper(u[i]);
          v.push_back(u);
        }
        for (char c : std::string("abeilnrstz_$09 '.\"")) {
          v.push_back(k.substr(0, i) + c + k.substr(i));
          if (i < k.size()) {
            v.push_back(k.substr(0, i) + c + k.substr(i + 1));
          }
        }
      }
      for (auto &o : rl::keywords()) {
        for (auto &p : separators) {
          v.push_back(k + p + o.first);
        }
        v.push_back(k + "_" + o.first);
        v.push_back("'" + k + "'" + o.first);
      }
      for (auto &x : v) {
        check(x);
        check(" " + x + ";");
      }
    }
  }
}

static void values(bool th) {
  all("short literals", chars("0159.eE+-"), th ? 8 : 6, 2);
  all("literals of a few characters", chars("19.e-"), th ? 10 : 8, 2);
  all("fractions", chars("0159"), th ? 10 : 8, 2, "0.");
  all("fractions with exponent", chars("07."), th ? 10 : 8, 2, "1", "e-3");
  // Long literals: a run of one digit around the limits of the machine integers, at
  // the integral, fractional and exponent positions.
  if (ctx.suite("runs of digits")) {
    int top = th ? 60 : 30;
    for (int a = 1; a <= top; ++a) {
      for (int b = 0; b <= top; ++b) {
        if (!ctx.take()) {
          continue;
        }
        ctx.describe([&] { return "runs of " + std::to_string(a) + " and " + std::to_string(b) + " digits"; });
        for (char d : std::string("0189")) {
          for (char lead : std::string("0129")) {
            for (char f : std::string("0159")) {
              std::string n = lead + std::string(a - 1, d);
              if (b == 0) {
                check(n);
                check(n + ".");
                check("-" + n + ";");
                check(n + "e0");
              } else {
                for (std::string tail : {"", "1", "9"}) {
                  for (std::string e : {"", "e0", "e-5", "E+12", "e-300", "e20"}) {
                    check(n + "." + std::string(b, f) + tail + e);
                  }
                }
              }
            }
          }
        }
      }
    }
  }
  if (ctx.suite("exponents")) {
    for (int e = -345; e <= 325; ++e) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return "exponent " + std::to_string(e); });
      for (std::string m : {"0", "1", "1.", "1.7976931348623157", "4.9", "9.99", "123456789", "0.001", "0.0", "00012.500", "1000000", "0.000000000000000000000000000000000001"}) {
        for (std::string x : {"e", "E"}) {
          check(m + x + (e >= 0 ? "" : "-") + std::to_string(std::abs(e)));
          if (e >= 0) {
            check(m + x + "+" + std::to_string(e));
            check(m + x + "00" + std::to_string(e));
          }
        }
      }
    }
  }
  if (ctx.suite("huge exponents and scales")) {
    for (int n = 1; n <= 420; n += th ? 1 : 7) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return "scale " + std::to_string(n); });
      std::string z(n, '0'), k(n, '9');
      for (std::string e : {"", "e0", "e5", "e-5"}) {
        check("1" + z + "." + e);
        check("0." + z + "1" + e);
        check(k + ".0" + e);
        check("0." + k + e);
        check("1." + z + "7" + e);
      }
      std::string N = std::to_string(n);
      check("0." + z + "1e" + N);
      check("0." + z + "1e+" + std::to_string(n + 5));
      check("1" + z + "e-" + N);
      check("1" + z + ".0e-" + std::to_string(n + 3));
      check("1e" + k);
      check("1e-" + k);
      check("0e" + k);
      check("0.0e" + N);
      check("1e" + z + "1");
    }
  }
  if (ctx.suite("limits of the integers")) {
    for (int d = -40; d <= 40; ++d) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return "integers near the limits, offset " + std::to_string(d); });
      for (int sh : {7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64, 65}) {
        __int128 v = ((__int128)1 << sh) + d;
        std::string s;
        for (__int128 w = v < 0 ? 0 : v; w > 0; w /= 10) {
          s = char('0' + (int)(w % 10)) + s;
        }
        for (std::string p : {"", "0", "-", "00000000000000000000000"}) {
          check(p + s);
          check(p + s + ".0");
          check(p + s + "e0");
          check("x[" + p + s + "]");
        }
      }
      for (int p = 1; p <= 19; ++p) {
        int64_t v = 1;
        for (int i = 1; i < p; ++i) {
          v *= 10;
        }
        check(std::to_string(v + d > 0 ? v + d : 0));
      }
    }
  }
  // A number does not depend on those before it.
  std::vector<std::string> lits{"0", "7", "12", "1.", "0.5", "0.05", "2.25", "1e2", "1e-2", "3.5E+1", "0.0", "4.0e-1", "9.99", "0.001e1"};
  sequences("sequences of numbers", lits, {" ", "+", ";", ","}, th ? 4 : 3);
}

static void locations(bool th) {
  sequences("token sequences", spellings(), th ? separators : std::vector<std::string>{"", " ", "\n", "/*a\nb*/ "}, th ? 3 : 2);
  for (auto &lead : separators) {
    sequences("two tokens after " + show(lead), spellings(), separators, 2, lead);
  }
  all("layout", {" ", "\n", "\t", "\r", "a", "1", "/*", "*/", "//", "\""}, th ? 7 : 5, 2);
  all("numbers", chars("1.e+- \n"), th ? 8 : 6, 2);
  all("strings with line breaks", {"\"", "\\", "\n", "a", "\r"}, th ? 9 : 7, 2);
  all("quoted identifiers", {"'", "\\", "a", "\n"}, th ? 9 : 7, 2);
  all("comments", {"/", "*", "\n", "a", " "}, th ? 9 : 7, 2);
  all("operators", chars("+.*/<>=: \na"), th ? 6 : 4, 2);
  if (ctx.suite("long layouts")) {
    for (int lines = 0; lines <= 300; lines += 3) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return std::to_string(lines) + " lines"; });
      for (int cols = 0; cols <= 300; cols += 5) {
        std::string s = std::string(lines, '\n') + std::string(cols, ' ');
        check(s + "abc");
        check(s + "1.5e3;");
        check("x" + s + "\"a\nb\"" + s + "<=");
      }
    }
  }
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  for (int i = 1; i + 1 < argc; ++i) {
    if (std::string(argv[i]) == "--prop") {
      prop = atoi(argv[i + 1]);
    }
  }
  bool th = ctx.thorough;
  if (prop == 15) {
    contents(th);
  } else if (prop == 16) {
    values(th);
  } else {
    locations(th);
  }
  return ctx.finish();
}
