// Exhaustive exploration of the variable filter over all the texts up to a length
// over several alphabets, against an independent reading of the texts.
#include "mc.h"
#include "marco/VariableFilter/Parser.h"
#include "marco/VariableFilter/VariableFilter.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/FileManager.h"
#include "llvm/Support/VirtualFileSystem.h"
#include <fcntl.h>
#include <memory>
#include <regex.h>
#include <set>
#include <unistd.h>

using namespace marco;
static mc::Ctx ctx;
#ifndef MC_SHIFT
#define MC_SHIFT 0
#endif

static std::string show(const std::string &s) {
  std::string r = "`";
  for (unsigned char c : s) {
    char b[8];
    if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + "`";
}

//===------------------------- Reference -------------------------===//

using R = std::vector<std::pair<long, long>>; // -1: unbounded
struct Ref {
  bool valid = true;
  // Whether the validity of some regular expression is not known.
  bool unknown = false;
  bool any = false;
  std::map<std::string, std::vector<R>> variables;
  std::set<std::string> derivatives;
  std::vector<std::string> regexes;
};

// 1: well formed, 0: certainly malformed, -1: unspecified by the reference.
static int regexKind(const std::string &r) {
  if (r.empty()) {
    return 0;
  }
  size_t i = 0;
  bool malformed = false, odd = false;
  std::function<void(int)> alternatives = [&](int depth) {
    bool atom = false, some = false;
    while (i < r.size()) {
      char c = r[i];
      if (c == ')') {
        if (!depth) {
          odd = true;
          ++i;
          continue;
        }
        if (!some) {
          odd = true;
        }
        return;
      }
      if (c == '|') {
        if (!some) {
          odd = true;
        }
        some = atom = false;
        ++i;
        continue;
      }
      if (c == '*' || c == '+' || c == '?') {
        if (!atom) {
          odd = true;
        }
        atom = false;
        ++i;
        continue;
      }
      some = true;
      if (c == '(') {
        ++i;
        alternatives(depth + 1);
        if (i >= r.size()) {
          malformed = true;
          return;
        }
        ++i;
        atom = true;
        continue;
      }
      if (c == '[') {
        size_t e = r.find(']', i + 1);
        if (e == std::string::npos) {
          malformed = true;
          i = r.size();
          return;
        }
        if (e == i + 1 || r.substr(i + 1, e - i - 1).find('[') != std::string::npos) {
          odd = true;
        }
        i = e + 1;
        atom = true;
        continue;
      }
      if (c == '\\') {
        if (i + 1 >= r.size()) {
          malformed = true;
          i = r.size();
          return;
        }
        if (!strchr("()[].*+?^$|\\", r[i + 1])) {
          odd = true;
        }
        i += 2;
        atom = true;
        continue;
      }
      if (c == '^' || c == '$') {
        // Anchors are only taken at the extremes, as their repetition and
        // position within the expression differ among implementations.
        if ((c == '^' && i != 0) || (c == '$' && i + 1 != r.size())) {
          odd = true;
        }
        atom = false;
        ++i;
        continue;
      }
      if (c == '{' || c == '}') {
        odd = true;
      }
      atom = true;
      ++i;
    }
    if (!some) {
      odd = true;
    }
  };
  alternatives(0);
  if (odd) {
    return -1;
  }
  return malformed ? 0 : 1;
}

static Ref reference(const std::string &s) {
  Ref r;
  size_t i = 0;
  auto letter = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; };
  auto digit = [](char c) { return c >= '0' && c <= '9'; };
  auto skip = [&] {
    while (i < s.size() && strchr(" \t\n\r\v\f", s[i])) {
      ++i;
    }
  };
  auto eat = [&](char c) {
    skip();
    if (i < s.size() && s[i] == c) {
      ++i;
      return true;
    }
    return false;
  };
  auto word = [&] {
    skip();
    size_t b = i;
    if (i < s.size() && letter(s[i])) {
      while (i < s.size() && (letter(s[i]) || digit(s[i]) || s[i] == '.')) {
        ++i;
      }
    }
    return s.substr(b, i - b);
  };
  auto bad = [&] {
    r.valid = false;
    return r;
  };
  while (true) {
    skip();
    if (i == s.size()) {
      return r;
    }
    if (eat(';')) {
      continue;
    }
    if (s[i] == '/') {
      size_t e = s.find('/', i + 1);
      if (e == std::string::npos) {
        return bad();
      }
      std::string regex = s.substr(i + 1, e - i - 1);
      int k = regexKind(regex);
      if (k == 0) {
        return bad();
      }
      if (k < 0) {
        r.unknown = true;
      }
      r.regexes.push_back(regex);
      r.any = true;
      i = e + 1;
      continue;
    }
    std::string name = word();
    if (name.empty()) {
      return bad();
    }
    if (name == "der") {
      if (!eat('(')) {
        return bad();
      }
      std::string v = word();
      if (v.empty() || v == "der" || !eat(')')) {
        return bad();
      }
      r.derivatives.insert(v);
      r.any = true;
      continue;
    }
    R ranges;
    if (eat('[')) {
      do {
        long b[2];
        for (int k = 0; k < 2; ++k) {
          if (k && !eat(':')) {
            return bad();
          }
          if (eat('$')) {
            b[k] = -1;
            continue;
          }
          skip();
          size_t begin = i;
          __int128 v = 0;
          while (i < s.size() && digit(s[i])) {
            v = v * 10 + (s[i++] - '0');
            if (v > ((__int128)1 << 100)) {
              v = (__int128)1 << 100;
            }
          }
          if (begin == i || v > INT64_MAX) {
            return bad();
          }
          b[k] = (long)v;
        }
        ranges.push_back({b[0], b[1]});
      } while (eat(','));
      if (!eat(']')) {
        return bad();
      }
    }
    r.variables[name].push_back(ranges);
    r.any = true;
  }
}

static bool matches(const std::string &regex, const std::string &name) {
  static std::map<std::string, regex_t> compiled;
  auto it = compiled.find(regex);
  if (it == compiled.end()) {
    regex_t re;
    if (regcomp(&re, regex.c_str(), REG_EXTENDED | REG_NOSUB)) {
      fprintf(stderr, "regcomp %s\n", regex.c_str());
      abort();
    }
    it = compiled.emplace(regex, re).first;
  }
  return regexec(&it->second, name.c_str(), 0, nullptr, 0) == 0;
}

//===------------------------- Real code -------------------------===//

class Counter : public clang::DiagnosticConsumer {
public:
  int errors = 0;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level level, const clang::Diagnostic &info) override {
    clang::DiagnosticConsumer::HandleDiagnostic(level, info);
    errors += level >= clang::DiagnosticsEngine::Error;
  }
};

struct Front {
  Counter consumer;
  clang::DiagnosticsEngine diags;
  llvm::IntrusiveRefCntPtr<llvm::vfs::InMemoryFileSystem> fs;
  clang::FileManager files;
  clang::SourceManager sources;

  Front()
      : diags(new clang::DiagnosticIDs(), new clang::DiagnosticOptions(), &consumer, false),
        fs(new llvm::vfs::InMemoryFileSystem()), files(clang::FileSystemOptions(), fs), sources(diags, files) {}
};

// A set of filters, each with its visibility and ranges.
using F = std::set<std::pair<bool, R>>;

static F read(const std::vector<vf::Filter> &filters) {
  F f;
  for (auto &x : filters) {
    R r;
    for (auto &y : x.getRanges()) {
      long lower = y.hasLowerBound() ? y.getLowerBound() : -1, upper = y.hasUpperBound() ? y.getUpperBound() : -1;
      if ((y.hasLowerBound() && lower < 0) || (y.hasUpperBound() && upper < 0)) {
        lower = upper = -1000;
      }
      r.push_back({lower, upper});
    }
    f.insert({x.isVisible(), r});
  }
  return f;
}

static std::string str(const F &f) {
  std::string s;
  for (auto &x : f) {
    s += x.first ? " visible(" : " hidden(";
    for (auto &y : x.second) {
      s += (y.first < 0 ? "$" : std::to_string(y.first)) + ":" + (y.second < 0 ? "$" : std::to_string(y.second)) + " ";
    }
    s += ")";
  }
  return s;
}

static F lookup(const Ref &r, const std::string &name, unsigned rank, bool derivative) {
  F f;
  std::string full = derivative ? "der(" + name + ")" : name;
  bool regex = false;
  for (auto &x : r.regexes) {
    regex = regex || matches(x, full);
  }
  R all(rank, {-1, -1});
  if (derivative) {
    f.insert({regex || r.derivatives.count(name), all});
    return f;
  }
  auto it = r.variables.find(name);
  if (it == r.variables.end()) {
    f.insert({!r.any || regex, all});
    return f;
  }
  for (auto ranges : it->second) {
    ranges.resize(rank, {-1, -1});
    f.insert({true, ranges});
  }
  return f;
}

static std::vector<std::string> names{"x", "y.z", "x1", "y", "xx", "der", "x.x", "yx"};

static void compare(const std::string &text, const Ref &r, const VariableFilter &vf, const char *how) {
  if (vf.isEnabled() != r.any) {
    ctx.fail("wrong activation", show(text) + how);
  }
  if (r.unknown) {
    return;
  }
  for (auto &n : names) {
    for (unsigned rank = 0; rank <= 3; ++rank) {
      for (int d = 0; d < 2; ++d) {
        ++ctx.transitions;
        F want = lookup(r, n, rank, d);
        F got = read(d ? vf.getVariableDerInfo(n, rank) : vf.getVariableInfo(n, rank));
        if (got != want) {
          ctx.fail(d ? "wrong derivative selection" : "wrong selection", show(text) + how + " => " + (d ? "der " : "") + n + " of rank " +
                                                                             std::to_string(rank) + ":" + str(got) + " instead of" + str(want));
          return;
        }
      }
    }
  }
}

static int diagFile = -1;

static void judge(const std::string &text, bool whole = false) {
  if (ctx.replaying()) {
    ctx.describe([&] { return show(text); });
  }
  static Front front;
  Ref r = reference(text);
  ++ctx.traces;
  ctx.outcome(r.unknown ? "unspecified" : r.valid ? "valid" : "malformed");
  if (!whole) {
    auto file = std::make_shared<SourceFile>("Variables filter");
    auto buffer = llvm::MemoryBuffer::getMemBufferCopy(text);
    file->setMemoryBuffer(buffer.get());
    front.consumer.errors = 0;
    VariableFilter vf;
    vf::Parser parser(vf, front.diags, front.sources, file);
    bool ok = parser.run();
    if (!r.valid && !r.unknown && ok) {
      ctx.fail("malformed text accepted", show(text));
    } else if (r.valid && !r.unknown && !ok) {
      ctx.fail("valid text rejected", show(text));
    } else if (!ok && !front.consumer.errors) {
      ctx.fail("rejected without a diagnostic", show(text));
    } else if (ok && front.consumer.errors) {
      ctx.fail("diagnostic for an accepted text", show(text));
    } else if (ok && r.valid) {
      ctx.state(text);
      compare(text, r, vf, "");
    }
    return;
  }
  // The entry point of the compiler, with its own diagnostics.
  if (ftruncate(diagFile, 0)) {
    abort();
  }
  lseek(diagFile, 0, SEEK_SET);
  fflush(stderr);
  int saved = dup(2);
  dup2(diagFile, 2);
  std::optional<VariableFilter> vf = VariableFilter::fromString(text);
  llvm::errs().flush();
  dup2(saved, 2);
  close(saved);
  bool diagnostic = lseek(diagFile, 0, SEEK_END) > 0;
  if (!r.unknown && vf.has_value() != r.valid) {
    ctx.fail(r.valid ? "valid text rejected" : "malformed text accepted", show(text) + " by fromString");
  } else if (vf.has_value() == diagnostic) {
    ctx.fail(diagnostic ? "diagnostic for an accepted text" : "rejected without a diagnostic", show(text) + " by fromString");
  } else if (vf && r.valid) {
    ctx.state(text);
    compare(text, r, *vf, " by fromString");
    // Lookups depend on the filter only, not on where it has been copied.
    VariableFilter copy(*vf), moved(std::move(*vf));
    compare(text, r, copy, " (copied)");
    compare(text, r, moved, " (moved)");
  }
}

// All the sequences of up to n pieces, between a prefix and a suffix.
static void sequences(const char *suite, const std::string &prefix, const std::vector<std::string> &pieces, const std::string &suffix, int n, bool whole = false) {
  n = std::max(n - MC_SHIFT, 2);
  if (!ctx.suite(suite)) {
    return;
  }
  std::function<void(std::string, int, int)> go = [&](std::string body, int len, int left) {
    judge(prefix + body + suffix, whole);
    ctx.progress();
    if (left) {
      for (auto &p : pieces) {
        go(body + p, len + 1, left - 1);
      }
    }
  };
  if (ctx.take()) {
    ctx.describe([&] { return show(prefix + suffix); });
    judge(prefix + suffix, whole);
  }
  for (auto &a : pieces) {
    if (ctx.take()) {
      ctx.describe([&] { return show(prefix + a + suffix); });
      judge(prefix + a + suffix, whole);
    }
    for (auto &b : pieces) {
      if (n >= 2 && ctx.take()) {
        ctx.describe([&] { return "texts beginning with " + show(prefix + a + b); });
        go(a + b, 2, n - 2);
      }
    }
  }
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  char name[] = "/tmp/mc-vf-XXXXXX";
  diagFile = mkstemp(name);
  if (diagFile < 0) {
    abort();
  }
  unlink(name);

  std::vector<std::string> all{"x", "y.z", "der", "[", "]", "(", ")", ":", ",", ";", "$", "1", "20", "/", " ", "%"};
  sequences("texts", "", all, "", th ? 6 : 5);
  sequences("ranges", "x[", {"1", "$", ":", ",", "]", "20", " "}, "", th ? 9 : 7);
  sequences("closed ranges", "x[", {"1", "$", ":", ",", "0"}, "]", th ? 9 : 8);
  sequences("ranges of rank 2", "y.z[1:2,", {"1", "$", ":", ",", "]", ";", "x["}, "", th ? 8 : 6);
  sequences("derivatives", "", {"der", "(", ")", "x", "y.z", ";", " "}, "", th ? 8 : 6);
  std::vector<std::string> elements{"x;", "x[1:2];", "x[$:3,2:$];", "x[2:2]\n", "y.z ", "y[1:2,3:4,5:6];", "der(x);", "der(y.z);", "/x/;", "/^y/", "/der/;", ";", "x1;", "x[2:1];", "/^x$/;"};
  sequences("lists", "", elements, "", th ? 5 : 4);
  sequences("lists without a separator at the end", "", elements, "x[1:7]", th ? 4 : 3);
  std::vector<std::string> re{"x", "y", ".", "*", "+", "?", "^", "$", "[xy]", "(", "|", ")", "der", "\\(", "\\)", "\\.", "["};
  sequences("regular expressions", "/", re, "/", th ? 6 : 5);
  sequences("regular expressions and variables", "x;/", re, "/y.z[1:2]", th ? 4 : 3);
  std::vector<std::string> numbers{"0", "1", "9", "10", "007", "99", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297",
                                   "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "00000000000000000000000000005"};
  std::vector<std::string> bounds;
  for (auto &a : numbers) {
    bounds.push_back(a);
    bounds.push_back(a + ":");
    bounds.push_back("$:" + a);
    bounds.push_back(":");
  }
  sequences("bounds", "x[", bounds, "]", 2);
  sequences("bounds of rank 2", "x[1:2,", bounds, "]", 2);
  std::vector<std::string> bytes;
  for (int c = 1; c < 256; ++c) {
    bytes.push_back(std::string(1, (char)c));
  }
  sequences("bytes", "", bytes, "", 2);
  sequences("bytes after a variable", "x", bytes, "y", 2);
  sequences("bytes in ranges", "x[1:", bytes, "2]", 2);
  sequences("bytes in derivatives", "der(", bytes, "x)", 2);
  sequences("whole: texts", "", all, "", th ? 4 : 3, true);
  sequences("whole: lists", "", elements, "", th ? 4 : 3, true);
  sequences("whole: bounds", "x[", bounds, "]", 2, true);
  sequences("whole: regular expressions", "/", re, "/", th ? 4 : 3, true);
  sequences("whole: bytes", "x", bytes, "", th ? 2 : 1, true);
  return ctx.finish();
}
