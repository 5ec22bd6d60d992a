// Exhaustive exploration of the parser over all the token sequences up to a
// length (over many alphabets and contexts) that can be extended to a sentence,
// and one token beyond, against an Earley recogniser of the grammar.
// --prop 18: trees of expressions; 19: acceptance and rejection; 20: trees of
// classes; 24: clones and parents.
#include "mc.h"
#include "astdump.h"
#include "bmgrammar.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/FileManager.h"
#include "llvm/Support/VirtualFileSystem.h"
#include <cmath>
#include <memory>

using namespace marco;
using namespace marco::parser::bmodelica;

static mc::Ctx ctx;
static int prop = 18;
// How much longer the texts are than the lengths written at each suite.
static int extra = 0;
#ifndef MC_SHIFT
#define MC_SHIFT 0
#endif
static earley::Grammar grammar;

class Counter : public clang::DiagnosticConsumer {
public:
  int errors = 0;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level level, const clang::Diagnostic &info) override {
    clang::DiagnosticConsumer::HandleDiagnostic(level, info);
    if (level >= clang::DiagnosticsEngine::Error) {
      ++errors;
    }
  }
};

struct Front {
  Counter consumer;
  clang::DiagnosticsEngine diags;
  llvm::IntrusiveRefCntPtr<llvm::vfs::InMemoryFileSystem> fs;
  clang::FileManager files;
  clang::SourceManager sources;

  Front()
      : diags(new clang::DiagnosticIDs(), new clang::DiagnosticOptions(), &consumer, false),
        fs(new llvm::vfs::InMemoryFileSystem()), files(clang::FileSystemOptions(), fs), sources(diags, files) {}
};

struct Outcome {
  std::unique_ptr<ast::ASTNode> root;
  int errors = 0;
};

static Outcome parse(const std::string &text, bool withFile) {
  static Front shared;
  std::unique_ptr<Front> own;
  Front *f = &shared;
  if (withFile) {
    own = std::make_unique<Front>();
    own->fs->addFile("in.mo", 0, llvm::MemoryBuffer::getMemBufferCopy(text));
    f = own.get();
  }
  auto file = std::make_shared<SourceFile>("in.mo");
  auto buffer = llvm::MemoryBuffer::getMemBufferCopy(text);
  file->setMemoryBuffer(buffer.get());
  f->consumer.errors = 0;
  Outcome o;
  {
    Parser parser(f->diags, f->sources, file);
    auto r = parser.parseRoot();
    if (r) {
      o.root = std::move(*r);
    }
  }
  o.errors = f->consumer.errors;
  if (withFile) {
    f->diags.Reset();
  }
  return o;
}

static std::string textOf(const std::vector<std::string> &spelled) {
  std::string r;
  for (auto &s : spelled) {
    if (!r.empty()) {
      r += ' ';
    }
    r += s;
  }
  return r;
}

// The first difference between two trees, with some context.
static std::string diff(const std::string &got, const std::string &want) {
  size_t k = 0;
  while (k < got.size() && k < want.size() && got[k] == want[k]) {
    ++k;
  }
  size_t b = k > 40 ? k - 40 : 0;
  return "tree ..." + got.substr(b, 120) + " instead of ..." + want.substr(b, 120);
}

static void cloneCheck(const std::string &text, std::unique_ptr<ast::ASTNode> root) {
  ad::Dump before;
  before.locations = true;
  std::string original = before.read(root.get());
  ctx.state(original);
  if (before.badParent) {
    ctx.fail("wrong parent in a parsed tree", text + " => " + before.where);
  }
  if (before.duplicate) {
    ctx.fail("node reachable twice in a parsed tree", text);
  }
  std::unique_ptr<ast::ASTNode> copy = root->clone();
  ad::Dump after;
  after.locations = true;
  std::string cloned = after.read(copy.get());
  if (cloned != original) {
    ctx.fail("clone differs", text + " => " + diff(cloned, original));
  }
  if (after.badParent) {
    ctx.fail("wrong parent in a clone", text + " => " + after.where);
  }
  for (auto *n : after.nodes) {
    if (before.nodes.count(n)) {
      ctx.fail("clone shares a node", text + " => kind " + std::to_string(n->getKind<int32_t>()));
      break;
    }
  }
  // Each node cloned on its own.
  for (auto *n : before.nodes) {
    ++ctx.transitions;
    ad::Dump a, b;
    a.locations = b.locations = true;
    std::string x = a.read(n);
    std::unique_ptr<ast::ASTNode> c = n->clone();
    std::string y = b.read(c.get());
    if (x != y || b.badParent) {
      ctx.fail("clone of an inner node differs", text + " => " + (b.badParent ? b.where : diff(y, x)));
    }
    for (auto *m : b.nodes) {
      if (a.nodes.count(m)) {
        ctx.fail("clone shares a node", text);
        break;
      }
    }
  }
  // A clone outlives the original.
  root.reset();
  ad::Dump alone;
  alone.locations = true;
  if (alone.read(copy.get()) != cloned || alone.badParent) {
    ctx.fail("clone depends on the original", text);
  }
}

// `sentence` tells whether the text belongs to the language; if so the tree is in the chart.
static void judge(const std::string &text, earley::Chart *sentence, bool withFile = false) {
  if (prop != 19 && !sentence) {
    return;
  }
  if (ctx.replaying()) {
    ctx.describe([&] { return text; });
  }
  std::string want;
  if (sentence) {
    bm::mismatchedEnd() = false;
    want = sentence->size() ? sentence->value().s : "(root)";
    if (bm::mismatchedEnd()) {
      sentence = nullptr;
      if (prop != 19) {
        return;
      }
    }
  }
  ++ctx.traces;
  Outcome o = parse(text, withFile);
  if (!sentence) {
    ctx.outcome(o.root ? "accepted" : "rejected");
    if (o.root) {
      ctx.fail("text outside the grammar accepted", text);
    } else if (!o.errors) {
      ctx.fail("rejected without a diagnostic", text);
    }
    return;
  }
  ctx.outcome("accepted");
  if (!o.root) {
    ctx.fail("text of the grammar rejected", text);
    return;
  }
  if (o.errors) {
    ctx.fail("diagnostic for an accepted text", text);
  }
  if (prop == 24) {
    cloneCheck(text, std::move(o.root));
    return;
  }
  ad::Dump d;
  std::string got = d.read(o.root.get());
  if (prop == 18 || prop == 20) {
    ctx.state(got);
    if (got != want) {
      ctx.fail("wrong tree", text + " => " + diff(got, want));
    }
  } else {
    ctx.state(text);
    if (got.find('<') != std::string::npos && text.find('<') == std::string::npos) {
      ctx.fail("incomplete tree", text);
    }
  }
}

static std::vector<std::string> split(const std::string &s) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : s + " ") {
    if (c == ' ') {
      if (!cur.empty()) {
        r.push_back(cur);
      }
      cur.clear();
    } else {
      cur += c;
    }
  }
  return r;
}

// '@' stands for a number which identifies the position.
static std::string number(const std::string &spelling, int k) {
  std::string r;
  for (char c : spelling) {
    if (c == '@') {
      r += std::to_string(k);
    } else {
      r += c;
    }
  }
  return r;
}

class Explorer {
  earley::Chart chart{grammar, "root"};
  std::vector<std::string> spelled;
  std::vector<std::vector<std::string>> alphabet;
  std::vector<std::string> suffix;
  int bound = 0, splitAt = 2, base = 0;

  // Pushes until a token is dead; returns how many were pushed.
  size_t push(const std::vector<std::string> &l, bool &dead) {
    size_t n = 0;
    dead = false;
    for (auto &s : l) {
      if (!dead) {
        ++ctx.transitions;
        if (chart.push(bm::token(grammar, s))) {
          ++n;
        } else {
          dead = true;
        }
      }
    }
    return n;
  }

  void evaluate(bool dead) {
    if (dead) {
      if (prop == 19) {
        std::vector<std::string> all = spelled;
        all.insert(all.end(), suffix.begin(), suffix.end());
        judge(textOf(all), nullptr);
      }
      return;
    }
    bool d;
    size_t n = push(suffix, d);
    std::vector<std::string> all = spelled;
    all.insert(all.end(), suffix.begin(), suffix.end());
    judge(textOf(all), !d && (chart.size() == 0 || chart.accepted()) ? &chart : nullptr);
    chart.pop(n);
  }

  void go(int depth) {
    for (auto &piece : alphabet) {
      std::vector<std::string> toks;
      for (auto &t : piece) {
        toks.push_back(number(t, depth + 1));
      }
      bool dead;
      size_t n = push(toks, dead);
      spelled.insert(spelled.end(), toks.begin(), toks.end());
      bool mine = depth < splitAt ? ctx.take() : true;
      if (mine) {
        if (depth < splitAt) {
          ctx.describe([&] { return "texts beginning with: " + textOf(spelled); });
        }
        evaluate(dead);
        ctx.progress();
      }
      if (!dead && depth + 1 < bound && (mine || depth + 1 < splitAt)) {
        go(depth + 1);
      }
      spelled.resize(spelled.size() - toks.size());
      chart.pop(n);
    }
  }

public:
  void run(const std::string &name, const std::string &prefix, const std::string &pieces, const std::string &suffixText, int depth,
           bool blocks = false, int splitDepth = 3) {
    if (!ctx.suite(name)) {
      return;
    }
    splitAt = splitDepth;
    alphabet.clear();
    if (blocks) {
      // Pieces of several tokens, separated by '|'.
      std::string cur;
      for (char c : pieces + "|") {
        if (c == '|') {
          if (!split(cur).empty()) {
            alphabet.push_back(split(cur));
          }
          cur.clear();
        } else {
          cur += c;
        }
      }
    } else {
      for (auto &s : split(pieces)) {
        alphabet.push_back({s});
      }
    }
    suffix = split(suffixText);
    bound = depth;
    spelled = split(prefix);
    bool dead;
    size_t n = push(spelled, dead);
    if (dead) {
      fprintf(stderr, "dead prefix %s\n", prefix.c_str());
      abort();
    }
    if (ctx.take()) {
      ctx.describe([&] { return prefix + " " + suffixText; });
      evaluate(false);
    }
    go(0);
    chart.pop(n);
    spelled.clear();
  }
};

static bool member(const std::vector<std::string> &toks, earley::Chart &chart) {
  for (auto &t : toks) {
    if (!chart.push(bm::token(grammar, t))) {
      return false;
    }
  }
  return toks.empty() || chart.accepted();
}

static void judgeTokens(const std::vector<std::string> &toks, bool withFile) {
  static earley::Chart chart(grammar, "root");
  bool in = member(toks, chart);
  judge(textOf(toks), in ? &chart : nullptr, withFile);
  chart.pop(chart.size());
}

#include "corpus.h"

// Every expression made of operands, optional unary operators and binary operators.
static void operators(bool th) {
  std::vector<std::string> ops{"+", "-", "*", "/", "^", ".+", ".-", ".*", "./", ".^", "<", "<=", ">", ">=", "==", "<>", "and", "or", ":"};
  std::vector<std::string> unary{"", "-", "+", "not"};
  int n = (th ? 4 : 3) - MC_SHIFT;
  if (!ctx.suite("operators")) {
    return;
  }
  earley::Chart chart(grammar, "root");
  std::vector<std::string> prefix = split("model M equation y ="), suffix = split("; end M ;");
  auto token = [](const std::string &t) {
    static std::map<std::string, earley::Token> known;
    auto it = known.find(t);
    return it != known.end() ? it->second : known.emplace(t, bm::token(grammar, t)).first->second;
  };
  for (auto &t : prefix) {
    chart.push(token(t));
  }
  // Extends the sentence by operand k, and by the operators that may follow.
  std::vector<std::string> spelled;
  std::function<void(int, int)> operand = [&](int k, int len) {
    size_t choices = k <= (th ? 3 : 2) ? unary.size() : 2;
    for (size_t u = 0; u < choices; ++u) {
      size_t size = chart.size(), words = spelled.size();
      bool alive = true;
      if (u) {
        spelled.push_back(unary[u]);
        ++ctx.transitions;
        alive = chart.push(token(unary[u]));
      }
      std::string name = "x" + std::to_string(k);
      spelled.push_back(name);
      if (alive && chart.push(token(name))) {
        if (k == len) {
          size_t body = chart.size();
          bool complete = true;
          for (auto &t : suffix) {
            complete = complete && chart.push(token(t));
          }
          if (complete && chart.accepted()) {
            judge(textOf(prefix) + " " + textOf(spelled) + " " + textOf(suffix), &chart);
          }
          chart.pop(chart.size() - body);
        } else {
          for (auto &op : ops) {
            bool mine = k == 0 ? ctx.take() : true;
            if (!mine) {
              continue;
            }
            spelled.push_back(op);
            if (k == 0) {
              ctx.describe([&] { return "expressions of " + std::to_string(len + 1) + " operands beginning with: " + textOf(spelled); });
            }
            ++ctx.transitions;
            if (chart.push(token(op))) {
              operand(k + 1, len);
              chart.pop(1);
            }
            spelled.pop_back();
            ctx.progress();
          }
        }
      }
      spelled.resize(words);
      chart.pop(chart.size() - size);
    }
  };
  for (int len = 1; len <= n; ++len) {
    operand(0, len);
  }
}

static void expressions(bool th, int shift) {
  int d = (th ? 2 : 0) + extra + shift - MC_SHIFT;
  Explorer e;
  std::string p = "model M equation y =", s = "; end M ;";
  e.run("arithmetic", p, "x@ @ + - * ^ ( )", s, 8 + d);
  e.run("logic", p, "x@ or and not < == true", s, 8 + d);
  e.run("conditional", p, "x@ : if then else <", s, 9 + d);
  e.run("calls", p, "f ( ) , = x@ for in", s, 8 + d);
  e.run("calls of calls", "model M equation y = f (", "f ( ) , = x@ for", ") ; end M ;", 8 + d);
  e.run("subscripts", p, "x@ [ ] : , . @ ( )", s, 7 + d);
  e.run("arrays", p, "{ } , for in i@ @ :", s, 8 + d);
  e.run("array generators", "model M equation y = { x for", "{ } , for in i@ [ ]", "} ; end M ;", 8 + d);
  e.run("derivatives", p, "der ( ) [ ] x@ ,", s, 8 + d);
  e.run("tuples", "model M equation", "( ) , x@ = \"s@\" +", s, 8 + d);
  e.run("elementwise", p, ".+ .- .* ./ .^ x@ ( )", s, 7 + d);
  e.run("constants", p, "@ @.5 \"s@\" true false x@ - [ ]", s, 6 + d);
  e.run("mixed", p, "x@ @.25 true \"s\" + - * / ^ .^ < and or not : if then else ( ) [ ] { } , . der for in = ;", s, 4 + d / 2);
  e.run("left-hand sides", "model M equation", "x@ . [ ] ( ) , = @ der", s, 7 + d);
}

static void classes(bool th, int shift) {
  int d = (th ? 2 : 0) + extra + shift - MC_SHIFT;
  Explorer e;
  e.run("members", "model M", "Real T@ x@ ; [ ] : , . @ public parameter output", "end M ;", 7 + d);
  e.run("prefixes", "model M", "Real x@ ; discrete parameter constant input output final public protected", "end M ;", 7 + d);
  e.run("declarations", "model M Real x", "( ) , = a@ @ \"s\" annotation ; Real", "; end M ;", 6 + d);
  e.run("modifications", "model M Real x (", "( ) , = := a@ @ each final", ") ; end M ;", 7 + d);
  e.run("dimensions", "model M Real [", "[ ] : , @ n@ + ( )", "] x ; end M ;", 7 + d);
  std::string eqs = "x = @ ; | if c@ then | elseif c@ then | else | end if ; | for i@ in v loop | end for ; | when c@ then | "
                    "elsewhen c@ then | end when ;";
  e.run("equations", "model M equation", eqs, "end M ;", 6 + d, true);
  e.run("if equations", "model M initial equation", "x = @ ; | if c@ then | elseif c@ then | else | end if ;", "end M ;", 9 + d, true);
  e.run("when equations", "model M equation", "x = @ ; | when c@ then | elsewhen c@ then | else | end when ;", "end M ;", 9 + d, true);
  e.run("for equations", "model M equation", "for loop i@ in x@ , end ; =", "end M ;", 9 + d);
  e.run("token by token equation", "model M equation", "if then elseif else end x@ = ;", "end M ;", 10 + d);
  std::string sts = "x := @ ; | f@ ( ) ; | ( a@ , b ) := f ( ) ; | if c@ then | elseif c@ then | else | end if ; | for i@ loop | end for ; | "
                    "while c@ loop | end while ; | when c@ then | end when ; | break ; | return ;";
  e.run("statements", "function F algorithm", sts, "end F ;", 5 + d, true);
  e.run("if statements", "function F algorithm", "x := @ ; | if c@ then | elseif c@ then | else | end if ;", "end F ;", 9 + d, true);
  e.run("loops", "function F algorithm", "x := @ ; | for i@ loop | end for ; | while c@ loop | end while ; | break ;", "end F ;", 7 + d, true);
  e.run("assignments", "function F algorithm", "x@ . [ ] ( ) , := f ;", "; end F ;", 7 + d);
  e.run("token by token statement", "function F algorithm", "if then elseif else end x@ := ; ( )", "end F ;", 9 + d);
  std::string sections = "Real a@ ; | T b@ = @ ; | public | protected | equation | initial equation | x = @ ; | algorithm | initial algorithm | "
                         "x := @ ; | record N Real z@ ; | model N | end N ;";
  e.run("sections", "model M", sections, "end M ;", 5 + d, true);
  e.run("end of class", "function F", "external | \"C\" | f ( x@ , @ ) | y@ = | annotation ( a = @ ) | ; | Real a ; | equation | algorithm", "end F ;", 6 + d, true);
  e.run("external calls", "function F external", "\"C\" x@ . [ ] = f ( ) ,", "; end F ;", 7 + d);
  e.run("class kinds", "", "operator record function pure impure model class package F", "end F ;", 4 + d / 2);
  e.run("nested class kinds", "package P", "operator record function pure impure model class package | F | end F ;", "end P ;", 4, true);
  e.run("partial derivatives", "package P function F", "= der ( ) , x@ \"s\" ;", "end P ;", 8 + d);
  e.run("several classes", "", "model A | record A | end A ; | \"s\" | Real x@ ; | equation", "", 7 + d, true);
}

static void edits(bool th) {
  std::vector<std::string> all = allSpellings();
  auto programs = corpus();
  for (size_t p = 0; p < programs.size(); ++p) {
    std::vector<std::string> t = split(programs[p]);
    if (ctx.suite("programs") && ctx.take()) {
      ctx.describe([&] { return programs[p]; });
      judgeTokens(t, true);
    }
    if (prop != 19) {
      continue;
    }
    if (ctx.suite("prefixes of programs")) {
      for (size_t k = 0; k < t.size(); ++k) {
        if (ctx.take()) {
          std::vector<std::string> u(t.begin(), t.begin() + k);
          ctx.describe([&] { return textOf(u); });
          judgeTokens(u, true);
        }
      }
    }
    for (int kind = 0; kind < 4; ++kind) {
      const char *names[] = {"deletions", "insertions", "substitutions", "exchanges"};
      if (!ctx.suite(names[kind])) {
        continue;
      }
      for (size_t k = 0; k <= t.size(); ++k) {
        if (!ctx.take()) {
          continue;
        }
        ctx.describe([&] { return std::string(names[kind]) + " at token " + std::to_string(k) + " of: " + programs[p]; });
        if (kind == 0 || kind == 3) {
          for (size_t j = k + 1; j <= t.size() && (kind == 3 || j <= k + 4); ++j) {
            std::vector<std::string> u = t;
            if (kind == 0) {
              u.erase(u.begin() + k, u.begin() + j);
            } else if (j < t.size()) {
              std::swap(u[k], u[j]);
            }
            judgeTokens(u, j == k + 1);
          }
        } else {
          for (auto &s : all) {
            std::vector<std::string> u = t;
            if (kind == 1) {
              u.insert(u.begin() + k, s);
            } else if (k < t.size()) {
              u[k] = s;
            }
            judgeTokens(u, k % 7 == 0);
            if (th && k < t.size()) {
              for (auto &s2 : all) {
                std::vector<std::string> w = u;
                w.insert(w.begin() + k + 1, s2);
                judgeTokens(w, false);
              }
            }
          }
        }
        ctx.progress();
      }
    }
  }
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  for (int i = 1; i + 1 < argc; ++i) {
    if (std::string(argv[i]) == "--prop") {
      prop = atoi(argv[i + 1]);
    }
  }
  extra = prop == 18 || prop == 19 ? 2 : 1;
  bm::define(grammar);
  // All the terminals must be known before the charts are made.
  for (auto &s : allSpellings()) {
    bm::token(grammar, s);
  }
  bool th = ctx.thorough;
  if (prop == 18) {
    operators(th);
    expressions(th, 0);
  } else if (prop == 19) {
    edits(th);
    expressions(th, -3);
    classes(th, -2);
  } else if (prop == 20) {
    edits(th);
    classes(th, 0);
  } else {
    edits(th);
    expressions(th, -2);
    classes(th, -1);
  }
  return ctx.finish();
}
