// Exhaustive enumeration of file names against the table of the extensions, and of
// command lines executed for real, compared with what the executed process saw.
#include "mc.h"
#include "marco/IO/Command.h"
#include "marco/IO/InputFile.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace marco::io;
static mc::Ctx ctx;

static const char *kindName(InputKind k) {
  static std::string s;
  const char *l[] = {"unknown", "Modelica", "BaseModelica", "MLIR", "LLVM-IR"}, *f[] = {" source", " object", " unknown"};
  s = std::string(l[(int)k.getLanguage()]) + f[(int)k.getFormat()];
  return s.c_str();
}

static std::string expected(const std::string &ext) {
  if (ext == "mo") {
    return "Modelica source";
  }
  if (ext == "mlir") {
    return "MLIR source";
  }
  if (ext == "bc" || ext == "ll") {
    return "LLVM-IR source";
  }
  if (ext == "o") {
    return "unknown object";
  }
  return "unknown unknown";
}

static void nameCase(const std::string &name) {
  ++ctx.transitions;
  ++ctx.traces;
  size_t dot = name.rfind('.');
  std::string want = expected(dot == std::string::npos ? "" : name.substr(dot + 1));
  InputKind k = InputKind::getFromFullFileName(name);
  std::string got = kindName(k);
  ctx.outcome(want);
  if (want != "unknown unknown") {
    ctx.state(name);
  }
  if (got != want) {
    ctx.fail("wrong kind of file", "`" + name + "` => " + got + " instead of " + want);
  }
  if (k.isUnknown() != (want == "unknown unknown")) {
    ctx.fail("wrong isUnknown", "`" + name + "`");
  }
  if (name.find('.') == std::string::npos) {
    want = expected(name);
    got = kindName(InputKind::getFromExtension(name));
    if (got != want) {
      ctx.fail("wrong kind of extension", "`" + name + "` => " + got + " instead of " + want);
    }
  }
}

static void names(bool th) {
  if (ctx.suite("short names")) {
    const std::string alphabet = "mo.lirbc/";
    int n = th ? 7 : 6;
    std::function<void(std::string, int)> go = [&](std::string s, int left) {
      nameCase(s);
      if (left) {
        for (char c : alphabet) {
          go(s + c, left - 1);
        }
      }
    };
    if (ctx.take()) {
      nameCase("");
      for (char a : alphabet) {
        nameCase(std::string(1, a));
      }
    }
    for (char a : alphabet) {
      for (char b : alphabet) {
        if (ctx.take()) {
          std::string s{a, b};
          ctx.describe([&] { return "file names beginning with `" + s + "`"; });
          go(s, n - 2);
        }
      }
    }
  }
  if (ctx.suite("paths")) {
    std::vector<std::string> dirs{"", "a/", "./", "../", "a.b/", "/x.mo/", ".d/", "a.mo/b.o/", "/", "a.mo/b.mlir/", "C:\\x\\"};
    std::vector<std::string> stems{"", "f", "f.g", "f.mo", ".f", "..", "f.", " f", "-", "f.o", "f.bc", "f.ll", "Model_1", "lib.so.1"};
    std::vector<std::string> exts{"", ".mo", ".mlir", ".bc", ".ll", ".o", ".bmo", ".MO", ".Mo", ".mo ", ".m", ".mol", ".oo", ".so", ".a", ".", "..mo", "..o", ".mlir2", ".mli", ".b", ".l",
                                  ".llx", ".o~", ".bcc", ".lll", "mo", "o", ". mo", ".O", ".LL", ".BC", ".MLIR", ".mo\n", ".xmo", ".xo", ".xll", ".xbc", ".xmlir", ".c", ".exe"};
    for (auto &d : dirs) {
      for (auto &s : stems) {
        for (auto &e : exts) {
          if (ctx.take()) {
            ctx.describe([&] { return "`" + d + s + e + "`"; });
            nameCase(d + s + e);
          }
        }
      }
    }
  }
  if (ctx.suite("input files")) {
    auto buffer = llvm::MemoryBuffer::getMemBufferCopy("x");
    auto empty = llvm::MemoryBuffer::getMemBufferCopy("");
    for (int l = 0; l < 5; ++l) {
      for (int f = 0; f < 3; ++f) {
        InputKind k((Language)l, (Format)f);
        auto same = [&](InputKind o) { return o.getLanguage() == k.getLanguage() && o.getFormat() == k.getFormat(); };
        if (!ctx.take()) {
          continue;
        }
        ctx.describe([&] { return std::string("input files of kind ") + kindName(k); });
        ++ctx.traces;
        if ((int)k.getLanguage() != l || (int)k.getFormat() != f || k.isUnknown() != (l == 0 && f == 2)) {
          ctx.fail("wrong input kind", kindName(k));
        }
        for (std::string n : {"", "a", "-", "a.mo"}) {
          ++ctx.transitions;
          InputFile x(n, k);
          InputFile y = x;
          n += " ";
          n.pop_back();
          if (!same(y.getKind()) || !y.isFile() || y.isBuffer() || y.getFile() != n || y.isEmpty() != n.empty()) {
            ctx.fail("wrong input file", "`" + n + "`");
          }
        }
        for (auto *b : {buffer.get(), empty.get()}) {
          ++ctx.transitions;
          InputFile x(b, k);
          InputFile y = x;
          if (!same(y.getKind()) || y.isFile() || !y.isBuffer() || y.getBuffer() != b || y.isEmpty()) {
            ctx.fail("wrong input buffer", b->getBuffer().str());
          }
        }
        InputFile none;
        if (!none.isEmpty() || !none.isFile() || none.isBuffer() || !none.getKind().isUnknown() != !InputKind().isUnknown()) {
          ctx.fail("wrong empty input", "");
        }
      }
    }
  }
}

// The executed process: writes what it got to its standard streams.
static int child(int argc, char **argv) {
  std::string report = "argc=" + std::to_string(argc - 2) + ";";
  int status = 0;
  for (int i = 2; i < argc; ++i) {
    report += std::string("<") + argv[i] + ">";
    if (!strncmp(argv[i], "exit=", 5)) {
      status = atoi(argv[i] + 5);
    }
  }
  char c;
  report += ";stdin=";
  while (read(0, &c, 1) == 1) {
    report += c;
  }
  std::string e = "ERR" + report;
  if (write(1, report.data(), report.size()) < 0 || write(2, e.data(), e.size()) < 0) {
  }
  return status;
}

static std::string slurp(const std::string &f) {
  std::string r;
  FILE *p = fopen(f.c_str(), "rb");
  if (!p) {
    return "(missing)";
  }
  int c;
  while ((c = fgetc(p)) != EOF) {
    r += (char)c;
  }
  fclose(p);
  return r;
}

static void spill(const std::string &f, const std::string &s) {
  FILE *p = fopen(f.c_str(), "wb");
  fwrite(s.data(), 1, s.size(), p);
  fclose(p);
}

static void commands(bool th, const std::string &self) {
  char tmp[] = "io-XXXXXX";
  char *d = mkdtemp(tmp);
  if (!d) {
    abort();
  }
  std::string dir = std::string(realpath(d, nullptr)) + "/";
  spill(dir + "in", "hello\nstdin");
  // The streams that are not redirected are inherited.
  spill(dir + "inherited-in", "inherited");
  std::vector<std::string> words{"a", "-o", "with space", "", "\"q\"", "$HOME", "a;b|c>d", "\\", "exit=3", "*", "'", "two\nlines", "+i=M"};
  auto run = [&](const std::vector<std::string> &args, int how, int redirect, bool twice) {
    ++ctx.traces;
    ++ctx.transitions;
    auto desc = [&] {
      std::string s = "arguments";
      for (auto &a : args) {
        s += " <" + a + ">";
      }
      return s + " appended in way " + std::to_string(how) + ", redirections " + std::to_string(redirect);
    };
    ctx.describe(desc);
    Command cmd(self);
    cmd.appendArg("--child");
    if (how == 0) {
      for (auto &a : args) {
        cmd.appendArg(a.c_str());
      }
    } else if (how == 1) {
      for (auto &a : args) {
        // Not terminated by a NUL, and not outliving the call.
        std::string longer = a + "tail";
        cmd.appendArg(llvm::StringRef(longer).take_front(a.size()));
      }
    } else {
      std::vector<std::string> copy(args);
      std::vector<const char *> p;
      for (auto &a : copy) {
        p.push_back(a.c_str());
      }
      cmd.appendArgs(p);
    }
    for (const char *f : {"out", "err", "inherited-out", "inherited-err"}) {
      spill(dir + f, "");
    }
    if (redirect & 1) {
      std::string f = dir + "in";
      cmd.setStdinRedirect(f);
    }
    if (redirect & 2) {
      std::string f = dir + "out";
      cmd.setStdoutRedirect(f);
    }
    if (redirect & 4) {
      std::string f = dir + "err";
      cmd.setStderrRedirect(f);
    }
    fflush(stdout);
    fflush(stderr);
    int saved[3];
    const char *files[] = {"inherited-in", "inherited-out", "inherited-err"};
    for (int k = 0; k < 3; ++k) {
      saved[k] = dup(k);
      int f = open((dir + files[k]).c_str(), k ? O_WRONLY | O_TRUNC : O_RDONLY);
      dup2(f, k);
      close(f);
    }
    int status = cmd.exec();
    if (twice) {
      lseek(0, 0, SEEK_SET);
      if (ftruncate(1, 0) || ftruncate(2, 0)) {
      }
      lseek(1, 0, SEEK_SET);
      lseek(2, 0, SEEK_SET);
      status = cmd.exec();
    }
    for (int k = 0; k < 3; ++k) {
      dup2(saved[k], k);
      close(saved[k]);
    }
    int n = 0, wantStatus = 0;
    std::string list;
    for (auto &a : args) {
      if (!a.empty()) {
        ++n;
        list += "<" + a + ">";
        if (a == "exit=3") {
          wantStatus = 3;
        }
      }
    }
    std::string want = "argc=" + std::to_string(n) + ";" + list + ";stdin=" + (redirect & 1 ? "hello\nstdin" : "inherited");
    std::string out[4] = {slurp(dir + "out"), slurp(dir + "err"), slurp(dir + "inherited-out"), slurp(dir + "inherited-err")};
    std::string wanted[4] = {redirect & 2 ? want : "", redirect & 4 ? "ERR" + want : "", redirect & 2 ? "" : want, redirect & 4 ? "" : "ERR" + want};
    ctx.state(want + "/" + std::to_string(redirect));
    ctx.outcome("status " + std::to_string(wantStatus));
    if (status != wantStatus) {
      ctx.fail("wrong exit status", desc() + " => " + std::to_string(status) + " instead of " + std::to_string(wantStatus));
    }
    const char *streams[] = {"redirected output", "redirected errors", "inherited output", "inherited errors"};
    for (int k = 0; k < 4; ++k) {
      if (out[k] != wanted[k]) {
        ctx.fail(std::string("wrong ") + streams[k], desc() + " => `" + out[k] + "` instead of `" + wanted[k] + "`");
        break;
      }
    }
  };
  if (ctx.suite("commands")) {
    std::function<void(std::vector<std::string>, int)> go = [&](std::vector<std::string> args, int left) {
      for (int how = 0; how < 3; ++how) {
        if (ctx.take()) {
          run(args, how, (int)(args.size() * 3 + how) % 8, false);
        }
      }
      if (left) {
        for (auto &w : words) {
          args.push_back(w);
          go(args, left - 1);
          args.pop_back();
        }
      }
    };
    go({}, th ? 3 : 2);
  }
  if (ctx.suite("redirections")) {
    for (int r = 0; r < 8; ++r) {
      for (auto &w : words) {
        for (int twice = 0; twice < 2; ++twice) {
          if (ctx.take()) {
            run({"x", w}, r % 3, r, twice);
          }
        }
      }
    }
  }
  if (ctx.suite("failures") && ctx.take()) {
    ctx.describe([&] { return "execution of a program that does not exist"; });
    ++ctx.traces;
    if (Command(dir + "missing").exec() >= 0) {
      ctx.fail("missing program not reported", "exec of a missing program");
    }
  }
  for (const char *f : {"in", "inherited-in", "out", "err", "inherited-out", "inherited-err"}) {
    unlink((dir + f).c_str());
  }
  rmdir(dir.c_str());
}

int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "--child")) {
    return child(argc, argv);
  }
  ctx.parse(argc, argv);
  int prop = 26;
  for (int i = 1; i + 1 < argc; ++i) {
    if (!strcmp(argv[i], "--prop")) {
      prop = atoi(argv[i + 1]);
    }
  }
  if (prop == 26) {
    names(ctx.thorough);
    return ctx.finish();
  }
  char self[4096];
  ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  self[n < 0 ? 0 : n] = 0;
  commands(ctx.thorough, self);
  return ctx.finish();
}
