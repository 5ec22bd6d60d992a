#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

usage: tools/check.py <property id> [--tier quick|thorough]
       tools/check.py --build-all
       tools/check.py --replay <replay file>

Exit code 0: held on everything explored. Exit code 1 (and a VIOLATION line):
a violation that known_findings.txt does not list. Anything else: the check
itself failed.
"""
import glob
import json
import mmap
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-20"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import mlirshim  # noqa: E402
from config import CHECKS, BINARIES, GROUPS  # noqa: E402

NCPU = max(1, min(8, os.cpu_count() or 1))

COMMON = ("-DMARCO_VERSION=\\\"dev\\\" -D__STDC_CONSTANT_MACROS "
          "-D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -DNDEBUG "
          "-I{verif}/harness -I{build}/gen -I{repo}/include "
          "-isystem {llvm}/include -std=gnu++17 -fPIC -fno-exceptions "
          "-funwind-tables -fno-rtti -fno-lifetime-dse -w").format(
              verif=VERIF, build=BUILD, repo=REPO, llvm=LLVM)

# Replaced by harness/schedrt.cpp.
WRAPPED = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
           "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock",
           "pthread_rwlock_trywrlock", "pthread_rwlock_unlock", "__cxa_guard_release",
           "memcpy", "memmove", "memset", "memcmp"]

FLAVORS = {
    # flavor: (compile flags, link flags)
    "opt": ("-O2 -g1", ""),
    "asan": ("-O2 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize=vptr,alignment "
             "-fno-sanitize-recover=undefined",
             "-fsanitize=address,undefined"),
    # Instrumented for the race detection of harness/schedrt.cpp, not linked with the runtime of TSan.
    "sched": ("-O1 -g1 -fno-pie -fsanitize=thread -I{verif}/harness/shadow".format(verif=VERIF),
              "-no-pie " + " ".join("-Wl,--wrap=" + f for f in WRAPPED)),
    "tsan": ("-O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
    # The compiler proper (see tools/mlirshim.py).
    "mid": ("-O1 -g0", ""),
    "mid-asan": ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address", "-fsanitize=address"),
}

MLIRLIBS = " ".join("%s/lib/lib%s.a" % (LLVM, l) for l in [
    "MLIRParser", "MLIRBytecodeReader", "MLIRAsmParser", "MLIRFunctionInterfaces",
    "MLIRControlFlowInterfaces", "MLIRInferTypeOpInterface",
    "MLIRSideEffectInterfaces", "MLIRLoopLikeInterface",
    "MLIRCallInterfaces", "MLIRMemorySlotInterfaces", "MLIRDataLayoutInterfaces",
    "MLIRCastInterfaces", "MLIRDestinationStyleOpInterface",
    "MLIRFuncDialect", "MLIRCFDialect", "MLIRArithDialect", "MLIRLLVMDialect",
    "MLIRUBDialect", "MLIRInferIntRangeCommon", "MLIRInferIntRangeInterface",
    "MLIRArithAttrToLLVMConversion", "MLIRDialect", "MLIRDialectUtils",
    "MLIRTransformUtils", "MLIRRewrite", "MLIRPDLToPDLInterp",
    "MLIRSubsetOpInterface", "MLIRRuntimeVerifiableOpInterface",
    "MLIRAnalysis", "MLIRPresburger", "MLIRPass",
    "MLIRIR", "MLIRSupport"]
    if os.path.exists("%s/lib/lib%s.a" % (LLVM, l)))

LIBSETS = {
    "mlir": "-Wl,--start-group %s -Wl,--end-group " % MLIRLIBS,
    "base": "%s/lib/libMLIRIR.a %s/lib/libMLIRSupport.a " % (LLVM, LLVM),
    "llvm": "",
    "mlirso": "{0}/lib/libMLIR.so -Wl,-rpath,{0}/lib ".format(LLVM),
    "clang": " ".join("%s/lib/lib%s.a" % (LLVM, l) for l in [
        "clangFrontend", "clangDriver", "clangParse", "clangSerialization",
        "clangSema", "clangAnalysis", "clangASTMatchers", "clangAPINotes",
        "clangEdit", "clangAST", "clangLex", "clangBasic", "clangSupport"]
        if os.path.exists("%s/lib/lib%s.a" % (LLVM, l))) + " ",
}
LLVMSO = "{0}/lib/libLLVM.so.1 -Wl,-rpath,{0}/lib -lpthread".format(LLVM)


def group_sources(group):
    g = GROUPS[group]
    res = []
    for pat in g["sources"]:
        res += glob.glob(os.path.join(REPO, pat), recursive=True)
    excl = set()
    for pat in g.get("exclude", []):
        excl |= set(glob.glob(os.path.join(REPO, pat), recursive=True))
    return sorted(s for s in set(res) if s not in excl)


def gen_ninja(names):
    os.makedirs(BUILD, exist_ok=True)
    L = ["ninja_required_version = 1.5", "builddir = %s" % BUILD]
    for f, (c, l) in FLAVORS.items():
        L += ["rule cxx_%s" % f,
              "  command = g++ -MD -MF $out.d %s %s $extra -c $in -o $out" % (COMMON, c),
              "  depfile = $out.d", "  deps = gcc",
              "  description = CXX[%s] $in" % f,
              "rule link_%s" % f,
              "  command = g++ %s -Wl,--gc-sections -o $out $in $libs %s" % (l, LLVMSO),
              "  description = LINK $out"]
    # MLIR's core as one object whose weak functions are private: none of them is
    # replaced by (or replaces) the instrumented copies of the harness.
    wraps = " ".join("--redefine-sym %s=__real_%s" % (f, f) for f in WRAPPED)
    L += ["rule isolate",
          "  command = ld -r --force-group-allocation -o $out.tmp --whole-archive $in && "
          "nm $out.tmp | awk '$$2==\"W\"{print $$3}' | sort -u > $out.sym && "
          "objcopy --localize-symbols=$out.sym %s $out.tmp $out && rm $out.tmp" % wraps,
          "build %s/isolated.o: isolate %s/lib/libMLIRIR.a %s/lib/libMLIRSupport.a" % (BUILD, LLVM, LLVM)]
    L += ["rule tblgen",
          "  command = mkdir -p $$(dirname $out) && %s/bin/mlir-tblgen $args "
          "-I%s/shim -I%s/include -I%s/include $in -o $out" % (LLVM, BUILD, LLVM, REPO),
          "  description = TBLGEN $out", "  restat = 1"]
    done = set()
    if any(GROUPS[g].get("mid") for n in names for g in BINARIES[n]["groups"]):
        mlirshim.prepare(BUILD, LLVM)
        tbl = []
        deps = glob.glob(REPO + "/include/marco/**/*.td", recursive=True)
        for (td, args, out) in mlirshim.tablegen(REPO):
            o = "%s/gen/%s" % (BUILD, out)
            tbl.append(o)
            L += ["build %s: tblgen %s/%s | %s" % (o, REPO, td, " ".join(sorted(deps))),
                  "  args = %s" % args]
        for (args, out) in (("-gen-op-decls", "testops.h.inc"), ("-gen-op-defs", "testops.cpp.inc"),
                            ("-gen-dialect-decls", "testdialect.h.inc"), ("-gen-dialect-defs", "testdialect.cpp.inc")):
            o = "%s/gen/%s" % (BUILD, out)
            tbl.append(o)
            L += ["build %s: tblgen %s/harness/mid/testops.td | %s" % (o, VERIF, " ".join(sorted(deps))),
                  "  args = %s" % args]
        L += ["build %s/gen.stamp: phony %s" % (BUILD, " ".join(tbl))]
        for f in sorted({BINARIES[n]["flavor"] for n in names}):
            d = "%s/pch-%s" % (BUILD, f)
            for h in ("mid", "mid0"):
                L += ["build %s/%s.h.gch: cxx_%s %s/harness/mid/%s.h || %s/gen.stamp" % (d, h, f, VERIF, h, BUILD),
                      "  extra = -x c++-header -I%s/shim" % BUILD]

    def obj(src, flavor, extra, needgen):
        tag = "" if not extra else "-x%08x" % (hash_str(extra) & 0xffffffff)
        if src.startswith(REPO + "/"):
            rel = "repo/" + src[len(REPO) + 1:]
        else:
            rel = os.path.relpath(src, VERIF)
        o = "%s/%s%s/%s.o" % (BUILD, flavor, tag, rel)
        if o not in done:
            done.add(o)
            pch = "%s/pch-%s/%s.h" % (BUILD, flavor, needgen)
            L.append("build %s: cxx_%s %s%s" % (
                o, flavor, src, " | %s.gch || %s/gen.stamp" % (pch, BUILD) if needgen else ""))
            if needgen:
                L.append("  extra = -include %s -I%s/shim %s" % (pch, BUILD, extra))
            elif extra:
                L.append("  extra = %s" % extra)
        return o

    for name in names:
        b = BINARIES[name]
        flavor = b["flavor"]
        extra = b.get("extra", "")
        needgen = "mid" if any(GROUPS[g].get("mid") for g in b["groups"]) else None
        objs = []
        for h in b["harness"]:
            objs.append(obj(os.path.join(VERIF, "harness", h), flavor, extra, needgen))
        for h in b.get("runtime", []):
            objs.append(obj(os.path.join(VERIF, "harness", h), "opt", "-fno-builtin", False))
        for g in b["groups"]:
            for s in group_sources(g):
                objs.append(obj(s, flavor, GROUPS[g].get("extra", "") + (extra if b.get("extra_all") else ""), GROUPS[g].get("mid")))
        libs = "".join(LIBSETS[l] for l in b.get("libs", ["base"]) if l != "isolated")
        if "isolated" in b.get("libs", []):
            objs.append("%s/isolated.o" % BUILD)
        L.append("build %s/bin/%s: link_%s %s" % (BUILD, name, flavor, " ".join(dict.fromkeys(objs))))
        L.append("  libs = %s" % libs)
    path = os.path.join(BUILD, "build-%s.ninja" % "-".join(names)[:80])
    with open(path, "w") as f:
        f.write("\n".join(L) + "\n")
    return path


def hash_str(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & (2**64 - 1)
    return h


def build(names):
    path = gen_ninja(names)
    r = subprocess.run(["ninja",  "-f", path] + ["%s/bin/%s" % (BUILD, n) for n in names],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("BUILD FAILED")
        sys.exit(2)


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:allow_user_poisoning=0:abort_on_error=0:"
                       "exitcode=99:detect_stack_use_after_return=0:"
                       "allocator_may_return_null=1:max_allocation_size_mb=3000")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:suppressions=%s/tools/tsan.supp" % VERIF


class Worker:
    def __init__(self, exe, args, k, n, tmp, tier, seed, budget):
        self.exe, self.args, self.k, self.n = exe, args, k, n
        self.tmp, self.tier, self.seed, self.budget = tmp, tier, seed, budget
        self.out = os.path.join(tmp, "w%d" % k)
        self.shm = os.path.join(tmp, "shm%d" % k)
        with open(self.shm, "wb") as f:
            f.write(b"\0" * 16)
        self.restarts = 0
        self.crashes = []
        self.done = False
        self.t_change = time.time()
        self.last = 0
        self.launch(0)

    def launch(self, start):
        f = os.open(self.shm, os.O_RDWR)
        os.pwrite(f, b"\0" * 16, 0)
        os.close(f)
        self.log = open(os.path.join(self.tmp, "log%d" % self.k), "ab")
        self.p = subprocess.Popen(
            [self.exe, "--tier", self.tier, "--shard", str(self.k), "--shards", str(self.n),
             "--start", str(start), "--out", self.out, "--shm", self.shm, "--seed", str(self.seed),
             "--budget", str(self.budget), "--table", os.path.join(self.tmp, "table")] + self.args,
            stdout=self.log, stderr=self.log, env=ENV, cwd=self.tmp)
        self.t_change = time.time()
        self.last = 0

    def status(self):
        with open(self.shm, "rb") as f:
            return struct.unpack("<QQ", f.read(16))

    def poll(self):
        cur, fin = self.status()
        if cur != self.last:
            self.last = cur
            self.t_change = time.time()
        rc = self.p.poll()
        if rc is None:
            if time.time() - self.t_change > 150:
                self.p.kill()
                self.p.wait()
                rc = -9
            else:
                return
        self.log.close()
        cur, fin = self.status()
        if fin and rc == 0:
            self.done = True
            return
        if cur == 0:
            self.done = True
            self.crashes.append((None, rc))
            return
        self.crashes.append((cur - 1, rc))
        self.restarts += 1
        if self.restarts > 6:
            self.done = True
            return
        self.launch(cur)


def log_tail(tmp, k):
    try:
        with open(os.path.join(tmp, "log%d" % k), "rb") as f:
            return f.read()[-3000:].decode("utf-8", "replace")
    except OSError:
        return ""


def run_only(exe, args, case, tier, seed, tmp, long=False):
    """Replays one case alone; returns (kind, desc, fails)."""
    out = os.path.join(tmp, "only-%s" % case)
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = subprocess.run([exe, "--tier", tier, "--only", str(case), "--out", out,
                            "--seed", str(seed), "--case-cpu", "60" if long else "30"] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=tmp,
                           timeout=240)
        rc, text = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, text = 97, ""
    desc, fails = "", []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j["k"] == "case":
                desc = j["desc"]
            elif j["k"] == "fail":
                fails.append(j)
    return rc, desc, fails, text


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                j = json.loads(line[len("finding: "):])
                if j["property"] == prop:
                    res.append(j)
    return res


def is_known(known, sig, desc):
    for k in known:
        if k["sig"] == sig and desc in k["inputs"]:
            return k
    return None


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        names = list(BINARIES) if len(a) == 1 else a[1:]
        build(names)
        return 0
    if a and a[0] == "--setup":
        # Nothing to install: every check builds what it needs. This only verifies the tools.
        for t in (["g++", "--version"], ["ninja", "--version"], [LLVM + "/bin/mlir-tblgen", "--version"]):
            subprocess.run(t, stdout=subprocess.DEVNULL, check=True)
        print("ok")
        return 0
    if a and a[0] == "--replay":
        j = json.load(open(a[1]))
        build([j["binary"]])
        tmp = tempfile.mkdtemp(prefix="mcreplay")
        rc, desc, fails, text = run_only(os.path.join(BUILD, "bin", j["binary"]), j["args"],
                                         j["case"], j["tier"], j["seed"], tmp, True)
        print("exit code", rc)
        print("case:", desc)
        for f in fails:
            print("FAIL", f["sig"], f["desc"])
        print(text[-4000:])
        shutil.rmtree(tmp)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    chk = CHECKS[prop]
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    names = []
    for r in chk["runs"]:
        if r.get("tiers", tier) and tier in r.get("tiers", [tier]) and r["bin"] not in names:
            names.append(r["bin"])
    build(names)
    t_build = time.time() - t0
    known = load_known(prop)
    tot = dict(cases=0, transitions=0, traces=0, states=0)
    outcomes, samples, runs = {}, [], []
    truncated = False
    violations, findings, unconfirmed = [], {}, []
    runlist = [r for r in chk["runs"] if tier in r.get("tiers", [tier])]
    limit = 800 if tier == "quick" else 7200
    errors = []
    for r in runlist:
        exe = os.path.join(BUILD, "bin", r["bin"])
        args = list(r.get("args", []))
        tmp = tempfile.mkdtemp(prefix="mc-%s-" % prop)
        try:
            left = limit - (time.time() - t0)
            budget = max(30, min(left * 0.8, r.get("budget", 480 if tier == "quick" else 6000)))
            n = r.get("shards", NCPU)
            with open(os.path.join(tmp, "table"), "wb") as f:
                f.truncate(8 << 23)
            ws = [Worker(exe, args, k, n, tmp, tier, seed, budget) for k in range(n)]
            while not all(w.done for w in ws):
                time.sleep(0.05)
                for w in ws:
                    if not w.done:
                        w.poll()
            fails = []
            rstates = set()
            rc_sum = dict(cases=0, transitions=0, traces=0)
            nsum = 0
            nstates = 0
            import array
            allst = array.array("Q")
            for w in ws:
                if os.path.exists(w.out):
                    for line in open(w.out, errors="replace"):
                        try:
                            j = json.loads(line)
                        except ValueError:
                            continue
                        if j["k"] == "fail":
                            fails.append(j)
                        elif j["k"] == "sum":
                            nsum += 1
                            for key in rc_sum:
                                rc_sum[key] += j[key]
                            truncated = truncated or j["truncated"]
                            for o, c in j["outcomes"].items():
                                outcomes[o] = outcomes.get(o, 0) + c
                            if len(samples) < 12:
                                samples += j["samples"][:2]
                if os.path.exists(w.out + ".states"):
                    with open(w.out + ".states", "rb") as f:
                        allst.frombytes(f.read())
            nstates = len(set(allst))
            del allst
            crashes = [(c, rc, w.k) for w in ws for (c, rc) in w.crashes]
            if nsum < n and not crashes:
                errors.append("a worker of %s ended without a summary" % r["bin"])
            # Crashes and hangs: replay alone before believing them.
            for (c, rc, k) in sorted(crashes, key=lambda x: (x[0] is None, x[0] or 0))[:20]:
                if c is None:
                    errors.append("worker of %s ended before its first case (rc=%s): %s" % (
                        r["bin"], rc, log_tail(tmp, k)))
                    continue
                rc2, desc, f2, text = run_only(exe, args, c, tier, seed, tmp, rc == 97)
                if rc2 == 0 and not f2:
                    unconfirmed.append("case %s of %s: rc=%s, not reproduced alone; %s" % (
                        c, r["bin"], rc, log_tail(tmp, k)))
                    continue
                sig = "crash"
                if rc2 == 97:
                    sig = "hang"
                elif "ThreadSanitizer" in text:
                    sig = "data-race"
                elif rc2 == 0:
                    fails += f2
                    continue
                fails.append(dict(id=c, suite="", sig=sig, desc=desc, text=text[-3000:], confirmed=True))
            if os.environ.get("VERIF_VERBOSE"):
                groups = {}
                for j in fails:
                    key = (j["suite"], j["sig"], j["desc"].split("=>")[-1][:160] if "=>" in j["desc"] else "")
                    groups.setdefault(key, []).append(j)
                for key, l in sorted(groups.items()):
                    b = min(l, key=lambda j: len(j["desc"]))
                    print("  [%d] %s  e.g. %s" % (len(l), key, b["desc"][:400]))
                    if b.get("text"):
                        print("     ", b["text"][:1500])
            # Filter the known findings, confirm the rest.
            fails.sort(key=lambda j: j["id"])
            new = []
            seen = set()
            for j in fails:
                kf = is_known(known, j["sig"], j["desc"])
                if kf is not None:
                    findings.setdefault((kf["sig"], kf["what"]), kf)
                    continue
                key = (j["suite"], j["sig"])
                if key in seen and len(new) > 20:
                    continue
                seen.add(key)
                new.append(j)
            for j in new[:40]:
                if len([v for v in violations]) >= 5:
                    break
                if not j.get("confirmed"):
                    rc2, desc, f2, text = run_only(exe, args, j["id"], tier, seed, tmp)
                    if rc2 == 0 and not any(f["sig"] == j["sig"] for f in f2):
                        unconfirmed.append("case %s: %s (%s) not reproduced alone" % (
                            j["id"], j["sig"], j["desc"]))
                        continue
                rp = os.path.join(VERIF, "build", "replay", "%s-%d.json" % (prop, len(violations)))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "w") as f:
                    json.dump(dict(property=prop, binary=r["bin"], args=args, case=j["id"], tier=tier,
                                   seed=seed, suite=j["suite"], sig=j["sig"], desc=j["desc"],
                                   text=j.get("text", ""),
                                   how="tools/check.py --replay %s" % rp), f, indent=1)
                violations.append((rp, j))
            tot["states"] += nstates
            for key in rc_sum:
                tot[key] += rc_sum[key]
            runs.append(dict(binary=r["bin"], args=args, cases=rc_sum["cases"],
                             states=nstates, transitions=rc_sum["transitions"]))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=chk["level"],
        coverage=dict(states=tot["states"], transitions=tot["transitions"],
                      traces_validated_against_impl=tot["traces"] or tot["cases"],
                      rule=chk["rule"], samples=samples[:8], exhaustive=not truncated and not errors,
                      outcomes=dict(sorted(outcomes.items())[:60]), runs=runs,
                      build_s=round(t_build, 1)),
        assumptions=chk["assumptions"], wall_s=round(wall, 2), violations=len(violations))
    with open(ev, "w") as f:
        json.dump(evidence, f, indent=1)
    print("property=%s tier=%s cases=%d states=%d transitions=%d exhaustive=%s build=%.0fs wall=%.0fs" % (
        prop, tier, tot["cases"], tot["states"], tot["transitions"], not truncated, t_build, wall))
    for (sig, what), kf in findings.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for rp, j in violations:
        print("  %s/%s: %s" % (j["suite"], j["sig"], j["desc"][:1500]))
        if j.get("text") and os.environ.get("VERIF_VERBOSE"):
            print(j["text"])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for u in unconfirmed[:5]:
        print("UNCONFIRMED:", u[:3000])
    for e in errors[:5]:
        print("ERROR:", e[:3000])
    if violations:
        return 1
    if errors or unconfirmed:
        return 2
    if tot["cases"] == 0:
        print("ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
