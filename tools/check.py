#!/usr/bin/env python3
"""Decide one property of kanji-tools by symbolic execution of its real code.

  check.py ID [--tier quick|thorough] [--keep] [--unit NAME] [--trace]

For every harness unit of the property: the repository sources and the harness
are compiled to LLVM IR from /repo's working tree, executed symbolically by
engine/ (every branch and assertion decided by z3), violations are replayed on
a native g++ build of the same sources, and evidence/ID.json is written.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KSYM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"
LIBS = ["utils", "kana", "kanji", "stats", "quiz"]  # link order: later needs earlier
NEEDS = {"utils": ["utils"], "kana": ["utils", "kana"], "kanji": ["utils", "kana", "kanji"],
         "stats": ["utils", "kana", "kanji", "stats"], "quiz": ["utils", "kana", "kanji", "quiz"]}
CPUS = len(os.sched_getaffinity(0))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("engine.cpp", "handlers.inc", "expr.h", "solver.h")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    exe = os.path.join(BUILD, "ksym-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        cc = ["g++", "-std=c++20", "-O2", "-w", "-fexceptions", "-ffunction-sections", "-I" + LLVM + "/include",
              "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", "-o", tmp, src[0], "-L" + LLVM + "/lib", "-rdynamic"]
        static = "BitWriter Analysis ProfileData Object BitReader Core Remarks BitstreamReader BinaryFormat TargetParser Support Demangle MC MCParser TextAPI IRReader AsmParser DebugInfoDWARF"
        try:  # a small process forks faster: link only the parts of LLVM that are used
            sh(cc + ["-Wl,--gc-sections", "-Wl,--start-group"] + ["-lLLVM" + x for x in static.split()] +
               ["-Wl,--end-group", "-lz3", "-lz", "-lzstd", "-ltinfo", "-ldl"])
        except Broken:
            sh(cc + ["-lLLVM-18", "-lz3", "-ldl"])
        os.rename(tmp, exe)
    return exe


def repo_sources(libs):
    out = []
    for lib in libs:
        d = os.path.join(REPO, "libs", lib, "src")
        out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    return out


def incs():
    return ["-I" + os.path.join(REPO, "libs", l, "include") for l in LIBS] + ["-I" + os.path.join(VERIF, "engine"),
            "-I" + os.path.join(VERIF, "harness")]


def ninja(path, rules):
    """rules: list of (output, rulename, inputs, command)"""
    with open(path, "w") as f:
        for i, (out, ins, cmd) in enumerate(rules):
            f.write("rule r%d\n  command = %s\nbuild %s: r%d %s\n" % (i, cmd, out, i, " ".join(ins)))
    sh(["ninja", "-f", path, "-j", str(CPUS)], cwd=os.path.dirname(path))


class Unit:
    def __init__(self, prop, name, spec, tier, work):
        self.prop, self.name, self.tier, self.spec = prop, name, tier, spec
        self.work = os.path.join(work, name)
        os.makedirs(self.work)
        self.libs = NEEDS[spec["libs"]] if isinstance(spec["libs"], str) else spec["libs"]
        self.src = os.path.join(VERIF, "harness", spec.get("src", name) + ".cpp")
        self.defs = ["-DTIER=%d" % (tier == "thorough")] + ["-D" + d for d in spec.get("defs", [])]
        self.defs += ["-D" + d for d in spec.get(tier + "_defs", [])]
        self.pre = ["-include", os.path.join(VERIF, "harness", spec["pre"])] if spec.get("pre") else []

    def build_rules(self, shared):
        """ninja rules for both the symbolic and the native replay build"""
        common = ["-std=c++20", "-include", "cstdint", "-Dishexnumber=isxdigit"] + incs()
        ir = ["clang++-18", "-O1", "-g0", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fPIC",
              "-DKSYM_IR=1", "-emit-llvm", "-c"] + common
        nat = ["g++", "-O1", "-g0", "-w", "-fsanitize=address", "-fno-sanitize-recover=all", "-c"] + common
        tag = hashlib.sha256((" ".join(self.pre)).encode()).hexdigest()[:8] if self.pre else "x"
        rules, bcs, objs = {}, [], []
        for s in repo_sources(self.libs):
            b = "%s/%s_%s_%s" % (shared, tag, s.split("/")[-3], os.path.basename(s)[:-4])
            rules[b + ".bc"] = ([s], " ".join(ir + self.pre + ["-o", b + ".bc", s]))
            rules[b + ".o"] = ([s], " ".join(nat + self.pre + ["-o", b + ".o", s]))
            bcs.append(b + ".bc")
            objs.append(b + ".o")
        h = self.work + "/h"
        rules[h + ".bc"] = ([self.src], " ".join(ir + self.pre + self.defs + ["-o", h + ".bc", self.src]))
        rules[h + ".o"] = ([self.src], " ".join(nat + self.pre + self.defs + ["-o", h + ".o", self.src]))
        rt, rp = VERIF + "/engine/runtime.cpp", VERIF + "/engine/replay.cpp"
        rules[shared + "/rt.bc"] = ([rt], " ".join(ir + ["-o", shared + "/rt.bc", rt]))
        rules[shared + "/rp.o"] = ([rp], " ".join(nat + ["-o", shared + "/rp.o", rp]))
        bcs += [h + ".bc", shared + "/rt.bc"]
        objs += [h + ".o", shared + "/rp.o"]
        a, x, so = self.work + "/a.bc", self.work + "/x.bc", self.work + "/x.so"
        rules[a] = (bcs, "llvm-link-18 -o %s %s" % (a, " ".join(bcs)))
        rules[x] = ([a, shared + "/ksym"], "%s prep %s %s" % (shared + "/ksym", a, x))
        rules[so] = ([x], "clang++-18 -w -O0 -shared -fPIC -Wl,-Bsymbolic -o %s %s" % (so, x))
        rules[self.work + "/replay"] = (objs, "g++ -fsanitize=address -o %s %s" % (self.work + "/replay", " ".join(objs)))
        return rules

    def run(self, exe, trace=False):
        s = self.spec
        secs = s.get(self.tier + "_seconds", 240 if self.tier == "quick" else 1500)
        out = self.work + "/out.jsonl"
        scratch = self.work + "/scratch"
        os.makedirs(scratch, exist_ok=True)
        cmd = [exe, "run", self.work + "/x.bc", self.work + "/x.so", out, "seconds=%d" % secs, "jobs=%d" % CPUS,
               "insts=%d" % s.get("insts", 30000000), "records=%d" % s.get("records", 60),
               "scratch=" + scratch] + (["trace=1"] if trace else [])
        env = dict(os.environ, KSYM_REPO=REPO, LC_ALL="C")
        t = time.time()
        with open(self.work + "/err.txt", "w") as err:
            try:
                r = subprocess.run(cmd, stdout=None if trace else subprocess.DEVNULL, stderr=None if trace else err, timeout=secs + 120, env=env, cwd=scratch)
            except subprocess.TimeoutExpired:
                raise Broken("engine did not stop")
        self.wall = time.time() - t
        self.viol, self.unsup, self.paths, self.sum = [], [], [], None
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                {"viol": self.viol, "unsup": self.unsup, "path": self.paths}.get(j["t"], []).append(j)
                if j["t"] == "sum":
                    self.sum = j
        if r.returncode or not self.sum:
            raise Broken("engine failed on %s (%s): %s" % (self.name, r.returncode, open(self.work + "/err.txt").read()[-2000:]))

    def native(self, inputs, tag):
        """run the recorded inputs on the native build; returns (exit, output)"""
        f = "%s/in_%s.txt" % (self.work, tag)
        with open(f, "w") as h:
            h.write(inputs_text(inputs))
        d = "%s/sc_%s" % (self.work, tag)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, KSYM_REPO=REPO, KSYM_NOMEM="1", LC_ALL="C",
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096")
        try:
            r = subprocess.run([self.work + "/replay", f, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env, cwd=d)
            code, o = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            code, o = -24, (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
        shutil.rmtree(d, ignore_errors=True)
        return code, o


def inputs_text(inputs):
    return "".join(("c %s %d\n" % (n, v)) if isinstance(v, int) else ("b %s %s\n" % (n, v)) for n, v in inputs)


def match_obs(path, out):
    want = []
    for n, v in path["obs"]:
        want.append((n, v))
    got = []
    for line in out.splitlines():
        m = re.match(r"OBSB? (.*) ([0-9a-f]*)$", line)
        if m:
            got.append((m.group(1), m.group(2)))
    return want == got, want, got


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build the engine")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--unit")
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args()
    if a.setup:
        print(build_engine())
        return
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="ksym-%s-" % a.prop)
    code = 2
    try:
        code = decide(a, tier, seed, work, t0)
    except Broken as e:
        print("CHECK-ERROR property=%s: %s" % (a.prop, e))
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(a, tier, seed, work, t0):
    spec = CHECKS[a.prop]
    shared = work + "/shared"
    os.makedirs(shared)
    names = [a.unit] if a.unit else list(spec["units"])
    units = [Unit(a.prop, n, spec["units"][n], tier, work) for n in names]
    with cf.ThreadPoolExecutor(1) as ex:
        eng = ex.submit(build_engine)
        rules = {}
        for u in units:
            rules.update(u.build_rules(shared))
        # the engine is linked by hand while ninja compiles
        first = {k: v for k, v in rules.items() if k.endswith((".o",)) or (k.endswith(".bc") and not k.endswith(("/a.bc", "/x.bc")))}
        ninja(shared + "/one.ninja", [(k, v[0], v[1]) for k, v in first.items()])
        exe = eng.result()
    os.symlink(exe, shared + "/ksym")
    rest = [(k, v[0], v[1]) for k, v in rules.items() if k not in first]
    ninja(shared + "/two.ninja", rest)
    tb = time.time() - t0
    print("built in %.1f s" % tb)

    violations, findings, problems = [], [], []
    known = known_findings(a.prop)
    tot = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, insts=0, asserts=0, assert_queries=0, solver_s=0.0,
               assumed_out=0, unsupported=0, domain=0, domain_confirmed=0)
    validated, samples, functions, ulist = 0, [], set(), []
    complete = True
    for u in units:
        u.run(exe, a.trace)
        s = u.sum
        for k in tot:
            tot[k] += s[k]
        functions.update(s["repo_functions"])
        unreached = [l for l, h in s["labels"].items() if not h]
        print("%s: %d paths, %d queries (%d sat, %d unsat), %d byte decisions, %d asserts, %d unsupported, %d violations, stop=%d, %.1f s (solver %.1f s)"
              % (u.name, s["paths"], s["queries"], s["sat"], s["unsat"], s["domain"], s["asserts"], s["unsupported"], s["violations"], s["stop"], s["wall_s"], s["solver_s"]))
        seen = set()
        for v in u.unsup:
            if v["what"] not in seen and len(seen) < 8:
                seen.add(v["what"])
                print("  unsupported:", v["what"], v["stack"][:4])
        if s["crashed"]:
            print("  crashed:", s["crashed"], open(u.work + "/err.txt").read()[-1500:])
        # violations: confirm natively, group by label
        bylab = {}
        for v in u.viol:
            bylab.setdefault((v["kind"], v["label"]), []).append(v)
        nv = 0
        for (kind, label), vs in bylab.items():
            confirmed = None
            for v in vs[:5]:
                nv += 1
                c, out = u.native(v["inputs"], "v%d" % nv)
                bad = c in (1,) or c < 0 or c not in (0, 1, 3)
                if bad and kind == "assert" and "FAIL " + label not in out and c == 1:
                    bad = "FAIL" in out or "AddressSanitizer" in out
                if bad:
                    confirmed = (v, c, out)
                    break
            if not confirmed:
                # out of bounds reads that the sanitizer cannot see are reported as they are
                problems.append("%s: counterexample for '%s: %s' not confirmed by native replay (inputs %s)"
                                % (u.name, kind, label, json.dumps(vs[0]["inputs"])[:600]))
                continue
            v, c, out = confirmed
            k = next((k for k in known if k["unit"] == u.name and k["label"] == label), None)
            (findings if k else violations).append((u, kind, label, v, c, out, k))
        # sampled paths: the native build must observe the same values
        def val(ip):
            i, p = ip
            c, out = u.native(p["inputs"], "p%d" % i)
            ok, want, got = match_obs(p, out)
            return c, ok, want, got, out, p
        if not u.viol:
            with cf.ThreadPoolExecutor(CPUS) as ex:
                for c, ok, want, got, out, p in ex.map(val, enumerate(u.paths)):
                    if c == 0 and ok:
                        validated += 1
                    else:
                        problems.append("%s: native replay of a path differs (exit %s): inputs %s\n want %s\n got %s\n%s"
                                        % (u.name, c, json.dumps(p["inputs"])[:500], str(want)[:500], str(got)[:500], out[-800:]))
        for p in u.paths[:3]:
            samples.append({"unit": u.name, "inputs": p["inputs"], "observed": p["obs"]})
        inc = []
        if s["stop"] not in (0, 1):
            inc.append("time limit" if s["stop"] == 2 else "path limit")
        if s["unsupported"]:
            inc.append("%d paths left the supported subset" % s["unsupported"])
        if s["crashed"]:
            problems.append("%s: %d engine processes crashed" % (u.name, s["crashed"]))
        if inc:
            complete = False
        if unreached and not u.viol:
            problems.append("%s: never reached (vacuous): %s" % (u.name, unreached))
        ulist.append({"unit": u.name, "bounds": u.spec["bounds"] if isinstance(u.spec["bounds"], str) else u.spec["bounds"][tier],
                      "paths": s["paths"], "paths_cut_by_assumptions": s["assumed_out"], "queries": s["queries"],
                      "sat": s["sat"], "unsat": s["unsat"], "assertions_evaluated": s["asserts"],
                      "assertion_queries": s["assert_queries"], "instructions": s["insts"], "solver_s": round(s["solver_s"], 2),
                      "wall_s": round(u.wall, 2), "exhausted": not inc, "incomplete": inc,
                      "labels_reached": [l for l, h in s["labels"].items() if h]})

    for u, kind, label, v, c, out, k in findings:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if violations:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for n, (u, kind, label, v, c, out, k) in enumerate(violations):
            f = os.path.join(d, "%s-%d.json" % (a.prop, n))
            with open(f, "w") as h:
                json.dump({"property": a.prop, "unit": u.name, "kind": kind, "label": label, "inputs": v["inputs"],
                           "stack": v["stack"], "native_exit": c, "native_output": out[-3000:],
                           "replay": "inputs are in the order the harness asks for them; harness/%s" % os.path.basename(u.src)}, h, indent=1)
            print("  %s: %s: %s" % (u.name, kind, label))
            print("    inputs", json.dumps(v["inputs"])[:700])
            print("    native:", out.strip()[-400:].replace("\n", " / "))
            print("VIOLATION property=%s replay=%s" % (a.prop, f))
    for p in problems:
        print("PROBLEM", p)
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
          "coverage": {"states": tot["paths"], "transitions": tot["forks"] + tot["paths"],
                       "traces_validated_against_impl": validated, "samples": samples[:8] or ["none"],
                       "exhausted_within_bounds": complete and not problems,
                       "paths": tot["paths"], "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "single_byte_branch_decisions": tot["domain"], "of_these_confirmed_by_the_solver": tot["domain_confirmed"],
                       "assertions_evaluated": tot["asserts"], "assertion_queries": tot["assert_queries"],
                       "instructions_executed": tot["insts"], "solver_s": round(tot["solver_s"], 2), "solver": "z3 4.8.12 (QF_BV)",
                       "build_s": round(tb, 2), "functions_encoded": sorted(functions), "units": ulist,
                       "problems": problems, "violations": len(violations), "known_findings": len(findings)}}
    if os.environ.get("KSYM_NOEVIDENCE") is None and not a.unit:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if violations:
        return 1
    if problems:
        return 2
    if not complete:
        print("INCOMPLETE: held on everything explored, but the bounded space was not exhausted")
    print("OK property=%s (%.1f s)" % (a.prop, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
