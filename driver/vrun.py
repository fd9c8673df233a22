#!/usr/bin/env python3
"""Driver: build the current /repo sources to LLVM bitcode, decide every assertion symbolically with flysym (z3),
replay counterexamples and sample witnesses against a native (ASan+UBSan) build of the same sources, write evidence.

usage: vrun.py CHECK_ID [--tier quick|thorough] [--entry NAME] [--keep] [--verbose]
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLY_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "driver"))
sys.path.insert(0, ROOT)
CXX = "clang++-18"
UB = "shift-exponent,signed-integer-overflow,integer-divide-by-zero,return,unreachable,bounds"
BASE = ["-std=c++20", "-pthread", "-I" + os.path.join(ROOT, "rt"), "-I" + REPO, "-U_FORTIFY_SOURCE", "-D_GLIBCXX_ASSERTIONS", "-DFLY_VERIF=1", "-Wno-everything"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def setup():
    os.makedirs(os.path.join(BUILD, "inc", "bits"), exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = "/usr/include/x86_64-linux-gnu/c++/13/bits/c++config.h"
        txt = re.sub(r"(?m)^# define _GLIBCXX_EXTERN_TEMPLATE (1|-1)$", "# define _GLIBCXX_EXTERN_TEMPLATE 0", open(src).read())
        txt = re.sub(r"(?m)^#  define _GLIBCXX_TSAN 1$", "", txt)  # same code paths with and without the instrumentation
        dst = os.path.join(BUILD, "inc", "bits", "c++config.h")
        if not os.path.exists(dst) or open(dst).read() != txt:
            open(dst, "w").write(txt)
        r = sh(["make", "-C", os.path.join(ROOT, "engine")])
        if r.returncode:
            log(r.stdout)
            sys.exit(3)


_tree_hash = None


def tree_hash():
    """hash of everything a compilation may read from the repository and the runtime"""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for top in (os.path.join(REPO, "fly"), os.path.join(ROOT, "rt"), os.path.join(ROOT, "harness")):
            for d, _, fs in sorted(os.walk(top)):
                for f in sorted(fs):
                    if f.endswith((".hpp", ".h", ".inc")):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(open(p, "rb").read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def compile_one(job):
    src, kind, extra = job
    if kind == "bc":
        flags = BASE + ["-I" + os.path.join(BUILD, "inc"), "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-fsanitize=" + UB, "-fsanitize-trap=all", "-fno-access-control", "-c", "-emit-llvm"]
    else:
        flags = BASE + ["-O1", "-gline-tables-only", "-fsanitize=" + UB, "-fno-sanitize-recover=all", "-fno-access-control", "-fPIC", "-c"]
        if kind == "asan":
            flags.append("-fsanitize=address")
        if kind == "tsan":  # instrumentation only: rt/native_threads.cpp is its run-time
            flags += ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-I" + os.path.join(BUILD, "inc"), "-DFS_CFG=2"]
    if src.endswith("/rt/models.cpp"):
        flags.append("-fno-builtin")
    if "quiet" in extra:  # log points evaluate their arguments and emit nothing
        flags = ["-I" + os.path.join(ROOT, "rt", "quiet")] + flags
    flags += [x for x in extra if x != "quiet"]
    key = hashlib.sha256((" ".join(flags) + "\0" + src + "\0" + tree_hash()).encode() + open(src, "rb").read()).hexdigest()[:32]
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    out = os.path.join(BUILD, "cache", key + (".bc" if kind == "bc" else ".o"))
    if os.path.exists(out):
        os.utime(out)
        return out, 0.0, ""
    t = time.time()
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh([CXX] + flags + [src, "-o", tmp])
    if r.returncode:
        return None, time.time() - t, "compilation of %s (%s) failed:\n%s" % (src, kind, r.stdout[-4000:])
    os.replace(tmp, out)
    return out, time.time() - t, ""


def trim_cache():
    fs = glob.glob(os.path.join(BUILD, "cache", "*"))
    fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in fs), reverse=True)
    tot = 0
    for m, s, f in fs:
        tot += s
        if tot > 3 << 30:
            try:
                os.unlink(f)
            except OSError:
                pass


class Build:
    def __init__(self, check, work):
        self.check, self.work = check, work
        self.err = None

    def run(self):
        c = self.check
        native = "nat" if c.get("threads") else "asan"
        srcs = [os.path.join(ROOT, "harness", h) for h in c["harness"]] + [os.path.join(REPO, s) for s in c["sources"]]
        ex = c.get("cflags", []) + (["quiet"] if c.get("quiet") else [])
        jobs = [(s, "bc", ex) for s in srcs + [os.path.join(ROOT, "rt", "models.cpp")]]
        natsrc = srcs + [os.path.join(ROOT, "rt", "native.cpp")] + ([os.path.join(ROOT, "rt", "native_threads.cpp"), os.path.join(ROOT, "rt", "native_lib.cpp")] if c.get("threads") else [])
        jobs += [(s, "tsan" if c.get("threads") and (s in srcs or s.endswith("/native_lib.cpp")) else native, ex) for s in natsrc]
        with ThreadPoolExecutor(8) as ex_:
            res = list(ex_.map(compile_one, jobs))
        for o, t, e in res:
            if o is None:
                self.err = e
                return False
        nb = len(srcs) + 1
        self.bc = os.path.join(self.work, "prog.bc")
        r = sh(["llvm-link-18", "-o", self.bc] + [x[0] for x in res[:nb]])
        if r.returncode:
            self.err = r.stdout[-3000:]
            return False
        self.exe = os.path.join(self.work, "native")
        r = sh([CXX, "-pthread", "-rdynamic", "-fsanitize=undefined"] + ([] if native == "nat" else ["-fsanitize=address"]) + [x[0] for x in res[nb:]] + ["-ldl", "-o", self.exe])
        if r.returncode:
            self.err = r.stdout[-3000:]
            return False
        return True


def sh_group(cmd):
    """run in a process group of its own and leave nothing of it behind"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out = p.communicate()[0]
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        except PermissionError:
            pass
    return subprocess.CompletedProcess(cmd, p.returncode, out)


def native_run(exe, entry, inputs, params, work, tag, sched=None, timeout=20, valgrind=False):
    f = os.path.join(work, "in.%s" % tag)
    with open(f, "w") as o:
        for k, v in inputs.items():
            o.write("%s %d\n" % (k, v))
    scratch = tempfile.mkdtemp(prefix="nat.", dir=work)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=78", FS_SCRATCH=scratch, LC_ALL="C")
    cmd = ["prlimit", "--core=0"]
    cmd += [exe, entry, f] + ["%s=%d" % p for p in params.items()]
    if sched is not None:
        sf = f + ".sched"
        open(sf, "w").write(" ".join(map(str, sched)) + "\n")
        env["FS_SCHED"] = sf
        env["FS_TIMEOUTS"] = "200"
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=scratch)
        out, rc = r.stdout.decode("latin1"), r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("latin1"), "timeout"
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, out


def run_entry(b, check, ent, params, tier, budget, jobs):
    """one symbolic run; returns merged statistics"""
    tag = ent["entry"] + "".join("_%s%s" % p for p in sorted(params.items()))
    out = os.path.join(b.work, tag)
    os.makedirs(out, exist_ok=True)
    cmd = [os.path.join(BUILD, "flysym"), b.bc, ent["entry"], "--out", out, "--time", str(budget), "--jobs", str(jobs), "--steps", str(ent.get("steps", 3000000)), "--samples", str(ent.get("samples", 6)), "--mem", str(ent.get("mem", 2500))]
    for k, v in params.items():
        cmd += ["--param", "%s=%d" % (k, v)]
    if ent.get("refcounts"):
        cmd.append("--refcounts")
    for o in ("preempt", "timeouts", "rlimit", "maxpaths"):
        if o in ent:
            cmd += ["--" + o, str(ent[o] if not isinstance(ent[o], dict) else ent[o][tier])]
    if ent.get("leaks"):
        cmd.append("--leaks")
    t = time.time()
    r = sh_group(cmd)
    m = dict(entry=ent["entry"], params=params, wall=time.time() - t, rc=r.returncode, log=r.stdout[-3000:], cmd=cmd)
    num, reach, inc, fns, samples = {}, {}, {}, set(), []
    for f in glob.glob(out + "/part.*.json"):
        try:
            d = json.load(open(f))
        except Exception as e:
            m["rc"] = 3
            m["log"] += "\nunreadable part %s: %s" % (f, e)
            continue
        for k, v in d.items():
            if isinstance(v, (int, float)):
                num[k] = num.get(k, 0) + v
        for k, v in d["reach"].items():
            reach[k] = reach.get(k, 0) + v
        for k, v in d["incomplete_reasons"].items():
            inc[k] = inc.get(k, 0) + v
        fns.update(d["functions"])
        samples += d["samples"]
    for f in glob.glob(out + "/crash.*"):
        inc["engine helper process ended abnormally"] = inc.get("engine helper process ended abnormally", 0) + 1
    viol = []
    for f in sorted(glob.glob(out + "/viol.*.json")):
        try:
            viol.append(json.load(open(f)))
        except Exception:
            pass
    m.update(num=num, reach=reach, incomplete=inc, fns=fns, samples=samples, viol=viol)
    return m


def confirm(b, check, ent, params, v, idx):
    """replay a counterexample against the real code"""
    sched = v["sched"] if check.get("threads") else None
    inp = {}
    for k, x in v["inputs"].items():
        inp[k] = x
    rc, out = native_run(b.exe, ent["entry"], inp, params, b.work, "v%d" % idx, sched)
    if v["kind"] == "nontermination":
        return rc == "timeout" or rc not in (0, 43, 44), rc, out
    ok = rc not in (0, 2, 43, 44, "timeout")
    return ok, rc, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    setup()
    if a.check == "setup":
        # precompile the runtime models so that checks start faster
        compile_one((os.path.join(ROOT, "rt", "models.cpp"), "bc", []))
        return 0
    import checks
    check = checks.CHECKS[a.check]
    pid = check.get("property", a.check)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="run.%s." % a.check, dir=BUILD)
    rdir = os.path.join(ROOT, "replays", pid)
    try:
        return run(a, check, pid, tier, seed, work, rdir, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            log("kept", work)


def run(a, check, pid, tier, seed, work, rdir, t0):
    b = Build(check, work)
    if not b.run():
        log(b.err)
        print("ERROR property=%s: the sources could not be built: no verdict" % pid)
        return 3
    tb = time.time() - t0
    limit = check.get("time", {}).get(tier, 300 if tier == "quick" else 1500)
    runs = []
    for ent in check["entries"]:
        if a.entry and ent["entry"] != a.entry:
            continue
        ps = ent.get(tier) or ent.get("quick") or [{}]
        for p in ps:
            if (ent, p) not in runs:
                runs.append((ent, p))
    npar = check.get("parallel", 4)
    jobs = max(1, 8 // npar) if len(runs) >= npar else 8 // max(1, len(runs))
    if len(runs) >= npar:
        jobs = max(2, jobs)
    deadline = time.time() + limit

    def go(x):
        ent, p = x
        left = deadline - time.time()
        if left < 5:
            left = 5
        return run_entry(b, check, ent, p, tier, min(left, ent.get("budget", {}).get(tier, left)), jobs)

    with ThreadPoolExecutor(npar) as ex:
        res = list(ex.map(go, runs))
    rc = 0
    problems, nviol, known, unconf, nsamp, bad = [], 0, {}, [], 0, []
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    kf = [k for k in kf if k["property"] == pid and k.get("status") == "open"]
    seen = set()
    tot, reach, inc, fns = {}, {}, {}, set()
    cases = []
    jobsv, jobss = [], []
    for (ent, p), m in zip(runs, res):
        if m["rc"] not in (0, 1):
            problems.append("%s %s: engine exit %s: %s" % (ent["entry"], p, m["rc"], m["log"][-1500:]))
            continue
        for k, v in m["num"].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in m["reach"].items():
            reach[ent["entry"] + "/" + k] = reach.get(ent["entry"] + "/" + k, 0) + v
        for k, v in m["incomplete"].items():
            inc[k] = inc.get(k, 0) + v
        fns |= m["fns"]
        cases.append(dict(entry=ent["entry"], params=p, paths=m["num"].get("paths", 0), instructions=m["num"].get("instrs", 0), queries=m["num"].get("queries", 0), solver_s=round(m["num"].get("z3_time", 0), 3), wall_s=round(m["wall"], 2), incomplete=m["incomplete"]))
        if a.verbose:
            log("%-28s %-30s paths %7d instr %10d z3 %6d (%.1fs) wall %.1fs viol %d inc %s" % (ent["entry"], p, m["num"].get("paths", 0), m["num"].get("instrs", 0), m["num"].get("q_z3", 0), m["num"].get("z3_time", 0), m["wall"], len(m["viol"]), m["incomplete"] or ""))
        for v in m["viol"]:
            jobsv.append((ent, p, v))
        k = 3 if tier == "quick" else 12
        ss = m["samples"][:k] + m["samples"][-k:] if len(m["samples"]) > 2 * k else m["samples"]
        if not check.get("novalidate") and not ent.get("novalidate"):
            jobss += [(ent, p, s) for s in ss]
    # replay counterexamples and validate samples natively
    with ThreadPoolExecutor(8) as ex:
        vr = list(ex.map(lambda x: confirm(b, check, x[1][0], x[1][1], x[1][2], x[0]), list(enumerate(jobsv))))

        def val(x):
            i, (ent, p, s) = x
            r, o = native_run(b.exe, ent["entry"], s["inputs"], p, work, "s%d" % i, s["sched"] if check.get("threads") else None, timeout=60)
            obs = [int(z) for z in re.findall(r"^FS_OBS (\d+)$", o, re.M)]
            return r == 0 and obs == s["observed"], r, o, obs

        sr = list(ex.map(val, list(enumerate(jobss))))
    for (ent, p, s), (ok, r, o, obs) in zip(jobss, sr):
        nsamp += 1
        if not ok:
            bad.append("%s %s: inputs %s: native exit %s observed %s, symbolic %s\n%s" % (ent["entry"], p, s["inputs"], r, obs, s["observed"], o[-1500:]))
    nrep = 0
    for (ent, p, v), (ok, r, o) in zip(jobsv, vr):
        desc = "%s: %s [%s] in %s" % (v["kind"], v["msg"], v["loc"], ent["entry"])
        if not ok:
            unconf.append(desc + " inputs=%s native exit=%s" % (v["inputs"], r))
            if a.verbose:
                log("UNCONFIRMED", desc, "inputs", v["inputs"], "\n", v["stack"], "\n native exit", r, o[-800:])
            continue
        hit = None
        for k in kf:
            if k.get("entry") in (None, ent["entry"]) and re.search(k["match"], v["msg"]):
                hit = k
        if hit:
            known.setdefault(hit["id"], hit)
            continue
        nviol += 1
        key = (ent["entry"], v["kind"], v["msg"])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        rf = os.path.join(rdir, "cex%d.json" % nrep)
        nrep += 1
        json.dump(dict(property=pid, entry=ent["entry"], params=p, violation=v, native_exit=r, native_output=o[-3000:]), open(rf, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rf))
        print("  " + desc)
        print("  inputs: %s params: %s" % (json.dumps(v["inputs"])[:600], p))
        print("  native replay: exit %s %s" % (r, " | ".join(o.strip().splitlines()[-3:])[:400]))
        rc = 1
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # vacuity: every mark an entry declares must have been reached (unless violations stopped the search)
    if rc == 0 and not problems:
        for ent in check["entries"]:
            if a.entry and ent["entry"] != a.entry:
                continue
            for mk in ent.get("marks", []):
                if not reach.get(ent["entry"] + "/" + mk):
                    problems.append("vacuous: mark '%s' of %s was never reached" % (mk, ent["entry"]))
    if bad:
        problems.append("symbolic and native execution disagree on %d of %d samples; first: %s" % (len(bad), nsamp, bad[0]))
    for u in unconf:
        print("UNCONFIRMED (not reported): " + u[:500])
    code = sorted(x for x in (demangle_all(fns)) if "fly::" in x)
    ev = dict(property=pid, tier=tier, seed=seed, level=check.get("level", "model_checking"), wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=check.get("assumptions", []) + COMMON_ASSUMPTIONS,
              coverage=dict(
                  states=int(tot.get("paths", 0)), transitions=int(tot.get("instrs", 0)), traces_validated_against_impl=nsamp - len(bad) + len(jobsv) - len(unconf),
                  samples=[dict(entry=e["entry"], params=p, inputs=s["inputs"], observed=s["observed"]) for (e, p, s) in jobss[:8]] or [dict(note="no sample")],
                  bounds=check.get("bounds", {}).get(tier, check.get("bounds", {})) if isinstance(check.get("bounds"), dict) else check.get("bounds", ""),
                  outside_bounds=check.get("outside", ""),
                  functions_encoded=len(fns), repository_functions_encoded=code[:400],
                  queries=dict(total=int(tot.get("queries", 0)), by_model_reuse=int(tot.get("q_model", 0)), by_exact_byte_domain=int(tot.get("q_domain", 0)), by_interval=int(tot.get("q_interval", 0)), by_cache=int(tot.get("q_cache", 0)), z3=int(tot.get("q_z3", 0)), z3_sat=int(tot.get("z3_sat", 0)), z3_unsat=int(tot.get("z3_unsat", 0)), z3_unknown=int(tot.get("z3_unknown", 0)), z3_floating_point=int(tot.get("z3_fp", 0))),
                  solver_time_s=round(tot.get("z3_time", 0), 3), assertions_checked=int(tot.get("asserts", 0)), memory_accesses_checked=int(tot.get("mem_checks", 0)), forks=int(tot.get("forks", 0)), paths_excluded_by_assumptions=int(tot.get("paths_assumed_away", 0)), thread_switches=int(tot.get("thread_switches", 0)),
                  incomplete=inc, complete_within_bounds=not inc and not problems, reach=reach, cases=cases, unconfirmed=unconf[:20], known_findings=sorted(known), build_s=round(tb, 1)))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for x in problems:
        print("ERROR property=%s: %s" % (pid, x))
    if problems and rc == 0:
        rc = 3
    print("%s %s: %s, %d paths, %d instructions, %d queries (%d z3, %.1f s), %d native replays, %.1f s%s" % (pid, tier, "violated" if rc == 1 else "held" if rc == 0 else "no verdict", tot.get("paths", 0), tot.get("instrs", 0), tot.get("queries", 0), tot.get("q_z3", 0), tot.get("z3_time", 0), nsamp + len(jobsv), time.time() - t0, "; incomplete: %s" % inc if inc else ""))
    trim_cache()
    return rc


COMMON_ASSUMPTIONS = [
    "the repository's sources are compiled by clang 18 -O1 to LLVM IR; undefined behaviour that the optimiser removes is not seen",
    "binary-only parts of libstdc++/libc are replaced by the models in /verif/rt/models.cpp; heap allocation does not fail",
    "z3's verdicts are trusted; every model is re-evaluated against its query, and every counterexample is replayed natively",
]


def demangle_all(fns):
    r = subprocess.run(["c++filt"], input="\n".join(fns), stdout=subprocess.PIPE, text=True)
    return set(re.sub(r"\(.*", "", x) for x in r.stdout.split("\n"))


if __name__ == "__main__":
    rc = main()
    sys.exit(rc or 0)
