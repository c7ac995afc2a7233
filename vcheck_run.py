#!/usr/bin/env python3
"""Decides one property: rebuilds /repo's working tree with sanitizers, runs the monitors, reports.

  vcheck_run.py --setup                 build everything (prebuild for the checks)
  vcheck_run.py <ID> [--tier T]         run the check of one property
  vcheck_run.py --replay <file>         run the single case of a reported violation again
Exit: 0 held on everything explored; 1 VIOLATION printed; 2 the check itself failed.
"""
import argparse, array, fcntl, json, os, re, subprocess, sys, threading, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NPROC = min(8, os.cpu_count() or 8)
CPU_LIMIT = {"quick": 90, "thorough": 300}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_build():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="6G",
             CCACHE_SLOPPINESS="include_file_ctime,include_file_mtime,time_macros,locale",
             CCACHE_TEMPDIR=os.path.join(BUILD, "cctmp"), LANG="C.UTF-8", HOME=BUILD)
    return e


def build(san, targets):
    """Incremental build; returns the directory with the executables."""
    bdir = os.path.join(BUILD, san)
    os.makedirs(bdir, exist_ok=True)
    e = env_build()
    with open(os.path.join(BUILD, "lock." + san), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        args = ["cmake", "-S", VERIF, "-B", bdir, "-G", "Ninja", "-DSAN=" + san,
                "-DCMAKE_CXX_COMPILER=/usr/bin/clang++", "-DLL2_ROOT=" + os.environ.get("LL2_ROOT", "/repo")]
        if os.path.exists("/usr/bin/ccache"):
            args.append("-DCMAKE_CXX_COMPILER_LAUNCHER=/usr/bin/ccache")
        r = subprocess.run(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-3000:])
            raise SystemExit(2)
        r = subprocess.run(["ninja", "-C", bdir, "-j", str(NPROC)] + targets, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            with open(os.path.join(BUILD, "build.log"), "w") as f:
                f.write(r.stdout)
            log(r.stdout[-6000:])
            raise SystemExit(2)
    return os.path.join(bdir, "bin")


def checks():
    return json.load(open(os.path.join(VERIF, "checks.json")))


def setup():
    allc = checks()
    sans = {}
    for c in allc.values():
        for r in c["runs"]:
            if r.get("target"):
                sans.setdefault(r["san"], set()).add("h_" + r["target"])
    for s, t in sorted(sans.items()):
        t0 = time.time()
        build(s, sorted(t))
        log("built", s, sorted(t), "%.0fs" % (time.time() - t0))


def known_keys(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {k["key"]: k["what"] for k in json.load(open(p))["known"] if k["property"] == prop}


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)")


def crash_key(stderr, rc):
    """A stable key for a crash: kind of error and innermost function of the code under test."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", stderr)
    if m:
        kind = "asan-" + m.group(1)
    elif "WARNING: ThreadSanitizer:" in stderr:
        kind = "tsan-" + re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", stderr).group(1).strip().replace(" ", "-")
    else:
        m = re.search(r"runtime error: (.{0,60})", stderr)
        if m:
            kind = "ubsan-" + re.sub(r"[-+0-9.e]+", "N", m.group(1)).strip().replace(" ", "-")[:40]
        else:
            m = re.search(r"Assertion `(.{0,80}?)' failed", stderr)
            if m:
                kind = "assert-" + m.group(1)
            elif "terminate called" in stderr:
                m = re.search(r"instance of '([^']+)'", stderr)
                kind = "terminate-" + (m.group(1) if m else "")
            elif rc < 0:
                kind = "signal%d" % -rc
            else:
                kind = "exit%d" % rc
    fn = ""
    root = os.path.realpath(os.environ.get("LL2_ROOT", "/repo"))
    for m in FRAME.finditer(stderr):
        if m.group(2).startswith(root + "/"):
            fn = m.group(1).replace("operator()", "operator_call")
            fn = re.sub(r"<.*>", "", re.sub(r"\(.*", "", fn))
            break
    return ("crash:%s:%s" % (kind, fn)).replace(" ", "_"), kind


def command(run):
    """builds what a run needs and returns (argv prefix, environment of the child)"""
    bins = build(run["san"], ["h_" + run["target"]])
    e = sanenv(run["san"])
    if run["target"] != "py":
        return [os.path.join(bins, "h_" + run["target"])], e
    rt = subprocess.run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True)
    e.update(LD_PRELOAD=rt.stdout.strip(), PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPATH=os.path.join(BUILD, run["san"], "python"))
    return ["/usr/bin/python3", os.path.join(VERIF, "harness", "py_driver.py")], e


def sanenv(san):
    e = dict(os.environ)
    e["LANG"] = "C.UTF-8"
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    base = ("external_symbolizer_path=%s:" % sym) if sym else ""
    e["ASAN_OPTIONS"] = base + "abort_on_error=1:detect_leaks=0:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1:print_summary=1"
    e["UBSAN_OPTIONS"] = base + "print_stacktrace=1"
    e["TSAN_OPTIONS"] = base + "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
    return e


def run_one(exe, env, prop, seed, tier, san, frm, to, step, wd, tag, cpu, known_file, wall):
    out = os.path.join(wd, "out.%s.json" % tag)
    prog = os.path.join(wd, "prog.%s" % tag)
    for f in (out, out + ".sigs", prog):
        if os.path.exists(f):
            os.unlink(f)
    cmd = exe + ["--prop", prop, "--seed", str(seed), "--tier", tier, "--from", str(frm), "--to", str(to),
           "--step", str(step), "--out", out, "--progress", prog, "--cpu", str(cpu), "--known", known_file]
    errf = os.path.join(wd, "err.%s" % tag)
    with open(errf, "wb") as ef:
        pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=wd)
        try:
            rc = pr.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
            rc = "timeout"
    if rc == -27:  # SIGPROF: the CPU limit of the python driver
        rc = 97
    data = json.load(open(out)) if os.path.exists(out) else None
    sigs = set()
    if os.path.exists(out + ".sigs"):
        a = array.array("Q")
        a.frombytes(open(out + ".sigs", "rb").read())
        sigs = set(a)
    cur, state = None, 0
    if os.path.exists(prog):
        a = array.array("Q")
        a.frombytes(open(prog, "rb").read()[:16])
        if len(a) == 2:
            cur, state = a
    err = open(errf, "rb").read()[-60000:].decode("utf-8", "replace")
    return rc, data, sigs, cur, state, err


class Result:
    def __init__(self):
        self.cases = self.evaluations = 0
        self.sigs = set()
        self.events = {}
        self.samples = []
        self.violations = []  # dict key,msg,case,run
        self.errors = []
        self.lock = threading.Lock()

    def merge(self, data, sigs, run):
        with self.lock:
            self.sigs |= sigs
            if not data:
                return
            self.cases += data["cases"]
            self.evaluations += data["evaluations"]
            for k, v in data["events"].items():
                self.events[k] = self.events.get(k, 0) + v
            self.samples += data["samples"][:2]
            for v in data["violations"]:
                self.violations.append(dict(v, run=run))


def shard(res, exe, env, run, seed, tier, frm, to, step, wd, tag, known, known_file, deadline):
    prop, san = run["prop"], run["san"]
    cpu = CPU_LIMIT[tier]
    crashes = 0
    while frm < to:
        left = deadline - time.time()
        if left < 5:
            with res.lock:
                res.errors.append("wall-clock budget exhausted before all cases ran (%s)" % tag)
            return
        rc, data, sigs, cur, state, err = run_one(exe, env, prop, seed, tier, san, frm, to, step, wd, tag, cpu,
                                                  known_file, left)
        res.merge(data, sigs, run)
        if rc == 0:
            return
        if rc == "timeout" or cur is None or rc == 2:
            with res.lock:
                res.errors.append("shard %s ended with %s: %s" % (tag, rc, err[-500:]))
            return
        case = cur
        if rc == 97:  # CPU limit of one case: run that case alone once more before calling it a hang
            rc2, d2, s2, c2, st2, e2 = run_one(exe, env, prop, seed, tier, san, case, case + 1, 1, wd, tag + "h", 2 * cpu,
                                               known_file, max(30, deadline - time.time()))
            if rc2 == 97:
                key, msg = "hang:" + run.get("hangkey", prop), "case used more than %d s CPU twice" % cpu
                res.violations.append(dict(key=key, msg=msg, case=case, run=run))
            elif rc2 == 0:
                res.merge(d2, s2, run)
            else:
                with res.lock:
                    res.errors.append("case %d inconclusive (slow once, then rc %s)" % (case, rc2))
        else:
            key, kind = crash_key(err, rc)
            m = re.search(r"(==\d+==ERROR|WARNING: ThreadSanitizer|runtime error|Assertion|terminate called)", err)
            msg = err[m.start():][:3500] if m else err[-1500:]
            with res.lock:
                res.violations.append(dict(key=key, msg=msg, case=case, run=run))
        crashes += 1
        if crashes >= 40 or len([v for v in res.violations if v["key"] not in known]) >= 6:
            return
        frm = case + step


def run_check(prop, tier, seed):
    t0 = time.time()
    cfg = checks()[prop]
    known = known_keys(prop)
    res = Result()
    wd = os.path.join(BUILD, "work", prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.makedirs(EVID, exist_ok=True)
    known_file = os.path.join(wd, "known")
    with open(known_file, "w") as f:
        f.write("".join(k + "\n" for k in known))
    deadline = t0 + (860 if tier == "quick" else 6 * 3600)
    rules, assumptions = [], cfg.get("assumptions", [])
    build_s = 0.0
    for run in cfg["runs"]:
        run.setdefault("prop", prop)
        tb = time.time()
        exe, env = command(run)
        build_s += time.time() - tb
        r = subprocess.run(exe + ["--prop", run["prop"], "--tier", tier, "--count", "1"], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            log(r.stdout, r.stderr[-3000:])
            # the library cannot even be loaded: a crash in a static initialiser is a violation of any property
            key, _ = crash_key(r.stderr, r.returncode)
            res.violations.append(dict(key=key, msg=r.stderr[-2000:], case=0, run=run))
            continue
        lines = r.stdout.split("\n", 1)
        n = int(lines[0])
        rules.append(lines[1].strip())
        nsh = max(1, min(run.get("procs", NPROC), n))
        ths = []
        for k in range(nsh):
            t = threading.Thread(target=shard, args=(res, exe, env, run, seed, tier, k, n, nsh, wd,
                                                     "%s.%s.%d" % (run["san"], run["prop"], k), known, known_file,
                                                     deadline))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
    # verdict
    bykey = {}
    for v in res.violations:
        bykey.setdefault(v["key"], v)
    new = [k for k in bykey if k not in known]
    status = 0
    for k, what in known.items():
        seen = " (observed)" if k in bykey else ""
        print("KNOWN-FINDING: property=%s %s [%s]%s" % (prop, what, k, seen))
    nviol = 0
    for k in sorted(new):
        v = bykey[k]
        nviol += 1
        path = os.path.join(EVID, "replay-%s-%d.json" % (prop, nviol))
        json.dump(dict(property=prop, key=k, message=v["msg"], case=v["case"], seed=seed, tier=tier, run=v["run"],
                       how="python3 vcheck_run.py --replay " + path), open(path, "w"), indent=1)
        log("---- %s: %s (case %s)\n%s" % (prop, k, v["case"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    if status == 0 and res.errors:
        log("\n".join(res.errors))
        status = 2
    if status == 0 and (res.evaluations == 0 or len(res.sigs) < 2):
        log("nothing was observed")
        status = 2
    minev = cfg.get("min_events", {})
    for e, n in minev.items():
        if status == 0 and res.events.get(e, 0) < n:
            log("too few observations of %s: %d < %d" % (e, res.events.get(e, 0), n))
            status = 2
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=res.evaluations, distinct_nontrivial=len(res.sigs), rule=" | ".join(rules),
                            samples=res.samples[:6] or ["none"], cases=res.cases, events=res.events,
                            build_s=round(build_s, 1)),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    shutil.rmtree(wd, ignore_errors=True)
    log("%s %s seed %d: %s; %d cases, %d evaluations, %d distinct, build %.0fs, %.0fs total" %
        (prop, tier, seed, {0: "held", 1: "VIOLATED", 2: "ERROR"}[status], res.cases, res.evaluations, len(res.sigs),
         build_s, time.time() - t0))
    return status


def replay(path):
    r = json.load(open(path))
    run = r["run"]
    exe, env = command(run)
    cmd = exe + ["--prop", run["prop"], "--seed", str(r["seed"]), "--tier", r["tier"], "--from", str(r["case"]), "--to",
           str(r["case"] + 1), "--verbose", "1", "--cpu", "200"]
    wd = os.path.join(BUILD, "work", "replay")
    os.makedirs(wd, exist_ok=True)
    return subprocess.run(cmd, env=env, cwd=wd).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.setup:
        setup()
        return 0
    if a.replay:
        return replay(a.replay)
    return run_check(a.prop, a.tier, a.seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # an error of the check is neither 0 nor 1
        import traceback
        traceback.print_exc()
        sys.exit(2)
