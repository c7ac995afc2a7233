#!/usr/bin/env python3
"""Runs a slice of the cases of one property of the python package and writes what was observed as JSON.

Same command line and protocol as main.cpp. The extension modules are built with ASan/UBSan; this interpreter runs
with the sanitizer runtime preloaded, so that memory errors behind the bindings end the process."""
import hashlib, json, mmap, os, random, signal, struct, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))


class CaseAbort(Exception):
    pass


class Ctx:
    def __init__(self, prop, seed, thorough, verbose, known):
        self.prop, self.seed, self.thorough, self.verbose, self.known = prop, seed, thorough, verbose, known
        self.idx = 0
        self.rng = None
        self.evaluations = 0
        self.events, self.sigs, self.samples = {}, set(), []
        self.violations, self.perkey = [], {}

    def fail(self, key, msg):
        n = self.perkey.get(key, 0)
        self.perkey[key] = n + 1
        if n < 3:
            self.violations.append(dict(key=key, msg=str(msg)[:4000], case=self.idx))
        if self.verbose:
            print("FAIL", self.idx, key, msg, file=sys.stderr)
        if key not in self.known:
            raise CaseAbort()

    def check(self, cond, key, msg=""):
        self.evaluations += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def eq(self, got, want, key, msg=""):
        self.evaluations += 1
        if got != want:
            self.fail(key, "%s: got %r, expected %r" % (msg() if callable(msg) else msg, got, want))

    def near(self, got, want, key, msg="", tol=1e-6):
        self.evaluations += 1
        if not abs(got - want) <= tol * max(1.0, abs(want)):
            self.fail(key, "%s: got %r, expected %r" % (msg() if callable(msg) else msg, got, want))

    def raises(self, fn, exc, key, msg=""):
        self.evaluations += 1
        try:
            r = fn()
        except exc:
            return
        except CaseAbort:
            raise
        except Exception as e:
            self.fail(key, "%s: raised %r instead of %s" % (msg, e, exc))
            return
        self.fail(key, "%s: returned %r instead of raising" % (msg, r))

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sig(self, *what):
        self.sigs.add(int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=8).digest(), "little"))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text)


def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    prop = a["--prop"]
    mod = __import__(prop.lower())
    thorough = a.get("--tier") == "thorough"
    if "--count" in a:
        print(mod.num_cases(thorough))
        print(mod.RULE)
        return 0
    known = set()
    if "--known" in a:
        known = {l.rstrip("\n") for l in open(a["--known"]) if l.strip()}
    c = Ctx(prop, int(a["--seed"]), thorough, "--verbose" in a, known)
    frm, to, step, cpu = int(a["--from"]), int(a["--to"]), int(a.get("--step", 1)), int(a.get("--cpu", 60))
    prog = None
    if "--progress" in a:
        fd = os.open(a["--progress"], os.O_RDWR | os.O_CREAT, 0o644)
        os.ftruncate(fd, 16)
        prog = mmap.mmap(fd, 16)
        os.close(fd)
    # a python level handler would not run while native code loops: the signal ends the process, and the runner
    # takes an end by SIGPROF as the limit being exceeded
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    done = 0

    def write_out():
        if "--out" not in a:
            return
        with open(a["--out"] + ".tmp", "w") as f:
            json.dump(dict(cases=done, evaluations=c.evaluations, events=c.events, samples=c.samples,
                           violations=c.violations), f)
        with open(a["--out"] + ".sigs", "wb") as f:
            for s in c.sigs:
                f.write(struct.pack("<Q", s))
        os.replace(a["--out"] + ".tmp", a["--out"])

    written = 0
    for i in range(frm, to, step):
        if prog is not None:
            prog[0:16] = struct.pack("<QQ", i, 1)
        c.idx = i
        c.rng = random.Random("%s/%d/%d" % (prop, c.seed, i))
        signal.setitimer(signal.ITIMER_PROF, cpu)
        try:
            mod.run(c)
        except CaseAbort:
            pass
        except Exception as e:
            try:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                c.fail("unexpected-exception:%s:%s" % (type(e).__name__, tb.name),
                       "%s\n%s" % (e, traceback.format_exc()[-2500:]))
            except CaseAbort:
                pass
        done += 1
        if len(c.violations) > written:
            write_out()
            written = len(c.violations)
        if len([k for k in c.perkey if k not in known]) >= 8:
            break
    signal.setitimer(signal.ITIMER_PROF, 0)
    if prog is not None:
        prog[0:16] = struct.pack("<QQ", max(frm, 0), 2)
    write_out()
    if c.verbose:
        print("cases %d evaluations %d distinct %d violations %s" %
              (done, c.evaluations, len(c.sigs), [v["key"] for v in c.violations]), file=sys.stderr)
        return 1 if c.violations else 0
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)  # no interpreter teardown: only what the cases did is judged
