#!/usr/bin/env python3
"""Runs the check of one property: check.py PROP quick|thorough
                                 check.py --replay FILE
                                 check.py --setup

Builds the harness against /repo's working tree (several builds with different
instrumentation), runs the cases in parallel worker processes, watches them
(death by signal, hang, reported violation), writes evidence/<PROP>.json.
exit 0: held on everything explored, 1: VIOLATION, 2: no answer.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
NCPU = max(2, os.cpu_count() or 2)

CONFIGS = ["plain", "nohtx", "vu64", "vu64n64", "u64only", "nodeu32", "lru", "lfu", "large", "short",
           "smallnode", "sdebug", "buflru", "bufhalf", "minimal", "prints", "vu64nohtx", "vu64plain", "vu64n32",
           "vu64straight", "vu64short", "shortlru", "nonc", "nouu", "myhash"]

# soft time limits of the case loop [s]
BUDGET = {"quick": 170, "thorough": 1500}

RULES = json.load(open(os.path.join(HERE, "rules.json")))


class NoAnswer(Exception):
    pass


def env_base():
    e = dict(os.environ)
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS",
              "RUSTC_WRAPPER", "CARGO_PROFILE_DEV_DEBUG", "ASAN_OPTIONS", "TSAN_OPTIONS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    return e


class Build:
    """one instrumented build of the code under test"""

    def __init__(self, name, profile="dbg", cfg=None, asan=False, miri=False, tsan=False):
        self.name, self.profile, self.cfg, self.asan, self.miri, self.tsan = name, profile, cfg, asan, miri, tsan
        self.tdir = os.path.join(TARGET, name)

    def feats(self):
        return ["--no-default-features", "--features", "cfg_" + self.cfg] if self.cfg else []

    def env(self):
        e = env_base()
        e["CARGO_TARGET_DIR"] = self.tdir
        if self.asan or self.miri or self.tsan:
            e["RUSTUP_TOOLCHAIN"] = "nightly"
        if self.tsan:
            # (vh_asan: leave the allocator and the system calls to the sanitizer)
            e["RUSTFLAGS"] = "-Zsanitizer=thread --cfg vh_asan"
            e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"
        if self.asan:
            e["RUSTFLAGS"] = "-Zsanitizer=address --cfg vh_asan"
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:symbolize=0:allocator_may_return_null=0"
        if self.miri:
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance"
        return e

    def cmd(self):
        """the command the arguments of vh are appended to"""
        if self.miri:
            return ["cargo", "miri", "run", "--offline", "-q"] + self.feats() + ["--"]
        sub = os.path.join(TRIPLE, self.profile) if self.asan or self.tsan else self.profile
        return [os.path.join(self.tdir, sub, "vh")]

    def build(self):
        if self.miri:
            # also builds the interpreter's standard library when it is not there
            c = self.cmd() + ["count", "C15", "quick"]
        else:
            c = ["cargo", "build", "--offline", "--profile", self.profile] + self.feats()
            if self.asan or self.tsan:
                c += ["--target", TRIPLE]
            if self.tsan:
                # the standard library has to be instrumented too
                c += ["-Zbuild-std"]
        r = subprocess.run(c, cwd=HARNESS, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise NoAnswer("the build %s failed:\n%s" % (self.name, r.stdout[-4000:]))

    def describe(self):
        d = {"dbg": "debug assertions, overflow checks and the standard library's unsafe preconditions",
             "release": "as released", "cfgq": "debug assertions and overflow checks"}[self.profile]
        if self.asan:
            d = "AddressSanitizer (nightly), " + d
        if self.tsan:
            d = "ThreadSanitizer (nightly, with the standard library), " + d
        if self.miri:
            d = "Miri (Stacked Borrows, validity, provenance)"
        if self.cfg:
            d += ", features cfg_" + self.cfg
        return d


DBG = Build("dbg")
REL = Build("release", "release")
# nodes of up to five keys: trees of few keys are deep
SMALL = Build("small", cfg="smallnode")
ASAN = Build("asan", asan=True)
TSAN = Build("tsan", tsan=True)
MIRI_S = Build("miri_smallnode", miri=True, cfg="smallnode")
MIRI_D = Build("miri_default", miri=True)


SMALL_PROPS = {"C01", "C02", "C03", "C06", "C08", "C09", "C10", "C16", "C18", "C25"}


class Run:
    def __init__(self, build, worker, workers, budget):
        self.build, self.worker, self.workers, self.budget = build, worker, workers, budget


def plan(prop, tier):
    b = BUDGET[tier]
    n = NCPU
    if prop == "C15":
        # three instrumentations over the same cases, Miri over its own small ones
        mb = 45 if tier == "quick" else 1200
        runs = [Run(DBG, w, n, b) for w in range(n)] + [Run(ASAN, w, n, b) for w in range(n)]
        runs += [Run(MIRI_S, w, n, mb) for w in range(n)]
        if tier == "thorough":
            runs += [Run(REL, w, n, b) for w in range(n)] + [Run(MIRI_D, w, n, mb) for w in range(n)]
        return runs
    if prop == "C23":
        runs = []
        for c in CONFIGS:
            k = 2 if tier == "quick" else n
            runs += [Run(Build("cfg_" + c, "cfgq", cfg=c), w, k, b) for w in range(k)]
        return runs
    if prop == "C24":
        # times are compared: only the build as released
        return [Run(REL, w, n, b) for w in range(n)]
    if prop == "C26":
        # every third case under ThreadSanitizer too; a case has threads of its own
        k = n // 2
        t = 3 * k if tier == "quick" else k
        return ([Run(TSAN, w, t, b) for w in range(k)] + [Run(DBG, w, k, b) for w in range(k)]
                + [Run(REL, w, 2 * k, b) for w in range(k)])
    d = max(1, n * 5 // 8)
    runs = [Run(DBG if w < d else REL, w, n, b) for w in range(n)]
    if prop in SMALL_PROPS:
        runs += [Run(SMALL, w, n, b) for w in range(0, n, 1 if tier == "thorough" else 2)]
    return runs


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > (6 << 30) and os.access(d, os.W_OK):
                return tempfile.mkdtemp(prefix="vh.", dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="vh.")


FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}


def read_events(path):
    ev = []
    try:
        for l in open(path, errors="replace"):
            try:
                ev.append(json.loads(l))
            except ValueError:
                pass
    except OSError:
        pass
    return ev


def known_messages(prop):
    out = []
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                f = dict(x.split("=", 1) for x in l[6:].split("|") for x in [x.strip()] if "=" in x)
                if f.get("property") == prop:
                    out.append(f["message"])
    except OSError:
        pass
    return out


def judge(rc, events, err, build):
    """what a finished worker says: (kind, case, message) or None"""
    last = None
    for e in events:
        if e["ev"] == "begin":
            last = e["case"]
    for e in events:
        if e["ev"] == "violation":
            return ("violation", e["case"], e["msg"], e.get("desc", ""))
        if e["ev"] == "error":
            return ("error", e["case"], e["msg"], e.get("desc", ""))
    if any(e["ev"] == "stuck" for e in events):
        return ("violation", last, "the case does not end: it used more than 150 s of processor time", "")
    if rc == 0 and any(e["ev"] == "end" for e in events):
        return None
    tail = err[-3000:]
    if build.miri and ("Undefined Behavior" in tail or "error: abnormal termination" in tail):
        i = err.find("error: Undefined Behavior")
        return ("violation", last, "Miri: " + (err[i:i + 1500] if i >= 0 else tail[-800:]), "")
    if "AddressSanitizer" in tail and "out of memory" not in tail and "failed to allocate" not in tail:
        i = err.find("ERROR: AddressSanitizer")
        return ("violation", last, err[i:i + 1200] if i >= 0 else tail, "")
    if "ThreadSanitizer" in err and ("WARNING: ThreadSanitizer" in err or "ERROR: ThreadSanitizer" in err):
        i = err.find(": ThreadSanitizer")
        return ("violation", last, err[max(0, i - 8):i + 1800], "")
    if rc < 0 and -rc in [int(s) for s in FATAL] and last is not None:
        return ("violation", last, "the process died by signal %d (%s): %s" % (-rc, signal.Signals(-rc).name, tail[-400:]), "")
    return ("error", last, "the worker ended with %s: %s" % (rc, tail[-1500:]), "")


def main_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    runs = plan(prop, tier)
    builds = []
    for r in runs:
        if all(b.name != r.build.name for b in builds):
            builds.append(r.build)
    os.makedirs(EVID, exist_ok=True)
    try:
        os.remove(os.path.join(EVID, prop + ".json"))
    except OSError:
        pass
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda b: b.build(), builds))
    built = time.time() - t0
    known = known_messages(prop)
    root = scratch_root()
    verdicts = []
    try:
        pending = list(enumerate(runs))
        active = []
        done = []
        stop = False
        hard = time.time() + BUDGET[tier] + (180 if tier == "quick" else 900)
        while pending or active:
            while pending and len(active) < NCPU and not stop:
                i, r = pending.pop(0)
                sc = os.path.join(root, "w%d" % i)
                os.makedirs(sc)
                out, err = os.path.join(root, "w%d.jsonl" % i), os.path.join(root, "w%d.err" % i)
                e = r.build.env()
                e["VH_KNOWN"] = "\n".join(known)
                left = max(5, int(min(r.budget, t0 + built + BUDGET[tier] - time.time())))
                args = r.build.cmd() + ["run", prop, tier, str(seed), str(r.worker), str(r.workers), out, sc, str(left)]
                p = subprocess.Popen(args, cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=open(err, "wb"),
                                     start_new_session=True)
                active.append((i, r, p, out, err, sc))
            if stop:
                pending = []
            time.sleep(0.05)
            for a in list(active):
                i, r, p, out, err, sc = a
                rc = p.poll()
                if rc is None:
                    if stop or time.time() > hard:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        active.remove(a)
                        if not stop:
                            verdicts.append((r, ("error", None, "the worker did not end in time", "")))
                        done.append((r, read_events(out)))
                    continue
                active.remove(a)
                ev = read_events(out)
                done.append((r, ev))
                v = judge(rc, ev, open(err, errors="replace").read(), r.build)
                shutil.rmtree(sc, ignore_errors=True)
                if v:
                    verdicts.append((r, v))
                    if v[0] == "violation":
                        stop = True
        return conclude(prop, tier, seed, t0, built, builds, done, verdicts, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_case(build, prop, tier, seed, case, root, limit=240):
    sc = os.path.join(root, "again")
    shutil.rmtree(sc, ignore_errors=True)
    os.makedirs(sc)
    out, err = os.path.join(root, "again.jsonl"), os.path.join(root, "again.err")
    args = build.cmd() + ["case", prop, tier, str(seed), str(case), out, sc]
    try:
        r = subprocess.run(args, cwd=HARNESS, env=build.env(), stdout=subprocess.DEVNULL, stderr=open(err, "wb"), timeout=limit)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = None
    ev = read_events(out)
    v = judge(rc if rc is not None else -9, ev, open(err, errors="replace").read(), build)
    shutil.rmtree(sc, ignore_errors=True)
    return v


def conclude(prop, tier, seed, t0, built, builds, done, verdicts, root):
    ends = [(r, e) for r, evs in done for e in evs if e["ev"] == "end"]
    digests, shapes, samples = set(), set(), []
    evals = skipped = 0
    sums, maxs, per = {}, {}, {}
    for r, e in ends:
        evals += e["evals"]
        skipped += e["skipped"]
        # for C23 the configuration is part of the case
        pre = r.build.name + ":" if prop == "C23" else ""
        digests.update(pre + str(d) for d in e["digests"])
        shapes.update(e["shapes"])
        if len(samples) < 8:
            samples += [r.build.name + " " + s for s in e["samples"][:1]]
        per[r.build.name] = per.get(r.build.name, 0) + e["evals"]
        for k, v in e["sum"].items():
            sums[k] = sums.get(k, 0) + v
        for k, v in e["max"].items():
            maxs[k] = max(maxs.get(k, 0), v)
    rule = RULES[prop]
    listed = [(r, e) for r, evs in done for e in evs if e["ev"] == "known"]
    for m in sorted({e["msg"][:300] for _, e in listed}):
        print("KNOWN-FINDING: property=%s %s" % (prop, m))
    viol = [(r, v) for r, v in verdicts if v[0] == "violation"]
    errs = [(r, v) for r, v in verdicts if v[0] == "error"]
    rc = 0
    vlist = []
    for r, v in viol[:1]:
        rc = 1
        again = run_case(r.build, prop, tier, seed, v[1], root) if v[1] is not None else None
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%s-%s-%s.json" % (prop, tier, seed, r.build.name, v[1]))
        rep = {"property": prop, "tier": tier, "seed": seed, "case": v[1], "build": r.build.name, "cfg": r.build.cfg,
               "message": v[2], "case_description": v[3],
               "reproduced_alone": bool(again and again[0] == "violation"),
               "replay": "python3 check.py --replay " + path}
        json.dump(rep, open(path, "w"), indent=1)
        print("%s: build %s, case %s: %s" % (prop, r.build.name, v[1], v[2][:1500]))
        if v[3]:
            print("   case: " + v[3][:600])
        print("   run again alone: " + (again[2][:300] if again and again[0] == "violation" else "not seen again" if again is None else str(again)[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        vlist.append(v[2][:500])
    if not viol and errs:
        rc = 2
        for r, v in errs[:3]:
            print("no answer: build %s, case %s: %s" % (r.build.name, v[1], v[2]))
    missing = [k for k in rule.get("required", []) if not sums.get(k)]
    if rc == 0 and (evals == 0 or not digests or missing):
        rc = 2
        print("no answer: nothing observed (%d cases, missing counters %s)" % (evals, missing))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": rule.get("level", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(digests),
            "rule": rule["rule"],
            "samples": samples[:8],
            "cases_skipped_for_time": skipped,
            "cases_per_build": per,
            "builds": {b.name: b.describe() for b in builds},
            "observed": dict(sorted(sums.items())),
            "observed_max": dict(sorted(maxs.items())),
            "distinct_states_or_schedules": len(shapes),
            "state_rule": rule.get("state_rule", "distinct digests of structural states the monitor noted"),
            "known_findings_seen": len(listed),
        },
        "assumptions": rule.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(vlist),
    }
    if vlist:
        ev["violation_messages"] = vlist
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    if rc == 0:
        print("%s held: %d cases (%d distinct) in %.0f s (%.0f s building), %d skipped for time" %
              (prop, evals, len(digests), time.time() - t0, built, skipped))
    return rc


def by_name(name, cfg):
    for b in (DBG, REL, SMALL, ASAN, TSAN, MIRI_S, MIRI_D):
        if b.name == name:
            return b
    return Build(name, "cfgq", cfg=cfg)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            with ThreadPoolExecutor(2) as ex:
                list(ex.map(lambda b: b.build(), [DBG, REL]))
            return 0
        if a[:1] == ["--replay"]:
            r = json.load(open(a[1]))
            b = by_name(r["build"], r.get("cfg"))
            b.build()
            root = scratch_root()
            try:
                v = run_case(b, r["property"], r["tier"], r["seed"], r["case"], root, 3000)
            finally:
                shutil.rmtree(root, ignore_errors=True)
            if v and v[0] == "violation":
                print(v[2])
                print("VIOLATION property=%s replay=%s" % (r["property"], a[1]))
                return 1
            print("the case does not fail" if v is None else str(v))
            return 0 if v is None else 2
        prop, tier = a[0], (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
        return main_check(prop, tier)
    except NoAnswer as e:
        print("no answer: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
