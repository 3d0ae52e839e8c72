#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough]      decide one property (exit 0 held, 1 violated, 2 no answer)
run_check.py --setup                             build the worker once, to show that it builds offline
run_check.py --replay <file>                     run the case of a replay file again, written out in full

Builds the worker (harness/) against /repo's current tree, runs it, turns crashes, hangs, sanitizer and
Miri reports into violations after confirming them, and writes evidence/<property>.json."""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "harness")
TARGET = os.path.join(H, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
LEVEL = "exploration"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "MIRIFLAGS", "RUSTUP_TOOLCHAIN"):
    ENV.pop(k, None)


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def limits(cpu=None, mem=24):
    def f():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def sh(cmd, timeout, env=None, pre=None, cwd=H):
    """(return code or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=pre or os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def build(extra_env=None, toolchain=None, target=None, sub=("build",), profile="release"):
    # cargo decides by modification times whether the crate changed: do not rely on them
    for d in glob.glob(os.path.join(TARGET, "**", ".fingerprint", "mazth-*"), recursive=True) + glob.glob(os.path.join(TARGET, "**", ".fingerprint", "mon-*"), recursive=True):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(ENV, **(extra_env or {}))
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + list(sub) + ["--profile", profile, "--offline"] + (["--target", target] if target else [])
    rc, o, e = sh(cmd, 600, env)
    if rc != 0:
        raise NoAnswer("build failed: %s\n%s" % (" ".join(cmd), e[-3000:]))


def literals():
    """the numeric literals of the source under test, for the generators (a dictionary in the sense of fuzzing)"""
    xs = set()
    for f in glob.glob("/repo/lib/**/*.rs", recursive=True):
        if "/test/" in f:
            continue
        t = re.sub(r"//[^\n]*", "", open(f, errors="replace").read())
        for m in re.finditer(r"(?<![\w.])\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?", t):
            try:
                x = float(m.group(0).replace("_", ""))
            except ValueError:
                continue
            if 1e-17 <= x <= 1e15:
                xs.add(x)
    return ",".join(repr(x) for x in sorted(xs)[:600])


def mon(profile="release"):
    return os.path.join(TARGET, profile, "mon")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol = []          # (kind, label, text, index or None)
        self.stages = {}
        self.res = None
        self.t0 = time.time()
        self.dir = os.path.join(HERE, "replays")
        os.makedirs(self.dir, exist_ok=True)
        self.tmp = os.path.join(TARGET, "run-%s" % prop)
        os.makedirs(self.tmp, exist_ok=True)

    # -------- the main run
    def alone(self, idx, profile="release", cpu=20):
        """one case in its own process: (return code, text)"""
        rc, o, e = sh([mon(profile), "replay", self.prop, "--seed", str(self.seed), "--index", str(idx)], 120, pre=limits(cpu))
        return rc, o + e

    def died(self, rc):
        return rc is None or rc < 0 or rc in (101, 134, 139)

    def run(self, profile="release"):
        """the generated cases on one build: release has debug assertions and overflow checks, plain has neither"""
        budget = 90 if self.tier == "quick" else 620
        more = []
        if profile == "plain":
            budget, more = budget // 3, ["--plain", "1"]
        where = "" if profile == "release" else "without debug assertions: "
        for attempt in (1, 2):
            out, prog = os.path.join(self.tmp, "out.json"), os.path.join(self.tmp, "progress")
            for f in (out, prog):
                if os.path.exists(f):
                    os.unlink(f)
            rc, o, e = sh([mon(profile), "run", self.prop, "--seed", str(self.seed), "--tier", self.tier, "--limit", str(budget), "--out", out, "--progress", prog] + more, budget + 120, pre=limits())
            if rc in (0, 1, 2) and os.path.exists(out):
                res = json.load(open(out))
                for f in res["fails"]:
                    self.viol.append(("oracle", f["label"], where + f["detail"] + "".join("\n  " + n for n in f["notes"]), f["index"], profile))
                if not self.viol and (res["errors"] or res["missing"]):
                    raise NoAnswer("harness: errors %s; events never observed %s" % (res["errors"][:3], res["missing"]))
                if profile == "release":
                    self.res = res
                else:
                    self.stages["without_debug_assertions"] = {"cases": res["evaluations"], "distinct_nontrivial": res["distinct"], "answers_judged": res["judgements"], "answers_not_judged": res["unjudged"]}
                return
            m = re.search(r"STUCK (\d+)", o)
            if rc == 70 and m:
                idx = int(m.group(1))
                r, t = self.alone(idx, profile)
                if r is None or r == -signal.SIGXCPU or r == -signal.SIGKILL:
                    self.viol.append(("hang", "ends", where + "case %d does not end: 20 s of processor time alone (normally microseconds)" % idx, idx, profile))
                    return
                if r == 1:
                    self.viol.append(("oracle", "failing case", where + t, idx, profile))
                    return
                log("case %d was slow but ends alone; again" % idx)
                continue
            # the worker died: look for the case in the blocks that were being run
            log("worker ended with %s; looking for the case" % rc)
            blocks = []
            if os.path.exists(prog):
                blocks = sorted({int(x) for x in open(prog).read().split()})
            for b in blocks:
                sp = os.path.join(self.tmp, "seq")
                r, so, se = sh([mon(profile), "seq", self.prop, "--seed", str(self.seed), "--start", str(b), "--count", "256", "--progress", sp], 120, pre=limits(100))
                if self.died(r):
                    idx = int(open(sp).read().split()[0])
                    r2, t = self.alone(idx, profile)
                    if self.died(r2):
                        self.viol.append(("crash", "no crash", where + "case %d ends the process (%s): %s" % (idx, r2, t[-1500:]), idx, profile))
                        return
            log(e[-1500:])
        raise NoAnswer("worker ended with %s twice without a case that does so alone" % rc)

    # -------- C29: the same logs under ThreadSanitizer and Miri
    def tsan(self):
        n = 2000 if self.tier == "quick" else 60000
        # the standard library is instrumented too: its reference counts would be reported otherwise
        build({"RUSTFLAGS": "-Zsanitizer=thread"}, "+nightly", TRIPLE, ("build", "-Zbuild-std"))
        exe = os.path.join(TARGET, TRIPLE, "release", "mon")
        out = os.path.join(self.tmp, "tsan.json")
        env = dict(ENV, TSAN_OPTIONS="halt_on_error=1 exitcode=66")
        t = time.time()
        rc, o, e = sh([exe, "run", self.prop, "--seed", str(self.seed), "--cases", str(n), "--threads", "3", "--out", out], 400, env, limits(mem=None))
        if "WARNING: ThreadSanitizer" in e or rc == 66:
            self.viol.append(("tsan", "no data race", e[:4000], None, None))
            return
        if rc not in (0, 1):
            raise NoAnswer("ThreadSanitizer run ended with %s: %s" % (rc, e[-2000:]))
        d = json.load(open(out))
        for f in d["fails"]:
            self.viol.append(("oracle", f["label"], "under ThreadSanitizer: " + f["detail"], f["index"], "release"))
        self.stages["thread_sanitizer"] = {"logs": d["evaluations"], "concurrent_executions": d["events"].get("concurrent executions of the whole log", 0), "answers_compared": d["judgements"], "wall_s": round(time.time() - t, 1), "reports": 0}

    def miri(self, prop, start, count, key):
        env = dict(ENV, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-deterministic-floats")
        t = time.time()
        rc, o, e = sh(["cargo", "+nightly", "miri", "run", "--offline", "--", "seq", prop, "--seed", str(self.seed), "--start", str(start), "--count", str(count)], 600, env)
        if "Undefined Behavior" in e or "Data race" in e:
            self.viol.append(("miri", "no undefined behaviour", "%s cases %d+%d: %s" % (prop, start, count, e[-4000:]), None, None))
            return
        if rc == 1 and "SEQ-FAIL" in o:
            self.viol.append(("oracle", "monitors under Miri", "%s under Miri: %s" % (prop, o[-2000:]), int(re.search(r"SEQ-FAIL (\d+)", o).group(1)), "release"))
            return
        if rc is None:
            self.stages[key] = {"property": prop, "cases": 0, "note": "stopped after 600 s"}
            return
        if rc != 0:
            raise NoAnswer("Miri run ended with %s: %s" % (rc, e[-2000:]))
        self.stages[key] = {"workload": prop, "cases": count, "wall_s": round(time.time() - t, 1), "reports": 0}

    # -------- results
    def finish(self):
        cov = {}
        r = self.res
        if r:
            cov.update({
                "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct"], "rule": r["rule"],
                "samples": r["samples"] or [{"case": f["index"], "inputs": f["notes"][:6]} for f in r["fails"]],
                "answers_judged": r["judgements"], "answers_not_judged": r["unjudged"], "events_observed": r["events"],
            })
        else:
            cov.update({"evaluations": 0, "distinct_nontrivial": 0, "rule": "the run did not end", "samples": ["case %s" % v[3] for v in self.viol]})
        if self.stages:
            cov["instrumented_runs"] = self.stages
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        ev["violations"] = len(self.viol)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not self.viol:
            log("%s held: %s cases, %s answers judged, %.1f s" % (self.prop, cov["evaluations"], cov.get("answers_judged", 0), time.time() - self.t0))
            return 0
        seen = {}
        for v in self.viol:
            seen.setdefault((v[0], v[1]), v)
        for n, (kind, label, text, idx, profile) in enumerate(list(seen.values())[:5]):
            path = os.path.join(self.dir, "%s-seed%d-%d.json" % (self.prop, self.seed, n))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "kind": kind, "label": label, "index": idx, "build": profile, "literals": ENV.get("MON_DICT", ""), "detail": text,
                           "replay_cmd": "python3 run_check.py --replay %s" % os.path.relpath(path, HERE)}, f, indent=1)
            log("  [%s] %s: %s" % (kind, label, text[:600]))
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build()
        build(profile="plain")
        return 0
    if len(a) == 2 and a[0] == "--replay":
        d = json.load(open(a[1]))
        log(json.dumps({k: d[k] for k in d if k != "detail"}), "\n" + d["detail"])
        if d["index"] is None:
            return 1
        ENV["MON_DICT"] = d.get("literals", "")
        build(profile=d["build"])
        c = Check(d["property"], d["tier"], d["seed"])
        rc, t = c.alone(d["index"], d["build"])
        log(t)
        return 0 if rc == 0 else 1
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        ENV["MON_DICT"] = literals()
        build()
        c.run()
        if not c.viol:
            build(profile="plain")
            c.run("plain")
        if prop == "C29" and not c.viol:
            c.tsan()
            if not c.viol:
                c.miri("C29", 0, 1 if tier == "quick" else 12, "miri")
            if tier == "thorough":
                for k in range(1, 33):
                    p = "C%02d" % k
                    if p != "C29" and not c.viol and time.time() - c.t0 < 780:
                        c.miri(p, 0, 2, "miri " + p)
    except NoAnswer as e:
        log("NO ANSWER for %s: %s" % (prop, e))
        if not c.viol:
            return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
