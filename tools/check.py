#!/usr/bin/env python3
"""check.py <property> : build the monitored drivers from /repo's working tree, run them, judge, write evidence.

Exit 0: held on everything observed.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Exit 2: the check could not decide (tree or harness does not build, nothing observed).
Environment: VERIF_TIER (quick|thorough), VERIF_SEED, VERIF_REPO (default /repo, for experiments only),
VERIF_CASES (multiplier for case counts, default 1), VERIF_JOBS.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from plan import DRIVERS, CONFIGS, PLAN, RULES, ASSUME   # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or max(2, min(8, os.cpu_count() or 2))
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:malloc_context_size=8"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=77"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:history_size=4"
ENV["LC_ALL"] = "C"
SHARD_WALL = 420
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
MULT = float(os.environ.get("VERIF_CASES", "1"))
BUDGET = 700 if TIER == "quick" else 6 * 3600


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Undecided(Exception):
    pass


class Violated(Exception):
    def __init__(self, kind, text, cmd, exe):
        super().__init__(kind)
        self.kind, self.text, self.cmd, self.exe = kind, text, cmd, exe


# ------------------------------------------------------------------ building
def compile_cmd(driver, part, config, out):
    c = CONFIGS[config]
    src = os.path.join(VERIF, "harness", "drv_%s.cpp" % driver)
    return [c["cxx"]] + c["flags"] + ["-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-DPART=%d" % part, src, "-o", out] + c.get("libs", [])


def run_compiler(cmd):
    for attempt in (0, 1):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, errors="replace")
        bad = p.returncode != 0 and ("internal compiler error" in p.stdout or "Killed" in p.stdout or "No space left" in p.stdout or p.returncode < 0)
        if not bad:
            return p
    raise Undecided("compiler could not run: " + p.stdout[-400:])


PROBE = """#include <nestl/vector.hpp>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/algorithm.hpp>
#include <nestl/class_operations.hpp>
#include <nestl/default_operation_error.hpp>
int main() { nestl::vector<int> v; nestl::list<int> l; nestl::set<int> s; nestl::default_operation_error e; v.push_back_nothrow(e, 1); l.push_back_nothrow(e, 1); s.insert_nothrow(e, 1); return v.size() + l.size() + s.size() == 3 ? 0 : 1; }
"""


def probe(config, tmp):
    """Does the library compile at all in this configuration (basic use only)?"""
    src = os.path.join(tmp, "probe.cpp")
    with open(src, "w") as f:
        f.write("#include <memory>\n#include <functional>\n#include <iterator>\n#include <limits>\n#include <utility>\n" + PROBE)
    c = CONFIGS[config]
    return run_compiler([c["cxx"]] + c["flags"] + ["-I" + REPO, src, "-fsyntax-only"]).returncode == 0


def build(todo, tmp):
    exes = {}

    def one(key):
        driver, part, config = key
        out = os.path.join(tmp, "%s_%d_%s" % key)
        cmd = compile_cmd(driver, part, config, out)
        p = run_compiler(cmd)
        return key, out, cmd, p

    order = sorted(todo, key=lambda k: -DRIVERS[k[0]].get("weight", 1))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for key, out, cmd, p in ex.map(one, order):
            if p.returncode != 0:
                if not probe(key[2], tmp):
                    raise Undecided("the library itself does not compile in configuration %s:\n%s" % (key[2], p.stdout[:3000]))
                raise Violated("compile", "operations of the public interface no longer compile (%s, configuration %s)\n%s" % (key[0], key[2], p.stdout[:6000]), cmd, None)
            exes[key] = out
    return exes


# ------------------------------------------------------------------ running
class Pool:
    def __init__(self):
        self.procs, self.lock, self.stop = set(), threading.Lock(), False

    def run(self, cmd, wall):
        with self.lock:
            if self.stop:
                return None
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=wall)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = "wall"
        finally:
            with self.lock:
                self.procs.discard(p)
        return rc, out.decode("utf-8", "replace")

    def kill(self):
        with self.lock:
            self.stop = True
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass


CASE_RE = re.compile(r"^CASE driver=(\S+) mode=(\S*) type=(.*) seed=(\d+) case=(\d+)", re.M)


class Result:
    def __init__(self):
        self.evaluations = self.ops = self.faults = self.foreign = self.incon = 0
        self.events, self.sigs, self.steps, self.samples, self.digests = {}, set(), set(), [], {}
        self.runs = 0

    def take(self, out, label):
        m = re.search(r"^EVIDENCE (\{.*\})$", out, re.M)
        if not m:
            return False
        e = json.loads(m.group(1))
        self.runs += 1
        self.evaluations += e["evaluations"]
        self.ops += e["ops"]
        self.faults += e["faults_fired"]
        for k, v in e["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        if len(self.samples) < 6 and e["samples"]:
            self.samples.append("[%s] %s" % (label, e["samples"][0]))
        base = label.split("/")[0]
        m = re.search(r"^CASES(.*)$", out, re.M)
        if m:
            self.sigs.update((label, s) for s in m.group(1).split())
        m = re.search(r"^STEPS(.*)$", out, re.M)
        if m:
            self.steps.update((base, s) for s in m.group(1).split())
        return True


def shard_args(prop, job, lo, hi, extra=()):
    return ["--prop", prop, "--seed", str(SEED), "--mode", job["mode"], "--from", str(lo), "--to", str(hi), "--scale", str(job.get("scale", 1))] + list(extra)


def judge_case(pool, exe, prop, job, n, rc, out):
    """A run ended abnormally at case n: confirm it alone."""
    cmd = [exe] + shard_args(prop, job, n, n + 1)
    again = pool.run(cmd, SHARD_WALL)
    return cmd, again


def run_shard(pool, prop, job, exe, label, lo, hi, res, lock, t0):
    at, restarts = lo, 0
    while at < hi:
        if time.time() - t0 > BUDGET:
            with lock:
                res.incon += 1
            return
        r = pool.run([exe] + shard_args(prop, job, at, hi, job.get("args", ())), SHARD_WALL)
        if r is None:
            return
        rc, out = r
        if job.get("digest") and rc in (0, 11):
            with lock:
                for m in re.finditer(r"^DIGEST (\d+) (.*) ([0-9a-f]{16})$", out, re.M):
                    res.digests[(label, int(m.group(1)), m.group(2))] = m.group(3)
        if rc == 0:
            with lock:
                if not res.take(out, label):
                    raise Undecided("driver reported no evidence: %s" % label)
            return
        m = CASE_RE.search(out)
        n = int(m.group(5)) if m else None
        if pool.stop:
            return
        if rc == 20:
            raise Undecided("bad driver options")
        if rc == 11:
            with lock:
                res.foreign += 1
                if job.get("digest") and m:
                    # a history that another property's monitor ends in one build must end the same way in all
                    t = re.search(r"^MONITOR-FOREIGN (tags=\S+)", out, re.M)
                    res.digests[(label, n, m.group(3))] = "stopped by a monitor " + (t.group(1) if t else "")
            restarts += 1
            if restarts > 40 or n is None:
                return
            at = n + 1
            continue
        if rc == "wall":
            with lock:
                res.incon += 1
            return
        cmd = [exe] + shard_args(prop, job, n if n is not None else at, (n + 1) if n is not None else hi, job.get("args", ()))
        if rc in (13, -9, 137):
            # possible hang or memory exhaustion: believe it only if it happens again on the same case
            r2 = pool.run(cmd, SHARD_WALL)
            if r2 is None:
                return
            if r2[0] in (0, 11, "wall"):
                with lock:
                    res.incon += 1
                if n is None:
                    return
                at = n + 1
                continue
            rc, out = r2
        if n is not None and rc == 10:
            r2 = pool.run(cmd, SHARD_WALL)
            if r2 and r2[0] == 10:
                out = r2[1]
        kind = {10: "monitor", 13: "does not terminate", 12: "signal"}.get(rc, "crash or sanitizer report (exit %s)" % rc)
        raise Violated(kind, out[-12000:], cmd, exe)


def run_jobs(prop, tmp):
    jobs = [j for j in PLAN[prop] if TIER == "thorough" or not j.get("thorough_only")]
    todo = set()
    for j in jobs:
        for cfg in j["configs"]:
            for part in DRIVERS[j["driver"]]["parts"][CONFIGS[cfg]["exc"]]:
                if "parts" in j and part not in j["parts"]:
                    continue
                todo.add((j["driver"], part, cfg))
    t0 = time.time()
    exes = build(todo, tmp)
    tb = time.time() - t0
    pool, res, lock = Pool(), Result(), threading.Lock()
    shards = []
    for j in jobs:
        cases = j["quick"] if TIER == "quick" else j.get("thorough", j["quick"] * 20)
        cases = max(1, int(cases * MULT))
        for cfg in j["configs"]:
            for part in DRIVERS[j["driver"]]["parts"][CONFIGS[cfg]["exc"]]:
                key = (j["driver"], part, cfg)
                if key not in exes or ("parts" in j and part not in j["parts"]):
                    continue
                step = max(1, min(cases, j.get("shard", max(1, cases // 4))))
                lo = 0
                while lo < cases:
                    hi = min(cases, lo + step)
                    shards.append((j, exes[key], "%s%d %s/%s" % (j["driver"], part, j["mode"], cfg), lo, hi))
                    lo = hi
    # long shards first
    shards.sort(key=lambda s: -(s[0].get("cost", 1) * (s[4] - s[3])))
    bad = None
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(run_shard, pool, prop, j, exe, label, lo, hi, res, lock, t0) for j, exe, label, lo, hi in shards]
        for f in cf.as_completed(futs):
            try:
                f.result()
            except (Violated, Undecided) as e:
                if bad is None or (isinstance(bad, Undecided) and isinstance(e, Violated)):
                    bad = e
                pool.kill()
    if bad is not None:
        raise_with(bad, res)
    compare_digests(res, jobs)
    return res, tb, len(shards), sorted("%s part %d [%s]" % k for k in todo)


def raise_with(e, res):
    e.res = res
    raise e


def compare_digests(res, jobs):
    if not res.digests:
        return
    by = {}
    for (label, n, typ), d in res.digests.items():
        base, cfg = label.rsplit("/", 1)
        if typ.startswith(("vector", "list", "set")) or base.endswith(" storm") and base.startswith("sptr"):
            # the selected containers offer different operations with and without exceptions, and elements cannot throw without
            base += " (%s)" % CONFIGS[cfg]["exc"]
        by.setdefault((base, n, typ), {})[cfg] = d
    compared = 0
    for k in sorted(by):
        m = by[k]
        if len(m) < 2:
            continue
        compared += 1
        if len(set(m.values())) > 1:
            drv, part, mode = re.match(r"([a-z]+)(\d+) (\S+)", k[0]).groups()
            how = "".join("\nrebuild:  %s\nre-run:   VF_TRACE=1 /tmp/replay_%s --prop C17 --seed %d --mode %s --from %d --to %d --digest 1" % (
                " ".join(compile_cmd(drv, int(part), cfg, "/tmp/replay_" + cfg)), cfg, SEED, mode, k[1], k[1] + 1) for cfg in sorted(m))
            e = Violated("builds disagree", "history %d of %s (%s) is observed differently by different builds:\n%s\n%s" % (k[1], k[2], k[0], "\n".join("  %-14s %s" % x for x in sorted(m.items())), how), ["see below"], None)
            raise_with(e, res)
    res.events["histories compared across builds"] = compared


# ------------------------------------------------------------------ evidence, verdict
def write_evidence(prop, res, wall, violations, extra):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {
        "evaluations": res.evaluations if res else 0,
        "distinct_nontrivial": len(res.sigs) if res else 0,
        "rule": RULES[prop],
        "samples": (res.samples if res else []),
    }
    if res:
        cov["library_calls_observed"] = res.ops
        cov["distinct_steps"] = len(res.steps)
        cov["faults_injected"] = res.faults
        cov["events_observed"] = dict(sorted(res.events.items()))
        cov["runs_inconclusive"] = res.incon
        cov["histories_cut_short_by_another_property"] = res.foreign
    cov.update(extra)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": PLAN_LEVEL(prop), "coverage": cov, "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def PLAN_LEVEL(prop):
    from plan import LEVEL
    return LEVEL[prop]


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        log("usage: check.py <property id>")
        return 2
    prop = sys.argv[1]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="nestl-verif-%s-" % prop)
    res = None
    try:
        res, tb, nsh, builds = run_jobs(prop, tmp)
        if res.evaluations == 0 or not res.sigs:
            raise Undecided("nothing was observed")
        for ev in need_events(prop):
            if not res.events.get(ev):
                raise Undecided("event '%s' was never observed" % ev)
        write_evidence(prop, res, time.time() - t0, 0, {"builds": builds, "build_s": round(tb, 1), "processes": nsh})
        print("OK property=%s evaluations=%d calls=%d distinct=%d faults=%d inconclusive=%d wall=%.1fs" % (prop, res.evaluations, res.ops, len(res.sigs), res.faults, res.incon, time.time() - t0))
        return 0
    except Violated as v:
        for rx, what in known_findings(prop):
            if rx.search(v.text):
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
                write_evidence(prop, getattr(v, "res", res), time.time() - t0, 0, {})
                return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%d.txt" % (prop, SEED))
        with open(path, "w") as f:
            f.write("property %s violated: %s\n" % (prop, v.kind))
            if v.exe:
                name = os.path.basename(v.exe)
                drv, part, cfg = name.split("_", 2)
                out = "/tmp/replay_driver"
                f.write("rebuild:  %s\n" % " ".join(compile_cmd(drv, int(part), cfg, out)))
                f.write("re-run:   ASAN_OPTIONS=%s %s %s\n" % (ENV["ASAN_OPTIONS"], out, " ".join(v.cmd[1:])))
            else:
                f.write("command:  %s\n" % " ".join(v.cmd))
            f.write("\n" + v.text + "\n")
        write_evidence(prop, getattr(v, "res", res), time.time() - t0, 1, {"violation": v.kind})
        log(v.text[-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except Undecided as u:
        log("UNDECIDED: %s" % u)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def need_events(prop):
    from plan import NEED
    return NEED.get(prop, [])


if __name__ == "__main__":
    sys.exit(main())
