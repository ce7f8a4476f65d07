"""Runner shared by all checks: cases, isolation, monitors' verdicts, evidence.

Every case runs in its own forked child, so that module globals of Flee, its
calls to sys.exit() and endless loops cannot reach another case.  A case is
identified by (check id, kind, seed) and is regenerated from these when it is
replayed.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("FLEE_REPO", "/repo"))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")


class Inconclusive(Exception):
    """The harness could not observe what it has to judge."""


class StopCase(Exception):
    """Raised after a violation that makes the rest of a case pointless."""


class Mon:
    """Collects what the monitors of one case observed."""

    def __init__(self, case):
        self.case = case
        self.violations = []
        self.counts = collections.Counter()
        self.sigs = set()
        self.sample = None
        self.notes = {}

    def count(self, name, n=1):
        self.counts[name] += n

    def violate(self, key, msg):
        if len(self.violations) < 20:
            self.violations.append({"key": key, "msg": str(msg)[:2000]})

    def check(self, cond, key, msg=""):
        self.counts["checks"] += 1
        if not cond:
            self.violate(key, msg() if callable(msg) else msg)
        return bool(cond)

    def sig(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.sigs.add(h)

    def result(self):
        return {
            "violations": self.violations,
            "counts": dict(self.counts),
            "sigs": list(self.sigs)[:20000],
            "sample": self.sample,
            "notes": self.notes,
        }


COPIES = []  # folders with copies of scripts of the code under test


def _classify_exception(exc):
    """'flee' if the exception was raised by the code under test."""
    frames = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(frames):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(VERIF + os.sep):
            return "harness", fr
        if fn.startswith(REPO + os.sep) or any(fn.startswith(x + os.sep) for x in COPIES):
            return "flee", fr
    return "harness", frames[-1] if frames else None


def run_case_inline(mod, case, scratch):
    mon = Mon(case)
    random.seed(case["seed"])
    import numpy as np

    np.random.seed(case["seed"] % (2**32))
    os.chdir(scratch)
    try:
        mod.run(case, mon)
    except StopCase:
        pass
    except Inconclusive as e:
        mon.counts["inconclusive"] += 1
        mon.notes["inconclusive"] = str(e)
    except SystemExit as e:
        kind, fr = _classify_exception(e)
        if kind == "flee":
            mon.violate("exit:%s" % fr.name, "the simulation exited (%r) in %s" % (e.code, fr.name))
        else:
            raise
    except BaseException as e:  # pylint: disable=broad-except
        kind, fr = _classify_exception(e)
        if kind == "flee":
            mon.violate(
                "crash:%s:%s" % (type(e).__name__, fr.name),
                "valid workload crashed: " + "".join(traceback.format_exception(e))[-1500:],
            )
        else:
            raise
    return mon.result()


def _child(mod, case, scratch, wfd):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        try:
            res = run_case_inline(mod, case, scratch)
        except BaseException as e:  # harness error
            res = {"harness_error": "".join(traceback.format_exception(e))[-3000:]}
        data = pickle.dumps(res)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    finally:
        os._exit(0)


class Runner:
    def __init__(self, check_id, tier, seed):
        self.id = check_id
        self.tier = tier
        self.seed = seed
        self.mod = importlib.import_module("checks." + check_id.lower())
        self.root = tempfile.mkdtemp(prefix="flee-verif-%s-" % check_id)
        os.environ["TMPDIR"] = self.root
        tempfile.tempdir = self.root
        os.environ["MPLCONFIGDIR"] = os.path.join(self.root, "mpl")
        self.started = time.time()
        self.results = []
        self.n = 0

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def case_timeout(self):
        return getattr(self.mod, "CASE_TIMEOUT", 90)

    def cases(self):
        i = 0
        for kind, quick, thorough in self.mod.CASES:
            num = quick if self.tier == "quick" else thorough
            for j in range(num):
                h = hashlib.blake2b(
                    ("%s:%s:%s:%s" % (self.id, kind, self.seed, j)).encode(), digest_size=6
                ).digest()
                yield {"id": self.id, "kind": kind, "seed": int.from_bytes(h, "big"), "j": j,
                       "i": i, "tier": self.tier}
                i += 1

    def spawn(self, case):
        scratch = os.path.join(self.root, "c%d" % self.n)
        self.n += 1
        os.makedirs(scratch)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setsid()
            except OSError:
                pass
            _child(self.mod, case, scratch, w)
        os.close(w)
        return {"pid": pid, "fd": r, "case": case, "scratch": scratch, "t": time.time(), "buf": b""}

    def kill(self, job):
        try:
            os.killpg(job["pid"], signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(job["pid"], signal.SIGKILL)
        except OSError:
            pass

    def finish(self, job, timed_out=False):
        os.close(job["fd"])
        if timed_out:
            self.kill(job)
        try:
            os.waitpid(job["pid"], 0)
        except ChildProcessError:
            pass
        shutil.rmtree(job["scratch"], ignore_errors=True)
        if timed_out:
            return {"timeout": True}
        try:
            return pickle.loads(job["buf"])
        except Exception:  # died without an answer
            return {"died": True}

    def run_all(self, cases, workers, wall_cap):
        out = []
        jobs = {}
        it = iter(cases)
        exhausted = False
        while True:
            while not exhausted and len(jobs) < workers:
                if time.time() - self.started > wall_cap:
                    exhausted = True
                    break
                c = next(it, None)
                if c is None:
                    exhausted = True
                    break
                j = self.spawn(c)
                jobs[j["fd"]] = j
            if not jobs:
                return out
            ready, _, _ = select.select(list(jobs), [], [], 1.0)
            for fd in ready:
                j = jobs[fd]
                data = os.read(fd, 1 << 20)
                if data:
                    j["buf"] += data
                else:
                    del jobs[fd]
                    out.append((j["case"], self.finish(j)))
            now = time.time()
            for fd in list(jobs):
                j = jobs[fd]
                if now - j["t"] > self.case_timeout():
                    del jobs[fd]
                    out.append((j["case"], self.finish(j, timed_out=True)))


def load_known(prop):
    with open(KNOWN_FILE, encoding="utf-8") as f:
        data = json.load(f)
    return {e["key"]: e for e in data["findings"] if e["property"] == prop}


def main(argv):
    if len(argv) >= 2 and argv[0] == "replay":
        return replay(argv[1])
    check_id = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = Runner(check_id, tier, seed)
    try:
        return conduct(r)
    finally:
        r.cleanup()


def preload(extra=()):
    """Import the code under test before forking; failures are left to the cases."""
    for m in ("numpy", "pandas", "yaml", "flee.flee", "flee.InputGeography", "flee.datamanager.handle_refugee_data") + extra:
        try:
            importlib.import_module(m)
        except BaseException:  # pylint: disable=broad-except
            for k in [k for k in sys.modules if k == "flee" or k.startswith("flee.")]:
                del sys.modules[k]


def conduct(r):
    mod = r.mod
    if getattr(mod, "PRELOAD", True):
        preload(getattr(mod, "PRELOAD_ALSO", ()))
    if hasattr(mod, "prepare"):
        mod.prepare(r)
    workers = getattr(mod, "WORKERS", 8)
    cap = getattr(mod, "QUICK_CAP", 200) if r.tier == "quick" else getattr(mod, "THOROUGH_CAP", 700)
    results = r.run_all(r.cases(), workers, cap)
    # A case that timed out or died is repeated on its own before it is judged.
    final = []
    retried = 0
    for case, res in results:
        if ("timeout" in res or "died" in res) and retried < 3:
            retried += 1
            res2 = r.run_all([case], 1, 10**9)
            if not res2:
                res2 = [(case, res)]
            case, res = res2[0]
            if "timeout" in res:
                res = {"violations": [{"key": "hang", "msg": "case does not terminate within %d s, twice"
                                       % r.case_timeout()}], "counts": {}, "sigs": [], "sample": None, "notes": {}}
            elif "died" in res:
                res = {"violations": [{"key": "died", "msg": "the process of the simulation died, twice"}],
                       "counts": {}, "sigs": [], "sample": None, "notes": {}}
        elif "timeout" in res or "died" in res:
            res = {"violations": [], "counts": {"inconclusive": 1}, "sigs": [], "sample": None, "notes": {}}
        final.append((case, res))

    harness_errors = [(c, x["harness_error"]) for c, x in final if "harness_error" in x]
    counts = collections.Counter()
    sigs = set()
    samples = []
    viols = []
    notes = {}
    for case, res in final:
        if "harness_error" in res:
            continue
        counts.update(res["counts"])
        sigs.update(res["sigs"])
        if res["sample"] is not None and len(samples) < 4 and not res["violations"]:
            if case["kind"] not in [s["case"]["kind"] for s in samples] or len(samples) < 2:
                samples.append({"case": case, "observed": res["sample"]})
        for v in res["violations"]:
            viols.append((case, v))
        notes.update(res["notes"])

    known = load_known(r.id)
    listed = {k: e for k, e in known.items() if e["kind"] == "finding"}
    seen_known = {}
    new = []
    for case, v in viols:
        if v["key"] in listed:
            seen_known.setdefault(v["key"], (case, v))
        else:
            new.append((case, v))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (r.id, listed[k]["what"]))

    required = getattr(mod, "REQUIRED", {})
    missing = {k: (counts.get(k, 0), v) for k, v in required.items() if counts.get(k, 0) < v}

    evidence = {
        "property": r.id,
        "tier": r.tier,
        "seed": r.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(final),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples or [{"case": c} for c, _ in final[:2]],
            "observed": {k: int(v) for k, v in sorted(counts.items())},
            "cases_by_kind": dict(collections.Counter(c["kind"] for c, _ in final)),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - r.started, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "%s.json" % r.id)
    with open(path + ".tmp", "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(path + ".tmp", path)

    print("%s %s: %d cases, %d distinct non-trivial, %.1f s; %s" % (
        r.id, r.tier, len(final), len(sigs), evidence["wall_s"],
        ", ".join("%s=%d" % kv for kv in sorted(counts.items()))))

    if new:
        bykey = {}
        for case, v in new:
            bykey.setdefault(v["key"], []).append((case, v))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for n, (key, lst) in enumerate(sorted(bykey.items(), key=lambda kv: -len(kv[1]))):
            if n >= 5:
                break
            case, v = lst[0]
            name = "%s-%s-%s-%d.json" % (r.id, r.tier, "".join(ch if ch.isalnum() else "_" for ch in key)[:40], case["i"])
            rp = os.path.join(VERIF, "replays", name)
            with open(rp, "w", encoding="utf-8") as f:
                json.dump({"case": case, "violation": v}, f, indent=1)
            print("  [%s] %d times, e.g. case %s/%d: %s" % (key, len(lst), case["kind"], case["seed"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (r.id, rp))
        return 1
    if harness_errors:
        print("HARNESS ERROR in %d cases, e.g. %s\n%s" % (
            len(harness_errors), harness_errors[0][0], harness_errors[0][1]))
        return 2
    if counts.get("inconclusive", 0) > max(3, len(final) // 10) or missing:
        print("INCONCLUSIVE: %d inconclusive cases, unmet observation minima: %s %s" % (
            counts.get("inconclusive", 0), missing, notes.get("inconclusive", "")))
        return 2
    return 0


def replay(path):
    with open(path, encoding="utf-8") as f:
        case = json.load(f)["case"]
    r = Runner(case["id"], case.get("tier", "quick"), 0)
    try:
        if hasattr(r.mod, "prepare"):
            r.mod.prepare(r)
        scratch = os.path.join(r.root, "replay")
        os.makedirs(scratch)
        res = run_case_inline(r.mod, case, scratch)
        print(json.dumps({k: v for k, v in res.items() if k != "sigs"}, indent=1, default=str))
        known = load_known(case["id"])
        bad = [v for v in res["violations"] if not (v["key"] in known and known[v["key"]]["kind"] == "finding")]
        if bad:
            print("VIOLATION property=%s replay=%s" % (case["id"], path))
            return 1
        return 0
    finally:
        os.chdir("/")
        r.cleanup()


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    sys.path.insert(0, REPO)
    import common  # the checks import this module under its own name

    sys.exit(common.main(sys.argv[1:]))
