"""Runs are reproducible, and independent of what ran before in the same process."""
import os
import pickle
import random
import subprocess
import sys

import common
import scenario
import worlds as W

RULE = ("random complete input sets (CSV geography, conflicts or floods, closures, validation data, demographics, settings), each "
        "simulated with the same seeds alone, again, after a different simulation in the same process, and in fresh "
        "interpreters with other hash seeds; the day-by-day states of all places, links and agents must be equal; "
        "non-trivial: agents moved; distinct by the final state")
CASES = [("after", 100, 3500), ("hash", 12, 150)]
CASE_TIMEOUT = 150
REQUIRED = {"runs": 120, "days": 700, "agents": 30000, "moved": 15000, "fresh_interpreters": 10, "with_demographics": 20}


def fingerprint(e, t):
    return [(a.home_location.name, a.location.name if a.location is not None else None, bool(a.travelling), float(a.distance_travelled_on_link),
             int(a.places_travelled), tuple(sorted((str(k), str(v)) for k, v in a.attributes.items())), tuple(a.route or ()))
            for a in e.agents]


def one(base, days, seed):
    import numpy as np

    cwd = os.getcwd()
    os.chdir(base)
    try:
        random.seed(seed)
        np.random.seed(seed % 2**32)
        out, e = scenario.simulate(days, after=fingerprint)
        return out
    finally:
        os.chdir(cwd)


def alone(base, days, seed):
    """Simulate in a child of its own, before this process has run anything."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                try:
                    pickle.dump(("ok", one(base, days, seed)), f)
                except BaseException as exc:  # pylint: disable=broad-except
                    import traceback

                    pickle.dump(("failed", "".join(traceback.format_exception(exc))[-1500:]), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def first_difference(a, b):
    for x, y in zip(a, b):
        for name, p, q in zip(["day", "new agents, raw and debt", "number of agents", "places", "links", "agents"], x, y):
            if p != q:
                if isinstance(p, list) and isinstance(q, list) and len(p) == len(q):
                    dif = [(i, u, v) for i, (u, v) in enumerate(zip(p, q)) if u != v][:3]
                    return "day %d, %s: %s" % (x[0], name, dif)
                return "day %d, %s: %s and %s" % (x[0], name, str(p)[:200], str(q)[:200])
    return "different lengths %d and %d" % (len(a), len(b))


def run(case, mon):
    rng = random.Random(case["seed"])
    days = rng.randint(4, 10)
    scenario.generate(rng, days, "A", floods=0.2)
    seed = rng.randrange(10**6)
    if case["kind"] == "hash":
        return run_hash(mon, days, seed)
    scenario.generate(rng, rng.randint(3, 6), "B", small=True, floods=0.2)
    kind, ref = alone("A", days, seed)
    if kind != "ok":
        one("A", days, seed)  # raises here if it is reproducible
        return mon.violate("crash-once", "a simulation failed only once: %s" % ref)
    kind, again = alone("A", days, seed)
    mon.check(kind == "ok" and again == ref, "not-reproducible", lambda: "two runs with equal seeds differ: %s" % (
        first_difference(ref, again) if kind == "ok" else again))
    one("B", 3, seed + 1)
    after = one("A", days, seed)
    mon.check(after == ref, "not-isolated", lambda: "a run differs if another one precedes it: " + first_difference(ref, after))
    note(mon, ref, days, 3)
    if any(f.startswith("demographics") for f in os.listdir("A/input_csv") + os.listdir("B/input_csv")):
        mon.count("with_demographics")


def note(mon, ref, days, n):
    mon.count("runs", n)
    mon.count("days", n * days)
    mon.count("agents", ref[-1][2])
    mon.count("moved", sum(1 for a in ref[-1][5] if a[0] != a[1]))
    if any(a[0] != a[1] for a in ref[-1][5]):
        mon.sig(ref[-1])
    mon.sample = {"final": ref[-1][:5]}


def run_hash(mon, days, seed):
    outs = []
    for h in ("1", "4711"):
        env = dict(os.environ, PYTHONHASHSEED=h,
                   PYTHONPATH=common.REPO + os.pathsep + os.path.join(common.VERIF, "harness"))
        r = subprocess.run([sys.executable, os.path.abspath(__file__), str(days), str(seed), "out.pickle"], env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        if r.returncode != 0:
            err = r.stderr.decode(errors="replace")[-1500:]
            if common.REPO + "/" in err:
                return mon.violate("crash", "the simulation fails: %s" % err)
            raise common.Inconclusive("fresh interpreter failed: %s" % err)
        with open("out.pickle", "rb") as f:
            outs.append(pickle.load(f))
        mon.count("fresh_interpreters")
    mon.check(outs[0] == outs[1], "hash-dependent", lambda: "runs differ between interpreters: " + first_difference(outs[0], outs[1]))
    note(mon, outs[0], days, 2)


if __name__ == "__main__":
    res = one("A", int(sys.argv[1]), int(sys.argv[2]))
    with open(sys.argv[3], "wb") as fo:
        pickle.dump(res, fo)
