"""Runs with FLEE_TYPE_CHECK work on all valid inputs, and give the results of runs without."""
import importlib
import os
import pickle
import random
import re
import subprocess
import sys

os.environ["FLEE_TYPE_CHECK"] = "true"  # before anything of the code under test is imported

import common  # noqa: E402  pylint: disable=wrong-import-position
import scenario  # noqa: E402  pylint: disable=wrong-import-position

RULE = ("workloads of the other checks (worlds, rules, closures, conflicts, floods, spawning, demographics, files, data, logs, scripts, "
        "reports, several MPI ranks, coupled models) run with the annotations of all functions enforced at run time (FLEE_TYPE_CHECK), "
        "which must never fail; complete runs with and without them, in fresh interpreters with the same seeds, must give the same "
        "places, links and agents on every day; non-trivial: annotated functions were called; distinct by annotated function")
BORROWED = {
    "move": ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C29", "C34", "C32"),
    "places": ("C08", "C09", "C10", "C11", "C12", "C19"),
    "spawn": ("C13", "C14", "C15", "C16", "C17", "C18", "C21", "C22"),
    "output": ("C20", "C23", "C24", "C28", "C30"),
    "ranks": ("C25", "C31", "C26"),
    "scales": ("C33",),
}
CASES = [("same", 24, 300), ("move", 240, 5000), ("places", 120, 2500), ("spawn", 160, 3000), ("output", 60, 1200), ("ranks", 8, 120), ("scales", 2, 30)]
CASE_TIMEOUT = 200
REQUIRED = {"cases": 500, "pairs": 20, "annotated_calls": 300000, "typed_days": 100, "fresh_interpreters": 40, "rank_cases": 6, "scale_cases": 1}
PRELOAD_ALSO = ("flee.coupling", "flee.postprocessing.analysis")
NAMES = {}


def profiler(seen):
    def note(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith("<@beartype("):
            name = frame.f_code.co_filename.split("(")[1].split(")")[0]
            seen[name] = seen.get(name, 0) + 1

    return note


def typed(text):
    return "beartype.roar" in text or "BeartypeCallHint" in text


def where(text):
    """The function whose annotation failed."""
    text = re.sub(r"\x1b\[[0-9;]*m", "", text)
    m = re.findall(r"(?:Function|Method) ([\w.]+)\(\)", text)
    if m:
        return m[-1]
    return "unknown"


def borrow(case, mon):
    rng = random.Random(case["seed"])
    name = rng.choice(BORROWED[case["kind"]])
    mod = importlib.import_module("checks." + name.lower())
    kind = rng.choice(mod.CASES)[0]
    sub = {"id": name, "kind": kind, "seed": rng.randrange(2**40), "j": rng.randrange(1000), "i": 0, "tier": "quick"}
    other = common.Mon(sub)
    seen = {}
    watch = rng.random() < 0.35
    if watch:
        sys.setprofile(profiler(seen))
    try:
        mod.run(sub, other)
    except (common.StopCase, common.Inconclusive):
        pass
    except BaseException as e:  # pylint: disable=broad-except
        sys.setprofile(None)
        import traceback

        text = "".join(traceback.format_exception(e))
        if typed(text) and "Traceback" in text:
            mon.violate("type:" + where(text), "workload %s of %s fails only with FLEE_TYPE_CHECK: %s" % (kind, name, text[-1500:]))
        else:
            mon.count("stopped_for_other_reasons")
    finally:
        sys.setprofile(None)
    for v in other.violations:
        if typed(v["msg"]):
            mon.violate("type:" + where(v["msg"]), "workload %s of %s fails with FLEE_TYPE_CHECK: %s" % (kind, name, v["msg"]))
            break
    else:
        mon.count("cases")
        if case["kind"] in ("ranks", "scales"):
            mon.count(case["kind"].rstrip("s") + "_cases")
    for f, n in seen.items():
        mon.count("annotated_calls", n)
        mon.sig(f)
    mon.sample = {"check": name, "kind": kind, "annotated": len(seen)}


def run(case, mon):
    if case["kind"] != "same":
        return borrow(case, mon)
    outs = []
    for flag in ("true", "false"):
        env = dict(os.environ, FLEE_TYPE_CHECK=flag, PYTHONPATH=common.REPO + os.pathsep + os.path.join(common.VERIF, "harness"))
        r = subprocess.run([sys.executable, os.path.abspath(__file__), flag, str(case["seed"]), "out.pickle"], env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=150)
        if r.returncode != 0:
            err = r.stderr.decode(errors="replace")[-1800:]
            if typed(err):
                return mon.violate("type:" + where(err), "a run fails with FLEE_TYPE_CHECK: " + err)
            if common.REPO + "/" in err:
                return mon.violate("crash", "a run fails (FLEE_TYPE_CHECK=%s): %s" % (flag, err))
            raise common.Inconclusive("fresh interpreter failed: %s" % err)
        with open("out.pickle", "rb") as f:
            outs.append(pickle.load(f))
        mon.count("fresh_interpreters")
    (a, seen), (b, unseen) = outs
    mon.check(not unseen, "checked-anyway", lambda: "annotations are enforced without FLEE_TYPE_CHECK: %s" % sorted(unseen)[:5])
    mon.check(bool(seen), "unchecked", "nothing is enforced with FLEE_TYPE_CHECK")
    from checks.c27 import first_difference

    for x, y in zip(a, b):
        mon.count("pairs")
        mon.count("typed_days", len(x))
        mon.check(x == y, "different-results", lambda: "a run with FLEE_TYPE_CHECK differs from one without: " + first_difference(x, y))
    for f, n in seen.items():
        mon.count("annotated_calls", n)
        mon.sig(f)
    mon.sample = {"days": [len(x) for x in a], "annotated": len(seen)}


def alone():
    # The type checker draws at random which items of a list it looks at; give it numbers of its own.
    drawn, random.getrandbits = random.getrandbits, random.Random(1).getrandbits
    import beartype  # noqa: F401  pylint: disable=unused-import
    import numpy as np
    from flee import InputGeography, SimulationSettings, flee, spawning  # noqa: F401  pylint: disable=unused-import
    from flee.datamanager import handle_refugee_data, read_period  # noqa: F401  pylint: disable=unused-import

    random.getrandbits = drawn

    from checks.c27 import fingerprint

    rng = random.Random(int(sys.argv[2]))
    outs = []
    seen = {}
    for i in range(2):
        d = "%s-%d" % (sys.argv[1], i)
        days = rng.randint(3, 8)
        scenario.generate(rng, days, d, floods=0.3)
        cwd = os.getcwd()
        os.chdir(d)
        random.seed(i)
        np.random.seed(i)
        if i == 0:
            sys.setprofile(profiler(seen))
        out, _ = scenario.simulate(days, after=fingerprint)
        sys.setprofile(None)
        outs.append(out)
        os.chdir(cwd)
    with open(sys.argv[3], "wb") as f:
        pickle.dump((outs, seen), f)


if __name__ == "__main__":
    os.environ["FLEE_TYPE_CHECK"] = sys.argv[1]
    alone()
