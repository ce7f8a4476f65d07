"""Parallel Flee behaves like sequential Flee, on any number of ranks."""
import random

import mpijob

RULE = ("random worlds and histories (closures, reopenings, type changes, clearing, sinks, fixed routes) on 2 to 5 MPI ranks in all "
        "parallel and latency modes; after every day the agents of all ranks, traced independently, are recounted against what "
        "every rank reports; modes are compared with each other, one rank with sequential Flee, crowds with the documented "
        "probabilities, the table of run_par.py with the agents; non-trivial: agents on several ranks moved; distinct by the daily counts")
CASES = [("dynamics", 24, 240), ("modes", 16, 160), ("serial", 10, 100), ("crowd", 14, 140), ("script", 12, 120)]
REQUIRED = {"recounts": 500, "moves": 400000, "bounces": 300, "log_rows": 10000, "link_log_journeys": 20000, "mode_comparisons": 150, "serial_days": 250, "tables": 16,
            "crowds": 15, "links_with_agents": 1000, "retired": 100, "ranks_2": 8, "ranks_3": 8}
PRELOAD = False
WORKERS = 3
CASE_TIMEOUT = 400
QUICK_CAP = 240


def run(case, mon):
    rng = random.Random(case["seed"])
    ranks = 1 if case["kind"] == "serial" else rng.choice([2, 2, 3, 3, 4, 5])
    n = {"dynamics": 8, "modes": 4, "serial": 12, "crowd": 4, "script": 4}[case["kind"]]
    mpijob.run("pflee_worker.py", {"kind": case["kind"], "seed": rng.randrange(10**12), "n": n}, mon, ranks)
    mon.count("ranks_%d" % ranks)
