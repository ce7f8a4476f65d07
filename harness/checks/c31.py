"""The micro model: link types, weather-dependent distances and its input files."""
import random

import mpijob

RULE = ("random worlds with typed links and random precipitation and river discharge tables on 1 or 2 MPI ranks: the length of "
        "every link on every day, and every length the simulation works with, is compared with an independent reading of the "
        "tables, agents are traced (nobody arrives over a blocked or longer link too early, nobody is lost); without weather, the "
        "same seed gives the same simulation as parallel Flee; location and route files are compared row by row; non-trivial: "
        "agents moved; distinct by daily counts")
CASES = [("one", 36, 900), ("two", 10, 250)]
REQUIRED = {"distances": 10000, "factor_1": 2000, "factor_2": 1500, "factor_10000": 1500, "crossings": 1000, "used": 10000, "arrivals": 1000,
            "on_links": 2000, "blocked": 300, "compared_days": 300, "locations_read": 200, "files": 60, "later_days": 500}
CASE_TIMEOUT = 240
WORKERS = 5


def run(case, mon):
    rng = random.Random(case["seed"])
    mpijob.run("micro_worker.py", {"seed": rng.randrange(10**9), "n": 14}, mon, 2 if case["kind"] == "two" else 1, timeout=100)
