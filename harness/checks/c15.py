"""Conflict- and flood-driven spawning displaces the configured numbers."""
import collections
import math
import random

import oracle as O
import worlds as W

RULE = ("random conflict and flood levels, populations and spawn modes (constant, ratio, Poisson); the agents added per "
        "place and day are compared with the configured numbers (Poisson totals statistically, 6.5 sigma); "
        "non-trivial: somebody is displaced; distinct by (mode, level or intensity, population, number)")
CASES = [("conflict", 900, 12000), ("flood", 700, 9000)]
REQUIRED = {"place_days": 15000, "constant": 1500, "pop_ratio": 1500, "poisson": 1000, "displaced": 100000, "flood_displaced": 20000}


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    from flee import spawning
    import numpy as np

    flood = case["kind"] == "flood"
    mode = rng.choice(["constant", "pop_ratio", rng.choice(["Poisson", "poisson"])])
    types = ["town", "conflict_zone", "conflict_zone", "camp"] + (["flood_zone"] * 3 if flood else [])
    w = W.world(rng, nmin=2, nmax=6, types=types)
    if flood:
        per = [0] + sorted(rng.randint(1, 60) for _ in range(4))
        if mode == "pop_ratio":
            per = [0.0] + sorted(rng.choice([0.001, 0.01, 0.05, 0.1, 0.2]) for _ in range(4))
        rules = {"spawn_mode": mode, "displaced_per_flood_day": per}
        sr = {"take_from_population": True, "conflict_zone_spawning_only": False, "flood_zone_spawning_only": True,
              "flood_driven_spawning": rules}
        mv = {"flood_rules": {"max_flood_level": 4, "flood_movechances": [0.0, 0.3, 0.5, 0.8, 1.0],
                              "flood_loc_weights": [1.0, 0.8, 0.5, 0.2, 0.05], "flood_link_weights": [1.0] * 5}}
    else:
        per = rng.randint(0, 80)
        if mode == "pop_ratio":
            per = rng.choice([0.001, 0.01, 0.02])
        sr = {"take_from_population": rng.random() < 0.5, "conflict_driven_spawning": {"spawn_mode": mode, "displaced_per_conflict_day": per}}
        mv = {}
    S, _ = W.settings(log_levels={}, spawn_rules=sr, move_rules=mv)
    for l in w["locs"]:
        l["pop"] = rng.choice([0, 300, 2000, 5000])
        if flood:
            l["attributes"]["flood_level"] = 0
    e, lm = W.build(w)
    tot = mean = 0.0
    npois = 0
    for t in range(rng.randint(2, 8)):
        for l in e.locations:
            if flood:
                l.attributes["flood_level"] = rng.choice([0, 1, 2, 3, 4])
            elif rng.random() < 0.3 and not l.camp:
                e.set_conflict_intensity(l.name, rng.choice([0.0, 0.5, 1.0, 2.5]))
        pops = {l.name: l.pop for l in e.locations}
        before = len(e.agents)
        new, _raw, _debt = spawning.spawn_daily_displaced(e, t, None)
        got = collections.Counter(a.location.name for a in e.agents[before:])
        mon.check(new == sum(got.values()), "reported", lambda: "%s agents reported, %s added" % (new, sum(got.values())))
        for l in e.locations:
            mon.count("place_days")
            x = (l.attributes["flood_level"] if flood else max(0.0, l.conflict))
            if x <= 0:
                mon.check(got[l.name] == 0, "calm-place", lambda: "%d agents displaced in %s, where nothing happens" % (got[l.name], l.name))
                continue
            mon.count(mode.lower())
            mon.count("flood_displaced" if flood else "displaced", got[l.name])
            if flood:
                mon.count("displaced", got[l.name])
            if mode.lower() == "poisson":
                mu = float(per[x] if flood else per * x)
                tot += got[l.name]
                mean += mu
                npois += 1
                mon.check(abs(got[l.name] - mu) <= 8 * math.sqrt(mu) + 8, "poisson-draw", lambda: "%d displaced in %s, mean %s" % (got[l.name], l.name, mu))
                mon.sig("poisson", x, mu, got[l.name])
                continue
            if mode == "constant":
                exact = per[x] if flood else per * x
            else:
                exact = per[x] * pops[l.name] if flood else per * pops[l.name] * x
            ok = abs(got[l.name] - int(exact)) == 0 or (abs(exact - round(exact)) < 1e-6 and abs(got[l.name] - exact) <= 1)
            mon.check(ok, "number", lambda: "day %d: %d displaced in %s (pop %s, level %s, %s %s), expected %s" % (
                t, got[l.name], l.name, pops[l.name], x, mode, per, exact))
            if got[l.name]:
                mon.sig(mode, x, pops[l.name], got[l.name])
        if mon.violations:
            return
        if rng.random() < 0.2:
            e.evolve()
        else:
            e.time += 1
    mon.check(abs(tot - mean) <= 6.5 * math.sqrt(mean) + 2, "poisson-total", lambda: "%d displaced in total, mean %s" % (tot, mean))
    mon.sample = {"mode": mode, "per_day": per, "agents": len(e.agents), "types": [l["type"] for l in w["locs"]]}
