"""Conflicts start, intensify and end on the days the input files say."""
import random

import worlds as W

RULE = ("random conflicts.csv tables (pauses, repeated outbreaks, changing intensities, all-zero columns) and conflict "
        "dates in locations.csv, enacted day by day; which places are in conflict, their intensity, move chance and "
        "the spawn weights (with decay since the outbreak) are compared with the table; non-trivial: a day on which something "
        "changed; distinct by the daily vector of intensities")
CASES = [("table", 1200, 16000), ("dates", 600, 8000)]
REQUIRED = {"days": 15000, "outbreaks": 2000, "ends": 700, "intensity_changes": 700, "dated_outbreaks": 500, "decayed": 3000}


def series(rng, days):
    kind = rng.choice(["const", "start", "pulse", "random", "zero", "levels"])
    x = rng.choice([0.2, 1.0, 3.0, 0.2, 1.0, 3.0, 0.008, 0.0005, 0.00002])
    if kind == "const":
        return [x] * days
    if kind == "start":
        s = rng.randrange(days)
        return [0.0] * s + [x] * (days - s)
    if kind == "pulse":
        s = rng.randrange(days)
        n = rng.randint(1, 4)
        return ([0.0] * s + [x] * n + [0.0] * days)[:days]
    if kind == "zero":
        return [0] * days
    if kind == "levels":
        return [rng.choice([0.5, 1.0, 2.0]) for _ in range(days)]
    return [rng.choice([0, 0.0, 0.5, 1, 1.0]) for _ in range(days)]


def observe(mon, e, expect, M, t, base, since, decay, lag):
    for l in e.locations:
        if l.name not in expect:
            continue
        x = expect[l.name]
        if x > 0:
            mon.check(abs(l.conflict - x) < 1e-12 and not l.town, "intensity", lambda: (
                "day %d: %s has intensity %s (town=%s), expected %s" % (t, l.name, l.conflict, l.town, x)))
            mon.check(abs(l.movechance - M["ConflictMoveChance"]) < 1e-12, "movechance", lambda: (
                "day %d: conflict zone %s has move chance %s" % (t, l.name, l.movechance)))
        else:
            mon.check(l.conflict <= 0 and l.town, "peace", lambda: (
                "day %d: %s has intensity %s (town=%s), expected peace" % (t, l.name, l.conflict, l.town)))
            mon.check(abs(l.movechance - M["DefaultMoveChance"]) < 1e-12, "movechance", lambda: (
                "day %d: %s has move chance %s" % (t, l.name, l.movechance)))
    ws = {l.name: float(v) for l, v in zip(e.locations, e.spawn_weights)}
    for l in e.locations:
        x = expect.get(l.name, base.get(l.name, 0.0))
        # Days since the outbreak; conflicts that are there before the start began on day 0 or just before.
        ages = [t - since.get(l.name, 0)] if since.get(l.name, 0) >= 0 else [t, t + 1]
        # Weights that nothing has changed since yesterday are only refreshed when the day is simulated.
        ages += [a - 1 for a in ages if lag and a > 0]
        want = [max(0.0, l.pop * x) * (decay[min(a, len(decay) - 1)] if decay else 1.0) for a in ages]
        mon.count("decayed", int(bool(decay) and x > 0))
        mon.check(any(abs(ws[l.name] - z) < 1e-6 * max(1.0, l.pop) for z in want), "spawn-weight", lambda: (
            "day %d: spawn weight of %s (pop %s, intensity %s, outbreak on day %s, decay %s) is %s" % (
                t, l.name, l.pop, x, since.get(l.name), decay, ws[l.name])))


def run(case, mon):
    rng = random.Random(case["seed"])
    decay = [round(1.0 - 0.04 * i, 2) for i in range(25)] if rng.random() < 0.5 else None
    W.settings(log_levels={}, spawn_rules={"conflict_spawn_decay": decay, "conflict_spawn_decay_interval": 1} if decay else {}, move_rules={"default_movechance": 0.33, "conflict_movechance": 0.94})
    from flee.SimulationSettings import SimulationSettings as S

    M = S.move_rules
    days = rng.randint(3, 18)
    table = case["kind"] == "table"
    w = W.world(rng, nmin=2, nmax=7, first="conflict_zone", types=["town", "default", "camp", "conflict_zone"])
    expect_by_day = []
    base = {}
    if table:
        cand = [l for l in w["locs"] if "camp" not in l["type"]]
        rows = {}
        for l in cand:
            if "conflict" in l["type"] or rng.random() < 0.6:
                rows[l["name"]] = series(rng, days + 1)
                if "conflict" in l["type"] and rows[l["name"]][0] == 0:
                    if rng.random() < 0.5:
                        l["type"] = "town"
                    else:
                        l["conflict_date"] = rng.randint(1, 9)
        w["conflicts"] = rows
        for t in range(days):
            expect_by_day.append({n: float(r[t]) for n, r in rows.items()})
    else:
        dates = {}
        for l in w["locs"]:
            if "conflict" in l["type"]:
                l["conflict_date"] = rng.choice([0, 0, 1, rng.randrange(days), rng.randrange(days), 10000])
                dates[l["name"]] = l["conflict_date"]
            l["attributes"]["conflict_intensity"] = rng.choice([1.0, 0.5, 2.0])
        inten = {l["name"]: l["attributes"]["conflict_intensity"] for l in w["locs"]}
        for t in range(days):
            expect_by_day.append({n: (inten[n] if t >= d else 0.0) for n, d in dates.items()})
    W.write_csv(w, "in", loc_attr=None if table else ["conflict_intensity"])
    e, lm, ig = W.load_csv("in", conflicts=table)
    since = {}
    if not table:
        since = {n: -1 for n, x in expect_by_day[0].items() if x > 0}
        observe(mon, e, expect_by_day[0], M, 0, base, since, decay, True)
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        exp = expect_by_day[t]
        mon.count("days")
        prev = expect_by_day[t - 1] if t else {n: 0.0 for n in exp}
        for n in exp:
            if exp[n] > 0 and prev[n] == 0 and (table or t > 0):
                since[n] = t
        observe(mon, e, exp, M, t, base, since, decay, True)
        for n in exp:
            if exp[n] > 0 and prev[n] == 0:
                mon.count("outbreaks" if table else "dated_outbreaks")
            elif exp[n] == 0 and prev[n] > 0:
                mon.count("ends")
            elif exp[n] != prev[n]:
                mon.count("intensity_changes")
        if mon.violations:
            return
        if rng.random() < 0.5:
            e.insertAgents(e.locations[0], 2)
        e.evolve()
        observe(mon, e, exp, M, t, base, since, decay, False)
        if exp != prev:
            mon.sig(t, sorted(exp.items()), sorted(prev.items()))
    mon.sample = {"days": days, "intensities": {n: [x[n] for x in expect_by_day][:10] for n in expect_by_day[0]}}
