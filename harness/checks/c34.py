"""Flood forecasts change departures and destinations as configured, within their window, and by awareness."""
import collections
import math
import os
import random

import oracle as O
import tracing
import worlds as W

RULE = ("random forecast settings (timescale, end day, day weights, level weights, awareness weights), flood tables, "
        "demographics of awareness and kinds of places: move chances and destination scores compared with the formula on "
        "every day before, at and after the end of the forecast, departures and destinations of crowds counted by "
        "awareness group (6.5 sigma), and whole runs from input files whose places must hold the file's forecast and whose "
        "people must leave at the expected rate; non-trivial: a forecast is in use; distinct by (timescale, end, levels, "
        "weights)")
CASES = [("func", 150, 2500), ("crowd", 120, 2000), ("choice", 150, 2000), ("files", 140, 1800)]
REQUIRED = {"formula_points": 15000, "active": 6000, "inactive": 4000, "crowd_days": 600, "choices": 80000, "places": 2500,
            "departure_groups": 150, "aware_agents": 5000}
PRELOAD_ALSO = ("flee.spawning", "flee.moving", "flee.scoring")


def settings(rng, days, full=False, on=None, **more):
    """Settings with (usually) a forecast; long enough tables for every day."""
    n = days + 12
    level = lambda lo: [rng.choice([0.0, 1.0]) if rng.random() < 0.2 else 0.0] + [round(rng.uniform(lo, 1.0), 3) for _ in range(4)]
    end = rng.choice([0, 1, days // 2, days - 1, days + 5])
    fr = {"max_flood_level": 4, "flood_movechances": level(0.1), "flood_loc_weights": level(0.1), "flood_link_weights": [1.0] * 5,
          "flood_forecaster": rng.random() < 0.9 if on is None else on,
          "flood_forecaster_timescale": rng.choice([0, 1, 2, 2, 3, 5, 8]),
          "flood_forecaster_end_time": end,
          "flood_forecaster_weights": [rng.choice([1.0, 0.5, 0.0, round(rng.random(), 3)]) for _ in range(n)],
          "flood_awareness_weights": rng.choice([[0.0, 0.5, 1.0], [0.2, 0.7, 0.9], [1.0, 0.3, 0.6]])}
    if full:
        fr["flood_forecaster_timescale"] = rng.choice([2, 3, 5])
        fr["flood_forecaster_end_time"] = rng.choice([days - 1, days + 5, days // 2])
        fr["flood_forecaster_weights"] = [rng.choice([1.0, 1.0, round(rng.uniform(0.4, 1.0), 3)]) for _ in range(n)]
    m = {"flood_rules": fr, "awareness_level": 1, "default_movechance": round(rng.uniform(0.2, 1.0), 3),
         "camp_movechance": round(rng.uniform(0.1, 1.0), 3), "conflict_movechance": round(rng.uniform(0.3, 1.0), 3)}
    m.update(more)
    S, _ = W.settings(log_levels={"agent": 1}, move_rules=m, spawn_rules={
        "take_from_population": True, "conflict_zone_spawning_only": False, "flood_zone_spawning_only": True,
        "flood_driven_spawning": {"spawn_mode": "constant", "displaced_per_flood_day": [0, 20, 30, 40, 50]}})
    return S, m, n


def levels(rng, n, wet=0.6):
    return [rng.choice([1, 2, 3, 4]) if rng.random() < wet else 0 for _ in range(n)]


def place(rng, e, name, kind, n, t, S, **kw):
    lo = levels(rng, n, rng.choice([0.0, 0.3, 0.7, 1.0]))
    loc = e.addLocation(name=name, x=kw.get("x", 0.1), y=kw.get("y", 0.2), location_type=kind, capacity=-1, pop=kw.get("pop", 1000),
                        attributes={"flood_level": lo[t], "forecast_flood_levels": lo})
    return loc


def note(mon, S, loc, t):
    f = O.forecast(loc, S.move_rules, t)
    mon.count("inactive" if f is None else "active")
    if f:
        M = S.move_rules
        mon.sig(M["FloodForecasterTimescale"], M["FloodForecasterEndTime"] - t, round(f[0], 6))
    return f


def run_func(rng, mon):
    F = W.sim()
    from flee import moving, scoring

    for _ in range(3):
        days = rng.randint(3, 14)
        S, m, n = settings(rng, days)
        if rng.random() < 0.4:
            S, m, n = settings(rng, days, movechance_pop_base=1000.0, movechance_pop_scale_factor=rng.choice([0.5, 1.0]))
        e = F.Ecosystem()
        home = place(rng, e, "Home", "town", n, 0, S)
        for i in range(12):
            kind = rng.choice(["town", "camp", "idpcamp", "conflict_zone", "flood_zone", "forwarding_hub"])
            loc = place(rng, e, "P%d" % i, kind, n, 0, S, x=1.0 + i / 10, pop=rng.choice([1, 400, 3000]))
            src = rng.choice(["int", "float", "text"])
            g = rng.randrange(3)
            e.insertAgent(location=loc, attributes={"floodawareness": {"int": g, "float": g + rng.choice([0.0, 0.5]), "text": g}[src]})
            a = e.agents[-1]
            for t in sorted(rng.sample(range(days + 3), 3)) + [S.move_rules["FloodForecasterEndTime"]]:
                loc.attributes["flood_level"] = loc.attributes["forecast_flood_levels"][t]
                for forced in (False, True):
                    mon.count("formula_points")
                    exp = O.move_chance(O.type_move_chance(kind, S.move_rules), loc, S.move_rules, forced, a.attributes, t)
                    got = moving.calculateMoveChance(a, forced, t)
                    mon.check(abs(got - exp) <= 1e-9 * max(1.0, exp), "move-chance", lambda: (
                        "day %d: move chance of an agent (awareness %s) in %s (%s, forced %s) is %r, expected %r; rules %s" % (
                            t, a.attributes, kind, loc.attributes, forced, got, exp, m["flood_rules"])))
                note(mon, S, loc, t)
                if kind == "flood_zone":
                    continue
                mon.count("formula_points")
                scoring.updateLocationScore(t, loc)
                exp = O.endpoint_score(a.attributes, home, loc, S.move_rules, S.spawn_rules, t)
                got = moving.getEndPointScore(a, loc, t)
                mon.check(abs(got - exp) <= 1e-9 * max(1.0, exp), "destination", lambda: (
                    "day %d: score of %s (%s) for awareness %s is %r, expected %r; rules %s" % (
                        t, kind, loc.attributes, a.attributes, got, exp, m["flood_rules"])))
        mon.sample = {"timescale": S.move_rules["FloodForecasterTimescale"], "end": S.move_rules["FloodForecasterEndTime"]}


def run_crowd(rng, mon):
    """Departures by awareness group, day by day."""
    F = W.sim()
    days = rng.randint(3, 8)
    S, m, n = settings(rng, days, full=rng.random() < 0.7, **({"fixed_routes": True} if rng.random() < 0.3 else {}))
    e = F.Ecosystem()
    kind = rng.choice(["town", "camp", "conflict_zone", "flood_zone"])
    src = place(rng, e, "Start", kind, n, 0, S)
    for i in range(rng.randint(1, 3)):
        place(rng, e, "T%d" % i, rng.choice(["town", "camp"]), n, 0, S, x=1.0 + i)
        e.linkUp("Start", "T%d" % i, 3000.0 + i)
    start = rng.choice([0, 0, 2])
    e.time = start
    groups = {g: [] for g in range(3)}
    for g in groups:
        for _ in range(1200):
            e.insertAgent(location=src, attributes={"floodawareness": float(g)})
            groups[g].append(e.agents[-1])
    seen = []
    for t in range(start, days):
        for l in e.locations:
            l.attributes["flood_level"] = l.attributes["forecast_flood_levels"][t]
        here = {g: [a for a in v if a.location is src] for g, v in groups.items()}
        e.evolve()
        f = note(mon, S, src, t)
        for g, v in here.items():
            p = O.move_chance(O.type_move_chance(kind, S.move_rules), src, S.move_rules, False, {"floodawareness": g}, t)
            left = sum(1 for a in v if a.location is not src)
            mon.count("crowd_days")
            mon.check(O.binom_ok(left, len(v), min(1.0, p)), "departures", lambda: (
                "day %d: %d of %d people with awareness %d left a %s, chance %.4f (forecast %s; levels %s; rules %s)" % (
                    t, left, len(v), g, kind, p, f, src.attributes, m["flood_rules"])))
            seen.append((t, g, round(p, 3), left))
    mon.sample = {"type": kind, "departures": seen[:6]}


class First(tracing.Movement):
    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.first = {}

    def moved(self, n, a, old, new):
        if tracing.is_link(new):
            self.first.setdefault(n, new.endpoint.name)


def run_choice(rng, mon):
    """Destinations by awareness group."""
    F = W.sim()
    days = rng.randint(4, 9)
    S, m, n = settings(rng, days, full=True, on=True, camp_weight=rng.choice([1.0, 2.0]), weight_softening=rng.choice([0.0, 0.0, 0.1, 1.0]))
    fc = First(F, mon)
    e = F.Ecosystem()
    t = rng.randrange(days)
    src = place(rng, e, "Start", rng.choice(["town", "conflict_zone"]), n, t, S)
    dests = []
    for i in range(rng.randint(2, 4)):
        dests.append((place(rng, e, "T%d" % i, rng.choice(["town", "camp", "idpcamp"]), n, t, S, x=1.0 + i), rng.choice([100.0, 250.0, 400.0])))
        e.linkUp("Start", "T%d" % i, dests[-1][1])
    e.time = t
    # Everybody who may leave leaves; the level of today is zero so that the chance is the forecast's.
    src.attributes["forecast_flood_levels"] = [4] * n
    src.attributes["flood_level"] = 4
    groups = {g: [] for g in range(3)}
    for g in groups:
        for _ in range(1500):
            e.insertAgent(location=src, attributes={"floodawareness": g})
            groups[g].append(e.agents[-1])
    e.evolve()
    f = note(mon, S, src, t)
    for g, v in groups.items():
        M = S.move_rules
        ws = [O.weight(O.endpoint_score({"floodawareness": g}, src, d, M, S.spawn_rules, t), dist, 1.0, M) for d, dist in dests]
        p = O.probabilities(ws)
        got = collections.Counter(fc.first[fc.ident(a)] for a in v if fc.ident(a) in fc.first)
        moved = sum(got.values())
        mon.count("choices", moved)
        pm = min(1.0, O.move_chance(O.type_move_chance("town" if src.town else "conflict_zone", M), src, M, False, {"floodawareness": g}, t))
        mon.check(O.binom_ok(moved, len(v), pm), "departures", lambda: "day %d: %d of %d left, chance %.4f" % (t, moved, len(v), pm))
        for (d, dist), x in zip(dests, p):
            mon.check(O.binom_ok(got[d.name], moved, x), "destinations", lambda: (
                "day %d: %d of %d people with awareness %d chose %s, probability %.4f (%s, rules %s)" % (
                    t, got[d.name], moved, g, d.name, x, d.attributes, m["flood_rules"])))
    mon.sample = {"forecast": f, "day": t, "destinations": [(d.name, d.attributes["forecast_flood_levels"][:6]) for d, _ in dests]}


def run_files(rng, mon):
    """A whole run from input files."""
    F = W.sim()
    from flee import InputGeography, spawning

    days = rng.randint(4, 10)
    on = rng.random() < 0.9
    S, m, n = settings(rng, days, full=rng.random() < 0.7, on=on)
    w = W.world(rng, nmin=3, nmax=6, types=["flood_zone", "town", "camp"], first="flood_zone", topo=rng.choice(["line", "star", "tree", "ring"]))
    for l in w["locs"]:
        if "camp" in l["type"]:
            l["capacity"] = -1
        else:
            l["pop"] = rng.choice([5000, 20000])
    names = [l["name"] for l in w["locs"]]
    cols = [x for x in names if x == names[0] or rng.random() < 0.6]
    rng.shuffle(cols)
    tab = {x: levels(rng, n, rng.choice([0.3, 0.8])) for x in cols}
    W.write_csv(w, "in")
    with open("in/flood_level.csv", "w", encoding="utf-8") as f:
        f.write("#Day," + rng.choice([",", ", "]).join(cols) + "\n")
        for t in range(n):
            f.write("%d,%s\n" % (t, ",".join(str(tab[x][t]) for x in cols)))
    S.FloodLevelInputFile = "in/flood_level.csv"
    os.makedirs("input_csv", exist_ok=True)
    own = [x for x in names if rng.random() < 0.5]
    share = {c: [round(rng.uniform(0.1, 1.0), 2) for _ in range(3)] for c in ["Default"] + own}
    with open("input_csv/demographics_floodawareness.csv", "w", encoding="utf-8") as f:
        f.write("floodawareness," + ",".join(share) + "\n")
        for g in range(3):
            f.write("%d.0,%s\n" % (g, ",".join(str(share[c][g]) for c in share)))
    ig = InputGeography.InputGeography()
    fc = First(F, mon)
    e = F.Ecosystem()
    ig.ReadLocationsFromCSV("in/locations.csv")
    ig.ReadLinksFromCSV("in/routes.csv")
    ig.ReadClosuresFromCSV("in/closures.csv")
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    spawning.read_demographics(e)
    types = {l["name"]: l["type"] for l in w["locs"]}
    tally = collections.defaultdict(lambda: [0, 0.0, 0.0])
    groups = collections.defaultdict(lambda: [0, 0, 0])
    count = 0
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        for x in names:
            mon.count("places")
            want = tab.get(x, [0] * n)
            got = lm[x].attributes.get("forecast_flood_levels")
            if on:
                mon.check(got is not None and list(got) == want, "forecast-levels", lambda: (
                    "day %d: the forecast of %s is %s, flood_level.csv says %s" % (t, x, got, want)))
            mon.check(lm[x].attributes.get("flood_level") == want[t], "flood-level", lambda: "day %d: level of %s" % (t, x))
        spawning.spawn_daily_displaced(e, t, None)
        for a in e.agents[count:]:
            mon.count("aware_agents")
            g = a.attributes.get("floodawareness")
            if g in (0, 1, 2):
                groups[a.home_location.name][int(g)] += 1
            else:
                mon.violate("awareness", "an agent from %s has attributes %s" % (a.home_location.name, a.attributes))
                return
        count = len(e.agents)
        here = [(a, a.location) for a in e.agents if not tracing.is_link(a.location)]
        fc.first.clear()
        e.evolve()
        for a, l in here:
            if not l.links:
                continue
            p = min(1.0, O.move_chance(O.type_move_chance(types[l.name], S.move_rules), _at(l, tab, n, t), S.move_rules, False, a.attributes, t))
            k = tally[(l.name, a.attributes["floodawareness"])]
            k[0] += fc.ident(a) in fc.first
            k[1] += p
            k[2] += p * (1 - p)
        note(mon, S, lm[names[0]], t) if on else None
    for (x, g), (left, mean, var) in tally.items():
        mon.count("departure_groups")
        mon.check(abs(left - mean) <= 6.5 * math.sqrt(var) + 8 * (var > 0) + 1e-6 * mean, "departures", lambda: (
            "%d departures of people with awareness %s from %s in %d days, expected %.1f (forecast %s)" % (
                left, g, x, days, mean, m["flood_rules"])))
    for x, got in groups.items():
        tot, c = sum(got), share[x if x in share else "Default"]
        for g in range(3):
            mon.check(O.binom_ok(got[g], tot, c[g] / sum(c)), "awareness-shares", lambda: (
                "awareness of the people from %s: %s, table %s" % (x, got, c)))
    mon.sample = {"days": days, "agents": len(e.agents), "groups": len(tally)}


class _at:
    """A place as the files describe it on one day."""

    def __init__(self, loc, tab, n, t):
        lv = tab.get(loc.name, [0] * n)
        self.town, self.pop, self.capacity = loc.town, loc.pop, loc.capacity
        self.attributes = {"flood_level": lv[t], "forecast_flood_levels": lv}


def run(case, mon):
    rng = random.Random(case["seed"])
    {"func": run_func, "crowd": run_crowd, "choice": run_choice, "files": run_files}[case["kind"]](rng, mon)
