"""Data-driven spawning adds exactly the arrivals that the data implies, with negative days carried as debt."""
import random

import datagen
import worlds as W

RULE = ("random camp and total registration tables (growing, shrinking, gaps, records before day 0), both summing modes, with and without day-0 insertion; daily arrivals, raw count and debt are compared "
        "with an independent interpolation of the same files; non-trivial: arrivals or debt on some day after day 0; "
        "distinct by the sequence of daily arrivals")
CASES = [("daily", 900, 12000)]
REQUIRED = {"days": 8000, "arrivals": 80000, "debt_days": 1000, "empty_starts": 80, "from_totals": 2000}


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    from flee import spawning
    from flee.datamanager import handle_refugee_data

    insert = rng.random() < 0.6
    empty = rng.random() < 0.25
    fromcamps = rng.random() < 0.6
    scale = rng.choice([1, 1, 1, 10])
    S, _ = W.settings(log_levels={}, move_rules={"default_movechance": 0.3}, optimisations={"hasten": scale}, spawn_rules={
        "insert_day0": insert, "empty_camps_on_day0": empty, "sum_from_camps": fromcamps, "take_from_population": False})
    w = W.world(rng, nmin=3, nmax=7, types=["camp", "camp", "town", "conflict_zone", "idpcamp"])
    for l in w["locs"]:
        if "camp" in l["type"]:
            l["capacity"] = rng.choice([-1, 0, 200, 5000, 20000])
    camps = [l["name"] for l in w["locs"] if "camp" in l["type"]]
    data = datagen.Data(rng, camps, scale=scale, multi=False)
    data.write("data", rng)
    d = handle_refugee_data.RefugeeTable(csvformat="generic", data_directory="data", start_date=data.start,
                                         data_layout="data_layout.csv", population_scaledown_factor=scale, start_empty=empty)
    e, lm = W.build(w)
    for c in camps:
        spawning.add_initial_refugees(e, d, lm[c])
    tables = {c: s[0] for c, s in data.camps.items()}

    def level(day):
        # The tables are read with truncation; exact halves of float noise are excluded below.
        if fromcamps:
            return sum(min(data.possible(s, day)) for s in tables.values()), sum(max(data.possible(s, day)) for s in tables.values())
        return min(data.possible(data.total, day)), max(data.possible(data.total, day))

    debt = 0
    rawsum = None
    seq = []
    if empty:
        mon.count("empty_starts")
    days = rng.randint(4, 30)
    for t in range(days):
        before = len(e.agents)
        new, raw, dbt = spawning.spawn_daily_displaced(e, t, d)
        mon.count("days")
        if not fromcamps:
            mon.count("from_totals")
        mon.check(len(e.agents) - before == new, "agents-added", lambda: "day %d: %d agents added, %d reported" % (t, len(e.agents) - before, new))
        lo, hi = level(t)
        if t == 0:
            rawsum = raw
            tot = data.possible(data.total, 0)
            if fromcamps and not empty and raw > hi and lo + min(tot) <= raw <= hi + max(tot):
                mon.violate("day0-sum-includes-total", "day 0: raw count %s is the camps' sum %s plus the total column" % (raw, lo))
            else:
                exp = (0, 0) if empty else (lo, hi)
                mon.check(exp[0] <= raw <= exp[1], "raw-day0", lambda: "day 0: raw count %s, expected %s" % (raw, exp))
            want = 0 if insert else raw
            mon.check(new == want and dbt == 0, "day0", lambda: "day 0: %s new agents and debt %s, expected %s and 0" % (new, dbt, want))
        else:
            p = level(t - 1)
            diff = raw - rawsum
            rawsum = raw
            mon.check(lo - p[1] <= diff <= hi - p[0], "raw", lambda: (
                "day %d: raw count grew by %s, the data by %s to %s" % (t, diff, lo - p[1], hi - p[0])))
            net = diff - debt
            mon.check((new, dbt) == ((net, 0) if net >= 0 else (0, -net)), "debt", lambda: (
                "day %d: data difference %s with debt %s gave %s new agents and debt %s" % (t, diff, debt, new, dbt)))
            debt = dbt
            mon.count("arrivals", new)
            if dbt:
                mon.count("debt_days")
        seq.append((new, dbt))
        if mon.violations and any(v["key"] != "day0-sum-includes-total" for v in mon.violations):
            return
        if rng.random() < 0.3 and len(e.agents) < 3000:
            e.evolve()
        else:
            e.time += 1
        caps2 = {l.name: l.capacity for l in e.locations}
        if t > 0:
            mon.check(caps2 == capd, "capacity-changed", "capacities changed after day 0")
        capd = caps2
    if any(a or b for a, b in seq[1:]):
        mon.sig(seq)
    mon.sample = {"tables": {k: v for k, v in list(tables.items())[:2]}, "new_and_debt": seq[:10]}
