"""Agents' attributes follow the demographics tables, and listed agents are loaded as they are listed."""
import collections
import os
import random

import oracle as O
import worlds as W

RULE = ("random demographics tables (several attributes, per-place columns, default column, zero weights) and all "
        "spawning entry points: attribute counts per home are compared with the weights, and values of agents in a row and of several attributes with independence (6.5 sigma); random agents.csv "
        "files: the loaded agents are compared with the rows; non-trivial: an attribute with several values; distinct "
        "by (weights, counts)")
CASES = [("demography", 150, 3000), ("agents", 600, 8000)]
REQUIRED = {"sampled": 80000, "distributions": 300, "own_column": 100, "rows": 3000, "pairs": 30000, "joint": 500}


def tables(rng, names):
    out = {}
    for attr in rng.sample(["age", "gender", "ethnicity", "wealth", "years_at_school"], rng.randint(1, 3)):
        vals = {"age": [2, 10, 17, 33, 60], "gender": ["f", "m"], "ethnicity": ["a", "b", "c"], "wealth": [0.5, 1.5, 3.0], "years_at_school": [0, 6, 12]}[attr]
        cols = ["Default"] + [n for n in names if rng.random() < 0.5]
        tab = {}
        for c in cols:
            ws = [rng.choice([0, 0, 1, 5, 0.25, 10]) for _ in vals]
            if sum(ws) == 0:
                ws[rng.randrange(len(ws))] = 3
            tab[c] = ws
        out[attr] = (vals, tab)
    return out


def run_demography(rng, mon):
    F = W.sim()
    from flee import spawning

    mode = rng.choice(["conflict", "batch", "initial"])
    sr = {"insert_day0": False}
    if mode == "conflict":
        sr["conflict_driven_spawning"] = {"spawn_mode": "constant", "displaced_per_conflict_day": 120}
    W.settings(log_levels={"agent": rng.choice([0, 1]), "init": 0}, spawn_rules=sr, move_rules={})
    w = W.world(rng, nmin=3, nmax=5, types=["conflict_zone", "camp", "town"])
    tabs = tables(rng, [l["name"] for l in w["locs"]])
    os.makedirs("input_csv", exist_ok=True)
    for attr, (vals, tab) in tabs.items():
        with open("input_csv/demographics_%s.csv" % attr, "w", encoding="utf-8") as f:
            f.write(attr + "," + ",".join(tab) + "\n")
            for i, v in enumerate(vals):
                f.write(str(v) + "," + ",".join(str(tab[c][i]) for c in tab) + "\n")
    for l in w["locs"]:
        if mode == "initial":
            l["attributes"]["initial_idps"] = 250
    e, lm = W.build(w)
    spawning.read_demographics(e)
    for t in range(3):
        if mode == "conflict":
            spawning.spawn_daily_displaced(e, t, None)
        elif mode == "batch":
            spawning.spawn_agents(e, 200)
        elif t == 0:
            for l in e.locations:
                spawning.add_initial_refugees(e, None, l)
        e.evolve() if rng.random() < 0.3 else None
    homes = collections.defaultdict(list)
    for a in e.agents:
        homes[a.home_location.name].append(a.attributes)
        mon.check(set(a.attributes) == set(tabs), "attribute-names", lambda: "agent has attributes %s, tables %s" % (sorted(a.attributes), sorted(tabs)))
    mon.check(len({id(a.attributes) for a in e.agents}) == len(e.agents), "shared-attributes", "agents share one set of attributes")
    for h, atts in homes.items():
        independent(mon, h, atts, tabs)
        for attr, (vals, tab) in tabs.items():
            col = tab.get(h, tab["Default"])
            mon.count("own_column" if h in tab else "default_column")
            got = collections.Counter(x[attr] for x in atts)
            mon.count("sampled", len(atts))
            mon.count("distributions")
            mon.check(set(got) <= set(vals), "unknown-value", lambda: "%s of agents from %s: %s" % (attr, h, got))
            for v, wt in zip(vals, col):
                mon.check(O.binom_ok(got[v], len(atts), wt / sum(col)), "distribution", lambda: (
                    "%d of %d agents from %s have %s=%s, weights %s" % (got[v], len(atts), h, attr, v, dict(zip(vals, col)))))
            mon.sig(attr, col, sorted(got.items(), key=str))
    mon.sample = {"mode": mode, "tables": {k: v[1] for k, v in tabs.items()}, "agents": len(e.agents)}


def independent(mon, h, atts, tabs):
    """Neither what the agent before got nor another attribute tells anything about an attribute."""
    share = {a: dict(zip(vals, (x / sum(tab.get(h, tab["Default"])) for x in tab.get(h, tab["Default"])))) for a, (vals, tab) in tabs.items()}
    for attr, p in share.items():
        pairs = list(zip(atts[::2], atts[1::2]))
        same = sum(1 for x, y in pairs if x[attr] == y[attr])
        mon.count("pairs", len(pairs))
        mon.check(O.binom_ok(same, len(pairs), sum(x * x for x in p.values())), "dependent-agents", lambda: (
            "%d of %d pairs of agents that start in %s one after the other have the same %s, weights %s" % (same, len(pairs), h, attr, p)))
        for other, q in share.items():
            if other <= attr:
                continue
            for v in p:
                for u in q:
                    n = sum(1 for x in atts if x[attr] == v and x[other] == u)
                    mon.count("joint")
                    mon.check(O.binom_ok(n, len(atts), p[v] * q[u]), "dependent-attributes", lambda: (
                        "%d of %d agents from %s have %s=%s and %s=%s, weights %s and %s" % (n, len(atts), h, attr, v, other, u, p, q)))


def run_agents(rng, mon):
    F = W.sim()
    from flee import InputGeography

    take = rng.random() < 0.5
    W.settings(log_levels={"agent": rng.choice([0, 1])}, spawn_rules={"read_from_agents_csv_file": True, "take_from_population": take}, move_rules={})
    w = W.world(rng, nmin=2, nmax=6)
    for l in w["locs"]:
        l["pop"] = 1000
    e, lm = W.build(w)
    attrs = rng.sample(["age", "gender", "ethnicity", "vehicle"], rng.randint(1, 3))
    rows = []
    with open("agents.csv", "w", encoding="utf-8") as f:
        if rng.random() < 0.5:
            f.write("# a comment, before the header\n")
        f.write("location," + ",".join(attrs) + "\n")
        for _ in range(rng.randint(1, 30)):
            if rng.random() < 0.1:
                f.write(rng.choice(["\n", "#comment,1,2\n"]))
            r = [rng.choice(w["locs"])["name"]] + [rng.choice(["1", "20", "m", "x y"]) for _ in attrs]
            if rng.random() < 0.05:
                r[0] = "Nowhere"
            else:
                rows.append(tuple(r))
            f.write(",".join(r) + "\n")
    InputGeography.InputGeography().ReadAgentsFromCSV(e, "agents.csv")
    mon.count("rows", len(rows))
    got = [tuple([a.location.name] + [str(a.attributes.get(x)) for x in attrs]) for a in e.agents]
    mon.check(collections.Counter(got) == collections.Counter(rows), "agents-csv", lambda: "loaded %s, listed %s" % (sorted(got)[:10], sorted(rows)[:10]))
    mon.check(all(set(a.attributes) == set(attrs) for a in e.agents), "agents-csv-attributes", "unexpected attributes")
    ids = {id(a.attributes) for a in e.agents}
    mon.check(len(ids) == len(e.agents), "shared-attributes", "agents share one set of attributes")
    for l in e.locations:
        n = sum(1 for r in rows if r[0] == l.name)
        mon.check(l.numAgents == n and l.pop == 1000 - (n if take else 0),
                  "agents-csv-counts", lambda: "%s: %s agents, pop %s, %d listed" % (l.name, l.numAgents, l.pop, n))
    mon.sig(sorted(rows))
    mon.sample = {"rows": rows[:5]}


def run(case, mon):
    rng = random.Random(case["seed"])
    run_demography(rng, mon) if case["kind"] == "demography" else run_agents(rng, mon)
