"""Agent and link logs say what happened in the simulation."""
import csv
import random

import simrun
import tracing
import worlds as W

RULE = ("random simulations at every log level and granularity, with closures, clearing, type changes and sinks; every "
        "row that a day adds to the agent and link logs is compared with the recorded moves and the state of the agents; "
        "non-trivial: rows of agents underway or with several places on one day; distinct by the moves of a day")
CASES = [("sim", 900, 12000), ("rerun", 60, 800)]
REQUIRED = {"agent_rows": 40000, "underway_rows": 4000, "visited_rows": 1500, "link_rows": 15000, "attribute_rows": 4000,
            "region_days": 300, "retired": 200, "days_without_log": 100}


class Track(tracing.Movement):
    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.retired = {}
        self.today = {}      # agent -> completed links in order, with a marker for bounces
        self.entered = {}
        self.by_attr = {}

    def created(self, n, a, loc):
        self.today[n] = []

    def moved(self, n, a, old, new):
        if new is None:
            self.retired[n] = old
            return
        if tracing.is_link(new):
            key = (new.startpoint.name, new.endpoint.name)
            self.entered[key] = self.entered.get(key, 0) + 1
            for k, v in a.attributes.items():
                kk = key + ("%s:%s" % (k, v),)
                self.by_attr[kk] = self.by_attr.get(kk, 0) + 1
        elif tracing.is_link(old):
            self.today[n].append((old, new is old.endpoint))


def rows_of(path):
    try:
        with open(path, newline="", encoding="utf-8") as f:
            return list(csv.reader(f))
    except FileNotFoundError:
        return []


def region_of(x):
    return "L:%s:%s" % (x.startpoint.region, x.endpoint.region) if tracing.is_link(x) else x.region


def place(x, region):
    return [region_of(x), 0.0, 0.0] if region else [x.name, x.x, x.y]


def close(a, b):
    try:
        return abs(float(a) - b) <= 1e-6 * max(1.0, abs(b))
    except ValueError:
        return False


def simulate(rng, mon, days):
    F = W.sim()
    al, ll = rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2])
    region = rng.random() < 0.3
    sets = simrun.random_settings(rng, agent_log=al)
    sets["log_levels"].update({"link": ll, "camp": rng.choice([0, 1]), "granularity": "region" if region else "location"})
    S, _ = W.settings(**sets)
    w = simrun.random_world(rng)
    e, lm = W.build(w)
    tr = Track(F, mon)
    plan = simrun.plan(rng, w, days)
    attrs = rng.random() < 0.6
    seen_a = seen_l = 0
    for t, evs in enumerate(plan):
        for ev in evs:
            if ev[0] == "remove_link":
                continue
            if ev[0] == "add" and attrs:
                for _ in range(ev[2]):
                    e.addAgent(location=lm[ev[1]], attributes={"gender": rng.choice("fm"), "age": rng.choice([5, 20, 40])})
                continue
            if ev[0] == "insert" and attrs:
                continue
            simrun.apply_event(e, lm, ev)
        before = {}
        for a in e.agents:
            n = tr.ident(a)
            tr.today[n] = []
            before[n] = a.distance_travelled_on_link if a.location is not None and tracing.is_link(a.location) else 0.0
        gone = set(tr.retired)
        e.evolve()
        check_agents(e, mon, tr, t, al, region, seen_a, before, gone)
        check_links(e, mon, tr, t, ll, region, seen_l)
        seen_a, seen_l = len(rows_of("agents.out.0")), len(rows_of("links.out.0"))
        if al == 0:
            mon.check(seen_a == 0, "unwanted-agent-log", "agents are logged although the log level is 0")
        if ll == 0:
            mon.check(seen_l == 0, "unwanted-link-log", "links are logged although the log level is 0")
        if al == 0 and ll == 0:
            mon.count("days_without_log")
        if region:
            mon.count("region_days")
        if mon.violations:
            return e
    mon.sample = {"world": W.summary(w), "levels": [al, ll, region], "agents": len(e.agents)}
    return e


def check_agents(e, mon, tr, t, al, region, seen, before, gone):
    if al == 0:
        return
    rows = rows_of("agents.out.0")
    if t == 0:
        mon.check(bool(rows) and rows[0][0].startswith("#time"), "header", lambda: "no header in %r" % rows[:1])
        if e.agents and rows:
            want = [str(k) for k in e.agents[0].attributes]
            got = [c for c in rows[0][10:] if c]
            mon.check(got == want, "header-attributes", lambda: "columns %r for attributes %r" % (got, want))
    new = rows[max(seen, 1):]
    exp = []
    for k, a in enumerate(e.agents):
        n = tr.ident(a)
        loc = a.location
        if loc is None:
            if n in gone:
                continue
            loc = tr.retired[n]
            mon.count("retired")
        legs = tr.today.get(n, [])
        moved = sum(lk.get_distance() for lk, _ok in legs) - before.get(n, 0.0)
        if tracing.is_link(loc):
            moved += a.distance_travelled_on_link
            mon.count("underway_rows")
        home = region_of(a.home_location) if region else a.home_location.name
        tail = [str(tracing.is_link(loc)), a.distance_travelled, a.places_travelled, moved] + [str(v) for v in a.attributes.values()]
        exp.append((str(t), "0-%d" % k, home, place(loc, region), tail, "row"))
        if al > 1:
            # Links finished with time left on that day; the last one only counts if the day was not over.
            links = [lk for lk, ok in legs if ok]
            exp.append((k, links, home, region, tail, "visited", t))
    i = 0
    for x in exp:
        if x[-1] == "row":
            if not mon.check(i < len(new), "missing-row", lambda: "day %d: no row for agent %s" % (t, x[1])):
                return
            r = new[i]
            i += 1
            mon.count("agent_rows")
            compare(mon, t, r, x[0], x[1], x[2], x[3], x[4])
        else:
            k, links, home, region, tail, _, _ = x
            got = []
            while i < len(new) and new[i][1] == "0-%d" % k:
                got.append(new[i])
                i += 1
            mon.count("visited_rows", len(got))
            lim = len(links)
            names = [g[3] for g in got]
            want = [place(lk, region)[0] for lk in links]
            # All but the last completed link are certainly listed.
            ok = names == want or names == want[:-1]
            mon.check(ok, "visited", lambda: "day %d, agent %d: places %s listed, completed links %s" % (t, k, names, want))
            if links and lim > 1:
                mon.sig([lk.name for lk in links], t)
            for hop, (g, lk) in enumerate(zip(got, links), 1):
                tm = "%d-%d" % (t, hop) if al > 2 else str(t)
                compare(mon, t, g, tm, "0-%d" % k, home, place(lk, region), tail)
    mon.check(i == len(new), "extra-rows", lambda: "day %d: %d rows instead of %d, e.g. %r" % (t, len(new), i, new[i:i + 2]))
    mon.sig(t, tuple(x[3][0] for x in exp if x[-1] == "row"))


def compare(mon, t, r, tm, ident, home, where, tail):
    ok = (len(r) >= 10 + len(tail) - 4 and r[0] == tm and r[1] == ident and r[2] == home and r[3] == where[0]
          and close(r[4], where[1]) and close(r[5], where[2]) and r[6] == tail[0] and close(r[7], tail[1])
          and close(r[8], tail[2]) and close(r[9], tail[3]) and [c for c in r[10:] if c != ""] == tail[4:])
    mon.check(ok, "agent-row", lambda: "day %d: %r instead of %r" % (t, r, [tm, ident, home] + where + tail))


def check_links(e, mon, tr, t, ll, region, seen):
    if ll == 0:
        return
    rows = rows_of("links.out.0")
    if t == 0:
        mon.check(bool(rows) and rows[0][0].startswith("#time"), "link-header", lambda: "no header in %r" % rows[:1])
    new = rows[max(seen, 1):]
    exp = []
    for loc in e.locations:
        for k in loc.links:
            key = (k.startpoint.name, k.endpoint.name)
            label = (k.startpoint.region, k.endpoint.region) if region else key
            exp.append([str(t)] + list(label) + [str(tr.entered.get(key, 0)), "total"])
            mon.count("link_rows")
            if ll > 1:
                for kk, v in tr.by_attr.items():
                    if kk[:2] == key:
                        exp.append([str(t)] + list(label) + [str(v), kk[2]])
                        mon.count("attribute_rows")
    mon.check(sorted(new) == sorted(exp), "link-rows", lambda: "day %d: logged but wrong %s, expected %s" % (
        t, [r for r in new if r not in exp][:5], [r for r in exp if r not in new][:5]))


def run(case, mon):
    rng = random.Random(case["seed"])
    e = simulate(rng, mon, rng.randint(3, 10))
    if case["kind"] == "rerun" and not mon.violations:
        # A second simulation in the same place starts its logs afresh.
        old = len(rows_of("agents.out.0"))
        F = W.sim()
        W.settings(log_levels={"agent": 1, "link": 1}, spawn_rules={}, move_rules={})
        e = F.Ecosystem()
        a = e.addLocation(name="A", location_type="town", pop=10)
        e.addLocation(name="B", location_type="town", pop=10)
        e.linkUp(endpoint1="A", endpoint2="B", distance=100.0)
        e.addAgent(location=a, attributes={})
        for t in range(2):
            e.evolve()
        rows = rows_of("agents.out.0")
        mon.check(len(rows) == 3 and [r[0] for r in rows[1:]] == ["0", "1"], "fresh-log",
                  lambda: "log of a new run has %d rows after one of %d rows" % (len(rows), old))
        mon.check(len(rows_of("links.out.0")) == 5, "fresh-link-log", lambda: "%d rows" % len(rows_of("links.out.0")))
