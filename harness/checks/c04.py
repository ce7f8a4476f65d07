"""Whether agents leave a place follows the configured move chance."""
import random

import oracle as O
import tracing
import worlds as W

RULE = ("random settings, location types, populations, flood levels and explicit move chances; move chances compared "
        "with the documented formula, and departures of crowds counted day by day against the binomial law; short-stint "
        "rule checked arrival by arrival; non-trivial: chance strictly between 0 and 1 or a forced move; distinct by "
        "(type, rounded chance, day counts)")
CASES = [("func", 200, 3000), ("freq", 700, 9000), ("stints", 250, 3000)]
REQUIRED = {"formula_points": 3000, "crowd_days": 300, "forced": 400, "unforced": 200, "other_pace": 200}

KINDS = ["town", "default", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker", "flood_zone", None]


def flood(rng):
    return {"max_flood_level": 4, "flood_movechances": [0.0] + [round(rng.uniform(0.1, 1.0), 3) for _ in range(4)],
            "flood_loc_weights": [1.0] + [round(rng.uniform(0.1, 1.0), 3) for _ in range(4)],
            "flood_link_weights": [1.0, 0.8, 0.5, 0.4, 0.2]}


def random_rules(rng):
    m = {
        "default_movechance": round(rng.uniform(0.01, 1.0), 3),
        "conflict_movechance": round(rng.uniform(0.1, 1.0), 3),
        "camp_movechance": round(rng.uniform(0.001, 0.9), 3),
        "idpcamp_movechance": round(rng.uniform(0.01, 0.9), 3),
        "awareness_level": 1,
    }
    if rng.random() < 0.6:
        m["movechance_pop_base"] = float(rng.choice([500, 1000, 10000]))
        m["movechance_pop_scale_factor"] = rng.choice([0.5, 1.0, -0.5, 0.1])
    if rng.random() < 0.4:
        m["flood_rules"] = flood(rng)
    return m


def make(rng, e, name, m):
    kind = rng.choice(KINDS)
    attrs = {}
    if "flood_rules" in m and rng.random() < 0.6:
        attrs["flood_level"] = rng.randrange(5)
    explicit = round(rng.uniform(0.01, 1.0), 3)
    lo = 1 if m.get("movechance_pop_scale_factor", 0) < 0 else 0
    loc = e.addLocation(name=name, x=0.1, y=0.2, location_type=kind, movechance=explicit,
                        capacity=rng.choice([-1, 10, 2500, 20000]) if kind and "camp" in kind else -1,
                        pop=rng.choice([lo, 1, 400, 3000, 12345, 90000]), attributes=attrs)
    return kind, explicit, loc


def run_func(rng, mon):
    F = W.sim()
    from flee import moving

    for _ in range(4):
        m = random_rules(rng)
        S, _n = W.settings(log_levels={"agent": 1}, move_rules=m, spawn_rules={})
        e = F.Ecosystem()
        for i in range(25):
            kind, explicit, loc = make(rng, e, "P%d" % i, m)
            e.insertAgent(location=loc, attributes={})
            a = e.agents[-1]
            base = O.type_move_chance(kind, S.move_rules, explicit)
            for forced in (False, True):
                mon.count("formula_points")
                exp = O.move_chance(base, loc, S.move_rules, forced)
                got = moving.calculateMoveChance(a, forced, rng.randrange(100))
                mon.check(abs(got - exp) <= 1e-9 * max(1.0, abs(exp)), "formula", lambda: (
                    "move chance of %s (pop %s, cap %s, %s, forced=%s) is %s, expected %s" % (
                        kind, loc.pop, loc.capacity, loc.attributes, forced, got, exp)))
                if 0 < exp < 1:
                    mon.sig(kind, round(exp, 4), forced)


def run_freq(rng, mon):
    F = W.sim()
    m = random_rules(rng)
    if rng.random() < 0.4:
        m["fixed_routes"] = True
    S, _n = W.settings(log_levels={"agent": rng.choice([0, 1])}, move_rules=m, spawn_rules={})
    e = F.Ecosystem()
    kind, explicit, loc = make(rng, e, "Start", m)
    while m.get("fixed_routes") and kind == "marker":  # markers have no stored routes; nobody is spawned there
        e = F.Ecosystem()
        kind, explicit, loc = make(rng, e, "Start", m)
    for i in range(rng.randint(1, 3)):
        e.addLocation(name="T%d" % i, x=1.0 + i, y=1.0, location_type="town", pop=100)
        e.linkUp("Start", "T%d" % i, 50000.0)
    n = 2500
    for _ in range(n):
        e.insertAgent(location=loc, attributes={})
    p = O.move_chance(O.type_move_chance(kind, S.move_rules, explicit), loc, S.move_rules)
    here = n
    days = []
    for day in range(3):
        e.evolve()
        left = here - loc.numAgents
        mon.count("crowd_days")
        mon.check(O.binom_ok(left, here, p), "departures", lambda: (
            "day %d: %d of %d agents left %s, move chance %.4f" % (day, left, here, kind, p)))
        here = loc.numAgents
        days.append(left)
    if 0 < p < 1:
        mon.sig(kind, round(p, 4), days)
    mon.sample = {"type": kind, "chance": p, "left_by_day": days, "agents": n}


class Stints(tracing.Movement):
    def __init__(self, mod, mon, speed, avoid, walk, on_foot):
        super().__init__(mod, mon)
        self.speed, self.avoid = speed, avoid
        self.walk, self.on_foot = walk, on_foot
        self.st = {}
        self.pending = {}
        self.free = [0, 0]

    def created(self, n, a, loc):
        self.st[n] = {"a": a, "today": 0.0, "recent": 0.0, "cov": 0.0, "links": 0}

    def pace(self, s, link):
        """Speed of the day on a link."""
        if self.on_foot and s["links"] == 1 or link.attributes.get("walk_probability") == 1.0:
            return self.walk
        return float(link.attributes.get("max_move_speed", self.speed))

    def moved(self, n, a, old, new):
        s = self.st[n]
        if tracing.is_link(new):
            s["cov"] = 0.0
            s["links"] += 1
            if n in self.pending:
                if not self.pending.pop(n)[1]:
                    self.free[1] += 1
        else:
            s["today"] += old.get_distance() - s["cov"]
            s["cov"] = 0.0
            pace = self.pace(s, old)
            if s["today"] < pace - 1e-9 and new.town:
                if pace != self.speed:
                    self.mon.count("other_pace")
                forced = self.avoid and (s["recent"] + s["today"] / self.speed) / 2.0 < 0.5
                self.pending[n] = (new, forced)
                if forced:
                    self.mon.count("forced")
                else:
                    self.free[0] += 1
                    self.mon.count("unforced")

    def end(self):
        for n, (loc, forced) in self.pending.items():
            if forced:
                self.mon.check(not loc.links, "short-stint", lambda: (
                    "agent with recent travel %.3f that moved %.1f km today settled at %s" % (
                        self.st[n]["recent"], self.st[n]["today"], loc.name)))
        self.pending = {}
        for n, s in self.st.items():
            if tracing.is_link(s["a"].location):
                pace = self.pace(s, s["a"].location)
                s["cov"] += pace
                s["today"] += pace
            s["recent"] = (s["recent"] + s["today"] / self.speed) / 2.0
            s["today"] = 0.0


def run_stints(rng, mon):
    F = W.sim()
    speed = float(rng.choice([100, 200, 360]))
    avoid = rng.random() < 0.8
    foot = rng.random() < 0.4
    walk = round(speed * rng.choice([0.3, 0.5, 0.8]), 1)
    p = rng.choice([0.005, 0.02, 0.2])
    S, _n = W.settings(log_levels={"agent": rng.choice([0, 1, 2])}, spawn_rules={}, move_rules={
        "max_move_speed": speed, "avoid_short_stints": avoid, "default_movechance": p, "awareness_level": rng.choice([1, 2]),
        "start_on_foot": foot, "max_walk_speed": walk})
    st = Stints(F, mon, speed, avoid, walk, foot)
    w = W.world(rng, nmin=4, nmax=8, types=["town", "default"], topo=rng.choice(["line", "ring", "tree", "random"]))
    for k in w["links"]:
        k["dist"] = round(speed * rng.choice([0.2, 0.4, 0.6, 0.9, 1.3, 1.9, 2.5]) + rng.uniform(1, 5), 2)
        if rng.random() < 0.3:
            k["attributes"] = rng.choice([{"walk_probability": 1.0}, {"max_move_speed": round(speed * rng.choice([0.4, 0.7, 1.5]), 1)}])
    e, lm = W.build(w)
    src = lm[w["locs"][0]["name"]]
    for day in range(6):
        for _ in range(60):
            e.insertAgent(location=src, attributes={})
        e.evolve()
        st.end()
    tried, left = st.free
    mon.check(O.binom_ok(left, tried, p), "second-chance", lambda: (
        "%d of %d agents that arrived early left again, move chance %s" % (left, tried, p)))
    if mon.counts["forced"]:
        mon.sig(W.summary(w), tried, left, mon.counts["forced"])
        mon.sample = {"world": W.summary(w), "forced": mon.counts["forced"], "unforced": tried, "left_unforced": left}


def run(case, mon):
    rng = random.Random(case["seed"])
    {"func": run_func, "freq": run_freq, "stints": run_stints}[case["kind"]](rng, mon)
