"""Camps repel agents in line with their occupancy and nobody sets out for a camp that is nearly full."""
import random

import oracle as O
import simrun
import tracing
import worlds as W

RULE = ("random capacities, buffers, scalings and occupancies: the capacity multiplier is compared with its definition; "
        "and random simulations with small camps, in which the destination of every departure is checked against its "
        "occupancy at that moment; non-trivial: occupancy beyond the buffer; distinct by (capacity, buffer, scaling, occupancy)")
CASES = [("func", 300, 4000), ("sim", 800, 10000)]
REQUIRED = {"multipliers": 10000, "throttled": 1500, "departures_to_camps": 20000, "refused": 200}


def run_func(rng, mon):
    F = W.sim()
    from flee import moving

    for _ in range(3):
        S, _n = W.settings(move_rules={"capacity_buffer": rng.choice([0.0, 0.1, 0.5, 0.9, 0.95, 1.0]),
                                       "capacity_scaling": rng.choice([0.1, 0.5, 1.0, 1.5, 3.0])}, log_levels={}, spawn_rules={})
        M = S.move_rules
        for _ in range(20):
            cap = rng.choice([-1, 0, 1, 2, 7, 10, 99, 100, 1000, 25000])
            loc = F.Location(name="c", location_type=rng.choice(["camp", "idpcamp"]), capacity=cap)
            scaled = cap * M["CapacityScaling"]
            n = rng.choice([0, 1, int(scaled), int(scaled) + 1, max(0, int(scaled) - 1), int(scaled * M["CapacityBuffer"]),
                            int(scaled * M["CapacityBuffer"]) + 1, int(scaled * rng.random() * 1.2), int(scaled * rng.random())])
            loc.numAgents = max(n, 0)
            mon.count("multipliers")
            got = moving.getCapMultiplier(loc, rng.choice([0, 1, 5]))
            exp = O.capacity_multiplier(cap, loc.numAgents, M)
            mon.check(abs(got - exp) < 1e-9, "multiplier", lambda: (
                "multiplier of capacity %s (scaling %s, buffer %s) with %s agents is %s, expected %s" % (
                    cap, M["CapacityScaling"], M["CapacityBuffer"], loc.numAgents, got, exp)))
            if exp < 1:
                mon.count("throttled")
                mon.sig(cap, M["CapacityScaling"], M["CapacityBuffer"], loc.numAgents)


class Dest(tracing.Movement):
    def __init__(self, mod, mon, lm, M):
        super().__init__(mod, mon)
        self.lm, self.M = lm, M

    def moved(self, n, a, old, new):
        if not tracing.is_link(new) or old is None:
            return
        dest = self.lm.get(a.route[-1]) if a.route else new.endpoint
        if dest is None or not dest.camp:
            return
        self.mon.count("departures_to_camps")
        m = O.capacity_multiplier(dest.capacity, dest.numAgents, self.M)
        self.mon.check(m >= 0.5 - 1e-9, "towards-full-camp", lambda: (
            "agent leaves %s for camp %s, which has %d agents and capacity %s (scaling %s, buffer %s)" % (
                old.name, dest.name, dest.numAgents, dest.capacity, self.M["CapacityScaling"], self.M["CapacityBuffer"])))
        if m < 1:
            self.mon.sig(dest.capacity, self.M["CapacityScaling"], self.M["CapacityBuffer"], dest.numAgents)


def run(case, mon):
    rng = random.Random(case["seed"])
    if case["kind"] == "func":
        return run_func(rng, mon)
    F = W.sim()
    w = W.world(rng, nmin=3, nmax=7, types=["camp", "camp", "idpcamp", "town", "forwarding_hub"],
                capacity=None if rng.random() < 0.3 else rng.choice([5, 10, 30]))
    st = simrun.random_settings(rng, sinks=rng.random() < 0.3, fixed=False)
    st["move_rules"]["pruning_threshold"] = 1.0
    st["move_rules"]["fixed_routes"] = rng.random() < 0.3 and st["move_rules"]["awareness_level"] > 0
    S, _ = W.settings(**st)
    lm = {}
    Dest(F, mon, lm, S.move_rules)
    e, lm2 = W.build(w)
    lm.update(lm2)
    src = lm[w["locs"][0]["name"]]
    for evs in simrun.plan(rng, w, rng.randint(5, 14), clears=rng.random() < 0.3):
        for _ in range(rng.choice([0, 5, 20])):
            e.addAgent(location=src, attributes={})
        for ev in evs:
            simrun.apply_event(e, lm, ev)
        before = src.numAgents
        e.evolve()
        full = [l for l in e.locations if l.camp and O.capacity_multiplier(l.capacity, l.numAgents, S.move_rules) < 0.5]
        if full and before:
            mon.count("refused", len(full))
        if mon.violations:
            return
    mon.sample = {"world": W.summary(w), "departures_to_camps": mon.counts["departures_to_camps"]}
