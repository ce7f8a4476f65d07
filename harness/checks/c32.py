"""Camps as sinks: agents in camps retire with the configured probability and stay retired."""
import random

import oracle as O
import simrun
import tracing
import worlds as W

RULE = ("random simulations with sinks on or off, deactivation probabilities from 0 to 1 given as numbers or text, and "
        "crowded camps; every retirement is recorded, daily numbers are compared with the binomial law (6.5 sigma), and "
        "retired agents must not move again, nor appear in logs, but still count; non-trivial: somebody retired; "
        "distinct by (probability, present, retired)")
CASES = [("sim", 700, 10000), ("crowd", 60, 1500)]
REQUIRED = {"camp_days": 8000, "retired": 15000, "stayers": 15000, "after_retirement": 20000}


class Watch(tracing.Movement):
    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.gone = {}
        self.today = []

    def moved(self, n, a, old, new):
        if new is None:
            self.gone[n] = old
            self.today.append(old)
            self.mon.count("retired")
            self.mon.check(not tracing.is_link(old) and old.camp, "retired-elsewhere", lambda: "agent retired at %s" % old.name)
        elif n in self.gone:
            self.mon.violate("back", "a retired agent moved to %s" % new.name)


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    sinks = rng.random() < 0.85
    crowd = case["kind"] == "crowd"
    st = simrun.random_settings(rng, agent_log=1, sinks=sinks)
    W.settings(**st)
    w = simrun.random_world(rng, nmin=2, nmax=6, types=["camp", "camp", "idpcamp", "town"], capacity=-1)
    for l in w["locs"]:
        l["attributes"].pop("deactivation_probability", None)
        if rng.random() < 0.8:
            l["attributes"]["deactivation_probability"] = rng.choice([0.0, 0.02, "0.1", 0.5, "1.0", 1])
    if rng.random() < 0.5:
        W.write_csv({**w, "locs": [dict(l, attributes={"deactivation_probability": l["attributes"].get("deactivation_probability", 0.0)}) for l in w["locs"]],
                     "links": [dict(k, attributes={}) for k in w["links"]]}, "in", loc_attr=["deactivation_probability"])
        wt = Watch(F, mon)
        e, lm, _ = W.load_csv("in")
    else:
        wt = Watch(F, mon)
        e, lm = W.build(w)
    total = 0
    for t in range(rng.randint(4, 10)):
        for l in e.locations:
            n = rng.choice([0, 5, 30]) if not crowd else rng.choice([100, 400])
            e.insertAgents(l, n)
            total += n
        wt.today = []
        e.evolve()
        mon.check(e.numAgents() == total, "total", lambda: "numAgents()=%s, expected %s" % (e.numAgents(), total))
        stay = {}
        for a in e.agents:
            if a.location is not None and not tracing.is_link(a.location):
                stay[id(a.location)] = stay.get(id(a.location), 0) + 1
        for l in e.locations:
            p = float(l.attributes.get("deactivation_probability", 0.0)) if sinks and l.camp else 0.0
            k = sum(1 for x in wt.today if x is l)
            n = k + stay.get(id(l), 0)
            if l.camp:
                mon.count("camp_days")
                mon.count("stayers", n - k)
            mon.check(O.binom_ok(k, n, p), "retirements", lambda: "day %d: %d of %d agents retired at %s, probability %s (sinks=%s)" % (
                t, k, n, l.name, p, sinks))
            if k:
                mon.sig(p, n, k)
        mon.count("after_retirement", len(wt.gone))
        for l in e.locations:
            here = stay.get(id(l), 0) + sum(1 for x in wt.gone.values() if x is l)
            mon.check(l.numAgents == here, "occupancy", lambda: "%s reports %s agents, expected %s" % (l.name, l.numAgents, here))
        if mon.violations:
            return
    mon.sample = {"sinks": sinks, "retired": len(wt.gone), "agents": total}
