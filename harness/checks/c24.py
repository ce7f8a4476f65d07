"""Arrival statistics: how many agents reach camps each day, and how long they have been underway."""
import random

import simrun
import tracing
import worlds as W

RULE = ("random simulations with camps that open, close and change, sinks and links closed under way; the number of "
        "arrivals in camps and their mean time since the agents set out are recomputed from recorded moves every day; "
        "non-trivial: a day with arrivals of different durations; distinct by (day, durations of the arrivals)")
CASES = [("sim", 1100, 14000)]
REQUIRED = {"days": 5000, "arrivals": 8000, "days_with_arrivals": 1200, "bounces": 80, "late_arrivals": 1500}


class Arrivals(tracing.Movement):
    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.day = 0
        self.born = {}
        self.today = []

    def created(self, n, a, loc):
        self.born[n] = self.day

    def moved(self, n, a, old, new):
        if new is None or tracing.is_link(new) or not tracing.is_link(old):
            return
        if new is not old.endpoint:
            self.mon.count("bounces")
            return
        if new.camp:
            self.today.append(self.day - self.born[n])


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    sets = simrun.random_settings(rng, agent_log=rng.choice([0, 1]))
    sets["log_levels"]["camp"] = 1
    W.settings(**sets)
    w = simrun.random_world(rng, types=["camp", "camp", "idpcamp", "town", "conflict_zone", "marker", "forwarding_hub"])
    e, lm = W.build(w)
    tr = Arrivals(F, mon)
    hist = []
    for t, evs in enumerate(simrun.plan(rng, w, rng.randint(4, 12))):
        for ev in evs:
            simrun.apply_event(e, lm, ev)
        tr.today = []
        e.evolve()
        tr.day += 1
        mon.count("days")
        n = len(tr.today)
        mon.count("arrivals", n)
        mon.count("late_arrivals", sum(1 for d in tr.today if d > 0))
        if n:
            mon.count("days_with_arrivals")
        mean = sum(tr.today) / n if n else 0.0
        hist.append((n, mean))
        mon.check(list(e.num_arrivals) == [h[0] for h in hist], "number", lambda: "day %d: arrivals %s, observed %s" % (t, e.num_arrivals, hist))
        mon.check(len(e.travel_durations) == len(hist) and all(abs(float(x) - h[1]) < 1e-9 for x, h in zip(e.travel_durations, hist)),
                  "duration", lambda: "day %d: durations %s, observed %s" % (t, e.travel_durations, hist))
        if len(set(tr.today)) > 1:
            mon.sig(t, sorted(tr.today))
        if mon.violations:
            return
    mon.sample = {"world": W.summary(w), "arrivals": hist}
