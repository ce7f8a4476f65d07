"""Travel takes the time that distance and speed imply, and is accounted for."""
import random

import simrun
import tracing
import worlds as W

RULE = ("random worlds with links from 10 to 1500 km, link speed limits, walking links, walking starts and closures; "
        "the days an agent spends on every link and its travel accounting are recomputed from the recorded moves; "
        "non-trivial: legs of several days or several legs in one day; distinct by (length, speed, days, order of leg in day)")
CASES = [("sim", 1000, 12000), ("exact", 250, 3000)]
REQUIRED = {"legs": 5000, "multiday_legs": 500, "midday_legs": 300, "agent_days": 5000}
EPS = 1e-6


class Travel(tracing.Movement):
    def __init__(self, mod, mon, S):
        super().__init__(mod, mon)
        self.S = S
        self.day = 0
        self.st = {}

    def created(self, n, a, loc):
        self.st[n] = dict(a=a, link=None, cand=None, midday=False, today=0.0, legs_today=[], travelled=0.0,
                          places=1, steps=0, recent=0.0, speed=None)

    def speed(self, s, link):
        m = self.S.move_rules
        v = float(link.attributes.get("max_move_speed", m["MaxMoveSpeed"]))
        if s["places"] == 1 and m["StartOnFoot"]:
            v = m["MaxWalkSpeed"]
        if float(link.attributes.get("walk_probability", "0.0")) >= 1.0:
            v = m["MaxWalkSpeed"]
        return v

    def advances(self, s, v):
        """Possible distances covered today on the current link."""
        out = [v]
        if s["midday"]:
            out.append(max(v - s["today"], 0.0))
        return out

    def moved(self, n, a, old, new):
        mon, s = self.mon, self.st[n]
        if new is None or old is None:
            return
        if tracing.is_link(new) and not tracing.is_link(old):
            s["link"], s["cand"] = new, [0.0]
            s["midday"] = bool(s["legs_today"])
            if s["midday"]:
                mon.count("midday_legs")
                mon.check(s["today"] < s["legs_today"][-1][1] + EPS, "continued-after-full-day",
                          lambda: "agent moved %.2f km today at %.1f km/day and starts another leg" % (
                              s["today"], s["legs_today"][-1][1]))
            s["entered"] = self.day
            s["v"] = self.speed(s, new)
        elif tracing.is_link(old) and not tracing.is_link(new):
            v = self.speed(s, old)
            dist = old.get_distance()
            days = self.day - s["entered"]
            mon.count("legs")
            if days:
                mon.count("multiday_legs")
            ok = [(c, adv) for c in s["cand"] for adv in self.advances(s, v) if c + adv > dist]
            mon.check(ok, "arrived-early",
                      lambda: "arrived on day %d of %s (%.2f km at %.1f km/day, %s covered before)" % (
                          days, old.name, dist, v, s["cand"]))
            mon.sig(dist, v, days, len(s["legs_today"]))
            if ok:
                s["today"] += dist - ok[0][0]
            s["legs_today"].append((old, v))
            s["travelled"] += dist
            s["places"] += 1
            s["link"] = None

    def end_of_day(self, log):
        mon = self.mon
        for s in self.st.values():
            a = s["a"]
            if s.get("gone"):
                continue
            mon.count("agent_days")
            s["steps"] += 1
            vs = [v for _, v in s["legs_today"]]
            if s["link"] is not None and a.location is s["link"]:
                v = self.speed(s, s["link"])
                dist = s["link"].get_distance()
                new = [(c + adv, adv) for c in s["cand"] for adv in self.advances(s, v) if c + adv <= dist]
                if not mon.check(new, "overdue", lambda: "still on %s (%.2f km) after %s + %.1f km" % (
                        s["link"].name, dist, s["cand"], v)):
                    raise_stop()
                got = a.distance_travelled_on_link
                match = [x for x in new if abs(x[0] - got) < EPS]
                mon.check(match, "progress", lambda: "progress on %s is %s, expected one of %s" % (
                    s["link"].name, got, [x[0] for x in new]))
                s["cand"] = [x[0] for x in (match or new)]
                s["today"] += (match or new)[0][1]
                vs.append(v)
                s["midday"] = False
            if vs and s["today"] > max(vs) + EPS:
                if len(vs) > 1:
                    mon.violate("multi-hop-day-exceeds-speed",
                                "agent covered %.1f km in one step over %d links at %.1f km/day" % (s["today"], len(vs), max(vs)))
                else:
                    mon.violate("over-speed", "agent covered %.1f km in one step at %.1f km/day" % (s["today"], max(vs)))
            mon.check(a.places_travelled == s["places"], "places", lambda: "places_travelled=%s, expected %s" % (
                a.places_travelled, s["places"]))
            mon.check(a.timesteps_since_departure == s["steps"], "steps", lambda: "timesteps=%s, expected %s" % (
                a.timesteps_since_departure, s["steps"]))
            if log:
                mon.check(abs(a.distance_travelled - s["travelled"]) < EPS, "distance", lambda: (
                    "distance_travelled=%s, expected %s" % (a.distance_travelled, s["travelled"])))
            s["recent"] = (s["recent"] + s["today"] / self.S.move_rules["MaxMoveSpeed"]) / 2.0
            mon.check(abs(a.recent_travel_distance - s["recent"]) < 1e-5, "recent", lambda: (
                "recent_travel_distance=%s, expected %s" % (a.recent_travel_distance, s["recent"])))
            mon.check(a.distance_moved_this_timestep == 0, "moved-reset", "distance moved is not reset after the step")
            s["today"] = 0.0
            s["legs_today"] = []


def raise_stop():
    from common import StopCase

    raise StopCase()


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    w = simrun.random_world(rng, nmin=3, nmax=8)
    st = simrun.random_settings(rng, agent_log=rng.choice([1, 2]), sinks=False, fixed=True, small=len(w["locs"]) <= 6)
    if case["kind"] == "exact":  # distances that are multiples of the speed: the boundary matters
        v = st["move_rules"]["max_move_speed"]
        for k in w["links"]:
            k["dist"] = float(v * rng.choice([0.5, 1, 1, 2, 3]))
            k["attributes"] = {}
    S, _ = W.settings(**st)
    tr = Travel(F, mon, S)
    e, lm = W.build(w)
    for t, evs in enumerate(simrun.plan(rng, w, rng.randint(6, 16), clears=False)):
        for ev in evs:
            simrun.apply_event(e, lm, ev)
        tr.day = t
        e.evolve()
        tr.end_of_day(True)
        if any(v["key"] != "multi-hop-day-exceeds-speed" for v in mon.violations):
            return
        mon.violations = mon.violations[:1]
    mon.sample = {"world": W.summary(w), "speed": S.move_rules["MaxMoveSpeed"], "legs": mon.counts["legs"]}
