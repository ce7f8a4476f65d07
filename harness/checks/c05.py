"""Agents consider exactly the destinations within their awareness, and follow the route they chose."""
import collections
import random

import oracle as O
import refnet
import simrun
import tracing
import worlds as W

RULE = ("random graphs with markers, one-way closures, isolated places and awareness 0 to 4; the routes on offer are "
        "compared with all simple open paths of a reference graph, and every departure of every agent is checked to "
        "continue its plan or to start one of these; non-trivial: a place with several routes or a plan of several "
        "hops; distinct by the set of routes")
CASES = [("offer", 1000, 12000), ("follow", 700, 9000), ("closures", 600, 8000)]
REQUIRED = {"offers": 800, "multi_hop_offers": 300, "fresh_plans": 5000, "continued": 800, "marker_offers": 50}


def move_rules(rng, n):
    aw = rng.choice([0, 1, 1, 2, 2, 3, 4]) if n <= 7 else rng.choice([0, 1, 2])
    return {"awareness_level": aw, "default_movechance": rng.choice([0.5, 1.0]), "camp_movechance": 0.3,
            "max_move_speed": float(rng.choice([100, 200])), "softening": 10.0,
            "pruning_threshold": 1.0}


class Plans(tracing.Movement):
    def __init__(self, mod, mon, net, markers, awareness):
        super().__init__(mod, mon)
        self.net, self.markers, self.awareness = net, markers, awareness
        self.rem = {}
        self.offers = {}
        self.excuse = set()
        self.version = 0

    def created(self, n, a, loc):
        self.rem[n] = []

    def offered(self, src):
        key = (self.version, src)
        if key not in self.offers:
            if self.awareness == 0:
                self.offers[key] = {(d,) for d, _ in self.net.adj().get(src, [])}
            else:
                self.offers[key] = {tuple(r) for r, _ in O.routes(self.net.adj(), self.markers, src, self.awareness)}
        return self.offers[key]

    def moved(self, n, a, old, new):
        mon = self.mon
        if old is None or new is None or not tracing.is_link(new):
            if new is not None and old is not None and tracing.is_link(old) and new is not old.endpoint:
                self.excuse.add(n)  # turned back: the rest of the plan is void
            return
        full = (new.endpoint.name,) + tuple(a.route)
        rem = tuple(self.rem[n])
        self.rem[n] = list(a.route)
        if rem and full == rem:
            mon.count("continued")
            self.excuse.discard(n)
            return
        if rem:
            mon.check(n in self.excuse, "plan-abandoned", lambda: (
                "agent at %s planned to go on via %s but starts %s, although nothing was in the way" % (
                    old.name, rem, full)))
        self.excuse.discard(n)
        mon.count("fresh_plans")
        ok = full in self.offered(old.name)
        mon.check(ok, "unoffered-route", lambda: "agent at %s starts %s; on offer: %s" % (
            old.name, full, sorted(self.offered(old.name))[:20]))
        if len(full) > 1:
            mon.count("multi_hop_plans")

    def note_obstacles(self, e, lm):
        """Agents whose next hop is closed now, or whose destination is full, may change plans."""
        for a in e.agents:
            n = self.ident(a)
            rem = self.rem.get(n)
            if not rem:
                continue
            loc = a.location
            here = loc.endpoint if tracing.is_link(loc) else loc
            dest = lm[rem[-1]]
            if not self.net.is_open(here.name, rem[0]) or (dest.camp and dest.capacity > 0):
                self.excuse.add(n)


def run_offer(rng, mon):
    F = W.sim()
    from flee import moving

    w = W.world(rng, nmin=3, nmax=7)
    m = move_rules(rng, len(w["locs"]))
    m["awareness_level"] = rng.choice([1, 2, 3, 4])
    S, _ = W.settings(move_rules=m, log_levels={"agent": 1}, spawn_rules={})
    e, lm = W.build(w)
    net = refnet.Net(w)
    for day in simrun.plan(rng, w, 5, types=False, clears=False):
        for ev in day:
            if ev[0] not in ("add", "insert"):
                simrun.apply_event(e, lm, ev)
                net.apply(ev)
    e.evolve()
    markers = {l["name"] for l in w["locs"] if l["type"] == "marker"}
    for l in e.locations:
        e.insertAgent(location=l, attributes={})
        a = e.agents[-1]
        exp = O.routes(net.adj(), markers, l.name, m["awareness_level"])
        ws, rts = moving.selectRoute(a, time=e.time, return_all_routes=True)
        got = collections.Counter(tuple(r[1:]) for r in rts)
        want = collections.Counter(tuple(r) for r, _ in exp)
        mon.count("offers")
        mon.check(all(r[0] == l.name for r in rts), "offer-start", "a route does not start where the agent is")
        mon.check(got == want, "offer", lambda: "routes on offer at %s differ: missing %s, extra %s (awareness %d)" % (
            l.name, list((want - got).items())[:5], list((got - want).items())[:5], m["awareness_level"]))
        if any(len(r) > 1 for r in want):
            mon.count("multi_hop_offers")
        if any(x in markers for r in want for x in r):
            mon.count("marker_offers")
        if len(want) > 1:
            mon.sig(sorted(want))
            mon.sample = {"place": l.name, "awareness": m["awareness_level"], "routes": [list(r) for r in sorted(want)][:6]}


def run_sim(rng, mon, closures):
    F = W.sim()
    types = ["town", "town", "marker", "camp", "forwarding_hub", "default"]
    w = W.world(rng, nmin=3, nmax=7, types=types, capacity=-1 if not closures else None)
    m = move_rules(rng, len(w["locs"]))
    W.settings(move_rules=m, log_levels={"agent": rng.choice([0, 1])}, spawn_rules={})
    net = refnet.Net(w)
    markers = {l["name"] for l in w["locs"] if l["type"] == "marker"}
    pl = Plans(F, mon, net, markers, m["awareness_level"])
    e, lm = W.build(w)
    for evs in simrun.plan(rng, w, rng.randint(5, 12), events=closures, types=False, clears=False):
        for ev in evs:
            simrun.apply_event(e, lm, ev)
            net.apply(ev)
        pl.version += 1
        pl.note_obstacles(e, lm)
        before = {id(l): l.numAgents for l in e.locations}
        e.evolve()
        if m["default_movechance"] == 1.0:
            for l in e.locations:  # with a move chance of 1 and a way out everybody leaves
                if before[id(l)] and not l.links:
                    mon.count("trapped")
        if closures:
            pl.note_obstacles(e, lm)
        if mon.violations:
            return
    if mon.counts["fresh_plans"]:
        mon.sig(sorted((k[1], tuple(sorted(v))) for k, v in pl.offers.items()))
        mon.sample = mon.sample or {"world": W.summary(w), "fresh": mon.counts["fresh_plans"], "continued": mon.counts["continued"]}


def run(case, mon):
    rng = random.Random(case["seed"])
    if case["kind"] == "offer":
        run_offer(rng, mon)
    else:
        run_sim(rng, mon, case["kind"] == "closures")
