"""With fixed routes, places store the best route to every destination in reach and agents follow these."""
import random

import oracle as O
import refnet
import simrun
import tracing
import worlds as W

RULE = ("random worlds with fixed routes, closures, conflicts that flare up and fade, type changes and floods; after every "
        "day the stored routes of every place are compared with the best-weighted simple open paths of a reference graph "
        "and the weights with the formula, and every fresh departure is checked to follow such a path; non-trivial: a "
        "destination with several paths; distinct by the stored routes")
CASES = [("direct", 1200, 12000), ("run", 1500, 14000)]
REQUIRED = {"stored": 30000, "multi_path": 8000, "multi_hop": 12000, "fresh": 50000, "via_marker": 2500, "score_changes": 1500,
            "closed_paths": 600}
ETH = ["a", "b"]


def rules(rng, n):
    m = {
        "fixed_routes": True,
        "awareness_level": rng.choice([1, 2, 2, 3, 3, 4]) if n <= 7 else rng.choice([1, 2]),
        "softening": rng.choice([0.0, 10.0, 50.0]),
        "weight_softening": rng.choice([0.0, 0.0, 0.1, 1.0]),
        "weight_power": rng.choice([1.0, 1.0, 0.5, 2.0]),
        "distance_power": rng.choice([1.0, 1.0, 0.5, 2.0]),
        "camp_weight": rng.choice([1.0, 2.0, 5.0]),
        "foreign_weight": rng.choice([1.0, 2.0]),
        "conflict_weight": rng.choice([0.1, 0.25]),
        "default_movechance": rng.choice([0.4, 1.0]), "camp_movechance": 0.2,
        "max_move_speed": float(rng.choice([100, 200, 400])),
        "capacity_scaling": rng.choice([1.0, 2.0]),
    }
    if rng.random() < 0.3:
        m["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.0, 1.0, 0.5, 0.2],
                            "flood_loc_weights": [1.0, 0.8, 0.4, 0.1], "flood_link_weights": [1.0] * 4}
    return m


def reference(e, net, markers, src, M, SR, t):
    """{destination: (best weight, [paths of that weight], number of paths)}"""
    lm = {l.name: l for l in e.locations}
    out = {}
    for path, dist in O.routes(net.adj(), markers, src, M["AwarenessLevel"]):
        d = lm[path[-1]]
        sc = O.location_score(d, M, SR, t)
        if M["FloodRulesEnabled"] and d.attributes.get("flood_level", 0) > 0:
            sc *= float(M["FloodLocWeights"][d.attributes["flood_level"]])
        w = O.weight(sc, dist, 1.0, M)
        out.setdefault(path[-1], []).append((w, tuple(path)))
    res = {}
    for k, v in out.items():
        best = max(w for w, _ in v)
        res[k] = (best, [p for w, p in v if w >= best * (1 - 1e-9)], len(v))
    return res


def compare(mon, e, net, markers, S, t):
    refs = {}
    for l in e.locations:
        if l.name in markers:
            continue
        ref = reference(e, net, markers, l.name, S.move_rules, S.spawn_rules, t)
        refs[l.name] = ref
        got = l.routes
        if not mon.check(set(got) == set(ref), "destinations", lambda: "day %d: stored destinations of %s are %s instead of %s" % (
                t, l.name, sorted(got), sorted(ref))):
            continue
        for k, (best, paths, n) in ref.items():
            w, path, place = got[k]
            mon.count("stored")
            mon.check(tuple(path) in paths, "path", lambda: "day %d: stored route %s -> %s is %s, the best are %s" % (t, l.name, k, path, paths))
            mon.check(abs(w - best) <= 1e-7 * best, "weight", lambda: "day %d: weight of the stored route %s -> %s is %r instead of %r" % (
                t, l.name, k, w, best))
            mon.check(place.name == k and any(place is x for x in e.locations), "endpoint", "stored destination is another place")
            if n > 1:
                mon.count("multi_path")
                mon.sig([l.name, k, round(best, 9), list(path)])
            if len(path) > 1:
                mon.count("multi_hop")
            if any(x in markers for x in path):
                mon.count("via_marker")
    return refs


class Fresh(tracing.Movement):
    """Departures that are not the continuation of a plan."""

    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.rem = {}
        self.todo = []

    def created(self, n, a, loc):
        self.rem[n] = ()

    def moved(self, n, a, old, new):
        if old is None or new is None or not tracing.is_link(new):
            return
        full = (new.endpoint.name,) + tuple(a.route)
        if self.rem[n] != full:
            self.todo.append((old.name, full))
        self.rem[n] = tuple(a.route)


def flood(rng, e, m):
    if "flood_rules" in m:
        for l in e.locations:
            if rng.random() < 0.4:
                l.attributes["flood_level"] = rng.randrange(4)


def run_direct(rng, mon):
    W.sim()
    from flee import crawling, scoring

    w = W.world(rng, nmin=3, nmax=7, types=["town", "town", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker", "default"])
    m = rules(rng, len(w["locs"]))
    S, _ = W.settings(move_rules=m, log_levels={"agent": 0}, spawn_rules={})
    e, lm = W.build(w)
    net = refnet.Net(w)
    for day in simrun.plan(rng, w, 4, types=False, clears=False):
        for ev in day:
            if ev[0] not in ("add", "insert"):
                simrun.apply_event(e, lm, ev)
                net.apply(ev)
                mon.count("closed_paths")
    flood(rng, e, m)
    t = rng.choice([0, 4])
    for l in e.locations:
        scoring.updateLocationScore(t, l)
    for l in e.locations:
        got = crawling.generateLocationRoutes(l, t)
        if not l.marker:
            mon.check(got is l.routes or got == l.routes, "returned", "the returned routes are not the stored ones")
    compare(mon, e, net, {l["name"] for l in w["locs"] if l["type"] == "marker"}, S, t)


def run_sim(rng, mon):
    F = W.sim()
    w = W.world(rng, nmin=3, nmax=8, types=["town", "town", "town", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker"])
    m = rules(rng, len(w["locs"]))
    if m["awareness_level"] > 2 and len(w["locs"]) > 6:
        m["awareness_level"] = 2
    sr = {}
    if rng.random() < 0.3:
        sr = {"conflict_spawn_decay": [1.0, 0.4, 0.0], "conflict_spawn_decay_interval": 2}
    S, _ = W.settings(move_rules=m, log_levels={"agent": rng.choice([0, 1])}, spawn_rules=sr)
    markers = {l["name"] for l in w["locs"] if l["type"] == "marker"}
    fr = Fresh(F, mon)
    e, lm = W.build(w)
    net = refnet.Net(w)
    plain = [l["name"] for l in w["locs"] if l["name"] not in markers]
    for evs in simrun.plan(rng, w, rng.randint(3, 8), types=False, clears=False):
        for ev in evs:
            if ev[0] in ("add", "insert") and ev[1] in markers:
                continue
            simrun.apply_event(e, lm, ev)
            net.apply(ev)
        for _ in range(rng.choice([0, 0, 1, 2])):
            n = rng.choice(plain)
            mon.count("score_changes")
            if rng.random() < 0.5:
                e.add_conflict_zone(n, conflict_intensity=rng.choice([1.0, 0.5])) if rng.random() < 0.6 else e.remove_conflict_zone(n)
            else:
                simrun.apply_event(e, lm, ("type", n, rng.choice(["town", "camp", "idpcamp", "conflict_zone", "forwarding_hub"])))
        flood(rng, e, m)
        t = e.time
        fr.todo = []
        e.evolve()
        refs = compare(mon, e, net, markers, S, t)
        for src, full in fr.todo:
            if src in markers:
                continue
            mon.count("fresh")
            best = refs[src].get(full[-1])
            mon.check(best is not None and full in best[1], "departure", lambda: "day %d: an agent leaves %s along %s; best routes: %s" % (
                t, src, full, {k: v[1] for k, v in refs[src].items()}))
        if mon.violations:
            return
    mon.sample = {"world": W.summary(w), "routes": {l.name: {k: [round(v[0], 6), v[1]] for k, v in l.routes.items()} for l in e.locations[:2]}}


def run(case, mon):
    rng = random.Random(case["seed"])
    (run_direct if case["kind"] == "direct" else run_sim)(rng, mon)
