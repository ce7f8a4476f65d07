"""Route weights follow the documented formula and agents choose in proportion to them."""
import collections
import random

import oracle as O
import tracing
import worlds as W

RULE = ("random worlds, agents (age, gender, ethnicity, home) and movement rules; the weight of every route on offer is "
        "compared with the documented formula, and first choices of crowds are compared with the resulting "
        "probabilities after pruning (6.5 sigma); non-trivial: at least two routes with different weights; distinct "
        "by the vector of normalized weights")
CASES = [("weights", 900, 12000), ("choice", 240, 4500), ("zero", 50, 800), ("fixedchoice", 150, 2000)]
REQUIRED = {"weights": 8000, "choices": 400000, "pruned": 150, "crowds": 200}

ETH = ["kanuri", "hausa", "fulani"]
TYPES = ["town", "town", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker", "default", "flood_zone"]


def rules(rng, n):
    m = {
        "awareness_level": rng.choice([1, 1, 2, 2, 3]) if n <= 7 else 1,
        "softening": rng.choice([0.0, 10.0, 50.0]),
        "weight_softening": rng.choice([0.0, 0.0, 0.1, 1.0]),
        "weight_power": rng.choice([1.0, 1.0, 0.5, 2.0]),
        "distance_power": rng.choice([1.0, 1.0, 0.0, 2.0]),
        "capacity_buffer": rng.choice([0.0, 0.5, 0.9]),
        "capacity_scaling": rng.choice([1.0, 0.5, 2.0]),
        "camp_weight": rng.choice([1.0, 2.0, 0.5]),
        "foreign_weight": rng.choice([1.0, 2.0, 4.0]),
        "conflict_weight": rng.choice([0.1, 0.25, 0.9]),
        "pruning_threshold": rng.choice([1.0, 1.0, 1.001, 1.5, 3.0, 10.0]),
        "default_movechance": 1.0, "camp_movechance": 1.0, "idpcamp_movechance": 1.0,
        "stay_close_to_home": rng.random() < 0.3,
        "home_distance_power": rng.choice([0.5, 1.0, 0.2]),
        "use_pop_for_loc_weight": rng.random() < 0.3,
        "pop_power_for_loc_weight": rng.choice([0.1, 0.5]),
    }
    for k in ("ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity"):
        if rng.random() < 0.3:
            m[k] = True
    if m.get("BoysTakeRisk") and not m.get("ChildrenAvoidHazards") and rng.random() < 0.7:
        m["ChildrenAvoidHazards"] = True
    if rng.random() < 0.35:
        m["flood_rules"] = {"max_flood_level": 4, "flood_movechances": [0.0, 1.0, 1.0, 1.0, 1.0],
                            "flood_loc_weights": [1.0, 0.8, 0.5, 0.2, 0.05], "flood_link_weights": [1.0] * 5}
    return m


def scenario(rng, zero=False):
    w = W.world(rng, nmin=3, nmax=7, types=TYPES if not zero else ["camp"], first=rng.choice(["town", "conflict_zone", "camp"]))
    m = rules(rng, len(w["locs"]))
    sr = {}
    if rng.random() < 0.3:
        sr["conflict_spawn_decay"] = rng.choice([[1.0, 0.5, 0.1], [1.0, 0.0]])
        sr["conflict_spawn_decay_interval"] = rng.choice([1, 2, 30])
    S, _ = W.settings(move_rules=m, log_levels={"agent": 1}, spawn_rules=sr)
    for l in w["locs"]:
        l["pop"] = l["pop"] or 1
        if "camp" in l["type"]:
            l["pop"] = rng.choice([1, 300])
        for x in ETH:
            l["attributes"][x] = rng.choice([0, 10, "250.0", 1000])
        if "flood_rules" in m and rng.random() < 0.5:
            l["attributes"]["flood_level"] = rng.randrange(5)
        if "conflict" in l["type"] and rng.random() < 0.5:
            l["attributes"]["conflict_intensity"] = rng.choice([0.5, "2.0"])
    return w, S


def person(rng):
    return {"age": rng.choice([3, 14, 15, 18, 19, 40]), "gender": rng.choice(["male", "female"]), "ethnicity": rng.choice(ETH)}


def adjacency(e):
    return {l.name: [(k.endpoint.name, k.get_distance()) for k in l.links] for l in e.locations}


def expected(e, lm, src, attrs, home, S, t, counts):
    M, SR = S.move_rules, S.spawn_rules
    markers = {l.name for l in e.locations if l.marker}
    out = []
    for route, dist in O.routes(adjacency(e), markers, src.name, M["AwarenessLevel"]):
        d = lm[route[-1]]
        sc = O.endpoint_score(attrs, home, d, M, SR, t)
        out.append((tuple(route), O.weight(sc, dist, O.capacity_multiplier(d.capacity, counts[d.name], M), M)))
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 + 1e-7 * max(abs(a), abs(b))


def fill_camps(rng, e, zero=False):
    for l in e.locations:
        if l.camp and l.capacity > 0:
            frac = 2.5 if zero else rng.choice([0, 0, 0.3, 0.6, 0.95, 1.2])
            for _ in range(int(min(l.capacity, 100) * frac) if l.capacity <= 100 or zero else 0):
                e.insertAgent(location=l, attributes=person(rng))


def run_weights(rng, mon):
    F = W.sim()
    from flee import moving

    w, S = scenario(rng)
    e, lm = W.build(w)
    e.time = rng.choice([0, 0, 3, 40])
    fill_camps(rng, e)
    # Scores are brought up to date at the start of a step.
    from flee import scoring
    for l in e.locations:
        scoring.updateLocationScore(e.time, l)
    counts = {l.name: l.numAgents for l in e.locations}
    for _ in range(6):
        home, here = rng.choice(e.locations), rng.choice(e.locations)
        attrs = person(rng)
        a = F.Person(location=home, attributes=attrs)
        a.location = here
        exp = expected(e, lm, here, attrs, home, S, e.time, {**counts, home.name: home.numAgents})
        home.DecrementNumAgents()
        counts2 = {l.name: l.numAgents for l in e.locations}
        exp = expected(e, lm, here, attrs, home, S, e.time, counts2)
        ws, rts = moving.selectRoute(a, time=e.time, return_all_routes=True)
        got = {tuple(r[1:]): x for r, x in zip(rts, ws)}
        for r, x in exp:
            mon.count("weights")
            if r not in got:
                mon.violate("missing-route", "route %s is not considered" % (r,))
                continue
            mon.check(close(got[r], x), "weight", lambda: (
                "weight of %s for %s at %s is %r, expected %r (%s)" % (r, attrs, here.name, got[r], x, S.move_rules)))
        if len({round(x, 9) for _, x in exp}) > 1:
            tot = sum(x for _, x in exp) or 1.0
            mon.sig([round(x / tot, 6) for _, x in exp])
            mon.sample = {"agent": attrs, "weights": [(r, round(x, 5)) for r, x in exp][:6]}


class FirstChoice(tracing.Movement):
    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.first = {}
        self.on = False

    def moved(self, n, a, old, new):
        if self.on and tracing.is_link(new) and n not in self.first:
            self.first[n] = (old, (new.endpoint.name,) + tuple(a.route))


def run_choice(rng, mon, zero=False):
    F = W.sim()
    w, S = scenario(rng, zero)
    fc = FirstChoice(F, mon)
    e, lm = W.build(w)
    e.time = rng.choice([0, 0, 3])
    M = S.move_rules
    fill_camps(rng, e, zero)
    src = lm[w["locs"][0]["name"]]
    if zero and src.camp:
        src.close_camp()
    src.attributes["flood_level"] = 0
    src.movechance = 1.0
    groups = [person(rng) for _ in range(rng.choice([1, 2]))]
    n = 2000
    start = len(e.agents)
    home = src
    for g in groups:
        for _ in range(n):
            e.insertAgent(location=src, attributes=dict(g))
    crowd = e.agents[start:]
    counts = {l.name: l.numAgents for l in e.locations}
    # Only the crowd and nobody in the camps moves before the choice is made.
    fc.on = True
    e.agents = crowd + e.agents[:start]
    exp = [expected(e, lm, src, g, home, S, e.time, counts) for g in groups]
    e.evolve()
    for gi, g in enumerate(groups):
        members = crowd[gi * n:(gi + 1) * n]
        rts = [r for r, _ in exp[gi]]
        ws = [x for _, x in exp[gi]]
        if not rts:
            mon.check(all(fc.ident(a) not in fc.first for a in members), "moved-nowhere", "agents left a place without routes")
            continue
        lim = max(ws) / M["PruningThreshold"] if M["PruningThreshold"] >= 1.001 else 0.0
        if any(lim and abs(x - lim) < 1e-7 * lim for x in ws):
            mon.count("ambiguous_pruning")
            continue
        if any(abs(O.capacity_multiplier(l.capacity, counts[l.name], M) - 0.5) < 1e-9 for l in e.locations if l.camp):
            mon.count("ambiguous_capacity")
            continue
        keep = O.prune(ws, M)
        mon.count("pruned", len(ws) - len(keep))
        p = dict(zip([rts[i] for i in keep], O.probabilities([ws[i] for i in keep])))
        got = collections.Counter()
        stayed = 0
        for a in members:
            f = fc.first.get(fc.ident(a))
            if f is None:
                stayed += 1
            else:
                got[f[1]] += 1
                mon.check(f[1] in p, "pruned-or-unknown-route", lambda: "agent chose %s, options %s" % (f[1], p))
        mon.count("choices", len(members))
        mon.count("crowds")
        # Agents bound for a camp that is more than half throttled stay where they are.
        blocked = 0.0
        for r in p:
            d = lm[r[-1]]
            if d.camp and O.capacity_multiplier(d.capacity, counts[d.name], M) < 0.5:
                blocked += p[r]
                mon.check(got[r] == 0, "full-camp", lambda: "agents set out to full camp %s" % d.name)
            else:
                mon.check(O.binom_ok(got[r], n, p[r]), "frequency", lambda: (
                    "%d of %d agents %s chose %s, probability %.4f (weights %s)" % (got[r], n, g, r, p[r], ws)))
        mon.check(O.binom_ok(stayed, n, blocked), "stayed", lambda: "%d of %d agents stayed, expected share %.4f" % (stayed, n, blocked))
        if len(set(round(x, 6) for x in p.values())) > 1 or (zero and len(p) > 1):
            mon.sig([round(x, 6) for x in p.values()])
            mon.sample = {"agent": g, "probabilities": [(r, round(x, 4), got[r]) for r, x in p.items()][:6]}


def run(case, mon):
    rng = random.Random(case["seed"])
    if case["kind"] == "weights":
        run_weights(rng, mon)
    elif case["kind"] == "fixedchoice":
        run_function(rng, mon)
    else:
        run_choice(rng, mon, case["kind"] == "zero")


def run_function(rng, mon):
    """Choice among given weights."""
    from flee import moving

    n = rng.randint(1, 6)
    ws = [rng.choice([0.0, 1e-6, 0.1, 1.0, 5.0, rng.random()]) for _ in range(n)]
    if rng.random() < 0.2:
        ws = [0.0] * n
    rts = [["r%d" % i] for i in range(n)]
    p = O.probabilities(ws)
    got = collections.Counter(tuple(moving.chooseFromWeights(list(ws), list(rts))) for _ in range(3000))
    for i in range(n):
        mon.count("choices", 500)
        mon.check(O.binom_ok(got[("r%d" % i,)], 3000, p[i]), "choose", lambda: "weights %s, chosen %s" % (ws, got))
    mon.check(moving.chooseFromWeights([], []) is None, "choose-empty", "a route is chosen from nothing")
    if n > 1:
        mon.sig([round(x, 6) for x in p])
