"""Scores of locations reflect their current type, conflict (with decay), country and flooding."""
import random

import oracle as O
import worlds as W

RULE = ("random weights, conflict decays and histories of type changes, outbreaks, flood levels and camp changes; after "
        "every simulation step the score of every location is compared with the documented product; non-trivial: a "
        "score other than 1; distinct by (kind, foreign, intensity, elapsed days, score)")
CASES = [("sim", 1200, 16000), ("decay", 500, 7000)]
REQUIRED = {"scores": 40000, "decayed": 1500, "flooded": 1000, "foreign": 5000}


def run(case, mon):
    rng = random.Random(case["seed"])
    sr = {}
    if case["kind"] == "decay" or rng.random() < 0.5:
        sr["conflict_spawn_decay"] = rng.choice([[1.0, 0.5, 0.1], [1.0, 1.0, 0.2, 0.0], [0.8], [1.0, "0.5"]])
        sr["conflict_spawn_decay_interval"] = rng.choice([1, 2, 3, 5, 30])
    m = {"camp_weight": rng.choice([1.0, 2.0, 0.5]), "foreign_weight": rng.choice([1.0, 2.5]),
         "conflict_weight": rng.choice([0.1, 0.25, 0.9]), "awareness_level": rng.choice([0, 1, 2]),
         "fixed_routes": rng.random() < 0.2}
    flood = rng.random() < 0.5
    if flood:
        m["flood_rules"] = {"max_flood_level": 4, "flood_movechances": [0.0, 0.3, 0.5, 0.8, 1.0],
                            "flood_loc_weights": [1.0, 0.8, 0.5, 0.2, 0.05], "flood_link_weights": [1.0] * 5}
    S, _ = W.settings(log_levels={}, spawn_rules=sr, move_rules=m)
    types = ["town", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker"] + (["flood_zone"] if flood else [])
    w = W.world(rng, nmin=2, nmax=7, types=types)
    for l in w["locs"]:
        if rng.random() < 0.3:
            l["attributes"]["conflict_intensity"] = rng.choice([0.5, "2.0"])
        if flood:
            l["attributes"]["flood_level"] = rng.randrange(5)
    e, lm = W.build(w)
    since = {l.name: {-1, 0} for l in e.locations}
    foreign = {l["name"]: l["country"] != w["locs"][0]["country"] for l in w["locs"]}
    for t in range(rng.randint(4, 20)):
        for _ in range(rng.choice([0, 1, 1, 2])):
            l = rng.choice(e.locations)
            op = rng.choice(["type", "add", "remove", "flood", "camp", "town", "reset"])
            if op == "type":
                k = rng.choice(types)
                e.change_location_type(l.name, k)
                if "conflict" in k:
                    since[l.name] = {t}
            elif op == "add":
                e.add_conflict_zone(l.name, rng.choice([0.5, 1.0, 2.0]))
                since[l.name] = {t}
            elif op == "reset" and l.conflict > 0:
                e.set_conflict_intensity(l.name, 1.5)
                since[l.name] = {t}
            elif op == "remove" and l.conflict > 0:
                e.remove_conflict_zone(l.name)
            elif op == "flood" and flood:
                l.attributes["flood_level"] = rng.randrange(5)
            elif op == "camp":
                e.open_camp(l.name, IDP=rng.random() < 0.5)
            elif op == "town":
                e.close_camp(l.name, IDP=False)
        if rng.random() < 0.5:
            e.insertAgents(rng.choice(e.locations), 2)
        e.evolve()
        for l in e.locations:
            mon.check(bool(l.foreign) == foreign[l.name], "foreign", lambda: "%s: foreign=%s" % (l.name, l.foreign))
            exp = [O.location_score(l, S.move_rules, S.spawn_rules, t, x) for x in since[l.name]]
            got = float(l.getScore(1))
            mon.count("scores")
            mon.check(any(abs(got - x) <= 1e-9 * max(1.0, abs(x)) for x in exp), "score", lambda: (
                "day %d: score of %s (camp=%s, conflict=%s since %s, foreign=%s, flood zone=%s %s) is %r, expected %r" % (
                    t, l.name, l.camp, l.conflict, since[l.name], l.foreign, l.flood_zone, l.attributes, got, exp)))
            if l.conflict > 0 and O.decay(S.spawn_rules, t - max(since[l.name])) != 1.0:
                mon.count("decayed")
            if l.flood_zone:
                mon.count("flooded")
            if l.foreign:
                mon.count("foreign")
            if abs(got - 1.0) > 1e-9:
                mon.sig(l.camp, l.foreign, round(l.conflict, 3), t - max(since[l.name]), round(got, 6))
        if mon.violations:
            return
    mon.sample = {"settings": [sr, {k: v for k, v in m.items() if "weight" in k}],
                  "scores": [(l.name, round(float(l.getScore(1)), 5)) for l in e.locations]}
