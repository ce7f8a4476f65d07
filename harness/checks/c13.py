"""Displaced people start in conflict zones, in proportion to population and intensity."""
import collections
import random

import oracle as O
import worlds as W

RULE = ("random conflict zones (populations, intensities, outbreaks, decays, type changes, shrinking populations) and "
        "large batches of spawned agents per day; counts per place are compared with the expected shares (6.5 sigma), "
        "and no agent may start in a place at peace; non-trivial: at least two places with different shares; distinct "
        "by the vector of shares")
CASES = [("spawn", 1100, 14000), ("take", 400, 5000)]
REQUIRED = {"batches": 4000, "agents": 400000, "two_zones": 1500, "decayed_batches": 300}


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    from flee import spawning

    sr = {"take_from_population": case["kind"] == "take"}
    if rng.random() < 0.5:
        sr["conflict_spawn_decay"] = rng.choice([[1.0, 0.5, 0.1], [1.0, 0.3], [1.0, 0.0, 1.0]])
        sr["conflict_spawn_decay_interval"] = rng.choice([1, 2, 3])
    S, _ = W.settings(log_levels={}, spawn_rules=sr, move_rules={"awareness_level": 1})
    w = W.world(rng, nmin=2, nmax=7, types=["conflict_zone", "conflict_zone", "town", "camp", "default"])
    e, lm = W.build(w)
    since = {l.name: {-1, 0} for l in e.locations}
    for t in range(rng.randint(3, 8)):
        for _ in range(rng.choice([0, 1, 1])):
            l = rng.choice(e.locations)
            op = rng.choice(["add", "more", "remove", "type", "camp"])
            if op == "add" and not l.camp:
                e.add_conflict_zone(l.name, rng.choice([0.5, 1.0, 3.0]))
                since[l.name] = {t}
            elif op == "more" and l.conflict > 0:
                e.set_conflict_intensity(l.name, rng.choice([0.5, 2.0, 8.0]))
                since[l.name] = {t}
            elif op == "remove" and l.conflict > 0:
                e.remove_conflict_zone(l.name)
            elif op == "type":
                k = rng.choice(["town", "conflict_zone", "camp"])
                e.change_location_type(l.name, k)
                since[l.name] = {t}
            elif op == "camp" and rng.random() < 0.3:
                # People only start in places that are in conflict when they start.
                e.change_location_type(l.name, "camp")
        if sr.get("conflict_spawn_decay") or rng.random() < 0.5:
            spawning.refresh_spawn_weights(e)
        shares = []
        for pick in (min, max):
            ws = [max(0.0, l.pop * l.conflict * O.decay(S.spawn_rules, t - pick(since[l.name]))) if l.conflict > 0 else 0.0
                  for l in e.locations]
            shares.append([x / sum(ws) for x in ws] if sum(ws) > 0 else None)
        if shares[0] is None or shares[1] is None:
            mon.count("nobody")
            e.evolve()
            continue
        before = len(e.agents)
        n = rng.choice([150, 400]) if case["kind"] == "spawn" else 100
        spawning.spawn_agents(e, n)
        new = e.agents[before:]
        mon.check(len(new) == n, "batch-size", lambda: "%d agents spawned instead of %d" % (len(new), n))
        got = collections.Counter(a.location.name for a in new)
        mon.count("batches")
        mon.count("agents", n)
        for a in new:
            mon.check(a.home_location is a.location and a.location.conflict > 0, "peaceful-origin", lambda: (
                "day %d: an agent starts in %s, which is not in conflict" % (t, a.location.name)))
        for i, l in enumerate(e.locations):
            if shares[0][i] != shares[1][i]:
                continue
            mon.check(O.binom_ok(got[l.name], n, shares[0][i]), "share", lambda: (
                "day %d: %d of %d agents start in %s (pop %s, intensity %s), expected share %.4f" % (
                    t, got[l.name], n, l.name, l.pop, l.conflict, shares[0][i])))
        if sum(1 for x in shares[0] if x > 0) > 1:
            mon.count("two_zones")
            mon.sig([round(x, 6) for x in shares[0]])
        if sr.get("conflict_spawn_decay") and any(l.conflict > 0 and O.decay(S.spawn_rules, t - max(since[l.name])) != 1 for l in e.locations):
            mon.count("decayed_batches")
        mon.sample = {"day": t, "shares": {l.name: round(s, 4) for l, s in zip(e.locations, shares[0])}, "counts": dict(got)}
        e.clearLocationsFromAgents([l.name for l in e.locations])
        if mon.violations:
            return
        e.evolve()
