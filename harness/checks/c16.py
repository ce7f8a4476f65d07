"""Taking agents from the population: nobody is created or lost between population and agents."""
import random

import simrun
import worlds as W

RULE = ("random populations (many small ones that run out) and spawning through every entry point (single agents, daily "
        "spawning by conflict, flood or data, batches), places that are emptied and conflicts that begin and end, with take_from_population on and off; after every step the "
        "population of every place is recounted against the agents whose home it is; non-trivial: somebody was taken "
        "from a population; distinct by (populations, agents per home)")
CASES = [("on", 900, 12000), ("off", 250, 3000)]
REQUIRED = {"recounts": 20000, "taken": 20000, "exhausted": 500, "cleared": 5000}


class FakeData:
    """Arrivals per day without files."""

    def __init__(self, rng):
        self.rng = rng
        self.day0pops = {}
        self.byday = {}

    def get_daily_difference(self, t, FullInterpolation=True, SumFromCamps=True):
        return self.byday.setdefault(t, self.rng.choice([0, 3, 10, 40]))


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    from flee import spawning

    on = case["kind"] == "on"
    mode = rng.choice(["data", "conflict", "flood"]) if on else rng.choice(["data", "conflict"])
    sr = {"take_from_population": on, "insert_day0": rng.random() < 0.5}
    mv = {"awareness_level": 1}
    types = ["town", "conflict_zone", "conflict_zone", "camp", "default"]
    if mode == "conflict":
        sr["conflict_driven_spawning"] = {"spawn_mode": "constant", "displaced_per_conflict_day": rng.choice([1, 5, 20])}
    if mode == "flood":
        types.append("flood_zone")
        sr.update({"conflict_zone_spawning_only": False, "flood_zone_spawning_only": True,
                   "flood_driven_spawning": {"spawn_mode": "constant", "displaced_per_flood_day": [0, 3, 5, 10, 30]}})
        mv["flood_rules"] = {"max_flood_level": 4, "flood_movechances": [0.0, 0.3, 0.5, 0.8, 1.0],
                             "flood_loc_weights": [1.0, 0.8, 0.5, 0.2, 0.05], "flood_link_weights": [1.0] * 5}
    W.settings(log_levels={"agent": rng.choice([0, 1])}, spawn_rules=sr, move_rules=mv)
    w = W.world(rng, nmin=2, nmax=6, types=types)
    for l in w["locs"]:
        l["pop"] = rng.choice([0, 1, 5, 30, 200, 1000]) if "camp" not in l["type"] else rng.choice([0, 50])
        if mode == "flood":
            l["attributes"]["flood_level"] = rng.randrange(5)
    w["locs"][0]["pop"] = max(w["locs"][0]["pop"], 1)
    e, lm = W.build(w)
    pop0 = {l.name: l.pop for l in e.locations}
    spawned = {l.name: 0 for l in e.locations}
    seen = 0
    data = FakeData(rng)

    def audit(when, taken_from=True):
        nonlocal seen
        for a in e.agents[seen:]:
            if taken_from:
                spawned[a.home_location.name] += 1
        seen = len(e.agents)
        for l in e.locations:
            mon.count("recounts")
            exp = max(0, pop0[l.name] - spawned[l.name]) if on else pop0[l.name]
            mon.check(l.pop == exp, "population", lambda: (
                "%s: population of %s is %s, expected %s (initially %s, %s agents from there)" % (
                    when, l.name, l.pop, exp, pop0[l.name], spawned[l.name])))
            if on and spawned[l.name] > pop0[l.name]:
                mon.count("exhausted")
            if on:
                mon.check(l.numAgentsSpawned == spawned[l.name], "spawn-counter", lambda: (
                    "%s: %s reports %s spawned agents, expected %s" % (when, l.name, l.numAgentsSpawned, spawned[l.name])))

    for t in range(rng.randint(3, 9)):
        for _ in range(rng.choice([0, 1, 2])):
            l = rng.choice(e.locations)
            for _ in range(rng.choice([1, 4])):
                e.addAgent(location=l, attributes={})
            audit("day %d, addAgent" % t)
        if rng.random() < 0.4:
            e.insertAgents(rng.choice(e.locations), 5)  # newcomers who are not part of any population
            audit("day %d, insertAgents" % t, taken_from=False)
        spawning.refresh_spawn_weights(e)
        if mode != "data" or sum(e.spawn_weights) > 0:
            spawning.spawn_daily_displaced(e, t, data)
            audit("day %d, daily spawning (%s)" % (t, mode))
        if mode != "flood":
            spawning.refresh_spawn_weights(e)
            if sum(e.spawn_weights) > 0:
                spawning.spawn_agents(e, rng.choice([1, 10]))
                audit("day %d, batch" % t)
        e.evolve()
        audit("day %d, step" % t)
        if rng.random() < 0.3:
            # Places of a coupled model are emptied; their people leave the simulation, not the population again.
            names = [l.name for l in rng.sample(e.locations, rng.randint(1, 2))]
            gone = sum(1 for a in e.agents if a.location is not None and a.location.name in names)
            e.clearLocationsFromAgents(names)
            seen = len(e.agents)
            mon.count("cleared", gone)
            audit("day %d, clearing of %s" % (t, names))
        if rng.random() < 0.3:
            l = rng.choice(e.locations)
            if l.conflict > 0:
                e.remove_conflict_zone(l.name)
            elif not l.camp and mode != "flood":
                e.add_conflict_zone(l.name)
            audit("day %d, conflict at %s" % (t, l.name))
        if mon.violations:
            return
    mon.count("taken", sum(pop0[n] - lm[n].pop for n in pop0))
    if sum(spawned.values()) and on:
        mon.sig(sorted(pop0.items()), sorted(spawned.items()))
    mon.sample = {"mode": mode, "initial": pop0, "spawned": spawned, "left": {l.name: l.pop for l in e.locations}}
