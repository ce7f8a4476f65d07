"""Day 0: camps start with the people the data and the settings say."""
import random

import datagen
import worlds as W

RULE = ("random data tables, insert_day0, empty_camps_on_day0, initial_idps attributes, population scaling; agents in "
        "every place after initialisation are compared with the interpolated data and attributes, the capacities after day 0 with those of the input; non-trivial: "
        "somebody is placed; distinct by (settings, people per place)")
CASES = [("init", 1200, 16000)]
REQUIRED = {"places": 3000, "inserted": 300000, "emptied": 150, "idps": 3000, "rooms": 2000, "overfull": 10}


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    from flee import spawning
    from flee.datamanager import handle_refugee_data

    insert, empty = rng.random() < 0.7, rng.random() < 0.2
    scale = rng.choice([1, 1, 5, 10])
    take = rng.random() < 0.5
    W.settings(log_levels={}, move_rules={}, optimisations={"hasten": scale}, spawn_rules={
        "insert_day0": insert, "empty_camps_on_day0": empty, "take_from_population": take})
    w = W.world(rng, nmin=3, nmax=7, types=["camp", "camp", "idpcamp", "town"])
    idps = rng.random() < 0.5
    for l in w["locs"]:
        if idps:
            l["attributes"]["initial_idps"] = rng.choice([0, 7, "30"])
    camps = [l["name"] for l in w["locs"] if "camp" in l["type"]]
    data = datagen.Data(rng, camps, scale=scale, multi=False)
    data.write("data", rng)
    d = handle_refugee_data.RefugeeTable(csvformat="generic", data_directory="data", start_date=data.start,
                                         data_layout="data_layout.csv", population_scaledown_factor=scale, start_empty=empty)
    W.write_csv(w, "in", loc_attr=["initial_idps"] if idps else None)
    e, lm, _ = W.load_csv("in")
    pops = {l.name: l.pop for l in e.locations}
    targets = camps + ([rng.choice(e.locations).name] if idps and not insert else [])
    expect = {l.name: {0} for l in e.locations}
    for c in targets:
        spawning.add_initial_refugees(e, d, lm[c])
        if empty:
            mon.count("emptied")
            continue
        extra = int([l for l in w["locs"] if l["name"] == c][0]["attributes"].get("initial_idps", 0))
        mon.count("idps", extra)
        base = data.possible(data.camps[c][0], 0) if insert else {0}
        expect[c] = {x + b + extra for x in expect[c] for b in base}
    for l in e.locations:
        mon.count("places")
        here = [a for a in e.agents if a.location is l]
        mon.count("inserted", len(here))
        mon.check(len(here) in expect[l.name] and l.numAgents == len(here), "initial-population", lambda: (
            "%s starts with %d agents (reported %s), expected %s (insert=%s, empty=%s, scale=%s)" % (
                l.name, len(here), l.numAgents, expect[l.name], insert, empty, scale)))
        mon.check(all(a.home_location is l and not a.travelling for a in here), "initial-home", "initial agents are not at home")
        mon.check(l.pop == pops[l.name], "population", lambda: "initial agents changed the population of %s" % l.name)
    if insert:
        # Only people who are there without being simulated take up room.
        rooms = {l.name: l.capacity for l in e.locations}
        n = len(e.agents)
        spawning.spawn_daily_displaced(e, 0, d)
        mon.check(len(e.agents) == n, "day0-arrivals", lambda: "%d people are displaced on day 0 though the data of day 0 is in the camps" % (len(e.agents) - n))
        for l in e.locations:
            want = {rooms[l.name]}
            if empty and l.name in camps and rooms[l.name] > 0:
                want = {max(1, rooms[l.name] - b) for b in data.possible(data.camps[l.name][0], 0)}
            mon.count("rooms")
            mon.count("overfull", empty and l.name in camps and want == {1})
            mon.check(l.capacity in want, "capacity", lambda: "%s has a capacity of %s after day 0, expected %s (%s in the input, empty=%s, %s people there)" % (
                l.name, l.capacity, sorted(want), rooms[l.name], empty, l.numAgents))
    if e.agents:
        mon.sig(insert, empty, scale, sorted((l.name, l.numAgents) for l in e.locations))
    mon.sample = {"insert_day0": insert, "empty": empty, "scale": scale, "people": {l.name: l.numAgents for l in e.locations}}
