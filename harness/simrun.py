"""Random sequential simulations with interventions, driven day by day."""
import random

import worlds as W


def random_settings(rng, agent_log=1, sinks=None, fixed=False, small=True):
    move = {
        "max_move_speed": float(rng.choice([100, 200, 360, 420])),
        "max_walk_speed": float(rng.choice([20, 35, 50])),
        "awareness_level": rng.choice([0, 1, 1, 2, 3] if small else [0, 1, 1, 2]),
        "default_movechance": rng.choice([0.3, 0.5, 0.9, 1.0]),
        "conflict_movechance": rng.choice([1.0, 1.0, 0.7]),
        "camp_movechance": rng.choice([0.001, 0.05, 0.3]),
        "idpcamp_movechance": rng.choice([0.1, 0.4]),
        "capacity_buffer": rng.choice([0.5, 0.9, 1.0]),
        "capacity_scaling": rng.choice([1.0, 0.5, 2.0]),
        "softening": rng.choice([0.0, 10.0]),
        "weight_power": rng.choice([1.0, 1.5]),
        "distance_power": rng.choice([1.0, 2.0]),
        "camp_weight": rng.choice([1.0, 2.0, 5.0]),
        "conflict_weight": rng.choice([0.1, 0.3162]),
        "avoid_short_stints": rng.random() < 0.3,
        "start_on_foot": rng.random() < 0.3,
        "pruning_threshold": rng.choice([1.0, 1.0, 5.0]),
        "stay_close_to_home": rng.random() < 0.15,
        "use_pop_for_loc_weight": rng.random() < 0.2,
        "fixed_routes": fixed and rng.random() < 0.5,
    }
    return {
        "log_levels": {"agent": agent_log, "link": 1, "camp": 1, "init": 0},
        "spawn_rules": {
            "take_from_population": rng.random() < 0.5,
            "camps_are_sinks": (rng.random() < 0.3) if sinks is None else sinks,
        },
        "move_rules": move,
    }


def random_world(rng, fixed=False, **kw):
    w = W.world(rng, **kw)
    for k in w["links"]:
        if rng.random() < 0.2:
            k["attributes"]["max_move_speed"] = rng.choice(["60.0", "150", "500"])
        if rng.random() < 0.15:
            k["attributes"]["walk_probability"] = rng.choice(["0.0", "1.0"])
    for l in w["locs"]:
        if "camp" in l["type"] and rng.random() < 0.5:
            l["attributes"]["deactivation_probability"] = rng.choice([0.0, 0.3, "0.5", 1.0])
    return w


def plan(rng, w, days, events=True, types=True, clears=True):
    names = [l["name"] for l in w["locs"]]
    countries = sorted({l["country"] for l in w["locs"]})
    pairs = [(k["a"], k["b"]) for k in w["links"]] or [(names[0], names[-1])]
    out = []
    for t in range(days):
        day = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            day.append(("add", rng.choice(names if rng.random() < 0.5 else names[:1]), rng.choice([1, 3, 10, 25])))
        if rng.random() < 0.2:
            day.append(("insert", rng.choice(names), rng.choice([1, 5])))
        if events and rng.random() < 0.5:
            a, b = rng.choice(pairs)
            if rng.random() < 0.5:
                a, b = b, a
            tw = rng.random() < 0.5
            what = rng.choice(["close_link", "reopen_link", "close_location", "reopen_location",
                               "close_border", "reopen_border", "remove_link", "close_link", "reopen_link"])
            if what in ("close_link", "reopen_link", "remove_link"):
                if what == "remove_link" and rng.random() < 0.7:
                    what = "close_link"
                day.append((what, a, b, tw))
            elif "location" in what:
                day.append((what, rng.choice(names), tw))
            else:
                day.append((what, rng.choice(countries), rng.choice(countries), tw))
        if types and rng.random() < 0.15:
            day.append(("type", rng.choice(names), rng.choice(["town", "camp", "idpcamp", "conflict_zone", "forwarding_hub"])))
        if clears and rng.random() < 0.08:
            day.append(("clear", rng.sample(names, 1)))
        out.append(day)
    return out


def apply_event(e, lm, ev):
    what = ev[0]
    if what == "add":
        for _ in range(ev[2]):
            e.addAgent(location=lm[ev[1]], attributes={})
    elif what == "insert":
        e.insertAgents(location=lm[ev[1]], number=ev[2])
    elif what == "close_link":
        e.close_link(startpoint=ev[1], endpoint=ev[2], twoway=ev[3])
    elif what == "reopen_link":
        e.reopen_link(startpoint=ev[1], endpoint=ev[2], twoway=ev[3])
    elif what == "remove_link":
        e.remove_link(startpoint=ev[1], endpoint=ev[2], twoway=ev[3])
    elif what == "close_location":
        e.close_location(location_name=ev[1], twoway=ev[2])
    elif what == "reopen_location":
        e.reopen_location(location_name=ev[1], twoway=ev[2])
    elif what == "close_border":
        e.close_border(source_country=ev[1], dest_country=ev[2], twoway=ev[3])
    elif what == "reopen_border":
        e.reopen_border(source_country=ev[1], dest_country=ev[2], twoway=ev[3])
    elif what == "type":
        e.change_location_type(ev[1], ev[2])
    elif what == "clear":
        e.clearLocationsFromAgents(location_names=list(ev[1]))
    else:
        raise ValueError(what)
