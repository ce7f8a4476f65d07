"""Settings files: given values are used, missing ones fall back to the documented defaults."""
import math
import random

import yaml

import worlds as W

RULE = ("random settings files (any subset of the documented keys, empty or missing sections, numbers as text, several "
        "files loaded one after the other) compared with a table of documented names and defaults, and contradictory "
        "files, which must be refused; non-trivial: at least one value differs from its default; distinct by the values given")
CASES = [("load", 1500, 24000), ("refuse", 100, 1200), ("effect", 120, 2400)]
REQUIRED = {"given": 6000, "defaulted": 20000, "reloads": 1000, "refused": 60, "v1": 100, "effects": 300}

T = 3.16227766017

# (section, key, where it ends up, internal name, type, default, examples)
TABLE = [
    ("log_levels", "agent", "log_levels", "agent", int, 0, [1, 2, 3]),
    ("log_levels", "link", "log_levels", "link", int, 0, [1, 2]),
    ("log_levels", "camp", "log_levels", "camp", int, 0, [1]),
    ("log_levels", "init", "log_levels", "init", int, 0, [1]),
    ("log_levels", "conflict", "log_levels", "conflict", int, 0, [1]),
    ("log_levels", "idp_totals", "log_levels", "idp_totals", int, 0, [1]),
    ("log_levels", "granularity", "log_levels", "granularity", str, "location", ["region", "location"]),
    ("spawn_rules", "take_from_population", "spawn_rules", "TakeFromPopulation", bool, False, [True, False]),
    ("spawn_rules", "insert_day0", "spawn_rules", "InsertDayZeroRefugeesInCamps", bool, True, [True, False]),
    ("spawn_rules", "empty_camps_on_day0", "spawn_rules", "EmptyCampsOnDay0", bool, False, [True, False]),
    ("spawn_rules", "camps_are_sinks", "spawn_rules", "camps_are_sinks", bool, False, [True, False]),
    ("spawn_rules", "read_from_agents_csv_file", "spawn_rules", "read_from_agents_csv_file", bool, False, [True, False]),
    ("spawn_rules", "sum_from_camps", "spawn_rules", "sum_from_camps", bool, True, [True, False]),
    ("spawn_rules", "conflict_spawn_decay", "spawn_rules", "conflict_spawn_decay", None, None, [[1.0, 0.5], [1.0, 1.0, 0.1]]),
    ("spawn_rules", "conflict_spawn_decay_interval", "spawn_rules", "conflict_spawn_decay_interval", int, 30, [1, 7, "14"]),
    ("move_rules", "max_move_speed", "move_rules", "MaxMoveSpeed", float, 360.0, [200, 420.5, "100"]),
    ("move_rules", "max_walk_speed", "move_rules", "MaxWalkSpeed", float, 35.0, [20, 50.5]),
    ("move_rules", "max_crossing_speed", "move_rules", "MaxCrossingSpeed", float, 20.0, [10]),
    ("move_rules", "foreign_weight", "move_rules", "ForeignWeight", float, 1.0, [2, 1.25]),
    ("move_rules", "camp_weight", "move_rules", "CampWeight", float, 1.0, [2, 3.5]),
    ("move_rules", "conflict_weight", "move_rules", "ConflictWeight", float, 1.0 / T, [0.25, 0.9]),
    ("move_rules", "conflict_movechance", "move_rules", "ConflictMoveChance", float, 1.0, [0.5, 0.9]),
    ("move_rules", "camp_movechance", "move_rules", "CampMoveChance", float, 0.001, [0.01, 0.5]),
    ("move_rules", "idpcamp_movechance", "move_rules", "IDPCampMoveChance", float, 0.1, [0.2, 0.5]),
    ("move_rules", "default_movechance", "move_rules", "DefaultMoveChance", float, 0.3, [0.2, 1, "0.4"]),
    ("move_rules", "awareness_level", "move_rules", "AwarenessLevel", int, 1, [0, 2, 3]),
    ("move_rules", "capacity_buffer", "move_rules", "CapacityBuffer", float, 0.9, [0.5, 1.0]),
    ("move_rules", "capacity_scaling", "move_rules", "CapacityScaling", float, 1.0, [0.5, 10]),
    ("move_rules", "avoid_short_stints", "move_rules", "AvoidShortStints", bool, False, [True, False]),
    ("move_rules", "start_on_foot", "move_rules", "StartOnFoot", bool, False, [True, False]),
    ("move_rules", "softening", "move_rules", "DistanceSoftening", float, 10.0, [0, 25]),
    ("move_rules", "weight_softening", "move_rules", "WeightSoftening", float, 0.0, [0.1, 2]),
    ("move_rules", "weight_power", "move_rules", "WeightPower", float, 1.0, [0, 0.5, 2]),
    ("move_rules", "distance_power", "move_rules", "DistancePower", float, 1.0, [0.5, 2]),
    ("move_rules", "stay_close_to_home", "move_rules", "StayCloseToHome", bool, False, [True, False]),
    ("move_rules", "home_distance_power", "move_rules", "HomeDistancePower", float, 0.5, [0.1, 1]),
    ("move_rules", "use_pop_for_loc_weight", "move_rules", "UsePopForLocWeight", bool, False, [True, False]),
    ("move_rules", "pop_power_for_loc_weight", "move_rules", "PopPowerForLocWeight", float, 0.1, [0.2, 1]),
    ("move_rules", "movechance_pop_base", "move_rules", "MovechancePopBase", float, 10000.0, [5000, 100]),
    ("move_rules", "movechance_pop_scale_factor", "move_rules", "MovechancePopScaleFactor", float, 0.0, [0.5, -0.2]),
    ("move_rules", "pruning_threshold", "move_rules", "PruningThreshold", float, 1.0, [2, 10.5]),
    ("move_rules", "fixed_routes", "move_rules", "FixedRoutes", bool, False, [True, False]),
    ("optimisations", "hasten", "optimisations", "PopulationScaleDownFactor", int, 1, [10, 100]),
]
for _k in ["ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity"]:
    TABLE.append(("move_rules", _k, "move_rules", _k, bool, False, [True, False]))


def value(rng, typ, examples):
    """An example, or any other number that can be asked for, zero included."""
    if typ in (float, int) and rng.random() < 0.4:
        x = rng.choice([0, 0, 0.0, rng.randint(1, 60), round(rng.uniform(0, 30), rng.randint(1, 6))])
        x = int(x) if typ is int else x
        return str(x) if rng.random() < 0.15 else x
    return rng.choice(examples)


def given(rng, p):
    """A random file, as nested dict."""
    d = {}
    for sec in ["log_levels", "spawn_rules", "move_rules", "optimisations"]:
        r = rng.random()
        if r < 0.1:
            continue
        if r < 0.2:
            d[sec] = None
            continue
        d[sec] = {k: value(rng, t, ex) for s, k, _w, _n, t, _d, ex in TABLE if s == sec and rng.random() < p}
    if rng.random() < 0.4:
        d["number_of_steps"] = rng.choice([10, 300])
    if rng.random() < 0.3:
        d["conflict_input_file"] = "some/conflicts.csv"
    if rng.random() < 0.3:
        d["flood_level_input_file"] = "some/flood_level.csv"
    ms = d.get("move_rules")
    if ms is not None and rng.random() < 0.2:
        ms["use_v1_rules"] = rng.choice([True, True, False])
    if ms is not None and rng.random() < 0.25:
        ms["flood_rules"] = {"max_flood_level": 3, "flood_movechances": [0.1, 0.2, 0.3, 0.4], "flood_loc_weights": [1, 0.5, 0.2, 0.1],
                             "flood_link_weights": [1.0, 1.0, 0.5, 0.1]}
        more = {"flood_forecaster": rng.choice([True, True, False]), "flood_forecaster_timescale": rng.choice([0, 1, 5, "3"]),
                "flood_forecaster_end_time": rng.choice([0, 9, "12"]), "flood_forecaster_weights": [1.0, 0.9, 0.4, 0.0],
                "flood_awareness_weights": [0.0, 0.5, 1.0]}
        ms["flood_rules"].update({k: v for k, v in more.items() if rng.random() < p})
    ss = d.get("spawn_rules")
    if ss is not None:
        r = rng.random()
        if r < 0.2:
            ss["conflict_driven_spawning"] = rng.choice([
                {"spawn_mode": "pop_ratio", "displaced_per_conflict_day": 0.05}, {"spawn_mode": "Poisson", "displaced_per_conflict_day": "70"},
                {"spawn_mode": "constant"}, {"spawn_mode": "pop_ratio"}, {"displaced_per_conflict_day": 12}])
        elif r < 0.4:
            ss["conflict_zone_spawning_only"] = False
            ss["flood_zone_spawning_only"] = True
            ss["take_from_population"] = True
            ss["flood_driven_spawning"] = rng.choice([{"spawn_mode": "pop_ratio", "displaced_per_flood_day": [0.0, 0.3]},
                                                      {"spawn_mode": "constant"}, {"spawn_mode": "pop_ratio"},
                                                      {"displaced_per_flood_day": [0.0, 0.25, 0.5]}])
        elif r < 0.5:
            ss["conflict_zone_spawning_only"] = False
    return d


def same(a, b):
    if isinstance(b, float):
        return isinstance(a, (int, float)) and not isinstance(a, bool) and math.isclose(float(a), b, rel_tol=1e-9, abs_tol=1e-12)
    return type(a) is type(b) and a == b


def compare(mon, S, n, d):
    ms = d.get("move_rules") or {}
    ss = d.get("spawn_rules") or {}
    v1 = ms.get("use_v1_rules") is True
    forced = {"MaxMoveSpeed": 200.0, "StartOnFoot": False, "AvoidShortStints": False, "CampWeight": 2.0, "ConflictWeight": 0.25} if v1 else {}
    if v1:
        mon.count("v1")
    for sec, key, where, name, typ, default, _ex in TABLE:
        src = d.get(sec) or {}
        if key in src:
            mon.count("given")
            want = src[key] if typ is None else typ(src[key])
        else:
            mon.count("defaulted")
            want = default
        if name in forced and where == "move_rules":
            want = forced[name]
        got = getattr(S, where).get(name, "(nothing)")
        mon.check(same(got, want), "setting:" + key, lambda: "%s.%s is %r instead of %r" % (sec, key, got, want))
    want = float(d.get("number_of_steps", -1))
    mon.check(n == want, "number-of-steps", lambda: "%r instead of %r" % (n, want))
    mon.check(S.ConflictInputFile == d.get("conflict_input_file", ""), "conflict-file", lambda: repr(S.ConflictInputFile))
    mon.check(S.FloodLevelInputFile == d.get("flood_level_input_file", ""), "flood-file", lambda: repr(S.FloodLevelInputFile))
    mon.check(bool(S.UseV1Rules) == v1, "v1-flag", "version 1 rules %r" % S.UseV1Rules)
    sr, mr = S.spawn_rules, S.move_rules
    floodspawn = ss.get("flood_zone_spawning_only", False) is True
    mon.check(sr["conflict_zone_spawning_only"] is ss.get("conflict_zone_spawning_only", True), "conflict-only", repr(sr["conflict_zone_spawning_only"]))
    mon.check(sr["flood_zone_spawning_only"] is floodspawn, "flood-only", repr(sr["flood_zone_spawning_only"]))
    cds = ss.get("conflict_driven_spawning") if not floodspawn else None
    mon.check(sr["conflict_driven_spawning"] is (cds is not None), "conflict-driven", lambda: repr(sr["conflict_driven_spawning"]))
    if cds is not None:
        mode = cds.get("spawn_mode", "constant")
        num = cds.get("displaced_per_conflict_day", 0.01 if mode == "pop_ratio" else 500)
        num = float(num) if mode == "pop_ratio" else int(num)
        mon.check(sr["conflict_spawn_mode"] == mode, "conflict-mode", lambda: repr(sr["conflict_spawn_mode"]))
        mon.check(same(sr["displaced_per_conflict_day"], num), "conflict-number", lambda: "%r instead of %r" % (sr["displaced_per_conflict_day"], num))
    fds = ss.get("flood_driven_spawning") if floodspawn else None
    mon.check(sr["flood_driven_spawning"] is (fds is not None), "flood-driven", lambda: repr(sr["flood_driven_spawning"]))
    if fds is not None:
        mode = fds.get("spawn_mode", "pop_ratio")
        num = fds.get("displaced_per_flood_day", [0.0, 0.1, 0.2, 0.5, 0.9] if mode == "pop_ratio" else [0, 100, 200, 300, 500])
        mon.check(sr["flood_spawn_mode"] == mode, "flood-mode", lambda: repr(sr["flood_spawn_mode"]))
        mon.check(list(sr["displaced_per_flood_day"]) == num, "flood-number", lambda: repr(sr["displaced_per_flood_day"]))
    fr = ms.get("flood_rules")
    mon.check(mr["FloodRulesEnabled"] is (fr is not None or fds is not None), "flood-rules", lambda: repr(mr["FloodRulesEnabled"]))
    mon.check(mr["FloodForecaster"] is (fr or {}).get("flood_forecaster", False), "forecaster", lambda: repr(mr["FloodForecaster"]))
    if fr is not None:
        mon.check(list(mr["FloodMovechances"]) == fr["flood_movechances"] and list(mr["FloodLocWeights"]) == fr["flood_loc_weights"],
                  "flood-values", lambda: "%r %r" % (mr["FloodMovechances"], mr["FloodLocWeights"]))
        for key, name, typ, default in [("timescale", "FloodForecasterTimescale", int, 0), ("end_time", "FloodForecasterEndTime", int, 0),
                                        ("weights", "FloodForecasterWeights", None, None)]:
            want = fr.get("flood_forecaster_" + key, default)
            mon.check(same(mr[name], typ(want) if typ else want), "setting:flood_forecaster_" + key, lambda: "%r instead of %r" % (mr[name], want))
        mon.check(same(mr["FloodAwarenessWeights"], fr.get("flood_awareness_weights")), "setting:flood_awareness_weights", lambda: repr(mr["FloodAwarenessWeights"]))
    mon.sig(yaml.safe_dump(d))


def load(d):
    from flee.SimulationSettings import SimulationSettings as S

    with open("s.yml", "w", encoding="utf-8") as f:
        if d:
            yaml.safe_dump(d, f)
    return S, S.ReadFromYML("s.yml")


def run(case, mon):
    rng = random.Random(case["seed"])
    if case["kind"] == "load":
        for k in range(3):
            d = given(rng, rng.choice([0.0, 0.2, 0.5, 1.0]))
            S, n = load(d)
            if k:
                mon.count("reloads")
            compare(mon, S, n, d)
        mon.sample = d
    elif case["kind"] == "effect":
        effect(rng, mon)
    else:
        # Contradictions stop the run before a simulation can start.
        d = given(rng, 0.2)
        ss = d.get("spawn_rules") or {}
        ss.pop("conflict_driven_spawning", None)
        what = rng.choice(["both", "default", "population", "population"])
        ss["flood_zone_spawning_only"] = True
        ss["conflict_zone_spawning_only"] = what == "both"
        ss["flood_driven_spawning"] = {"spawn_mode": "constant"}
        ss["take_from_population"] = True
        if what == "default":
            del ss["conflict_zone_spawning_only"]
        if what == "population":
            ss["take_from_population"] = False
            if rng.random() < 0.5:
                del ss["take_from_population"]
        d["spawn_rules"] = ss
        try:
            load(d)
            mon.violate("accepted", "contradictory settings are accepted: %r" % ss)
        except SystemExit:
            mon.count("refused")


def effect(rng, mon):
    """The loaded values are what places and agents actually use."""
    F = W.sim()
    m = {"camp_movechance": round(rng.uniform(0.01, 1), 3), "idpcamp_movechance": round(rng.uniform(0.01, 1), 3),
         "default_movechance": round(rng.uniform(0.01, 1), 3), "conflict_movechance": round(rng.uniform(0.01, 1), 3),
         "camp_weight": rng.choice([1.5, 4.0]), "foreign_weight": rng.choice([1.5, 3.0]), "conflict_weight": rng.choice([0.2, 0.6])}
    given_ = {k: v for k, v in m.items() if rng.random() < 0.7}
    defaults = {"camp_movechance": 0.001, "idpcamp_movechance": 0.1, "default_movechance": 0.3, "conflict_movechance": 1.0,
                "camp_weight": 1.0, "foreign_weight": 1.0, "conflict_weight": 1 / T}
    W.settings(move_rules=given_, log_levels={}, spawn_rules={})
    v = {k: given_.get(k, x) for k, x in defaults.items()}
    e = F.Ecosystem()
    got = {}
    for t in ["camp", "idpcamp", "town", "conflict_zone"]:
        loc = e.addLocation(name=t, location_type=t, foreign=False, capacity=10 if "camp" in t else -1, pop=10)
        got[t] = loc
    far = e.addLocation(name="far", location_type="camp", foreign=True, capacity=10)
    for t, k in [("camp", "camp_movechance"), ("idpcamp", "idpcamp_movechance"), ("town", "default_movechance"), ("conflict_zone", "conflict_movechance")]:
        mon.count("effects")
        mon.check(abs(got[t].movechance - v[k]) < 1e-12, "effect:" + k, lambda: "%s has move chance %r, setting is %r" % (t, got[t].movechance, v[k]))
    for loc, want in [(got["camp"], v["camp_weight"]), (far, v["camp_weight"] * v["foreign_weight"]),
                      (got["conflict_zone"], v["conflict_weight"]), (got["town"], 1.0)]:
        mon.count("effects")
        mon.check(abs(loc.getScore(1) - want) < 1e-9, "effect:score", lambda: "score of %s is %r instead of %r" % (loc.name, loc.getScore(1), want))
    mon.sig(sorted(given_.items()))
