"""Complete simulation inputs (geography, conflicts, validation data, settings), as users prepare them."""
import os

import yaml

import datagen
import simrun
import worlds as W


def generate(rng, days, base=".", small=False, idp=None, demographics=True, floods=0.0):
    """Write input_csv/, data/ and simsetting.yml below `base`; returns what was written."""
    flood = rng.random() < floods
    w = W.world(rng, nmin=3, nmax=5 if small else 7, types=["camp", "camp", "town", "flood_zone" if flood else "conflict_zone", "idpcamp", "forwarding_hub", "marker"])
    if not any("camp" in l["type"] for l in w["locs"]):
        w["locs"][-1].update(type="camp", capacity=rng.choice([-1, 500, 5000]), pop=0)
    for l in w["locs"]:
        if l["type"] == "conflict_zone" or rng.random() < 0.3:
            l["pop"] = 0 if "camp" in l["type"] else rng.choice([3000, 20000])
        if "camp" in l["type"] and rng.random() < 0.5:
            l["capacity"] = rng.choice([200, 2000, 20000])
    w["locs"][0]["pop"] = 1000000  # the arrivals of every day must have a place to come from
    names = [l["name"] for l in w["locs"]]
    camps = [l["name"] for l in w["locs"] if "camp" in l["type"]]
    others = [n for n in names if n not in camps]
    conf = {names[0]: [1.0] * (days + 2)}
    for n in others[1:]:
        if [l for l in w["locs"] if l["name"] == n][0]["type"] not in ("town", "conflict_zone"):
            continue
        s = rng.randrange(1, days + 1)
        z = [l for l in w["locs"] if l["name"] == n][0]["type"] == "conflict_zone"
        x = rng.choice([0.5, 1.0, 2.0])
        if z:
            conf[n] = [x] * s + [0.0] * (days + 2 - s)
        elif rng.random() < 0.6:
            conf[n] = [0.0] * s + [x] * (days + 2 - s)
    w["conflicts"] = conf
    pairs = [(k["a"], k["b"]) for k in w["links"]]
    for _ in range(rng.randint(0, 3)):
        if pairs and rng.random() < 0.7:
            a, b = rng.choice(pairs)
            w["closures"].append(["link", a, b, rng.randrange(days), rng.choice([-1, rng.randrange(days + 1)])])
        else:
            w["closures"].append(["location", rng.choice(names), "0", rng.randrange(days), rng.randrange(days + 1)])
    if rng.random() < 0.3 and others[1:]:
        w["changes"].append([rng.choice(others[1:]), rng.choice(["town", "forwarding_hub"]), rng.randrange(1, days + 1)])
    loc_attr = []
    if rng.random() < 0.5:
        loc_attr = ["initial_idps", "deactivation_probability"]
        for l in w["locs"]:
            l["attributes"] = {"initial_idps": rng.choice([0, 0, 7]) if "camp" in l["type"] else 0,
                               "deactivation_probability": rng.choice([0, 0.2]) if "camp" in l["type"] else 0}
    cwd = os.getcwd()
    os.makedirs(base, exist_ok=True)
    os.chdir(base)
    try:
        W.write_csv(w, "input_csv", loc_attr=loc_attr)
        scale = rng.choice([1, 5, 10])
        data = datagen.Data(rng, camps, scale=scale, multi=False, horizon=max(10, days + 5))
        data.write("data", rng)
        with open("input_csv/sim_period.csv", "w", encoding="utf-8") as f:
            f.write("StartDate,%s\nLength,%d\n" % (data.start, days))
        sets = simrun.random_settings(rng, agent_log=0, fixed=True)
        sets["move_rules"]["camp_movechance"] = rng.choice([0.001, 0.02])
        sets["log_levels"]["link"] = 0
        sets["log_levels"]["camp"] = rng.choice([0, 1])
        sets["log_levels"]["idp_totals"] = rng.choice([0, 1]) if idp is None else idp
        sets["optimisations"] = {"hasten": scale}
        sets["spawn_rules"].update({"insert_day0": rng.random() < 0.7, "empty_camps_on_day0": rng.random() < 0.2,
                                    "sum_from_camps": rng.random() < 0.6})
        if rng.random() < 0.25:
            sets["spawn_rules"]["conflict_driven_spawning"] = {"spawn_mode": rng.choice(["constant", "Poisson"]),
                                                               "displaced_per_conflict_day": rng.choice([5, 40])}
        if rng.random() < 0.3:
            sets["spawn_rules"]["conflict_spawn_decay"] = [1.0, 0.5, 0.1]
            sets["spawn_rules"]["conflict_spawn_decay_interval"] = rng.choice([2, 5])
        if flood:
            add_floods(rng, w, days, sets, loc_attr)
        with open("simsetting.yml", "w", encoding="utf-8") as f:
            yaml.safe_dump(sets, f)
        if demographics and rng.random() < 0.4:
            for a, vals in rng.sample([("age", [5, 30, 60]), ("gender", ["f", "m"])], rng.randint(1, 2)):
                with open("input_csv/demographics_%s.csv" % a, "w", encoding="utf-8") as f:
                    f.write("%s,Default\n" % a)
                    for v in vals:
                        f.write("%s,%s\n" % (v, rng.choice([1, 2, 5])))
        if rng.random() < 0.2:
            sets["spawn_rules"]["read_from_agents_csv_file"] = True
            with open("simsetting.yml", "w", encoding="utf-8") as f:
                yaml.safe_dump(sets, f)
            with open("input_csv/agents.csv", "w", encoding="utf-8") as f:
                f.write("location,age,gender,floodawareness\n")
                for _ in range(rng.randint(1, 20)):
                    f.write("%s,%d,%s,%d\n" % (rng.choice(names), rng.randint(1, 80), rng.choice("fm"), rng.randint(0, 2)))
        if rng.random() < 0.3:
            c = rng.choice(camps)
            rows = data.camps[c][0]
            if len(rows) > 1 and min(r[1] for r in rows) >= 2 * scale:
                with open("input_csv/registration_corrections.csv", "w", encoding="utf-8") as f:
                    f.write("%s,%s\n" % (c, datagen.date(data.start, rng.choice(rows[1:])[0])))
    finally:
        os.chdir(cwd)
    return {"world": w, "data": data, "camps": camps, "settings": sets, "days": days, "scale": scale}


def add_floods(rng, w, days, sets, loc_attr):
    """Displacement driven by floods (instead of data or conflicts), often with a forecast."""
    n = days + 12
    names = [l["name"] for l in w["locs"]]
    cols = [x for x in names if rng.random() < 0.7] or names[:1]
    with open("input_csv/flood_level.csv", "w", encoding="utf-8") as f:
        f.write("#Day," + ",".join(cols) + "\n")
        for t in range(n):
            f.write("%d,%s\n" % (t, ",".join(str(rng.choice([0, 0, 1, 2, 3, 4])) for _ in cols)))
    mode = rng.choice(["constant", "pop_ratio", "Poisson"])
    per = [0] + sorted(rng.randint(1, 60) for _ in range(4))
    if mode == "pop_ratio":
        per = [0.0] + sorted(rng.choice([0.001, 0.01, 0.02]) for _ in range(4))
        w["locs"][0]["pop"] = min(w["locs"][0]["pop"], 3000)
        W.write_csv(w, "input_csv", loc_attr=loc_attr)
    sets["spawn_rules"].pop("conflict_driven_spawning", None)
    sets["spawn_rules"].update({"take_from_population": True, "conflict_zone_spawning_only": False, "flood_zone_spawning_only": True,
                                "flood_driven_spawning": {"spawn_mode": mode, "displaced_per_flood_day": per}})
    share = lambda: [round(rng.uniform(0.1, 1.0), 3) for _ in range(4)]
    sets["move_rules"]["flood_rules"] = {
        "max_flood_level": 4, "flood_movechances": [0.0] + share(), "flood_loc_weights": [1.0] + share(), "flood_link_weights": [1.0] * 5,
        "flood_forecaster": rng.random() < 0.6, "flood_forecaster_timescale": rng.choice([2, 3, 5]),
        "flood_forecaster_end_time": rng.choice([days // 2, days - 1, days + 5]),
        "flood_forecaster_weights": [rng.choice([1.0, round(rng.uniform(0.2, 1.0), 3)]) for _ in range(n)],
        "flood_awareness_weights": rng.choice([[0.2, 0.7, 0.9], [1.0, 0.3, 0.6]])}
    with open("input_csv/demographics_floodawareness.csv", "w", encoding="utf-8") as f:
        f.write("floodawareness,Default\n0.0,%s\n1.0,%s\n2.0,%s\n" % tuple(rng.choice([1, 2, 5]) for _ in range(3)))


def simulate(days, mod=None, csvdir="input_csv", datadir="data", after=None):
    """The main loop of a run, the way runscripts/run.py does it, observed day by day."""
    from flee import InputGeography, spawning
    from flee.SimulationSettings import SimulationSettings as S
    from flee.datamanager import handle_refugee_data, read_period

    mod = mod or W.sim()
    start, _ = read_period.read_sim_period(csvdir + "/sim_period.csv")
    S.ReadFromYML("simsetting.yml")
    S.ConflictInputFile = csvdir + "/conflicts.csv"
    S.FloodLevelInputFile = csvdir + "/flood_level.csv"
    e = mod.Ecosystem()
    ig = InputGeography.InputGeography()
    ig.ReadLocationsFromCSV(csvdir + "/locations.csv")
    ig.ReadLinksFromCSV(csvdir + "/routes.csv")
    ig.ReadClosuresFromCSV(csvdir + "/closures.csv")
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    if S.spawn_rules["read_from_agents_csv_file"]:
        ig.ReadAgentsFromCSV(e, csvdir + "/agents.csv")
    d = handle_refugee_data.RefugeeTable(
        csvformat="generic", data_directory=datadir, start_date=start, data_layout="data_layout.csv",
        population_scaledown_factor=S.optimisations["PopulationScaleDownFactor"], start_empty=S.spawn_rules["EmptyCampsOnDay0"])
    d.ReadL1Corrections(csvdir + "/registration_corrections.csv")
    for c in e.get_camp_names():
        spawning.add_initial_refugees(e, d, lm[c])
    out = []
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        new = spawning.spawn_daily_displaced(e, t, d)
        spawning.refresh_spawn_weights(e)
        e.enact_border_closures(t)
        e.evolve()
        row = [t, [int(x) for x in new], e.numAgents(), [(l.name, l.numAgents, l.pop, round(float(l.conflict), 9)) for l in e.locations],
               sorted((k.startpoint.name, k.endpoint.name, k.numAgents) for l in e.locations for k in l.links)]
        if after:
            row.append(after(e, t))
        out.append(row)
    return out, e
