"""Input CSV files are turned into exactly the location graph they describe."""
import os
import random

import worlds as W

RULE = ("random locations.csv, routes.csv, major_routes.csv, closures.csv, location_changes.csv, conflicts.csv and "
        "flood_level.csv files with extra columns, comments, empty lines, missing fields, forced redirections and "
        "population scaling; every location, link, closure, change and daily level after loading is compared with the "
        "rows; non-trivial: a file with at least two links; distinct by the rows")
CASES = [("graph", 1500, 22000), ("levels", 400, 6000)]
REQUIRED = {"locations": 3000, "links": 6000, "blank_fields": 800, "extra_columns": 900, "closures": 1500,
            "forced": 600, "major_routes": 200, "levels": 5000, "maps": 100, "foreign": 800}
ASSUMPTIONS = ["comment lines carry no more commas than the standard columns (longer ones extend the header by design)"]


def noise(rng, f, ncol):
    if rng.random() < 0.12:
        f.write("#" + ",".join(["x"] * rng.randint(1, ncol)) + "\n")
    if rng.random() < 0.08:
        f.write("\n")


def write(rng, mon, w, d, scale):
    os.makedirs(d, exist_ok=True)
    extra = rng.sample(["gdp", "conflict_intensity", "Hausa", "deactivation_probability", "water"], rng.choice([0, 0, 1, 2, 3]))
    kextra = rng.sample(["max_move_speed", "surface", "walk_probability"], rng.choice([0, 0, 1, 2]))
    mon.count("extra_columns", len(extra) + len(kextra))
    exp = {"locs": [], "links": [], "closures": [], "major": {}, "changes": [], "map": []}
    home = None
    with open(os.path.join(d, "locations.csv"), "w", encoding="utf-8") as f:
        f.write("#name,region,country,gps_x,gps_y,location_type,conflict_date,pop/cap" + "".join("," + a for a in extra) + "\n")
        for i, l in enumerate(w["locs"]):
            noise(rng, f, 8)
            n = l["capacity"] if "camp" in l["type"] else l["pop"]
            region, country, x, y, ns = l["region"], l["country"], repr(l["x"]), repr(l["y"]), str(n)
            if rng.random() < 0.1:
                region = ""
            if rng.random() < 0.1 and i > 0:
                country = ""
            if rng.random() < 0.1:
                x = ""
            if rng.random() < 0.1:
                y = ""
            if rng.random() < 0.1 and "conflict" not in l["type"]:
                ns = ""
            mon.count("blank_fields", [region, country, x, y, ns].count(""))
            cd = rng.choice([0, 0, 1, 7]) if "conflict" in l["type"] else rng.choice([0, 0, 5])
            at = {a: rng.choice(["1", "0.5", "17"]) for a in extra}
            f.write(",".join([l["name"], region, country, x, y, l["type"], str(cd), ns] + [at[a] for a in extra]) + "\n")
            country = country or "unknown"
            if home is None:
                home = country
            kind = "town" if "conflict" in l["type"] and cd > 0 else l["type"]
            num = (int(ns) // scale) if ns else 0
            exp["map"].append([l["name"], x, y, l["type"]])
            exp["locs"].append(dict(
                name=l["name"], region=region or "unknown", country=country, x=float(x or 0), y=float(y or 0),
                foreign=country != home, camp="camp" in kind, idpcamp="idp" in kind, town=kind in ("town", "default"),
                forward="forward" in kind, marker="marker" in kind, flood="flood" in kind, conflict="conflict" in kind,
                intensity=float(at.get("conflict_intensity", 1.0)), num=num, attributes=at))
    with open(os.path.join(d, "routes.csv"), "w", encoding="utf-8") as f:
        f.write("#name1,name2,distance,forced_redirection" + "".join("," + a for a in kextra) + "\n")
        for k in w["links"]:
            noise(rng, f, 4)
            at = {a: rng.choice(["100", "200.5", "0.25"]) for a in kextra}
            ds = rng.choice([repr(k["dist"]), str(int(k["dist"]))])
            fr = rng.choice(["0", "0", "", "1", "2"])
            row = [k["a"], k["b"], ds, fr] + [at[a] for a in kextra]
            if not kextra and fr in ("0", "") and rng.random() < 0.3:
                row = row[:3]
            f.write(",".join(row) + "\n")
            a, b = k["a"], k["b"]
            forced = {"1": (a, b), "2": (b, a)}.get(fr)
            if forced:
                mon.count("forced")
            for s, e in ((a, b), (b, a)):
                exp["links"].append((s, e, float(ds), tuple(sorted(at.items())), forced == (s, e)))
    names = [l["name"] for l in w["locs"]]
    if rng.random() < 0.4:
        with open(os.path.join(d, "major_routes.csv"), "w", encoding="utf-8") as f:
            width = 5
            for _ in range(rng.randint(1, 3)):
                p = rng.sample(names, rng.randint(2, min(len(names), 4)))
                pad = rng.random() < 0.3
                f.write(",".join(p) + "\n")
                mon.count("major_routes")
                exp["major"].setdefault(p[0], []).append(p[1:])
                exp["major"].setdefault(p[-1], []).append(p[-2::-1])
                noise(rng, f, width)
                del pad
    with open(os.path.join(d, "closures.csv"), "w", encoding="utf-8") as f:
        f.write("#closure_type,name1,name2,closure_start,closure_end\n")
        for _ in range(rng.randint(0, 4)):
            noise(rng, f, 5)
            t = rng.choice(["link", "location", "country", "camp", "idpcamp"])
            row = [t, rng.choice(names), rng.choice(names + ["0"]), rng.randint(0, 30), rng.choice([-1, 40, 50])]
            f.write(",".join(str(x) for x in row) + "\n")
            exp["closures"].append(row)
    if rng.random() < 0.3:
        with open("location_changes.csv", "w", encoding="utf-8") as f:
            f.write("#name,new_type,day\n")
            for _ in range(rng.randint(1, 3)):
                row = [rng.choice(names), rng.choice(["town", "camp"]), rng.randint(0, 20)]
                f.write(",".join(str(x) for x in row) + "\n")
                exp["changes"].append(row)
    return exp


def links_of(e):
    out = []
    for loc in e.locations:
        for k in loc.links:
            out.append((k.startpoint.name, k.endpoint.name, k.get_distance(), tuple(sorted(k.attributes.items())),
                        bool(k.forced_redirection)))
            if k.startpoint is not loc:
                out.append(("link of another place", loc.name, k.startpoint.name))
        if loc.closed_links:
            out.append(("closed link", loc.name))
    return sorted(out, key=repr)


def run_graph(case, rng, mon):
    scale = rng.choice([1, 1, 1, 3, 10])
    S, _ = W.settings(log_levels={"link": rng.choice([0, 1])}, optimisations={"hasten": scale}, spawn_rules={},
                      move_rules={"capacity_scaling": rng.choice([1.0, 2.0])})
    w = W.world(rng, nmin=2, nmax=9, first=rng.choice(["conflict_zone", None]),
                types=W.TYPES + ["flood_zone"])
    for l in w["locs"]:
        l["country"] = rng.choice(["A", "B", "C"])
    exp = write(rng, mon, w, "in", scale)
    e, lm, ig = W.load_csv("in")
    mon.check([l.name for l in e.locations] == [x["name"] for x in exp["locs"]], "location-list",
              lambda: "%s instead of %s" % ([l.name for l in e.locations], [x["name"] for x in exp["locs"]]))
    mon.check(sorted(lm) == sorted(x["name"] for x in exp["locs"]), "location-map", "returned %s" % sorted(lm))
    mon.check(list(e.locationNames) == [x["name"] for x in exp["locs"]], "location-names", "names differ")
    for x in exp["locs"]:
        loc = lm.get(x["name"])
        if loc is None:
            continue
        mon.count("locations")
        mon.check(any(loc is l for l in e.locations), "location-identity", "returned place is not in the ecosystem")
        if x["foreign"]:
            mon.count("foreign")
        got = dict(name=loc.name, region=loc.region, country=loc.country, x=loc.x, y=loc.y, foreign=bool(loc.foreign),
                   camp=bool(loc.camp), idpcamp=bool(loc.idpcamp), town=bool(loc.town), forward=bool(loc.forward),
                   marker=bool(loc.marker), flood=bool(loc.flood_zone), conflict=loc.conflict > 0,
                   attributes=dict(loc.attributes))
        for k, v in got.items():
            mon.check(v == x[k], "field:" + k, lambda: "%s of %s is %r instead of %r" % (k, x["name"], v, x[k]))
        if x["conflict"]:
            mon.check(abs(loc.conflict - x["intensity"]) < 1e-9, "intensity", lambda: "intensity %r, file says %r" % (loc.conflict, x["intensity"]))
        if x["camp"]:
            mon.check(loc.capacity == x["num"], "capacity", lambda: "capacity %r instead of %r" % (loc.capacity, x["num"]))
            mon.check(loc.pop == 0, "camp-population", lambda: "camp with population %r" % loc.pop)
        else:
            mon.check(loc.pop == x["num"], "population", lambda: "population of %s %r instead of %r" % (x["name"], loc.pop, x["num"]))
            mon.check(loc.capacity < 1, "town-capacity", lambda: "capacity %r at a place that is no camp" % loc.capacity)
        mon.check([list(r) for r in loc.major_routes] == exp["major"].get(x["name"], []), "major-routes",
                  lambda: "major routes %r instead of %r" % (loc.major_routes, exp["major"].get(x["name"], [])))
    got, want = links_of(e), sorted(exp["links"], key=repr)
    mon.count("links", len(want))
    mon.check([g[:3] for g in got] == [g[:3] for g in want], "links", lambda: "%s instead of %s" % (got, want))
    mon.check([g[:4] for g in got] == [g[:4] for g in want], "link-attributes", lambda: "%s instead of %s" % (got, want))
    mon.check(got == want, "forced-redirection", lambda: "%s instead of %s" % (got, want))
    for a, l in enumerate(e.locations):
        for k in l.links:
            mon.check(k.endpoint is lm[k.endpoint.name], "link-identity", "link leads to a copy of its place")
    run_map(mon, ig, exp["map"])
    mon.count("closures", len(exp["closures"]))
    mon.check([list(c) for c in e.closures] == exp["closures"], "closures", lambda: "%s instead of %s" % (e.closures, exp["closures"]))
    mon.check([[c[0], c[1], int(c[2])] for c in ig.location_changes] == exp["changes"], "location-changes",
              lambda: "%s instead of %s" % (ig.location_changes, exp["changes"]))
    if len(want) > 3:
        mon.sig(sorted(map(repr, want)))
    mon.sample = {"locations": len(exp["locs"]), "links": len(want), "closures": exp["closures"]}


COLORS = {"camp": "green", "conflict_zone": "red", "town": "yellow", "idpcamp": "teal", "marker": "white",
          "flood_zone": "blue", "forwarding_hub": "black", "forward": "blue", "default": "black"}


def run_map(mon, ig, rows):
    """The places and colours that maps are drawn from."""
    if all(r[1] and r[2] for r in rows):
        mon.count("maps")
        got = ig.MakeLocationList()
        want = {r[0]: [float(r[1]), float(r[2])] for r in rows}
        mon.check(got == want and list(got) == [r[0] for r in rows], "map", lambda: "map of %s instead of %s" % (got, want))
    want = [COLORS.get(r[3]) for r in rows]
    got = ig.MakeLocationColorsList()
    mon.check(len(got) == len(want) and all(w is None or w == g for w, g in zip(want, got)), "map-colours",
              lambda: "colours %s for %s" % (got, [r[3] for r in rows]))


def run_levels(case, rng, mon):
    days = rng.randint(3, 12)
    w = W.world(rng, nmin=2, nmax=6, types=["flood_zone", "flood_zone", "town", "camp"], first="flood_zone")
    names = [l["name"] for l in w["locs"]]
    cols = [n for n in names if rng.random() < 0.6] or names[:1]
    tab = {n: [rng.choice([0, 0, 1, 2, 3, 4]) for _ in range(days)] for n in cols}
    W.write_csv(w, "in")
    with open("in/flood_level.csv", "w", encoding="utf-8") as f:
        f.write("#Day," + rng.choice(["", " "]).join(["", ",".join(cols)]) + "\n")
        for t in range(days):
            f.write("%d,%s\n" % (t, ",".join(str(tab[n][t]) for n in cols)))
    # The flood section of the movement rules enables the daily levels as well.
    S, _ = W.settings(log_levels={}, flood_level_input_file="in/flood_level.csv", spawn_rules={
        "take_from_population": True, "conflict_zone_spawning_only": False, "flood_zone_spawning_only": True,
        "flood_driven_spawning": {"spawn_mode": "constant", "displaced_per_flood_day": [0, 1, 2, 3, 4]}},
        move_rules={"flood_rules": {"max_flood_level": 4, "flood_movechances": [0.0, 0.5, 0.8, 1.0, 1.0],
                                    "flood_loc_weights": [1.0, 0.8, 0.5, 0.2, 0.1]}})
    from flee import InputGeography

    F = W.sim()
    e = F.Ecosystem()
    ig = InputGeography.InputGeography()
    ig.ReadLocationsFromCSV("in/locations.csv")
    ig.ReadLinksFromCSV("in/routes.csv")
    ig.ReadClosuresFromCSV("in/closures.csv")
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        for n in names:
            want = tab[n][t] if n in tab else 0
            got = lm[n].attributes.get("flood_level")
            mon.count("levels")
            mon.check(got == want and isinstance(got, int), "flood-level", lambda: "day %d: flood level of %s is %r, the file says %r" % (t, n, got, want))
        mon.sig(tuple(lm[n].attributes.get("flood_level") for n in names))
        e.evolve()


def run(case, mon):
    rng = random.Random(case["seed"])
    (run_graph if case["kind"] == "graph" else run_levels)(case, rng, mon)
