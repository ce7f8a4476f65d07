"""Random Flee worlds, built through the API or through CSV files."""
import os
import random

import yaml

TYPES = ["conflict_zone", "town", "camp", "idpcamp", "forwarding_hub", "marker", "default"]


def sim():
    from flee import flee as F

    return F


def settings(**over):
    """Load settings from a generated YAML file (the way users set them)."""
    from flee.SimulationSettings import SimulationSettings as S

    with open("simsetting.yml", "w", encoding="utf-8") as f:
        yaml.safe_dump(over, f)
    n = S.ReadFromYML("simsetting.yml")
    return S, n


def graph(rng, n, topo=None):
    """Undirected simple connected graph (possibly with isolated vertices)."""
    topo = topo or rng.choice(["line", "ring", "star", "tree", "random", "grid", "dense", "islands"])
    edges = set()
    if topo == "line":
        edges = {(i, i + 1) for i in range(n - 1)}
    elif topo == "ring":
        edges = {(i, i + 1) for i in range(n - 1)}
        if n > 2:
            edges.add((0, n - 1))
    elif topo == "star":
        edges = {(0, i) for i in range(1, n)}
    elif topo == "tree":
        edges = {(rng.randrange(i), i) for i in range(1, n)}
    elif topo == "grid":
        w = 3
        for i in range(n):
            if (i + 1) % w and i + 1 < n:
                edges.add((i, i + 1))
            if i + w < n:
                edges.add((i, i + w))
    elif topo == "dense":
        edges = {(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < 0.7}
        edges |= {(rng.randrange(i), i) for i in range(1, n)}
    elif topo == "islands":
        edges = {(rng.randrange(i), i) for i in range(1, n - 1)}
    else:
        edges = {(rng.randrange(i), i) for i in range(1, n)}
        for _ in range(n // 2):
            a, b = rng.sample(range(n), 2)
            edges.add((min(a, b), max(a, b)))
    edges = list(sorted(edges))
    rng.shuffle(edges)
    return [(a, b) if rng.random() < 0.5 else (b, a) for a, b in edges]


def distance(rng, scale):
    if scale == "short":
        return float(rng.choice([30, 50, 80, 100, 110, 120, 150]))
    if scale == "long":
        return float(rng.choice([200, 350, 360, 400, 719, 720, 900, 1100, 1500]))
    return float(rng.choice([10, 35, 70, 100, 150, 180, 250, 360, 365, 400, 500, 720, 800, 1200])) + rng.choice([0.0, 0.0, 0.25])


def nested_names(rng, n):
    """Names that contain, extend or resemble each other."""
    pool = ["Goma", "Goma-Nord", "Gom", "goma", "Nord", "GomaGoma", "Goma 2", "Goma 22", "2", "oma", "Goma_camp", "camp", "Nord-Goma", "G"]
    rng.shuffle(pool)
    return (pool + ["%s%d" % (pool[i % len(pool)], 100 + i) for i in range(max(0, n - len(pool)))])[:n]


def world(rng, nmin=3, nmax=8, types=None, scale=None, topo=None, first="conflict_zone", countries=2,
          capacity=None, markers=True, forced=False):
    n = rng.randint(nmin, nmax)
    if nmax >= 6 and rng.random() < 0.04:
        # Now and then a large but thin graph (no explosion of routes).
        n = rng.randint(11, 26)
        topo = topo if topo in ("line", "tree", "star", "ring") else rng.choice(["line", "tree", "star", "ring"])
    nations = ["C%d" % i for i in range(countries)] if rng.random() < 0.7 else rng.sample(["Sudan", "South Sudan", "Sudan South", "sudan", "Sud", "Mali", "1"], countries)
    lon, lat = rng.choice([(20, -5), (20, -5), (-175, -60), (-10, 3), (-4, 45), (160, -30), (0, 0)])
    wide = rng.random() < 0.05  # all around the world
    scale = scale or rng.choice(["short", "mixed", "long"])
    types = types or TYPES
    if not markers:
        types = [t for t in types if t != "marker"]
    locs = []
    nested = nested_names(rng, n) if rng.random() < 0.25 else None
    for i in range(n):
        t = first if (i == 0 and first) else rng.choice(types)
        country = nations[0 if i == 0 else rng.randrange(countries)]
        loc = {
            "name": "%s%d" % (rng.choice(["Alpha", "Beta ", "gamma-", "D_"]), i),
            "region": "R%d" % rng.randrange(3),
            "country": country,
            "x": round(rng.uniform(-180, 180) if wide else rng.uniform(lon, lon + 10), 4),
            "y": round(rng.uniform(-89, 89) if wide else rng.uniform(lat, lat + 17), 4),
            "type": t,
            "attributes": {},
        }
        if nested:
            loc["name"] = nested[i]
        if "camp" in t:
            loc["capacity"] = capacity if capacity is not None else rng.choice([-1, 0, 5, 20, 50, 100, 1000])
            loc["pop"] = 0
        else:
            loc["capacity"] = -1
            loc["pop"] = rng.choice([0, 50, 200, 1000, 5000, 20000])
        if "conflict" in t:
            loc["pop"] = rng.choice([500, 1000, 5000, 20000])
        locs.append(loc)
    links = []
    for a, b in graph(rng, n, topo):
        links.append({"a": locs[a]["name"], "b": locs[b]["name"], "dist": distance(rng, scale),
                      "forced": rng.choice([0, 0, 0, 1, 2]) if forced else 0, "attributes": {}})
    return {"locs": locs, "links": links, "closures": [], "changes": [], "conflicts": None}


def build(w, mod=None, eco=None):
    """Build an Ecosystem through the API; returns (ecosystem, {name: location})."""
    mod = mod or sim()
    e = eco or mod.Ecosystem()
    lm = {}
    home = w["locs"][0]["country"]
    for l in w["locs"]:
        kw = {}
        if "movechance" in l:
            kw["movechance"] = l["movechance"]
        lm[l["name"]] = e.addLocation(
            name=l["name"], region=l["region"], x=l["x"], y=l["y"], location_type=l["type"],
            capacity=l["capacity"], pop=l["pop"], foreign=l["country"] != home,
            country=l["country"], attributes=dict(l["attributes"]), **kw)
    for k in w["links"]:
        a, b = k["a"], k["b"]
        if k["forced"] == 2:
            a, b = b, a
        e.linkUp(endpoint1=a, endpoint2=b, distance=k["dist"], forced_redirection=k["forced"] != 0,
                 attributes=dict(k["attributes"]))
    e.closures = [list(c) for c in w["closures"]]
    return e, lm


def write_csv(w, d, loc_attr=None, link_attr=None):
    """Write locations/routes/closures (and optional conflicts, changes) as input CSV files."""
    os.makedirs(d, exist_ok=True)
    loc_attr = loc_attr or []
    link_attr = link_attr or []
    with open(os.path.join(d, "locations.csv"), "w", encoding="utf-8") as f:
        f.write("#name,region,country,gps_x,gps_y,location_type,conflict_date,pop/cap" + "".join("," + a for a in loc_attr) + "\n")
        for l in w["locs"]:
            pc = l["capacity"] if "camp" in l["type"] else l["pop"]
            f.write(",".join([l["name"], l["region"], l["country"], repr(l["x"]), repr(l["y"]), l["type"],
                              str(l.get("conflict_date", 0)), str(pc)] + [str(l["attributes"][a]) for a in loc_attr]) + "\n")
    with open(os.path.join(d, "routes.csv"), "w", encoding="utf-8") as f:
        f.write("#name1,name2,distance,forced_redirection" + "".join("," + a for a in link_attr) + "\n")
        for k in w["links"]:
            f.write(",".join([k["a"], k["b"], repr(k["dist"]), str(k["forced"])] + [str(k["attributes"][a]) for a in link_attr]) + "\n")
    with open(os.path.join(d, "closures.csv"), "w", encoding="utf-8") as f:
        f.write("#closure_type,name1,name2,closure_start,closure_end\n")
        for c in w["closures"]:
            f.write(",".join(str(x) for x in c) + "\n")
    if w["conflicts"] is not None:
        names = list(w["conflicts"])
        with open(os.path.join(d, "conflicts.csv"), "w", encoding="utf-8") as f:
            f.write("#Day," + ",".join(names) + "\n")
            for t in range(len(w["conflicts"][names[0]])):
                f.write(str(t) + "," + ",".join(str(w["conflicts"][n][t]) for n in names) + "\n")
    if w["changes"]:
        with open("location_changes.csv", "w", encoding="utf-8") as f:
            f.write("#name,new_type,day\n")
            for c in w["changes"]:
                f.write(",".join(str(x) for x in c) + "\n")


def load_csv(d, mod=None, conflicts=False):
    from flee import InputGeography
    from flee.SimulationSettings import SimulationSettings as S

    mod = mod or sim()
    if conflicts:
        S.ConflictInputFile = os.path.join(d, "conflicts.csv")
    e = mod.Ecosystem()
    ig = InputGeography.InputGeography()
    ig.ReadLocationsFromCSV(os.path.join(d, "locations.csv"))
    ig.ReadLinksFromCSV(os.path.join(d, "routes.csv"))
    ig.ReadClosuresFromCSV(os.path.join(d, "closures.csv"))
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    return e, lm, ig


def summary(w):
    return {
        "locs": ["%s:%s" % (l["name"], l["type"]) for l in w["locs"]],
        "links": ["%s-%s:%s" % (k["a"], k["b"], k["dist"]) for k in w["links"]],
        "closures": w["closures"],
    }


def open_pairs(e):
    """Sorted list of (start, end, distance) of the open links, and of the closed ones."""
    o, c = [], []
    for loc in e.locations:
        for k in loc.links:
            o.append((loc.name, k.endpoint.name, k.get_distance()))
        for k in loc.closed_links:
            c.append((loc.name, k.endpoint.name, k.get_distance()))
    return sorted(o), sorted(c)
