"""With fixed routes, major routes lead people to places beyond their awareness."""
import random

from checks import c29
import oracle as O
import refnet
import worlds as W

RULE = ("random long graphs with major routes of one to six steps from input files, low awareness, markers, parallel roads and changing "
        "attractiveness; after every day the stored routes of every place are compared with the best regular routes of "
        "a reference graph and, for the ends of major routes beyond these, with the best combination of a regular "
        "route and a major route; non-trivial: a destination that only a major route reaches; distinct by the stored routes")
CASES = [("direct", 900, 12000), ("run", 500, 7000)]
REQUIRED = {"stored": 8000, "major": 3000, "own": 1000, "by_way": 1000, "competing": 250, "regular_kept": 10000, "not_needed": 800}


def majors(rng, w, net, markers):
    """Random walks without repetition, as rows of major_routes.csv."""
    adj = net.adj()
    plain = [l["name"] for l in w["locs"] if l["name"] not in markers]
    rows = []
    for _ in range(rng.randint(1, 5)):
        path = [rng.choice(plain)]
        while len(path) < rng.choice([2, 4, 6, 7]):
            nxt = [x for x, _d in adj.get(path[-1], []) if x not in path]
            if not nxt:
                break
            path.append(rng.choice(nxt))
        while len(path) > 1 and path[-1] in markers:
            path.pop()
        if len(path) > 1:
            rows.append(path)
    return rows


def length(e, src, path):
    """Along the first road from place to place."""
    here, total = src, 0.0
    for x in path:
        link = [k for k in here.links if k.endpoint.name == x][0]
        total += link.get_distance()
        here = link.endpoint
    return total


def compare(mon, e, net, markers, S, t, rows):
    M = S.move_rules
    lm = {l.name: l for l in e.locations}
    starts = {}
    for r in rows:
        starts.setdefault(r[0], []).append(r[1:])
        starts.setdefault(r[-1], []).append(r[-2::-1])
    for l in e.locations:
        if l.name in markers:
            continue
        ref = c29.reference(e, net, markers, l.name, M, S.spawn_rules, t)
        extra = {}
        for mr in starts.get(l.name, []):
            if mr[-1] not in ref and mr[-1] != l.name:
                extra.setdefault(mr[-1], []).append((mr, "own"))
            else:
                mon.count("not_needed")
        for d in ref:
            for mr in starts.get(d, []):
                if mr[-1] not in ref and mr[-1] != l.name and d in l.routes:
                    extra.setdefault(mr[-1], []).append((list(l.routes[d][1]) + mr, "by_way"))
                else:
                    mon.count("not_needed")
        if not mon.check(set(l.routes) == set(ref) | set(extra), "destinations", lambda: "day %d: stored destinations of %s are %s instead of %s and %s" % (
                t, l.name, sorted(l.routes), sorted(ref), sorted(extra))):
            continue
        for k, (best, paths, _n) in ref.items():
            w, path, place = l.routes[k]
            mon.count("regular_kept")
            mon.check(tuple(path) in paths and abs(w - best) <= 1e-7 * best and place.name == k, "regular",
                      lambda: "day %d: stored route %s -> %s is %s with weight %r, the best are %s with weight %r" % (t, l.name, k, path, w, paths, best))
        for k, cands in extra.items():
            sc = O.location_score(lm[k], M, S.spawn_rules, t)
            if M["FloodRulesEnabled"] and lm[k].attributes.get("flood_level", 0) > 0:
                sc *= float(M["FloodLocWeights"][lm[k].attributes["flood_level"]])
            ws = []
            for full, how in cands:
                dist = length(e, l, full)
                # A quarter of the whole distance, softening included.
                base = (M["WeightSoftening"] + sc) / ((M["DistanceSoftening"] + dist) / 4.0) ** M["DistancePower"]
                ws.append((base ** M["WeightPower"], full, how))
            best = max(w for w, _f, _h in ws)
            good = [(f, h) for w, f, h in ws if w >= best * (1 - 1e-9)]
            w, path, place = l.routes[k]
            mon.count("stored")
            mon.count("major")
            for h in {h for _f, h in good}:
                mon.count(h)
            if len({tuple(f) for _w, f, _h in ws}) > 1:
                mon.count("competing")
            mon.sig([l.name, k, round(best, 9), list(path)])
            mon.check(abs(w - best) <= 1e-7 * best, "weight", lambda: "day %d: weight of the stored major route %s -> %s is %r instead of %r (%s)" % (
                t, l.name, k, w, best, ws))
            mon.check(place is lm[k], "endpoint", "stored destination is another place")
            if list(path) in [f for f, _h in good]:
                continue
            if list(path) in [f[1:] for f, _h in good]:
                mon.violate("first-hop-dropped", "day %d: the stored major route %s -> %s is %s, without the first stop of %s" % (t, l.name, k, path, good))
            else:
                mon.violate("path", "day %d: the stored major route %s -> %s is %s instead of one of %s" % (t, l.name, k, path, good))


def run(case, mon):
    rng = random.Random(case["seed"])
    W.sim()
    from flee import crawling, scoring

    w = W.world(rng, nmin=5, nmax=9, topo=rng.choice(["line", "line", "tree", "ring", "random"]),
                types=["town", "town", "town", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker"])
    m = c29.rules(rng, 99)
    m["awareness_level"] = rng.choice([1, 1, 2])
    if len(w["locs"]) > 15:
        m["awareness_level"] = 1
    S, _ = W.settings(move_rules=m, log_levels={"agent": 0}, spawn_rules={})
    net = refnet.Net(w)
    markers = {l["name"] for l in w["locs"] if l["type"] == "marker"}
    rows = majors(rng, w, net, markers)
    W.write_csv(w, "in")
    with open("in/major_routes.csv", "w", encoding="utf-8") as f:
        f.write("".join(",".join(r) + "\n" for r in rows))
    e, lm, _ig = W.load_csv("in")
    if case["kind"] == "direct":
        c29.flood(rng, e, m)
        t = rng.choice([0, 4])
        for l in e.locations:
            scoring.updateLocationScore(t, l)
        for l in rng.sample(e.locations, len(e.locations)):
            crawling.generateLocationRoutes(l, t)
        compare(mon, e, net, markers, S, t, rows)
    else:
        plain = [l for l in e.locations if not l.marker]
        for _ in range(rng.randint(2, 4)):
            for _ in range(rng.choice([0, 1, 2])):
                n = rng.choice(plain).name
                e.change_location_type(n, rng.choice(["town", "camp", "idpcamp", "conflict_zone", "forwarding_hub"]))
            e.insertAgents(rng.choice(plain), 5)
            c29.flood(rng, e, m)
            t = e.time
            e.evolve()
            compare(mon, e, net, markers, S, t, rows)
            if any(v["key"] != "first-hop-dropped" for v in mon.violations):
                return
    mon.sample = {"world": W.summary(w), "major": rows}
