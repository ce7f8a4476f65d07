"""Closing, reopening and removing links, locations and borders."""
import random

import refnet
import worlds as W

RULE = ("random graphs (several countries, one-way and two-way operations, both argument orders, names that are not in "
        "the graph, repeated operations) built through the API or CSV; after every operation the open and the closed "
        "links, their distances, attributes and redirection are compared with a reference graph; non-trivial: the "
        "operation changed something; distinct by the resulting sets of open and closed links")
CASES = [("api", 1500, 20000), ("csv", 500, 7000)]
REQUIRED = {"operations": 20000, "changes": 8000, "reopened": 2500, "closed": 3000, "removed": 300, "unknown_names": 300}


def detail(e):
    o, c = [], []
    for loc in e.locations:
        for lst, out in ((loc.links, o), (loc.closed_links, c)):
            for k in lst:
                out.append((loc.name, k.startpoint.name, k.endpoint.name, k.get_distance(),
                            tuple(sorted(k.attributes.items())), round(k.x, 6), round(k.y, 6)))
    return sorted(o), sorted(c)


def expected(net, w):
    at = {}
    pos = {l["name"]: (l["x"], l["y"]) for l in w["locs"]}
    for k in w["links"]:
        at[(k["a"], k["b"])] = at[(k["b"], k["a"])] = tuple(sorted(k["attributes"].items()))
    o, c = [], []
    for s, d, x, st, _f in net.edges:
        mid = (round((pos[s][0] + pos[d][0]) / 2, 6), round((pos[s][1] + pos[d][1]) / 2, 6))
        (o if st == "open" else c).append((s, s, d, x, at[(s, d)]) + mid)
    return sorted(o), sorted(c)


def random_op(rng, w):
    names = [l["name"] for l in w["locs"]]
    countries = sorted({l["country"] for l in w["locs"]})
    what = rng.choice(["close_link", "reopen_link", "close_location", "reopen_location", "close_border", "reopen_border",
                       "close_link", "reopen_link", "remove_link"])
    tw = rng.random() < 0.5
    bad = rng.random() < 0.04
    if what in ("close_link", "reopen_link", "remove_link"):
        if what == "remove_link" and rng.random() < 0.5:
            what = "reopen_link"
        if w["links"] and rng.random() < 0.85:
            k = rng.choice(w["links"])
            a, b = (k["a"], k["b"]) if rng.random() < 0.5 else (k["b"], k["a"])
        else:
            a, b = rng.sample(names, 2)
        if bad:
            a, b = rng.choice([("Nowhere", b), (a, "Nowhere"), ("Nowhere", "Atlantis")])
        return (what, a, b, tw), bad
    if "location" in what:
        return (what, "Nowhere" if bad else rng.choice(names), tw), bad
    a, b = rng.choice(countries), rng.choice(countries)
    return (what, "Utopia" if bad else a, b, tw), bad


def call(rng, e, op):
    """Use the two-way default where it applies, half of the time."""
    kw = {}
    if op[0] in ("close_link", "reopen_link", "remove_link"):
        kw = {"startpoint": "".join(list(op[1])), "endpoint": "".join(list(op[2]))}
    elif "location" in op[0]:
        kw = {"location_name": "".join(list(op[1]))}
    else:
        kw = {"source_country": "".join(list(op[1])), "dest_country": "".join(list(op[2]))}
    if not op[-1] or rng.random() < 0.5:
        kw["twoway"] = op[-1]
    return getattr(e, op[0])(**kw)


def run(case, mon):
    rng = random.Random(case["seed"])
    W.settings(log_levels={}, spawn_rules={}, move_rules={})
    w = W.world(rng, nmin=2, nmax=10, countries=rng.choice([1, 2, 3, 4]), forced=True)
    for k in w["links"]:
        if case["kind"] == "csv" or rng.random() < 0.5:
            k["attributes"] = {"road": rng.choice(["paved", "dirt"])}
    if case["kind"] == "csv":
        W.write_csv(w, "in", link_attr=["road"] if w["links"] else None)
        e, lm, _ = W.load_csv("in")
    else:
        e, lm = W.build(w)
    net = refnet.Net(w)
    mon.check(detail(e) == expected(net, w), "initial", lambda: "graph differs after loading: %s" % (detail(e),))
    path = []
    for _ in range(rng.randint(10, 30)):
        op, bad = random_op(rng, w)
        before = net.state()
        changed = net.apply(op)
        call(rng, e, op)
        path.append(op)
        mon.count("operations")
        if bad:
            mon.count("unknown_names")
        if changed:
            mon.count("changes")
            mon.count({"c": "closed", "r": "reopened"}[op[0][0]] if op[0] != "remove_link" else "removed")
        got = detail(e)
        exp = expected(net, w)
        ok = mon.check(got == exp, "state", lambda: (
            "after %s (state before: %s) open links are %s, expected %s; closed %s, expected %s" % (
                op, before, [g[1:4] for g in got[0]], [g[1:4] for g in exp[0]],
                [g[1:4] for g in got[1]], [g[1:4] for g in exp[1]])))
        if not ok:
            return
        for l in e.locations:
            for k in l.links:
                mon.check(k.closed is False, "open-flag", lambda: "%s is open but flagged closed" % k.name)
        v, ed = e.export_graph()
        mon.check(sorted((a, b, x) for a, b, x in ed) == net.state()[0] and list(v) == [l["name"] for l in w["locs"]], "export",
                  lambda: "exported graph differs from open links after %s" % (op,))
        mon.sig(exp)
    mon.sample = {"world": W.summary(w), "operations": path[:8], "open": net.state()[0][:6]}
