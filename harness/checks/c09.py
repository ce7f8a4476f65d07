"""Scheduled closures take effect on their first day and are undone on their last."""
import random

import refnet
import worlds as W

RULE = ("random closure schedules, two-way and one-way (links, locations, countries, camps, IDP camps, removal of forced redirections) with "
        "overlaps, start days without an end, adjacent and single-day periods, read from closures.csv or set through "
        "the API and enacted day by day with and without agents; links, camp status and redirections are compared "
        "with a reference model every day; non-trivial: days on which the state changed; distinct by the daily state")
CASES = [("csv", 900, 12000), ("api", 600, 8000), ("run", 300, 4000)]
REQUIRED = {"days": 15000, "starts": 3000, "ends": 1500, "camp_events": 400, "redirection_events": 100, "oneway_days": 2000}


def schedule(rng, w, days):
    names = [l["name"] for l in w["locs"]]
    camps = [l["name"] for l in w["locs"] if "camp" in l["type"]]
    countries = sorted({l["country"] for l in w["locs"]})
    forced = [(k["a"], k["b"]) if k["forced"] == 1 else (k["b"], k["a"]) for k in w["links"] if k["forced"]]
    out = []
    for _ in range(rng.randint(1, 6)):
        t = rng.choice(["link", "link", "location", "country", "camp", "idpcamp", "remove_forced_redirection"])
        if t == "link" and w["links"]:
            k = rng.choice(w["links"])
            a, b = (k["a"], k["b"]) if rng.random() < 0.5 else (k["b"], k["a"])
        elif t == "location":
            a, b = rng.choice(names), "-"
        elif t == "country":
            a, b = rng.choice(countries), rng.choice(countries)
        elif "camp" in t and camps:
            a, b = rng.choice(camps), "-"
        elif t == "remove_forced_redirection" and forced:
            a, b = rng.choice(forced)
        else:
            continue
        s = rng.choice([0, 0, 1, rng.randrange(days), rng.randrange(days), days + 3])
        x = rng.choice([s + 1, s + rng.randint(1, 6), days, 10000, -1, s])
        out.append([t, a, b, s, x])
    return out


class Model:
    def __init__(self, w, M):
        self.net = refnet.Net(w)
        self.M = M
        self.kind = {}
        for l in w["locs"]:
            t = l["type"]
            self.kind[l["name"]] = t if "camp" in t else None

    def start(self, c, two):
        t, a, b = c[:3]
        if t == "country":
            self.net.close_border(a, b, two)
        elif t == "location":
            self.net.close_location(a, two)
        elif t == "link":
            self.net.close_link(a, b, two)
        elif "camp" in t:
            self.kind[a] = "town"
        else:
            self.net.force(a, b, False)

    def end(self, c, two):
        t, a, b = c[:3]
        if t == "country":
            self.net.reopen_border(a, b, two)
        elif t == "location":
            self.net.reopen_location(a, two)
        elif t == "link":
            self.net.reopen_link(a, b, two)
        elif "camp" in t:
            self.kind[a] = t
        else:
            self.net.force(a, b, True)


def compare(mon, e, model, w, day):
    o, c = W.open_pairs(e)
    eo, ec = model.net.state()
    ok = mon.check(o == eo and c == ec, "links", lambda: "day %d: open %s, expected %s (closures %s)" % (day, o, eo, w["closures"]))
    fr = sorted((l.name, k.endpoint.name) for l in e.locations for k in l.links if k.forced_redirection)
    ef = sorted((s, d) for s, d, _x, st, f in model.net.edges if st == "open" and f)
    ok &= mon.check(fr == ef, "redirection", lambda: "day %d: forced redirections %s, expected %s" % (day, fr, ef))
    for l in e.locations:
        k = model.kind[l.name]
        if k is None:
            continue
        flags = (bool(l.camp), bool(l.idpcamp), bool(l.town))
        exp = {"camp": (True, False, False), "idpcamp": (True, True, False), "town": (False, False, True)}[k]
        mc = {"camp": model.M["CampMoveChance"], "idpcamp": model.M["IDPCampMoveChance"], "town": model.M["DefaultMoveChance"]}[k]
        ok &= mon.check(flags == exp and abs(l.movechance - mc) < 1e-12, "camp", lambda: (
            "day %d: %s has (camp, idpcamp, town)=%s and move chance %s, expected %s and %s" % (
                day, l.name, flags, l.movechance, exp, mc)))
    return ok


def run(case, mon):
    rng = random.Random(case["seed"])
    S, _ = W.settings(log_levels={}, spawn_rules={}, move_rules={"camp_movechance": 0.01, "idpcamp_movechance": 0.2, "default_movechance": 0.4})
    w = W.world(rng, nmin=2, nmax=8, countries=3, forced=True, types=["town", "camp", "idpcamp", "default", "forwarding_hub"])
    days = rng.randint(6, 20)
    w["closures"] = schedule(rng, w, days)
    if case["kind"] == "api":
        e, lm = W.build(w)
    else:
        W.write_csv(w, "in")
        e, lm, _ = W.load_csv("in")
    model = Model(w, S.move_rules)
    two = rng.random() < 0.75
    hist = []
    first = 0 if case["kind"] == "run" else rng.choice([0, 0, 0, 2])
    for t in range(first, days):
        if two:
            e.enact_border_closures(t)
        else:
            e.enact_border_closures(t, twoway=False)
            mon.count("oneway_days")
        for c in w["closures"]:
            if c[3] == t:
                model.start(c, two)
                mon.count("starts")
            if c[4] == t:
                model.end(c, two)
                mon.count("ends")
            if t in (c[3], c[4]):
                if "camp" in c[0]:
                    mon.count("camp_events")
                if c[0].startswith("remove"):
                    mon.count("redirection_events")
        mon.count("days")
        if not compare(mon, e, model, w, t):
            return
        hist.append(model.net.state())
        if case["kind"] == "run":
            e.insertAgents(rng.choice(e.locations), 3)
            e.evolve()
            if not compare(mon, e, model, w, t):
                return
    if any(hist[i] != hist[i - 1] for i in range(1, len(hist))):
        mon.sig(hist)
    mon.sample = {"closures": w["closures"], "world": W.summary(w)["links"]}
