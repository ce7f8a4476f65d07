"""Scenarios of the micro model (link types, weather-coupled links) on MPI ranks."""
import collections
import datetime
import math
import os
import random

import mpijob
import simrun
import tracing
import worlds as W

TYPES = ["drive", "walk", "crossing", ""]


class Watch(tracing.Movement):
    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.at = {}
        self.since = {}
        self.day = 0
        self.arrivals = []
        self.agent = {}

    def created(self, n, a, loc):
        self.at[n] = loc
        self.agent[n] = a

    def moved(self, n, a, old, new):
        self.at[n] = new
        if new is not None and tracing.is_link(new):
            self.since[n] = self.day
        elif old is not None and new is not None and tracing.is_link(old) and new is old.endpoint:
            self.arrivals.append((self.day, self.since[n], old))


def midpoint(p, q):
    """Geographical midpoint in degrees."""
    (a1, o1), (a2, o2) = [(math.radians(x), math.radians(y)) for x, y in (p, q)]
    v = [math.cos(a) * math.cos(o) for a, o in ((a1, o1), (a2, o2))], \
        [math.cos(a) * math.sin(o) for a, o in ((a1, o1), (a2, o2))], [math.sin(a1), math.sin(a2)]
    x, y, z = (sum(c) for c in v)
    return math.degrees(math.atan2(z, math.hypot(x, y))), math.degrees(math.atan2(y, x))


def great_circle(p, q):
    (a1, o1), (a2, o2) = [(math.radians(x), math.radians(y)) for x, y in (p, q)]
    h = math.sin((a2 - a1) / 2) ** 2 + math.cos(a1) * math.cos(a2) * math.sin((o2 - o1) / 2) ** 2
    return 2 * 6371 * math.asin(math.sqrt(h))


def quantile(xs, q):
    xs = sorted(xs)
    i = q * (len(xs) - 1)
    lo = int(math.floor(i))
    hi = min(lo + 1, len(xs) - 1)
    return xs[lo] + (xs[hi] - xs[lo]) * (i - lo)


class Weather:
    """Generated weather tables and what they mean for a link."""

    def __init__(self, rng, w, days):
        import pandas as pd

        self.rng = rng
        self.pos = {}
        rows = []
        step = rng.choice([1, 1, 5])  # degrees between grid points: places nearby, or far apart
        lat0, lon0 = rng.choice([(2, 26), (2, 26), (-3, -4), (40, 10), (55, -60), (-70, 100), (30, -150)])
        lat1, lon1 = min(lat0 + 7 * step, 84), lon0 + 8 * step
        for l in w["locs"]:
            lat, lon = rng.choice([0.25, 0.5, 0.75, 0.0]) + rng.randrange(lat0, lat1), rng.choice([0.25, 0.5, 0.0]) + rng.randrange(lon0, lon1)
            self.pos[l["name"]] = (lat, lon)
            base = rng.choice([1, 5, 20])
            for m in range(1, 13):
                rows.append((l["name"], lat, lon, m, rng.random(), round(rng.random() * base, 6)))
        if rng.random() < 0.7:
            for lat in range(lat0, lat1 + 1, step):
                for lon in range(lon0, lon1 + 1, step):
                    if rng.random() < 0.85:
                        base = rng.choice([1, 5, 20])
                        for m in range(1, 13):
                            rows.append(("grid %d %d" % (lat, lon), float(lat), float(lon), m, 0.0, round(rng.random() * base, 6)))
        rng.shuffle(rows)
        self.history = rows
        self.start = datetime.date(2013, 12, 1) + datetime.timedelta(rng.randrange(800))
        self.days = days
        self.prec = {}
        for k in w["links"]:
            a, b = (k["a"], k["b"]) if rng.random() < 0.5 else (k["b"], k["a"])
            wet = rng.choice([1, 10, 40])
            self.prec[(a, b)] = [round(rng.choice([0, 0, 0.2, 1.0]) * rng.random() * wet, 6) for _ in range(days + 2)]
        spots = [(rng.choice([0.0, 0.35, 0.85]) + rng.randrange(lat0, lat1), rng.choice([0.05, 0.65]) + rng.randrange(lon0, lon1))
                 for _ in range(rng.randint(1, 8))]
        self.discharge = {}
        first = rng.randint(0, 3)
        for s in dict.fromkeys(spots):
            self.discharge[s] = {self.start + datetime.timedelta(i - first): float(rng.choice([100, 7999, 8000, 8001, 20000]))
                                 for i in range(days + 8)}
        order = list(self.prec)
        rng.shuffle(order)
        cols = {"Day": list(range(days + 2))}
        for a, b in order:
            cols["%s - %s" % (a, b)] = self.prec[(a, b)]
        dis = [(s[0], s[1], str(d), v) for s, x in self.discharge.items() for d, v in x.items()]
        rng.shuffle(dis)
        self.files = {
            "precipitation": pd.DataFrame(cols),
            "river_discharge": pd.DataFrame(dis, columns=["lat", "lon", "time", "dis24"]),
            "40yrs_total_precipitation": pd.DataFrame(rows, columns=["names", "latitude", "longitude", "month", "N", "tp"]),
            "conflict_start_date": str(self.start),
            "output_log": "weather.csv",
        }

    def thresholds(self, mid):
        """15 and 75 % quantiles of the records at (or else closest to) the midpoint; None if ambiguous."""
        rec = self.history
        for i in (0, 1):
            vals = sorted({r[1 + i] for r in rec}, key=lambda v: abs(v - mid[i]))
            if len(vals) > 1 and abs(abs(vals[0] - mid[i]) - abs(vals[1] - mid[i])) < 1e-9:
                return None
            rec = [r for r in rec if r[1 + i] == vals[0]]
        tp = [r[5] for r in rec]
        return quantile(tp, 0.15), quantile(tp, 0.75)

    def factor(self, a, b, kind, day):
        """Factor of the distance between a and b on a day; None where the rule is ambiguous."""
        lat, lon = midpoint(self.pos[a], self.pos[b])
        if min(abs(abs(x) % 1 - 0.5) for x in (lat, lon)) < 0.02:
            return None
        mid = (float(round(lat)), float(round(lon)))
        if kind == "crossing":
            ds = sorted(self.discharge, key=lambda s: great_circle(s, mid))
            if len(ds) > 1 and abs(great_circle(ds[0], mid) - great_circle(ds[1], mid)) < 0.5:
                return None
            return 10000.0 if self.discharge[ds[0]][self.start + datetime.timedelta(day)] >= 8000 else 1.0
        x = self.thresholds(mid)
        if x is None:
            return None
        tp = self.prec[(a, b)][day] if (a, b) in self.prec else self.prec[(b, a)][day]
        if min(abs(tp - x[0]), abs(tp - x[1])) < 1e-9:
            return None
        if tp <= x[0]:
            return 1.0
        if tp > x[1] and tp > 15:
            return 10000.0
        return 2.0


def build(w, mod, micro):
    e = mod.Ecosystem()
    lm = {}
    for l in w["locs"]:
        lm[l["name"]] = e.addLocation(name=l["name"], region=l["region"], x=l["x"], y=l["y"], location_type=l["type"],
                                      capacity=l["capacity"], pop=l["pop"], country=l["country"], attributes=dict(l["attributes"]))
    for k in w["links"]:
        a, b = (k["b"], k["a"]) if k["forced"] == 2 else (k["a"], k["b"])
        kw = {"link_type": k["type"]} if micro else {}
        e.linkUp(endpoint1=a, endpoint2=b, distance=k["dist"], forced_redirection=k["forced"] != 0, **kw)
    return e, lm


def make_world(rng, forced=True):
    w = W.world(rng, nmin=2, nmax=6, scale=rng.choice(["short", "mixed"]), forced=forced and rng.random() < 0.5)
    for l in w["locs"]:
        l["attributes"] = {}
    for k in w["links"]:
        k["type"] = rng.choice(TYPES)
    return w


def settings(rng):
    s = simrun.random_settings(rng, agent_log=0, sinks=False)
    s["log_levels"]["link"] = 0
    s["log_levels"]["camp"] = 0
    s["move_rules"]["fixed_routes"] = False
    return s


def check_links(mon, e, w):
    """Both directions of every link, with the type in the given direction."""
    want = collections.Counter()
    for k in w["links"]:
        a, b = (k["b"], k["a"]) if k["forced"] == 2 else (k["a"], k["b"])
        want[(a, b, bool(k["forced"]), k["type"])] += 1
        want[(b, a, False, None)] += 1
    got = collections.Counter((l.name, k.endpoint.name, bool(k.forced_redirection)) for l in e.locations for k in l.links)
    mon.check(got == collections.Counter(x[:3] for x in want.elements()), "links", lambda: "links %s differ from the given ones %s" % (
        sorted(got.elements()), sorted(want.elements(), key=repr)))
    for l in e.locations:
        for k in l.links:
            mon.count("links")
            key = [x for x in want if x[:3] == (l.name, k.endpoint.name, bool(k.forced_redirection)) and x[3] is not None]
            if key:
                mon.check(k.link_type == key[0][3], "link-type", lambda: "%s has type %r, given as %r" % (k.name, k.link_type, key[0][3]))


def weather(rng, mon, comm, mod):
    days = rng.randint(4, 14)
    w = make_world(rng)
    W.settings(**settings(rng))
    from flee.SimulationSettings import SimulationSettings as S

    horizon = rng.choice([days, days, 460, 800])  # the tables may cover more than the days simulated
    wx = Weather(rng, w, horizon)
    plain = mod.Link
    mod.weather_source_files = wx.files
    mod.Link = mod.Link_weather_coupling
    orig = mod.Link_weather_coupling.get_distance
    used = []

    def watched(self, *a, **k):
        d = orig(self, *a, **k)
        if not a and not k:
            used.append((self, self.startpoint.e.time, d))
        return d

    try:
        e, lm = build(w, mod, True)
        dist = {}
        for k in w["links"]:
            dist[(k["a"], k["b"])] = dist[(k["b"], k["a"])] = k["dist"]
        check_links(mon, e, w)

        def expected(k, t):
            a, b = k.startpoint.name, k.endpoint.name
            f = wx.factor(a, b, k.link_type, t)
            return None if f is None else f * dist[(a, b)]

        mod.Link_weather_coupling.get_distance = watched
        tr = Watch(mod, mon)
        hist = []
        speed = max(float(S.move_rules["MaxMoveSpeed"]), float(S.move_rules["MaxWalkSpeed"]))
        alive = 0
        for t in range(days):
            tr.day = t
            for _ in range(rng.choice([0, 1, 2])):
                n = rng.choice([1, 5, 15])
                e.insertAgents(lm[w["locs"][0]["name"]] if rng.random() < 0.6 else rng.choice(e.locations), n)
                alive += n
            del used[:]
            del tr.arrivals[:]
            e.evolve()
            table = {}
            for l in e.locations:
                for k in l.links:
                    table[id(k)] = expected(k, t)
                    exp, got = table[id(k)], orig(k, t)
                    mon.count("ambiguous", int(exp is None))
                    if exp is None:
                        continue
                    mon.count("distances")
                    fac = round(exp / max(1e-9, dist[(k.startpoint.name, k.endpoint.name)]))
                    mon.count("factor_%d" % fac)
                    mon.count("crossings", int(k.link_type == "crossing"))
                    mon.check(abs(got - exp) <= 1e-9 * max(1.0, exp), "distance", lambda: (
                        "day %d: %s (%s, %s km) is %s km long, expected %s" % (
                            t, k.name, k.link_type, dist[(k.startpoint.name, k.endpoint.name)], got, exp)))
            for k, day, d in used:
                mon.count("used")
                exp = table.get(id(k))
                mon.check(day == t and (exp is None or abs(d - exp) <= 1e-9 * max(1.0, exp)), "distance-used", lambda: (
                    "day %d: the simulation works with %s km for %s, expected %s" % (t, d, k.name, exp)))
            for day, since, k in tr.arrivals:
                mon.count("arrivals")
                exp = table.get(id(k))
                if exp is not None:
                    mon.check(speed * (t - since + 1) >= exp - 1e-6, "too-fast", lambda: (
                        "day %d: an agent that entered %s on day %d arrives; the link is %s km long, speed %s" % (t, k.name, since, exp, speed)))
            here = collections.Counter()
            for n, x in tr.at.items():
                here[id(x)] += 1
                if x is not None and tracing.is_link(x):
                    mon.count("on_links")
                    exp = table.get(id(x))
                    if exp is not None:
                        mon.count("blocked", int(exp > 5000 and exp / dist[(x.startpoint.name, x.endpoint.name)] > 100))
                        a = tr.agent[n]
                        mon.check(a.distance_travelled_on_link <= exp + 1e-6, "stuck", lambda: (
                            "day %d: an agent has travelled %s km on %s of %s km" % (t, a.distance_travelled_on_link, x.name, exp)))
            total = comm.allreduce(len(tr.at))
            mon.check(total == alive and e.numAgents() == alive, "conservation", lambda: (
                "day %d: %d agents inserted, %d exist, %s reported" % (t, alive, total, e.numAgents())))
            for l in e.locations:
                n = comm.allreduce(here[id(l)])
                mon.check(l.numAgents == n and l.numAgentsOnRank == here[id(l)], "location-count", lambda: (
                    "day %d: %s reports %d agents (%d on this rank), recount %d (%d)" % (t, l.name, l.numAgents, l.numAgentsOnRank, n, here[id(l)])))
                for k in l.links:
                    n = comm.allreduce(here[id(k)])
                    mon.check(k.numAgents == n and k.numAgentsOnRank == here[id(k)], "link-count", lambda: (
                        "day %d: %s reports %d agents (%d on this rank), recount %d (%d)" % (t, k.name, k.numAgents, k.numAgentsOnRank, n, here[id(k)])))
            hist.append([l.numAgents for l in e.locations])
            if comm.allreduce(len(mon.violations)):
                break
        for _ in range(40 if horizon > days else 0):  # lengths on later days
            l = rng.choice(e.locations)
            if l.links:
                k, t = rng.choice(l.links), rng.randrange(days, horizon)
                exp = expected(k, t)
                if exp is not None:
                    mon.count("later_days", int(t > 366))
                    got = orig(k, t)
                    mon.check(abs(got - exp) <= 1e-9 * max(1.0, exp), "distance-later", lambda: (
                        "day %d: %s (%s) is %s km long, expected %s" % (t, k.name, k.link_type, got, exp)))
        if comm.rank == 0:
            mon.sig(hist, [k["dist"] for k in w["links"]])
            mon.sample = {"world": W.summary(w), "start": str(wx.start), "counts": hist[:5]}
    finally:
        mod.Link_weather_coupling.get_distance = orig
        mod.Link = plain
        mod.weather_source_files = {}


def plain(rng, mon, comm, mod):
    """Without weather, the micro model does what parallel Flee does."""
    import numpy as np
    from flee import pflee

    days = rng.randint(4, 12)
    w = make_world(rng)
    st = settings(rng)
    seed = rng.randrange(10**6)
    plan = simrun.plan(random.Random(seed), w, days)
    out = []
    for m in (pflee, mod):
        W.settings(**st)
        random.seed(seed * 7 + comm.rank)
        np.random.seed((seed * 7 + comm.rank) % 2**32)
        e, lm = build(w, m, m is mod)
        if m is mod:
            check_links(mon, e, w)
        hist = []
        for evs in plan:
            for ev in evs:
                simrun.apply_event(e, lm, ev)
            e.evolve()
            hist.append(([l.numAgents for l in e.locations], sorted((k.name, k.numAgents) for l in e.locations for k in l.links if k.numAgents),
                         [a.location.name for a in e.agents if a.location is not None]))
        out.append(hist)
    mon.count("compared_days", days)
    mon.count("moves", sum(1 for x in out[0] for n in x[1]))
    for t, (x, y) in enumerate(zip(*out)):
        if not mon.check(x == y, "differs-from-pflee", lambda: "day %d: the micro model has %s, parallel Flee %s" % (t, y[:2], x[:2])):
            break
    if comm.rank == 0:
        mon.sig([x[0] for x in out[0]])


def files(rng, mon, comm, mod):
    from flee import micro_InputGeography as IG
    from flee.SimulationSettings import SimulationSettings as S

    w = make_world(rng)
    st = settings(rng)
    scale = rng.choice([1, 1, 10, 7])
    st["optimisations"] = {"hasten": scale}
    W.settings(**st)
    d = "in%d" % comm.rank
    os.makedirs(d, exist_ok=True)
    exp = {}
    with open(d + "/locations.csv", "w", encoding="utf-8") as f:
        f.write("#name,region,country,lat,lon,location_type,conflict_date,population\n")
        for l in w["locs"]:
            if rng.random() < 0.1:
                f.write("\n")
            if rng.random() < 0.1:
                f.write("# no place\n")
            n = str(l["capacity"] if "camp" in l["type"] else l["pop"])
            if rng.random() < 0.1:
                n = ""
            country = l["country"] if rng.random() < 0.9 else ""
            cd = str(rng.choice([0, 0, 1, 9])) if "conflict" in l["type"] else rng.choice(["", "0", "5"])
            x, y = repr(l["x"]), repr(l["y"])
            if rng.random() < 0.1:
                x = ""
            f.write(",".join([l["name"], l["region"], country, x, y, l["type"], cd, n]) + "\n")
            kind = "town" if "conflict" in l["type"] and int(cd) > 0 else l["type"]
            num = int(n) // scale if n else 0
            exp[l["name"]] = dict(x=float(x or 0), y=float(y), country=country or "unknown", camp="camp" in kind, idpcamp="idp" in kind,
                                  town=kind in ("town", "default"), marker="marker" in kind, conflict="conflict" in kind, num=num)
    with open(d + "/routes.csv", "w", encoding="utf-8") as f:
        f.write("#name1,name2,distance,forced_redirection,link_type\n")
        for k in w["links"]:
            if rng.random() < 0.1:
                f.write("\n")
            f.write(",".join([k["a"], k["b"], repr(k["dist"]), str(k["forced"]), k["type"]]) + "\n")
    with open(d + "/closures.csv", "w", encoding="utf-8") as f:
        f.write("#closure_type,name1,name2,closure_start,closure_end\n")
        names = list(exp)
        closures = [["link", rng.choice(names), rng.choice(names), rng.randrange(9), rng.choice([-1, 12])] for _ in range(rng.randint(0, 2))]
        for c in closures:
            f.write(",".join(map(str, c)) + "\n")
    S.ConflictInputFile = ""
    ig = IG.InputGeography()
    ig.ReadLocationsFromCSV(d + "/locations.csv")
    ig.ReadLinksFromCSV(d + "/routes.csv")
    ig.ReadClosuresFromCSV(d + "/closures.csv")
    e, lm = ig.StoreInputGeographyInEcosystem(mod.Ecosystem())
    mon.check([l.name for l in e.locations] == list(exp) and all(lm[l.name] is l for l in e.locations), "names", lambda: (
        "locations %s, expected %s" % ([l.name for l in e.locations], list(exp))))
    for l in e.locations:
        x = exp.get(l.name)
        if x is None:
            continue
        mon.count("locations_read")
        got = dict(x=l.x, y=l.y, country=l.country, camp=bool(l.camp), idpcamp=bool(l.idpcamp), town=bool(l.town), marker=bool(l.marker),
                   conflict=l.conflict > 0, num=l.capacity if l.camp else l.pop)
        for key in x:
            if key == "num" and x["marker"]:
                continue
            mon.check(x[key] == got[key], "field:%s" % key, lambda: "%s: %s is %r, the file says %r" % (l.name, key, got[key], x[key]))
    check_links(mon, e, w)
    dd = {}
    for k in w["links"]:
        dd[(k["a"], k["b"])] = dd[(k["b"], k["a"])] = k["dist"]
    for l in e.locations:
        for k in l.links:
            mon.check(k.get_distance() == dd.get((l.name, k.endpoint.name)), "field:distance", lambda: "%s is %s km long" % (k.name, k.get_distance()))
    mon.check(e.closures == closures, "closures", lambda: "closures %s, expected %s" % (e.closures, closures))
    mon.count("files")
    if comm.rank == 0:
        mon.sig(sorted(exp.items()))
    for _ in range(3):
        e.insertAgents(e.locations[0], 3)
        e.evolve()


def body(case, mon, comm):
    import contextlib
    import io

    from flee import pmicro_flee as mod

    os.makedirs("rank%d" % comm.rank)  # every rank writes its own input files
    os.chdir("rank%d" % comm.rank)
    for i in range(case["n"]):
        rng = random.Random("%s %d" % (case["seed"], i))
        kind = rng.choice(["weather", "weather", "weather", "plain", "files"])
        with contextlib.redirect_stdout(io.StringIO()):
            {"weather": weather, "plain": plain, "files": files}[kind](rng, mon, comm, mod)
        mon.count("scenarios_" + kind)
        if comm.allreduce(len(mon.violations)):
            mon.sample = {"scenario": i, "kind": kind}
            break


if __name__ == "__main__":
    mpijob.main(body)
