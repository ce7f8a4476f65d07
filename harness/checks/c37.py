"""Preparation of the weather tables that micro models travel by."""
import csv
import datetime
import math
import os
import random
import runpy
import sys
import contextlib
import io

import common
from checks import c30

RULE = ("random routes, places, periods and records of rain and river discharge for the real preparation scripts: the written "
        "tables, the distance factors and the curve of the plot are compared with an independent reading of the records; the "
        "prepared tables are read back by micro models; non-trivial: rain differs between links and days; distinct by the records")
CASES = [("rain", 60, 1000), ("discharge", 40, 800), ("use", 25, 400)]
REQUIRED = {"rain_values": 1000, "factors": 300, "factors_1": 20, "factors_2": 20, "factors_1000": 20, "records_kept": 300, "records_dropped": 300, "lengths": 300,
            "lengths_changed": 60, "lengths_closed": 30}
CASE_TIMEOUT = 150
PRELOAD_ALSO = ("matplotlib.pyplot",)
NAMES = ["Akobo", "Kule Camp", "Bor", "Nahr-Atiem", "Bor South", "Waw", "Ayod_1", "Padok"]


def mid(a, b):
    """Middle of the great circle between two places (latitude, longitude)."""
    v = [0.0, 0.0, 0.0]
    for lat, lon in (a, b):
        p, q = math.radians(lat), math.radians(lon)
        v[0] += math.cos(p) * math.cos(q)
        v[1] += math.cos(p) * math.sin(q)
        v[2] += math.sin(p)
    return math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))), math.degrees(math.atan2(v[1], v[0]))


def clear(x):
    """Whether rounding to whole degrees is beyond doubt."""
    return abs(abs(x - math.floor(x)) - 0.5) > 0.02


def quantile(x, q):
    x = sorted(x)
    k = (len(x) - 1) * q
    i = int(math.floor(k))
    return x[i] + (x[min(i + 1, len(x) - 1)] - x[i]) * (k - i)


class World:
    def __init__(self, rng):
        self.rng = rng
        self.lat0, self.lon0 = rng.choice([(7, 31), (-4, 20), (55, 12), (1, -72)])
        while True:
            self.places = {n: (round(self.lat0 + rng.uniform(-3, 3), 2), round(self.lon0 + rng.uniform(-3, 3), 2)) for n in rng.sample(NAMES, rng.randint(3, 6))}
            pairs = [(a, b) for a in self.places for b in self.places if a < b]
            self.routes = rng.sample(pairs, rng.randint(2, min(6, len(pairs))))
            self.routes = [p if rng.random() < 0.5 else p[::-1] for p in self.routes]
            if all(clear(x) for r in self.routes for x in self.middle(r)):
                break
        self.days = rng.randint(2, 12)
        self.start = datetime.date(2016, 1, 1) + datetime.timedelta(rng.randint(0, 700))
        # many years of records at the places, several per place
        self.history = []
        for n, (lat, lon) in self.places.items():
            for _ in range(rng.randint(2, 8)):
                self.history.append((n, lat, lon, rng.choice([0.0, round(rng.uniform(0, 9), 3)])))
        for _ in range(rng.randint(0, 40)):
            self.history.append(("grid", float(round(self.lat0 + rng.randint(-3, 3))), float(round(self.lon0 + rng.randint(-3, 3))), round(rng.uniform(0, 9), 3)))
        rng.shuffle(self.history)
        self.daily = {}
        for d in range(-2, self.days + 3):
            for la in range(-5, 6):
                for lo in range(-6, 7):
                    self.daily[(self.date(d), float(self.lat0 + la), float(self.lon0 + lo))] = rng.choice([0.0, round(rng.uniform(0, 9), 3), round(rng.uniform(0, 30), 3)])

    def date(self, d):
        return (self.start + datetime.timedelta(d)).isoformat()

    def middle(self, r):
        return mid(self.places[r[0]], self.places[r[1]])

    def cell(self, r):
        la, lo = self.middle(r)
        return float(round(la)), float(round(lo))

    def rain(self, r, d):
        return self.daily[(self.date(d),) + self.cell(r)]

    def limits(self, r):
        """Thresholds of a link, or None if several cells are equally near."""
        la, lo = self.cell(r)
        lats = {h[1] for h in self.history}
        best = min(abs(x - la) for x in lats)
        near = [x for x in lats if abs(abs(x - la) - best) < 1e-9]
        if len(near) > 1:
            return None
        rows = [h for h in self.history if h[1] == near[0]]
        best = min(abs(h[2] - lo) for h in rows)
        near = {h[2] for h in rows if abs(abs(h[2] - lo) - best) < 1e-9}
        if len(near) > 1:
            return None
        tp = [h[3] for h in rows if h[2] in near]
        return quantile(tp, 0.15), quantile(tp, 0.75)

    def write(self):
        os.makedirs("in/weather_data")
        with open("in/sim_period.csv", "w", encoding="utf-8") as f:
            f.write("StartDate,%s\nLength,%d\n" % (self.start.isoformat(), self.days))
        with open("in/routes-1.csv", "w", newline="", encoding="utf-8") as f:
            w = csv.writer(f, lineterminator="\n")
            w.writerow(["#name1", "name2", "distance", "forced_redirection", "link_type"])
            for r in self.routes:
                w.writerow([r[0], r[1], 50, 0, "walk"])
        with open("in/locations-1.csv", "w", newline="", encoding="utf-8") as f:
            w = csv.writer(f, lineterminator="\n")
            w.writerow(["#name", "region", "country", "lat", "lon", "location_type", "conflict_date", "population"])
            for n, (la, lo) in self.places.items():
                w.writerow([n, "R", "C", la, lo, "town", 0, 0])
        with open("in/weather_data/40yrs_tp.csv", "w", newline="", encoding="utf-8") as f:
            w = csv.writer(f, lineterminator="\n")
            w.writerow(["names", "latitude", "longitude", "month", "N", "tp"])
            for n, la, lo, tp in self.history:
                w.writerow([n, la, lo, 1, 0.5, tp])
        rows = list(self.daily.items())
        self.rng.shuffle(rows)
        with open("in/weather_data/daily_tp.csv", "w", newline="", encoding="utf-8") as f:
            w = csv.writer(f, lineterminator="\n")
            w.writerow(["time", "latitude", "longitude", "tp"])
            for (t, la, lo), tp in rows:
                w.writerow([t, la, lo, tp])


def script(rel, name="__main__"):
    old = sys.argv
    sys.argv = [rel, "--input_dir", os.path.abspath("in")]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            g = runpy.run_path(os.path.join(common.REPO, rel), run_name=name)
    finally:
        sys.argv = old
    return g


def rain(rng, mon):
    import numpy as np

    figs = c30.Figures()
    w = World(rng)
    w.write()
    g = script("multiscale/precipitation.py")
    with open("in/weather_data/precipitation.csv", newline="", encoding="utf-8") as f:
        rows = list(csv.reader(f))
    head = ["Day"] + ["%s - %s" % r for r in w.routes]
    mon.check(rows[0] == head, "columns", lambda: "columns %s instead of %s" % (rows[0], head))
    mon.check([r[0] for r in rows[1:]] == [str(d) for d in range(w.days)], "days", lambda: "days %s of %d" % ([r[0] for r in rows[1:]], w.days))
    for d, row in enumerate(rows[1:]):
        for r, v in zip(w.routes, row[1:]):
            mon.count("rain_values")
            if not mon.check(float(v) == w.rain(r, d), "rain", lambda: "rain on %s on day %d (%s) is %s instead of %s" % (r, d, w.date(d), v, w.rain(r, d))):
                return
    c30.curve(mon, figs, os.path.abspath("in/weather_data/precipitation_plot.png"), "Average",
              [sum(w.rain(r, d) for r in w.routes) / len(w.routes) for d in range(w.days)])
    for r in w.routes:
        lim = w.limits(r)
        if lim is None:
            continue
        for d in range(w.days):
            tp = w.rain(r, d)
            want = 1 if tp <= lim[0] else 2 if tp <= lim[1] else 1000
            if min(abs(tp - lim[0]), abs(tp - lim[1])) < 1e-9:
                continue
            a, b = r if rng.random() < 0.5 else r[::-1]
            with contextlib.redirect_stdout(io.StringIO()):
                got = g["multiplier"](a, b, rng.choice([d, np.int64(d)]))
            mon.count("factors")
            mon.count("factors_%d" % want)
            mon.check(got == want, "factor", lambda: "factor of %s on day %d is %s instead of %s (rain %s, limits %s)" % (r, d, got, want, tp, lim))
    mon.sig(w.routes, sorted(w.daily.items())[:50])
    mon.sample = {"routes": w.routes, "days": w.days}


def discharge(rng, mon):
    w = World(rng)
    w.write()
    lats = [p[0] for p in w.places.values()]
    lons = [p[1] for p in w.places.values()]
    rows = []
    points = [(round(w.lat0 + rng.uniform(-4, 4), 3), round(w.lon0 + rng.uniform(-4, 4), 3)) for _ in range(10)]
    points += [(min(lats), min(lons)), (max(lats), max(lons)), (min(lats), max(lons)), (max(lats), round(max(lons) + 0.001, 3))]
    for la, lo in points:
        for d in range(-3, w.days + 3):
            rows.append((w.date(d), la, lo, round(rng.uniform(0, 9000), rng.choice([1, 3]))))
    if rng.random() < 0.5:
        rng.shuffle(rows)
    with open("in/weather_data/ssudan_dis_filtered.csv", "w", newline="", encoding="utf-8") as f:
        wr = csv.writer(f, lineterminator="\n")
        wr.writerow(["time", "lat", "lon", "dis24"])
        wr.writerows(rows)
    script("multiscale/micro_discharge_filtered_csv.py")
    with open("in/weather_data/river_discharge.csv", newline="", encoding="utf-8") as f:
        got = [(r["time"][:10], float(r["lat"]), float(r["lon"]), float(r["dis24"])) for r in csv.DictReader(f)]
    want = [r for r in rows if w.date(0) <= r[0] < w.date(w.days) and min(lats) <= r[1] <= max(lats) and min(lons) <= r[2] <= max(lons)]
    mon.count("records_kept", len(want))
    mon.count("records_dropped", len(rows) - len(want))
    mon.check(len(got) == len(want) and all(a[0] == b[0] and all(abs(p - q) < 6e-4 for p, q in zip(a[1:], b[1:])) for a, b in zip(got, want)), "records", lambda: (
        "%d records instead of %d, first difference %s" % (len(got), len(want), next(((a, b) for a, b in zip(got, want) if a != b), None))))
    mon.sig(rows[:40], w.days)


def use(rng, mon):
    """Micro models travel the lengths that the prepared rain implies."""
    c30.Figures()
    w = World(rng)
    w.write()
    script("multiscale/precipitation.py")
    import pandas as pd

    from flee import pmicro_flee as M
    from flee.SimulationSettings import SimulationSettings as S

    S.ReadFromYML(os.path.join(common.REPO, "empty.yml"))
    data = "in/weather_data/"
    M.weather_source_files.update({"conflict_start_date": w.start.isoformat(), "precipitation": pd.read_csv(data + "precipitation.csv"),
                                   "40yrs_total_precipitation": pd.read_csv(data + "40yrs_tp.csv"), "output_log": os.path.abspath("log.csv")})
    open("log.csv", "w", encoding="utf-8").close()
    e = M.Ecosystem()
    locs = {n: e.addLocation(n, x=p[1], y=p[0], location_type="town", movechance=0.3) for n, p in w.places.items()}
    for a, b in w.routes:
        for x, y in ((a, b), (b, a)):
            link = M.Link_weather_coupling(startpoint=locs[x], endpoint=locs[y], distance=50.0, link_type="walk")
            lim = w.limits((x, y))
            if lim is None:
                continue
            for d in range(w.days):
                tp = w.rain((a, b), d)
                if min(abs(tp - lim[0]), abs(tp - lim[1])) < 1e-9:
                    continue
                want = 50.0 * (1 if tp <= lim[0] else 10000 if tp > max(15, lim[1]) else 2)
                with contextlib.redirect_stdout(io.StringIO()):
                    got = link.get_distance(time=d)
                mon.count("lengths")
                if want != 50.0:
                    mon.count("lengths_changed")
                if want > 100:
                    mon.count("lengths_closed")
                mon.check(got == want, "length", lambda: "length of %s-%s on day %d is %s instead of %s (rain %s, limits %s)" % (x, y, d, got, want, tp, lim))
    mon.sig(w.routes, sorted(w.daily.items())[:50])


def run(case, mon):
    rng = random.Random(case["seed"])
    if rng.random() < 0.3:
        os.environ["FLEE_TYPE_CHECK"] = "true"
    {"rain": rain, "discharge": discharge, "use": use}[case["kind"]](rng, mon)
