"""Validation data tables: what the data says for a place and a day."""
import contextlib
import datetime
import io
import os
import random
import runpy
import sys

import datagen
import worlds as W

RULE = ("random data layouts and tables (gaps, records before day 0 and after the end, comments, empty counts, missing "
        "headers, population scaling, several tables per place): interpolated and raw values, daily differences, "
        "interpolation flags, maxima, summed tables and date arithmetic are compared with exact rational arithmetic; "
        "non-trivial: an interpolated value between two different records; distinct by (records, day, value)")
CASES = [("fields", 900, 13000), ("sums", 400, 6000), ("dates", 60, 900), ("period", 60, 900)]
REQUIRED = {"interpolated": 8000, "raw": 8000, "between": 3000, "differences": 4000, "overridden": 150, "flags": 5000, "maxima": 1000,
            "sum_points": 600, "dates": 1500, "periods": 60, "scripts": 60, "listings": 60}
START = "2015-03-01"


def table(data, start, scale, empty=False):
    from flee.datamanager import handle_refugee_data

    return handle_refugee_data.RefugeeTable(csvformat="generic", data_directory="data", start_date=start,
                                            data_layout="data_layout.csv", population_scaledown_factor=scale, start_empty=empty)


def raw_value(rows, day):
    v = rows[0][1]
    for d, n in rows:
        if d <= day:
            v = n
    return v


def run_fields(rng, mon):
    W.settings(log_levels={}, move_rules={}, spawn_rules={})
    scale = rng.choice([1, 1, 1, 3, 10, 100])
    camps = ["Camp%d" % i for i in range(rng.randint(1, 5))]
    data = datagen.Data(rng, camps, scale=scale, multi=False, start=rng.choice([START, "2012-02-20", "2019-12-30"]))
    data.write("data", rng)
    d = table(data, data.start, scale)
    mon.check(list(d.header) == ["total"] + camps, "header", lambda: "columns %s" % d.header)
    series = {"total": data.total}
    series.update({c: s[0] for c, s in data.camps.items()})
    days = [rng.randint(-12, 80) for _ in range(8)] + [0] + [r[0] for s in series.values() for r in s][:6]
    for name, rows in series.items():
        for t in days:
            got = d.get_field(name, t)
            want = data.possible(rows, t)
            mon.count("interpolated")
            mon.check(got in want, "interpolated", lambda: "%s on day %d is %s, expected %s from %s" % (name, t, got, want, rows))
            isrec = t in [r[0] for r in rows]
            if not isrec and rows[0][0] < t < rows[-1][0]:
                mon.count("between")
                mon.sig(tuple(map(tuple, rows)), t, got)
            if scale == 1 and isrec:
                mon.check(got == dict(map(tuple, rows))[t], "record", lambda: "%s on day %d is %s, recorded %s" % (name, t, got, rows))
            r = d.get_field(name, t, FullInterpolation=False)
            mon.count("raw")
            rw = {raw_value(rows, t) // scale} if raw_value(rows, t) % scale else {raw_value(rows, t) // scale}
            mon.check(r in rw, "raw", lambda: "raw value of %s on day %d is %s, expected %s from %s" % (name, t, r, rw, rows))
            mon.count("flags")
            mon.check(bool(d.is_interpolated(name, t)) is not isrec, "interpolation-flag",
                      lambda: "%s on day %d: flag %s, records %s" % (name, t, d.is_interpolated(name, t), rows))
        for _ in range(3):
            h = rng.randint(0, 70)
            got = d.getMaxFromData(name, h)
            past = [v for x, v in rows if x <= h]
            nxt = [v for x, v in rows if x >= h][:1]
            lo = max([0] + [v // scale for v in past])
            hi = max([lo] + [v // scale for v in nxt])
            mon.count("maxima")
            mon.check(lo <= got <= hi and (not past or got in [0] + [v // scale for _x, v in rows]), "maximum",
                      lambda: "maximum of %s until day %d is %s, expected %s to %s" % (name, h, got, lo, hi))
        if rng.random() < 0.1:
            out = io.StringIO()
            last = rng.randint(0, 12)
            with contextlib.redirect_stdout(out):
                d.print_data_values_for_location(name, last)
            mon.count("listings")
            mon.check(out.getvalue().split("\n")[:-1] == ["%d %d" % (t, d.get_field(name, t)) for t in range(last)], "listing",
                      lambda: "values of %s until day %d are listed as %r" % (name, last, out.getvalue()))
    # Daily differences: of the camps' sum, of the total, or of what replaces the total.
    total = "total"
    if rng.random() < 0.3:
        total = "total (modified input)"
        rows = datagen.series(rng, 60)
        series[total] = rows
        datagen.write_table("data/modified.csv", rows, data.start, rng)
        d.override_input("data/modified.csv")
        mon.count("overridden")
        for t in days:
            mon.check(d.get_field(total, t) in data.possible(rows, t), "override-value", lambda: "day %d of the replaced total is %s, from %s" % (
                t, d.get_field(total, t), rows))
    fromcamps = rng.random() < 0.5
    full = rng.random() < 0.8
    names = camps if fromcamps else [total]

    def level(t):
        if full:
            ps = [data.possible(series[c], t) for c in names]
            return sum(min(p) for p in ps), sum(max(p) for p in ps)
        v = sum(raw_value(series[c], t) // scale for c in names)
        return v, v

    for t in range(0, rng.randint(5, 25)):
        got = d.get_daily_difference(t, FullInterpolation=full, SumFromCamps=fromcamps)
        lo, hi = level(t)
        mon.count("differences")
        if t == 0:
            tot = data.possible(data.total, 0) if full else {raw_value(data.total, 0) // scale}
            if fromcamps and not lo <= got <= hi and lo + min(tot) <= got <= hi + max(tot):
                mon.violate("day0-sum-includes-total", "day 0: %s instead of %s" % (got, lo))
            else:
                mon.check(lo <= got <= hi, "difference-day0", lambda: "day 0: %s instead of %s to %s" % (got, lo, hi))
            for c in camps:
                want = data.possible(series[c], 0) if full else {raw_value(series[c], 0) // scale}
                mon.check(d.day0pops.get(c) in want, "day0-population", lambda: "day-0 population of %s is %s, expected %s" % (c, d.day0pops.get(c), want))
        else:
            p = level(t - 1)
            mon.check(lo - p[1] <= got <= hi - p[0], "difference", lambda: "day %d: %s instead of %s to %s" % (t, got, lo - p[1], hi - p[0]))
    if rng.random() < 0.1:
        out = io.StringIO()
        first, n = rng.randint(1, 20), rng.randint(1, 12)
        with contextlib.redirect_stdout(out):
            d.dump(first, n)
        want = [str(d.get_daily_difference(first + t)) for t in range(n)]
        mon.count("listings")
        mon.check(out.getvalue().split("\n")[1:-1] == want, "dump", lambda: "differences from day %d on are listed as %r instead of %s" % (first, out.getvalue(), want))
    mon.sample = {"series": series, "scale": scale}


def run_sums(rng, mon):
    """Several tables for one place: their sum."""
    W.settings(log_levels={}, move_rules={}, spawn_rules={})
    n = rng.choice([2, 2, 2, 3])
    if n == 2:
        kind = rng.choice(["any", "same", "subset"])
    else:
        kind = "same"
    days = sorted(rng.sample(range(-3, 60), rng.randint(1, 6)))
    parts = []
    for i in range(n):
        ds = days
        if kind == "any":
            ds = sorted(rng.sample(range(-3, 60), rng.randint(1, 6)))
        elif kind == "subset" and i:
            ds = sorted(rng.sample(days, rng.randint(1, len(days))))
        parts.append([[x, rng.randint(0, 5000)] for x in ds])
    if kind == "subset" and rng.random() < 0.5:
        parts.reverse()
    os.makedirs("data")
    for i, p in enumerate(parts):
        datagen.write_table("data/c%d.csv" % i, p, START, rng)
    datagen.write_table("data/refugees.csv", [[0, 10]], START, rng)
    with open("data/data_layout.csv", "w", encoding="utf-8") as f:
        f.write("total,refugees.csv\nCamp,%s\n" % ",".join("c%d.csv" % i for i in range(n)))
    d = table(None, START, 1)
    alldays = sorted({x for p in parts for x, _ in p})
    for t in alldays:
        lo = hi = 0
        for p in parts:
            vs = dict(map(tuple, p))
            if t in vs:
                opts = [vs[t]]
            elif t < p[0][0]:
                opts = [0, p[0][1]]  # nothing is known yet about this part
            else:
                before = [v for x, v in p if x < t][-1]
                after = [v for x, v in p if x > t][:1]
                opts = [before] + after
            lo, hi = lo + min(opts), hi + max(opts)
        got = d.get_field("Camp", t)
        mon.count("sum_points")
        mon.check(lo <= got <= hi, "sum", lambda: "day %d: %s instead of %s to %s from %s" % (t, got, lo, hi, parts))
        mon.sig(parts, t)
        mon.check(not d.is_interpolated("Camp", t), "sum-records", lambda: "day %d of %s is missing in the sum" % (t, parts))
    last = sum(p[-1][1] for p in parts)
    mon.check(d.get_field("Camp", alldays[-1] + 50) == last, "sum-end", lambda: "the last value is %s instead of %s from %s" % (
        d.get_field("Camp", alldays[-1] + 50), last, parts))


def run_dates(rng, mon):
    from flee.datamanager import DataTable

    for _ in range(60):
        a = datetime.date(rng.randint(1990, 2040), 1, 1).toordinal() + rng.randint(0, 365)
        n = rng.randint(-3000, 3000)
        sa, sb = datetime.date.fromordinal(a).isoformat(), datetime.date.fromordinal(a + n).isoformat()
        mon.count("dates")
        mon.check(DataTable.subtract_dates(sb, sa) == n, "subtract", lambda: "%s - %s is %s" % (sb, sa, DataTable.subtract_dates(sb, sa)))
        mon.check(str(DataTable.steps_to_date(n, sa)) == sb, "steps", lambda: "%s + %d is %s" % (sa, n, DataTable.steps_to_date(n, sa)))
        mon.sig(n)
    # The script that prints the same difference.
    want = n
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["calc_date_difference.py", sa, sb]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(os.path.dirname(DataTable.__file__), "calc_date_difference.py"), run_name="__main__")
    finally:
        sys.argv = old
    mon.count("scripts")
    mon.check(out.getvalue().split() == [str(want)], "date-script", lambda: "%s to %s prints %r instead of %d" % (sa, sb, out.getvalue(), want))


def run_period(rng, mon):
    from flee.datamanager import read_period

    for _ in range(4):
        start = datetime.date.fromordinal(rng.randint(726000, 740000)).isoformat()
        n = rng.randint(0, 5000)
        rows = ["%s,%s" % (rng.choice(["StartDate", "startdate"]), start), "%s,%d" % (rng.choice(["Length", "length"]), n)]
        if rng.random() < 0.5:
            rows.reverse()
        if rng.random() < 0.5:
            rows.insert(0, "#key,value")
        with open("sim_period.csv", "w", encoding="utf-8") as f:
            f.write("\n".join(rows) + rng.choice(["", "\n"]))
        got = read_period.read_sim_period("sim_period.csv")
        mon.count("periods")
        mon.check(tuple(got) == (start, n), "period", lambda: "%r from %r" % (got, rows))
        mon.sig(start, n)


def run(case, mon):
    rng = random.Random(case["seed"])
    {"fields": run_fields, "sums": run_sums, "dates": run_dates, "period": run_period}[case["kind"]](rng, mon)
