"""Registration corrections and empty starts adjust the data the way they are defined."""
import random
from fractions import Fraction

import datagen
import worlds as W

RULE = ("random tables and registration_corrections.csv files (dates on, between, before the records, several "
        "corrections per place), and runs that start with empty camps; corrected records, returned factors and daily "
        "values are compared with the definition; non-trivial: a correction that changes something, or a non-zero "
        "day-0 population; distinct by (records, dates)")
CASES = [("l1", 1500, 20000), ("empty", 400, 6000)]
REQUIRED = {"corrections": 1500, "effective": 350, "untouched": 3000, "ineffective": 400, "empty_values": 3000, "multiple": 150, "to_zero": 60}


def corrected(rows, day):
    """(rows as fractions, factor) after a correction on `day`."""
    if day < 0:
        return rows, Fraction(1)
    for i, (d, v) in enumerate(rows):
        if d == day and i > 0:
            f = v / rows[i - 1][1]
            return [[x, y * f] if j < i else [x, y] for j, (x, y) in enumerate(rows)], f
    return rows, Fraction(1)


def run(case, mon):
    from flee.datamanager import handle_refugee_data

    rng = random.Random(case["seed"])
    W.settings(log_levels={}, move_rules={}, spawn_rules={})
    camps = ["Camp%d" % i for i in range(rng.randint(1, 4))]
    scale = rng.choice([1, 1, 10])
    data = datagen.Data(rng, camps, scale=scale, multi=False)
    for s in [data.total] + [x[0] for x in data.camps.values()]:
        for r in s:
            r[1] = max(r[1], scale) if case["kind"] == "empty" or rng.random() < 0.85 else 0
    data.write("data", rng)
    empty = case["kind"] == "empty"
    d = handle_refugee_data.RefugeeTable(csvformat="generic", data_directory="data", start_date=data.start,
                                         data_layout="data_layout.csv", population_scaledown_factor=scale, start_empty=empty)
    series = {"total": data.total}
    series.update({c: s[0] for c, s in data.camps.items()})
    if empty:
        return run_empty(rng, mon, d, data, series)
    ref = {k: [[x, Fraction(v, scale)] for x, v in rows] for k, rows in series.items()}
    todo = []
    after = dict(ref)
    for _ in range(rng.randint(1, 4)):
        c = rng.choice(list(series))
        days = [r[0] for r in series[c]]
        day = rng.choice(days if rng.random() < 0.75 else [rng.randint(-15, 90)])
        # A correction after a value below 1 (a record of nobody, or as an earlier correction can leave it) is refused: not asked for here.
        last = [i for i, (x, v) in enumerate(after[c]) if x == day and i > 0 and day >= 0]
        v = after[c][last[0] - 1][1] if last else 1
        if v >= Fraction(101, 100) or (v == 1 and after[c] == ref[c]):
            mon.count("to_zero", int(bool(last) and after[c][last[0]][1] == 0))
            todo.append((c, day))
            after[c] = corrected(after[c], day)[0]
    seen = {}
    viafile = rng.random() < 0.5
    if viafile:
        with open("registration_corrections.csv", "w", encoding="utf-8") as f:
            for c, day in todo:
                f.write("%s,%s\n" % (c, datagen.date(data.start, day)))
        d.ReadL1Corrections("registration_corrections.csv")
        d.ReadL1Corrections("no_such_file.csv")
    for c, day in todo:
        before = ref[c]
        ref[c], factor = corrected(ref[c], day)
        seen[c] = seen.get(c, 0) + 1
        if seen[c] == 2:
            mon.count("multiple")
        mon.count("corrections")
        mon.count("effective" if before != ref[c] else "ineffective")
        if before != ref[c]:
            mon.sig(c, day, tuple(map(tuple, series[c])))
        if not viafile:
            got = d.correctLevel1Registrations(name=c, date=datagen.date(data.start, day))
            mon.check(abs(got - float(factor)) < 1e-9 * max(1.0, float(factor)), "factor", lambda: "factor %r instead of %r for day %d of %s" % (
                got, float(factor), day, series[c]))
    for c, rows in ref.items():
        if c not in seen:
            mon.count("untouched")
        for (x, y), nxt in zip(rows, rows[1:] + [[rows[-1][0] + 4, rows[-1][1]]]):
            for t in (x, x + (nxt[0] - x) // 2):
                want = y + (nxt[1] - y) * Fraction(t - x, nxt[0] - x)
                got = d.get_field(c, t)
                mon.count("untouched" if c not in seen else "corrected_values")
                # The result is truncated; floating point may end up just below an integer.
                mon.check(got == int(want) or (abs(want - round(want)) < Fraction(1, 10**6) and abs(got - want) < 1.01), "value", lambda: (
                    "%s on day %d is %s instead of %s after corrections %s of %s" % (c, t, got, float(want), todo, series[c])))
    mon.sample = {"corrections": todo, "series": {k: series[k] for k in seen}}


def run_empty(rng, mon, d, data, series):
    fromcamps = rng.random() < 0.5
    first = d.get_daily_difference(0, SumFromCamps=fromcamps)
    mon.check(first == 0, "empty-day0", lambda: "day 0 brings %s arrivals although camps start empty" % first)
    base = {c: data.possible(rows, 0) for c, rows in series.items()}
    for t in [0, 1] + [rng.randint(1, 75) for _ in range(6)]:
        for c, rows in series.items():
            if c == "total":
                continue  # only the camps start empty; the total serves for daily differences
            got = d.get_field(c, t)
            now = data.possible(rows, t)
            mon.count("empty_values")
            mon.check(min(now) - max(base[c]) <= got <= max(now) - min(base[c]), "empty-value", lambda: (
                "%s on day %d is %s, data %s less day-0 population %s" % (c, t, got, now, base[c])))
            if t == 0:
                mon.check(got == 0, "empty-start", lambda: "%s starts with %s" % (c, got))
            if max(base[c]) > 0:
                mon.sig(tuple(map(tuple, rows)), t)
    names = [c for c in series if c != "total"] if fromcamps else ["total"]
    for t in range(1, 8):
        got = d.get_daily_difference(t, SumFromCamps=fromcamps)
        lo = sum(min(data.possible(series[c], t)) - max(data.possible(series[c], t - 1)) for c in names)
        hi = sum(max(data.possible(series[c], t)) - min(data.possible(series[c], t - 1)) for c in names)
        mon.check(lo <= got <= hi, "empty-difference", lambda: "day %d: %s instead of %s to %s" % (t, got, lo, hi))
