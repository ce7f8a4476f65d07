"""Error measures and reports computed from the output of runs."""
import contextlib
import csv
import io
import math
import os
import random
import re
import runpy
import sys

import common

RULE = ("random forecasts and data for the error functions; random output tables (camp names with spaces, zero counts, IDP "
        "totals, several runs) for the validation report, the plots and the comparison of runs: printed numbers, written "
        "tables and the curves of every figure are compared with independent formulas over the table; non-trivial: a "
        "non-zero error; distinct by the table")
CASES = [("metrics", 150, 6000), ("extract", 150, 3000), ("plot", 100, 2000), ("compare", 60, 1200)]
REQUIRED = {"points": 2000, "mase": 300, "report_values": 1500, "figures": 400, "curves": 800, "comparisons": 60, "names_with_spaces": 60}
CASE_TIMEOUT = 150
PRELOAD_ALSO = ("matplotlib.pyplot",)
NAMES = ["Alpha", "Beta Camp", "gamma-2", "Upper Simia site", "Delta sim City", "E", "Foo data Bar", "Camp_7"]


def near(a, b, tol=1e-4):
    return abs(a - b) <= tol * 0.501 + 1e-9 * max(abs(a), abs(b))


def table(rng, days, camps, idp=None):
    """An output table of a run as lists of numbers."""
    t = {}
    for c in camps:
        kind = rng.choice(["any", "growing", "zero-ish"])
        v = rng.randint(1, 500)
        s, d = [], []
        for _ in range(days):
            v += rng.randint(0, 40)
            d.append({"any": rng.randint(1, 3000), "growing": v, "zero-ish": rng.choice([0, 0, v])}[kind])
            s.append(rng.choice([0, d[-1], rng.randint(0, 3000)]))
        if kind == "zero-ish":
            d[7 % days] = max(1, d[7 % days])
        t[c] = (s, d)
    un = [sum(t[c][1][i] for c in camps) for i in range(days)]
    sm = [sum(t[c][0][i] for c in camps) for i in range(days)]
    raw = [rng.randint(0, 9000) for _ in range(days)]
    debt = [rng.choice([0, 0, 55]) for _ in range(days)]
    tot = [x + rng.randint(0, 500) for x in sm]
    return {"camps": t, "un": un, "sim": sm, "raw": raw, "debt": debt, "tot": tot, "days": days,
            "idp": rng.random() < 0.4 if idp is None else idp}


def write(t, path):
    with open(path, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f, lineterminator="\n")
        w.writerow(["Day", "Date"] + [x for c in t["camps"] for x in (c + " sim", c + " data", c + " error")] + [
            "Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count",
            "refugees in camps (simulation)", "refugee_debt"] + (["total IDPs"] if t["idp"] else []))
        for i in range(t["days"]):
            w.writerow([i, "2015-%02d-%02d" % (i // 28 + 1, i % 28 + 1)] + [x for c in t["camps"] for x in (
                t["camps"][c][0][i], t["camps"][c][1][i], 0.5)] + [0.25, t["un"][i], t["tot"][i], t["raw"][i], t["sim"][i], t["debt"][i]] + (
                    [7] if t["idp"] else []))


def rescaled(t, c):
    s, _ = t["camps"][c]
    return [s[i] * t["un"][i] / t["sim"][i] if t["sim"][i] > 0 else 0.0 for i in range(t["days"])]


def mean(x):
    x = list(x)
    return sum(x) / len(x)


def daily_error(t, scaled):
    out = []
    for i in range(t["days"]):
        e = 0.0
        for c, (s, d) in t["camps"].items():
            e += abs((rescaled(t, c)[i] if scaled else s[i]) - d[i])
        out.append(e / max(1, t["un"][i]))
    return out


def slack(t):
    """Rescaled counts may be whole people."""
    return [len(t["camps"]) / max(1, u) + 1e-4 for u in t["un"]]


def mase(f, d, naive, start):
    den = mean(abs(x - y) for x, y in zip(d[start + 1:], naive[start + 1:]))
    num = mean(abs(x - y) for x, y in zip(d, f))
    if den == 0:
        return math.nan if num == 0 else math.inf
    return num / den


def same(a, b):
    if math.isnan(b):
        return math.isnan(a)
    if math.isinf(b):
        return math.isinf(a)
    return near(a, b)


def run_metrics(rng, mon):
    import numpy as np

    from flee.postprocessing import analysis as a

    for _ in range(12):
        n = rng.randint(1, 60)
        f = [rng.choice([rng.randint(1, 5000), rng.uniform(0.01, 100)]) for _ in range(n)]
        d = [rng.choice([rng.randint(1, 5000), rng.uniform(0.01, 100), x]) for x in f]
        mon.count("points", n)
        for x, y in zip(f, d):
            x = int(x)
            y = rng.choice([y, int(y), 0, 1e-6, 2e-5])
            e = 0.0 if y < 1e-5 else abs(x / y - 1)
            mon.check(near(float(a.rel_error(x, y)), e), "rel-error", lambda: "relative error of %s and %s is %s" % (x, y, a.rel_error(x, y)))
            mon.check(near(float(a.abs_error(x, y)), abs(x - y)), "abs-error", lambda: "absolute error of %s and %s is %s" % (x, y, a.abs_error(x, y)))
        fa, da = np.array(f, dtype=float), np.array(d, dtype=float)
        got = a.abs_diffs(forecast_vals=fa, correct_vals=da)
        mon.check(len(got) == n and all(near(float(g), abs(x - y)) for g, x, y in zip(got, f, d)), "abs-diffs", lambda: "%s for %s and %s" % (got, f, d))
        got = a.mean_abs_diffs(forecast_vals=fa, correct_vals=da)
        mon.check(near(float(got), mean(abs(x - y) for x, y in zip(f, d))), "mean-abs-diffs", lambda: "%s for %s and %s" % (got, f, d))
        got = a.calculate_ln_accuracy_ratio(forecast_vals=fa, actual_vals=da)
        mon.check(near(float(got), mean(abs(math.log(x / y)) for x, y in zip(f, d))), "ln-ratio", lambda: "%s for %s and %s" % (got, f, d))
        start = rng.randint(0, max(0, n - 3))
        if n > start + 1:
            nv = [rng.uniform(0, 3000) for _ in range(n)]
            kw = {} if start == 30 else {"start_of_forecast_period": start}
            got = a.calculate_MASE(forecast_vals=fa, actual_vals=da, naieve_vals=np.array(nv), **kw)
            mon.count("mase")
            mon.check(same(float(got), mase(f, d, nv, start)), "mase", lambda: "MASE %s instead of %s (start %d)" % (got, mase(f, d, nv, start), start))
        if n > 33:
            nv = [rng.uniform(0, 3000) for _ in range(n)]
            got = a.calculate_MASE(forecast_vals=fa, actual_vals=da, naieve_vals=np.array(nv))
            mon.check(same(float(got), mase(f, d, nv, 30)), "mase-default", lambda: "MASE %s instead of %s" % (got, mase(f, d, nv, 30)))
        mon.sig(f, d)


class Figures:
    """Records the curves of every figure that is saved, instead of drawing it."""

    def __init__(self):
        import matplotlib.figure

        self.saved = {}

        def savefig(fig, fname, *a, **k):
            curves = {}
            for ax in fig.axes:
                for line in ax.lines:
                    curves.setdefault(line.get_label(), []).append(([float(x) for x in line.get_xdata()], [float(y) for y in line.get_ydata()]))
            self.saved[os.path.normpath(str(fname))] = (curves, [ax.get_title() for ax in fig.axes])
            with open(fname, "wb") as f:
                f.write(b"figure")

        matplotlib.figure.Figure.savefig = savefig


def script(rel, argv):
    out = io.StringIO()
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(common.REPO, rel), run_name="__main__")
    finally:
        sys.argv = old
    return out.getvalue()


def camps_of(rng, mon, n=4):
    camps = rng.sample(NAMES, rng.randint(1, n))
    mon.count("names_with_spaces", sum(1 for c in camps if " " in c))
    return camps


def run_extract(rng, mon):
    import warnings

    warnings.simplefilter("ignore")
    t = table(rng, rng.randint(33, 60), camps_of(rng, mon))
    os.mkdir("res")
    write(t, "res/out.csv")
    text = script("flee/postprocessing/extract-validation-results.py", ["extract", "res"])
    lines = text.split("\n")
    pos = 0
    vals = {}
    wanted = {}
    for c in t["camps"]:
        try:
            pos = lines.index("  %s:" % c, pos)
        except ValueError:
            mon.violate("missing-camp", "no report for %s in %r" % (c, text[:400]))
            return
        for ln in lines[pos + 1:pos + 11]:
            m = re.match(r"  ([a-zA-Z0-9 \-]+): (\S+)$", ln)
            if m:
                vals[(c, m.group(1))] = float(m.group(2))
        f, d = rescaled(t, c), t["camps"][c][1]
        s = t["camps"][c][0]
        for k in (7, 30):
            wanted[(c, "mase%d" % k)] = mase(f, d, [d[k]] * len(d), k)
            wanted[(c, "mase%d-ratio" % k)] = mase(f, d, [u * d[k] / t["un"][k] for u in t["un"]], k) if t["un"][k] else None
        wanted[(c, "N")] = sum(d)
        wanted[(c, "absolute difference ave")] = mean(abs(x - y) for x, y in zip(s, d))
        wanted[(c, "absolute difference rescaled ave")] = mean(abs(x - y) for x, y in zip(f, d))
        wanted[(c, "ratio difference ave")] = mean(abs(x - y) / max(1, u) for x, y, u in zip(s, d, t["un"]))
    for k, w in wanted.items():
        if w is None:
            continue
        mon.count("report_values")
        if not mon.check(k in vals and same(vals[k], w), "report:" + k[1], lambda: "%s of %s is %s instead of %s" % (k[1], k[0], vals.get(k), w)):
            return
    tot = {}
    for ln in lines[lines.index("totals:") + 1:]:
        m = re.match(r"  ([a-zA-Z0-9 \-()]+): (\S+)$", ln)
        if m:
            tot[m.group(1)] = float(m.group(2))
    n = sum(sum(d) for _, d in t["camps"].values())
    for k in ("mase7", "mase30", "mase7-ratio", "mase30-ratio"):
        parts = [(vals[(c, k)], sum(t["camps"][c][1])) for c in t["camps"]]
        w = sum(x * y for x, y in parts) / n if n else math.nan
        mon.count("report_values")
        mon.check(k in tot and same(tot[k], w), "total:" + k, lambda: "total %s is %s instead of %s" % (k, tot.get(k), w))
    for k, w in (("Error (normal)", mean(daily_error(t, False))), ("Error (rescaled)", mean(daily_error(t, True))), ("Simulation Period", t["days"])):
        mon.count("report_values")
        mon.check(k in tot and abs(tot[k] - w) <= 1e-4 * max(1, w), "total:" + k, lambda: "%s is %s instead of %s" % (k, tot.get(k), w))
    mon.sig(t)
    mon.sample = {"camps": list(t["camps"]), "totals": tot}


def curve(mon, figs, path, label, want, tol=None, xs=None):
    fig = figs.saved.get(os.path.normpath(path))
    if not mon.check(fig is not None, "no-figure", lambda: "%s was not drawn, only %s" % (path, sorted(figs.saved))):
        return
    got = fig[0].get(label, [])
    mon.count("curves")
    tol = tol or [1e-6 * max(1.0, abs(w)) for w in want]
    xs = list(range(len(want))) if xs is None else xs
    mon.check(any(x == xs and len(y) == len(want) and all(abs(p - q) <= e for p, q, e in zip(y, want, tol)) for x, y in got), "curve", lambda: (
        "curve %r of %s is %s instead of %s" % (label, path, [(y[:6]) for _, y in got] or sorted(fig[0]), want[:6])))


def run_plot(rng, mon):
    figs = Figures()
    t = table(rng, rng.randint(1, 60), camps_of(rng, mon))
    os.makedirs("in_dir")
    os.makedirs("out")
    sub = rng.choice(["", "", "macro", "micro"])
    os.makedirs(os.path.join("in_dir", sub), exist_ok=True)
    write(t, os.path.join("in_dir", sub, "out.csv"))
    text = script("flee/postprocessing/plot_flee_output.py", ["plot", "in_dir", "out"])
    base = os.path.join("out", sub)
    for c, (s, d) in t["camps"].items():
        curve(mon, figs, "%s/camps/%s.png" % (base, c), "%s simulation" % c, s)
        curve(mon, figs, "%s/camps/%s.png" % (base, c), "%s UNHCR data" % c, d)
    for label, k in (("total refugees (simulation)", "tot"), ("refugees in camps (simulation)", "sim"), ("raw UNHCR refugee count", "raw"), ("refugee_debt", "debt")):
        curve(mon, figs, base + "/numagents/numagents.png", label, t[k])
    e, r = daily_error(t, False), daily_error(t, True)
    curve(mon, figs, base + "/errors/error_comparison.png", "Error (non-rescaled)", e, [1e-4 * max(1, x) for x in e])
    curve(mon, figs, base + "/errors/error_comparison.png", "Error (rescaled)", r, slack(t))
    curve(mon, figs, base + "/errors/error.png", "Error (rescaled)", r, slack(t))
    mon.count("figures", len(figs.saved))
    mon.check(len(figs.saved) == len(t["camps"]) + 3, "figures", lambda: "figures %s" % sorted(figs.saved))
    m = re.search(r"Averaged error normal:\s+(\S+)\s*, rescaled:\s+(\S+)\s*, len:\s+(\d+)", text)
    if mon.check(m, "no-averages", lambda: "printed %r" % text):
        mon.check(abs(float(m.group(1)) - mean(e)) < 1e-4 * max(1, mean(e)) and abs(float(m.group(2)) - mean(r)) <= mean(slack(t))
                  and int(m.group(3)) == t["days"], "averages", lambda: "printed %r instead of %s and %s" % (text, mean(e), mean(r)))
    mon.sig(t)
    mon.sample = {"camps": list(t["camps"]), "error": mean(e), "rescaled": mean(r)}


def run_compare(rng, mon):
    from flee.postprocessing import plot_flee_compare as P

    figs = Figures()
    days = rng.randint(2, 40)
    camps = camps_of(rng, mon, 3)
    runs = {}
    idp = rng.random() < 0.4
    for i in range(rng.randint(2, 3)):
        name = "model%d_run" % i
        runs[name] = table(rng, days, camps, idp)
        os.makedirs("data/" + name)
        write(runs[name], "data/%s/out.csv" % name)
    os.mkdir("out")
    with contextlib.redirect_stdout(io.StringIO()):
        P.plot_flee_compare(*runs, data_dir="data", output_dir="out")
    with open("out/comparisons.csv", newline="", encoding="utf-8") as f:
        rows = list(csv.reader(f))[1:]
    mon.check([r[0] for r in rows] == list(runs), "runs", lambda: "comparison of %s" % [r[0] for r in rows])
    for r in rows:
        t = runs[r[0]]
        e, s = mean(daily_error(t, False)), mean(daily_error(t, True))
        mon.count("comparisons")
        mon.check(abs(float(r[1]) - e) <= 1e-4 * max(1, e) and abs(float(r[2]) - s) <= mean(slack(t)) and int(r[3]) == days, "comparison", lambda: (
            "%s instead of %s and %s over %d days" % (r, e, s, days)))
    for name, t in runs.items():
        e = daily_error(t, False)
        curve(mon, figs, "out/error_comparison.png", "error- %s" % name, e, [1e-4 * max(1, x) for x in e])
        for c in camps:
            curve(mon, figs, "out/%s.png" % c, name, t["camps"][c][0])
    for c in camps:
        curve(mon, figs, "out/%s.png" % c, "UNHCR data", list(runs.values())[-1]["camps"][c][1])
    mon.count("figures", len(figs.saved))
    mon.sig(runs)


def run(case, mon):
    rng = random.Random(case["seed"])
    {"metrics": run_metrics, "extract": run_extract, "plot": run_plot, "compare": run_compare}[case["kind"]](rng, mon)
