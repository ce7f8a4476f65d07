"""Summaries and figures of ensembles of runs, and interactive plots."""
import contextlib
import csv
import io
import math
import os
import random
import re
import sys
import types

from checks import c30

RULE = ("random ensembles of 1 to 6 output tables (camp names with spaces, IDP totals, empty camps, regions) for the forecast "
        "and uncertainty plots, and single tables for the interactive plots: the written means and deviations, the curves, "
        "percentiles and bands of every figure and the printed errors are compared with independent formulas over the tables; "
        "non-trivial: the runs differ; distinct by the tables")
CASES = [("forecast", 60, 1200), ("uq", 60, 1200), ("measures", 40, 800), ("plotly", 60, 1200)]
REQUIRED = {"summaries": 1500, "curves": 1500, "bands": 150, "regions": 40, "averages": 50, "errors": 150, "interactive": 200, "names_with_spaces": 60, "type_checked": 30}
CASE_TIMEOUT = 150
PRELOAD_ALSO = ("matplotlib.pyplot",)
TOTALS = (("Total error", None), ("refugees in camps (UNHCR)", "un"), ("total refugees (simulation)", "tot"), ("raw UNHCR refugee count", "raw"),
          ("refugees in camps (simulation)", "sim"), ("refugee_debt", "debt"))


class Figures(c30.Figures):
    """Records the bands of every figure as well."""

    def __init__(self):
        import matplotlib.figure
        from matplotlib.collections import PolyCollection

        super().__init__()
        self.bands = {}
        curves = matplotlib.figure.Figure.savefig

        def savefig(fig, fname, *a, **k):
            got = []
            for ax in fig.axes:
                for c in ax.collections:
                    if isinstance(c, PolyCollection):
                        sides = {}
                        for p in c.get_paths():
                            for x, y in p.vertices:
                                sides.setdefault(float(x), []).append(float(y))
                        got.append({x: (min(y), max(y)) for x, y in sides.items()})
            self.bands[os.path.normpath(str(fname))] = got
            curves(fig, fname, *a, **k)

        matplotlib.figure.Figure.savefig = savefig


def ensemble(rng, mon, n, days):
    """The tables of some runs of one simulation."""
    camps = c30.camps_of(rng, mon, 3)
    first = c30.table(rng, days, camps)
    runs = [first]
    while len(runs) < n:
        t = c30.table(rng, days, camps, first["idp"])
        if rng.random() < 0.7:
            t["camps"] = {c: (t["camps"][c][0], first["camps"][c][1]) for c in camps}
            t["un"] = first["un"]
        runs.append(t)
    for t in runs:
        if rng.random() < 0.3:
            day = rng.randrange(days)
            t["camps"] = {c: (s[:day] + [0] + s[day + 1:], d) for c, (s, d) in t["camps"].items()}
            t["sim"] = [sum(t["camps"][c][0][i] for c in camps) for i in range(days)]
    return runs


def mean(x):
    x = list(x)
    return sum(x) / len(x)


def std(x):
    x = list(x)
    if len(x) < 2:
        return math.nan
    m = mean(x)
    return math.sqrt(sum((y - m) ** 2 for y in x) / (len(x) - 1))


def percentile(x, q):
    x = sorted(x)
    k = (len(x) - 1) * q / 100
    i = int(k)
    return x[i] + (x[min(i + 1, len(x) - 1)] - x[i]) * (k - i)


def same(a, b, tol=1e-6):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(b))


ROUNDED = 1e-4  # the error functions round to four digits


def over(runs, get, f, i):
    return f([get(t)[i] for t in runs])


def columns(runs):
    """Column of the output table -> numbers of a run."""
    out = {}
    for c in runs[0]["camps"]:
        out[c + " sim"] = lambda t, c=c: t["camps"][c][0]
        out[c + " data"] = lambda t, c=c: t["camps"][c][1]
    for name, k in TOTALS:
        if k:
            out[name] = lambda t, k=k: t[k]
    return out


def summary(mon, path, runs, f, key):
    with open(path, newline="", encoding="utf-8") as fh:
        rows = list(csv.DictReader(fh))
    days = runs[0]["days"]
    mon.check([float(r["Day"]) for r in rows] == list(range(days)), key + "-days", lambda: "days %s in %s" % ([r["Day"] for r in rows], path))
    for name, get in columns(runs).items():
        for i, r in enumerate(rows):
            w = over(runs, get, f, i)
            g = float(r[name]) if r.get(name) else math.nan
            mon.count("summaries")
            if not mon.check(same(g, w), key, lambda: "%s of %s on day %d over %d runs is %s instead of %s" % (key, name, i, len(runs), r.get(name), w)):
                return


def band(mon, figs, path, low, high, days):
    got = figs.bands.get(os.path.normpath(path), [])
    mon.count("bands")
    want = {float(i): (low[i], high[i]) for i in range(days)}
    ok = any(set(want) <= set(b) and all(same(b[i][0], w[0]) and same(b[i][1], w[1]) for i, w in want.items()) for b in got)
    mon.check(ok, "band", lambda: "no band of %s from %s to %s, only %s" % (path, low[:5], high[:5], [sorted(b.items())[:5] for b in got]))


def run_forecast(rng, mon):
    from flee.postprocessing import plot_flee_forecast as P

    figs = Figures()
    days = rng.randint(1, 25)
    regions = rng.sample(["east", "north", "north_east", "all"], rng.randint(0, 3))
    runs = ensemble(rng, mon, rng.randint(max(1, len(regions)), 6), days)
    where = [regions[i] if i < len(regions) else rng.choice(regions + ["other"]) for i in range(len(runs))]
    rng.shuffle(where)
    base = rng.choice(["ens", "north_results"])
    os.mkdir(base)
    for i, (t, w) in enumerate(zip(runs, where)):
        os.makedirs("%s/RUNS/%s_%d" % (base, w, i))
        c30.write(t, "%s/RUNS/%s_%d/out.csv" % (base, w, i))
    if rng.random() < 0.3:
        os.makedirs(base + "/plots/old")
    given = list(regions)
    with contextlib.redirect_stdout(io.StringIO()):
        if given or rng.random() < 0.5:
            P.plot_flee_forecast(os.path.abspath(base), region_names=given)
        else:
            P.plot_flee_forecast(os.path.abspath(base))
    mon.check(given == regions, "argument", lambda: "the given regions became %s" % given)
    for region in regions + [None]:
        chosen = [t for t, w in zip(runs, where) if region is None or w.startswith(region)]
        out = os.path.abspath("%s/plots/%s" % (base, region or "entire_runs"))
        mon.count("regions")
        if not mon.check(os.path.exists(out + "/mean_df.csv"), "no-summary", lambda: "nothing for %s in %s" % (region, sorted(os.listdir(base + "/plots")))):
            return
        with open(out + "/all_out.csv", newline="", encoding="utf-8") as f:
            rows = list(csv.DictReader(f))
        names = list(columns(runs))
        got = sorted(tuple(float(r[k]) for k in ["Day"] + names) for r in rows)
        want = sorted(tuple([float(i)] + [float(columns(runs)[k](t)[i]) for k in names]) for t in chosen for i in range(days))
        mon.check(got == want, "all-rows", lambda: "%d rows instead of the %d of %d runs for %s" % (len(got), len(want), len(chosen), region))
        summary(mon, out + "/mean_df.csv", chosen, mean, "mean")
        summary(mon, out + "/std_df.csv", chosen, std, "deviation")
        for c in runs[0]["camps"]:
            path = "%s/camps/%s.png" % (out, c)
            sims = [[t["camps"][c][0][i] for t in chosen] for i in range(days)]
            c30.curve(mon, figs, path, "mean", [mean(x) for x in sims])
            c30.curve(mon, figs, path, "5th percentile", [percentile(x, 5) for x in sims])
            c30.curve(mon, figs, path, "90th percentile", [percentile(x, 90) for x in sims])
            band(mon, figs, path, [percentile(x, 5) for x in sims], [percentile(x, 90) for x in sims], days)
            fig = figs.saved.get(os.path.normpath(path))
            if fig:
                every = sorted(y for label, ys in fig[0].items() if label.startswith("_") for _, y in ys)
                want = sorted([float(v) for v in part] for t in chosen for part in t["camps"][c])
                mon.check(every == want, "runs-curves", lambda: "%d curves of single runs instead of %d, or other values" % (len(every), len(want)))
                mon.check(fig[1] == ["All %d runs for %s with Mean and Percentiles" % (len(chosen), c)], "title", lambda: "title %s" % fig[1])
    mon.sig(runs, where)
    mon.sample = {"regions": regions, "runs": len(runs), "days": days}


def rescaled(t, c):
    s, _ = t["camps"][c]
    return [s[i] * t["un"][i] / t["sim"][i] if t["sim"][i] > 0 else float(s[i]) for i in range(t["days"])]


def run_uq(rng, mon):
    figs = Figures()
    days = rng.randint(1, 30)
    runs = ensemble(rng, mon, rng.randint(1, 5), days)
    os.mkdir("out")
    for i, t in enumerate(runs):
        p = "in_dir/" + rng.choice(["", "a/", "deep/er/"]) + "run_%d" % i
        os.makedirs(p)
        c30.write(t, p + "/out.csv")
    text = c30.script("flee/postprocessing/plot_flee_uq_output.py", ["uq", "in_dir", "out"])
    un = [over(runs, lambda t: t["un"], mean, i) for i in range(days)]
    diffs = [[0.0] * days, [0.0] * days]
    for c in runs[0]["camps"]:
        sims = [over(runs, lambda t: t["camps"][c][0], mean, i) for i in range(days)]
        data = [over(runs, lambda t: t["camps"][c][1], mean, i) for i in range(days)]
        scal = [over(runs, lambda t: rescaled(t, c), mean, i) for i in range(days)]
        for path, mid, get in (("out/%s-4_V2.png" % c, sims, lambda t: t["camps"][c][0]), ("out/%s-4-rescaled_V2.png" % c, scal, lambda t: rescaled(t, c))):
            c30.curve(mon, figs, path, "%s simulation" % c.title(), mid)
            c30.curve(mon, figs, path, "%s UNHCR data" % c.title(), data)
            if len(runs) > 1:
                for mid, get in ((mid, get), (data, lambda t: t["camps"][c][1])):
                    dev = [2 * over(runs, get, std, i) for i in range(days)]
                    band(mon, figs, path, [x - e for x, e in zip(mid, dev)], [x + e for x, e in zip(mid, dev)], days)
        for i in range(days):
            diffs[0][i] += abs(sims[i] - data[i])
            diffs[1][i] += abs(scal[i] - data[i])
    m = [[d / max(1, u) for d, u in zip(x, un)] for x in diffs]
    for label, k in (("total refugees (simulation)", "tot"), ("refugees in camps (simulation)", "sim"), ("raw UNHCR refugee count", "raw"), ("refugee_debt", "debt")):
        c30.curve(mon, figs, "out/numagents_V2.png", label, [over(runs, lambda t: t[k], mean, i) for i in range(days)])
    tol = [len(runs[0]["camps"]) * ROUNDED * max(1, x) for x in m[1]]
    c30.curve(mon, figs, "out/error_V2.png", "error", m[1], tol)
    c30.curve(mon, figs, "out/error-comparison_V2.png", "error", m[1], tol)
    c30.curve(mon, figs, "out/error-comparison_V2.png", "error (not rescaled)", m[0], [len(runs[0]["camps"]) * ROUNDED * max(1, x) for x in m[0]])
    g = re.search(r"Averaged error normal:\s+(\S+)\s*, rescaled:\s+(\S+)\s*, len:\s+(\d+)", text)
    mon.count("averages")
    if mon.check(g, "no-averages", lambda: "printed %r" % text[-300:]):
        got = [float(x) for x in g.groups()]
        want = [mean(m[0]), mean(m[1]), days]
        mon.check(all(same(a, b, len(runs[0]["camps"]) * ROUNDED) for a, b in zip(got, want)), "averages", lambda: "printed %s instead of %s" % (got, want))
    mon.sig(runs)
    mon.sample = {"camps": list(runs[0]["camps"]), "runs": len(runs), "errors": [mean(x) for x in m]}


def run_measures(rng, mon):
    """The errors of the mean run with naive models, and their totals."""
    import warnings

    import numpy as np
    import pandas as pd

    from flee.postprocessing import plot_flee_uq_output as U

    warnings.simplefilter("ignore")
    Figures()
    days = rng.randint(33, 50)
    runs = ensemble(rng, mon, rng.randint(1, 4), days)
    frames = []
    for i, t in enumerate(runs):
        c30.write(t, "out%d.csv" % i)
        f = pd.read_csv("out%d.csv" % i)
        for c in t["camps"]:
            f["%s sim rescaled" % c] = rescaled(t, c)
        frames.append(f)
    data = pd.concat(frames, axis=0, ignore_index=True)
    os.mkdir("out")
    un = [over(runs, lambda t: t["un"], mean, i) for i in range(days)]
    errs, parts = [], []
    filled = rng.random() < 0.5
    for c in runs[0]["camps"]:
        with contextlib.redirect_stdout(io.StringIO()):
            e = U.plotme("out", data, c, naieve_model=True, Filled=filled, UNHCR=rng.random() < 0.7)
        errs.append(e)
        y1 = [over(runs, lambda t: t["camps"][c][0], mean, i) for i in range(days)]
        y2 = [over(runs, lambda t: t["camps"][c][1], mean, i) for i in range(days)]
        sc = [over(runs, lambda t: rescaled(t, c), mean, i) for i in range(days)]
        want = {"N": sum(y2)}
        for k in (7, 30):
            want["MASE%d" % k] = c30.mase(sc, y2, [y2[k]] * days, k)
            if un[k]:
                want["MASE%d-ratio" % k] = c30.mase(sc, y2, [u * y2[k] / un[k] for u in un], k)
        parts.append(want)
        for k, w in want.items():
            mon.count("errors")
            mon.check(c30.same(float(e.errors[k]), w) or same(float(e.errors[k]), w, ROUNDED), "measure:" + k, lambda: "%s of %s is %s instead of %s" % (k, c, e.errors[k], w))
        for k, w in (("absolute difference", [abs(p - q) for p, q in zip(y1, y2)]), ("absolute difference rescaled", [abs(p - q) for p, q in zip(sc, y2)]),
                     ("ratio difference", [abs(p - q) / max(1, u) for p, q, u in zip(y1, y2, un)])):
            mon.count("errors")
            mon.check(len(e.errors[k]) == days and all(same(float(g), x, ROUNDED) for g, x in zip(e.errors[k], w)), "measure:" + k, lambda: "%s of %s is %s instead of %s" % (
                k, c, list(e.errors[k])[:5], w[:5]))
    sim = U.SimulationErrors(location_errors=errs)
    n = sum(p["N"] for p in parts)
    for k in ("MASE7", "MASE30"):
        w = sum(p[k] * p["N"] for p in parts) / n if n else math.nan
        if not math.isnan(w) and not math.isinf(w):
            mon.count("errors")
            g = float(sim.get_error(err_type=k))
            mon.check(same(g, w, ROUNDED), "weighted:" + k, lambda: "the weighted %s is %s instead of %s" % (k, g, w))
    for flag, k in ((True, "absolute difference rescaled"), (False, "absolute difference")):
        g = sim.abs_diff(rescaled=flag)
        w = sum(np.asarray(e.errors[k]) for e in errs)
        mon.check(np.allclose(g, w), "sum", lambda: "sum of %s is %s instead of %s" % (k, list(g)[:5], list(w)[:5]))
    mon.sig(runs)


class Px:
    """Stands in for plotly, which is not installed: records the lines of every page."""

    def __init__(self):
        self.pages = {}
        pages = self.pages

        class Fig:
            def __init__(self, lines, title):
                self.lines, self.title = lines, title

            def update_layout(self, **k):
                self.title = k.get("title", self.title)

            def update_xaxes(self, **k):
                pass

            update_yaxes = update_traces = update_xaxes

            def write_html(self, path, *a, **k):
                pages[os.path.normpath(str(path))] = (self.lines, self.title)
                with open(path, "w", encoding="utf-8") as f:
                    f.write("<html></html>")

        def line(frame=None, x=None, y=None, title=None, **k):
            def col(v):
                return [float(p) for p in (frame[v] if isinstance(v, str) else v)]
            xs = col(x)
            if isinstance(y, (list, tuple)) and y and isinstance(y[0], str):
                missing = [v for v in y if v not in frame.columns]
                if missing:
                    raise ValueError("no columns %s in %s" % (missing, list(frame.columns)))
                lines = {v: (xs, col(v)) for v in y}
            else:
                lines = {y if isinstance(y, str) else "": (xs, col(y))}
            return Fig(lines, title)

        ex, go, top = types.ModuleType("plotly.express"), types.ModuleType("plotly.graph_objects"), types.ModuleType("plotly")
        ex.line, go.Figure, top.express, top.graph_objects = line, Fig, ex, go
        top.__path__ = []
        sys.modules.update({"plotly": top, "plotly.express": ex, "plotly.graph_objects": go})


def page(mon, px, path, want):
    got = px.pages.get(os.path.normpath(path))
    mon.count("interactive", len(want))
    if not mon.check(got is not None, "no-page", lambda: "%s was not written, only %s" % (path, sorted(px.pages))):
        return
    for label, (ys, tol) in want.items():
        x, y = got[0].get(label, ([], []))
        mon.check(x == [float(i) for i in range(len(ys))] and all(abs(p - q) <= e for p, q, e in zip(y, ys, tol)) and len(y) == len(ys), "line", lambda: (
            "line %r of %s is %s instead of %s" % (label, path, y[:6] or sorted(got[0]), ys[:6])))


def run_plotly(rng, mon):
    px = Px()
    t = c30.table(rng, rng.randint(1, 40), c30.camps_of(rng, mon))
    sub = rng.choice(["", "", "macro", "micro"])
    os.makedirs(os.path.join("in_dir", sub))
    os.mkdir("out")
    c30.write(t, os.path.join("in_dir", sub, "out.csv"))
    c30.script("flee/postprocessing/plotly_flee_output.py", ["plotly", "in_dir", "out"])
    base = os.path.normpath(os.path.join("out", sub))
    exact = [1e-9] * t["days"]
    for c, (s, d) in t["camps"].items():
        page(mon, px, "%s/camps/%s.html" % (base, c), {c + " sim": (s, exact), c + " data": (d, exact)})
    page(mon, px, base + "/numagents/numagents.html", {label: (t[k], exact) for label, k in (
        ("total refugees (simulation)", "tot"), ("refugees in camps (simulation)", "sim"), ("raw UNHCR refugee count", "raw"))})
    e, r = c30.daily_error(t, False), c30.daily_error(t, True)
    page(mon, px, base + "/errors/error.html", {"": (r, c30.slack(t))})
    page(mon, px, base + "/errors/error_comparison.html", {"": (e, [1e-4 * max(1, x) for x in e])})
    mon.check(len(px.pages) == len(t["camps"]) + 3, "pages", lambda: "pages %s" % sorted(px.pages))
    mon.sig(t)


def run(case, mon):
    rng = random.Random(case["seed"])
    if rng.random() < 0.3:
        os.environ["FLEE_TYPE_CHECK"] = "true"
        mon.count("type_checked")
    {"forecast": run_forecast, "uq": run_uq, "measures": run_measures, "plotly": run_plotly}[case["kind"]](rng, mon)
