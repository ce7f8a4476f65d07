"""The output table of a run reports what happened and what the data says."""
import contextlib
import csv
import datetime
import io
import os
import random
import runpy
import sys

import yaml

import common
import scenario
import tracing
import worlds as W

RULE = ("the real run script on random complete input sets (floods and forecasts, closures, type changes, corrections, empty starts, sinks, IDP "
        "totals, duration from the command line or the period file, settings from either place); every field of the "
        "printed table is compared with a recount of the agents, the data tables, the calendar and the error formulas, and "
        "the daily numbers with those of the documented main loop under the same random seed; non-trivial: a run in which "
        "agents reached or left camps; distinct by the printed table")
CASES = [("run", 220, 5000)]
REQUIRED = {"rows": 500, "camp_fields": 1000, "errors_nonzero": 300, "total_errors": 200, "raw_zero": 40, "debt_rows": 50,
            "idp_rows": 200, "retired": 50, "period_length": 40, "agents": 10000, "loops_compared": 60, "long_runs": 4, "floods": 20}
CASE_TIMEOUT = 150


class Watch(tracing.Movement):
    """Where everybody is, from assignments of positions alone."""

    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.at = {}
        self.retired = 0

    def created(self, n, a, loc):
        self.at[n] = loc

    def moved(self, n, a, old, new):
        if new is None:
            self.retired += 1
        else:
            self.at[n] = new


def reference_loop(days, seed):
    """The documented main loop, in a child of its own."""
    import pickle

    import numpy as np

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                try:
                    random.seed(seed)
                    np.random.seed(seed)
                    out, _ = scenario.simulate(days)
                    pickle.dump([(x[2], {l[0]: l[1] for l in x[3]}) for x in out], f)
                except BaseException as exc:  # pylint: disable=broad-except
                    pickle.dump(repr(exc), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def run(case, mon):
    import numpy as np

    rng = random.Random(case["seed"])
    days = rng.randint(2, 9) if rng.random() < 0.93 else rng.randint(31, 45)
    mon.count("long_runs", int(days > 30))
    g = scenario.generate(rng, days, ".", small=rng.random() < 0.5, floods=0.2)
    mon.count("floods", int("flood_rules" in g["settings"]["move_rules"]))
    start = g["data"].start
    if rng.random() < 0.3:
        with open("input_csv/sim_period.csv", "w", encoding="utf-8") as f:
            f.write("StartDate,%s\nLength,%d\n" % (start, days if rng.random() < 0.6 else days + 30))
    length = int([r for r in csv.reader(open("input_csv/sim_period.csv", encoding="utf-8"))][1][1])
    argv = ["run.py", "input_csv", "data"]
    if length == days and rng.random() < 0.6:
        argv.append("0")
        mon.count("period_length")
    else:
        argv.append(str(days))
    seed = rng.randrange(10**6)
    ref = reference_loop(days, seed)
    if isinstance(ref, str):
        ref = None
    if rng.random() < 0.5:
        os.rename("simsetting.yml", "mine.yml")
        with open("simsetting.yml", "w", encoding="utf-8") as f:  # must not be read
            yaml.safe_dump({"log_levels": {"idp_totals": 0, "agent": 1, "link": 1},
                            "spawn_rules": {"empty_camps_on_day0": True, "insert_day0": False}}, f)
        argv.append("mine.yml")
    F = W.sim()
    tr = Watch(F, mon)
    snaps = []
    evolve = F.Ecosystem.evolve

    def watched(self, *a, **k):
        res = evolve(self, *a, **k)
        at = {}
        for loc in tr.at.values():
            at[id(loc)] = at.get(id(loc), 0) + 1
        snaps.append(({l.name: at.get(id(l), 0) for l in self.locations}, len(tr.at),
                      sum(at.get(id(l), 0) for l in self.locations if l.idpcamp)))
        return res

    F.Ecosystem.evolve = watched
    random.seed(seed)
    np.random.seed(seed)
    out = io.StringIO()
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(common.REPO, "runscripts", "run.py"), run_name="__main__")
    finally:
        sys.argv = old
    check_table(mon, g, days, start, out.getvalue(), snaps)
    if ref is not None and not mon.violations:
        got = [(s[1], s[0]) for s in snaps]
        for t, (x, y) in enumerate(zip(ref, got)):
            if not mon.check(x == y, "main-loop", lambda: "day %d: agents and places %s differ from the documented main loop: %s" % (t, y, x)):
                break
        mon.count("loops_compared")
    mon.count("retired", tr.retired)
    mon.count("agents", len(tr.at))
    if len({tuple(s[0].values()) for s in snaps}) > 1:
        mon.sig(out.getvalue())
    mon.sample = {"argv": argv, "table": out.getvalue()[:600]}


def check_table(mon, g, days, start, text, snaps):
    from flee.datamanager import handle_refugee_data

    rows = list(csv.reader(io.StringIO(text)))
    camps = g["camps"]
    idp = g["settings"]["log_levels"]["idp_totals"] > 0
    want = ["Day", "Date"] + [x for c in camps for x in (c + " sim", c + " data", c + " error")]
    want += ["Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count",
             "refugees in camps (simulation)", "refugee_debt"] + (["total IDPs"] if idp else [])
    if not mon.check(rows and rows[0] == want, "header", lambda: "header %r instead of %r" % (rows[:1], want)):
        return
    if not mon.check(len(rows) == days + 1 and len(snaps) == days, "days", lambda: "%d rows and %d steps for %d days" % (
            len(rows) - 1, len(snaps), days)):
        return
    sr = g["settings"]["spawn_rules"]
    d = handle_refugee_data.RefugeeTable(csvformat="generic", data_directory="data", start_date=start, data_layout="data_layout.csv",
                                         population_scaledown_factor=g["scale"], start_empty=sr["empty_camps_on_day0"])
    d.ReadL1Corrections("input_csv/registration_corrections.csv")
    raw = debt = 0
    for t, r in enumerate(rows[1:]):
        mon.count("rows")
        if not mon.check(len(r) == len(want), "row-length", lambda: "day %d: %r" % (t, r)):
            return
        v = dict(zip(want, r))
        at, total, idps = snaps[t]
        date = (datetime.date.fromisoformat(start) + datetime.timedelta(days=t)).isoformat()
        mon.check(v["Day"] == str(t) and v["Date"] == date, "date", lambda: "row %d has day %s and date %s" % (t, v["Day"], v["Date"]))
        # Empty starts subtract the populations that the table has at its first daily difference.
        diff = None if sr.get("conflict_driven_spawning") or sr.get("flood_driven_spawning") else d.get_daily_difference(t, SumFromCamps=sr["sum_from_camps"])
        data = {c: d.get_field(c, t) for c in camps}
        if not sr["empty_camps_on_day0"] and not os.path.exists("input_csv/registration_corrections.csv"):
            for c in camps:  # independently of Flee's reader
                ok = g["data"].possible(g["data"].camps[c][0], t)
                mon.check(float(v[c + " data"]) in [float(x) for x in ok], "data-independent", lambda: "day %d: data of %s is %s, not in %s" % (
                    t, c, v[c + " data"], ok))
        err = 0.0
        for c in camps:
            mon.count("camp_fields", 3)
            mon.check(v[c + " sim"] == str(at[c]), "sim", lambda: "day %d: %s has %s agents, %d are there" % (t, c, v[c + " sim"], at[c]))
            mon.check(float(v[c + " data"]) == float(data[c]), "data", lambda: "day %d: data of %s is %s instead of %s" % (
                t, c, v[c + " data"], data[c]))
            e = 0.0 if data[c] < 1e-5 else abs(at[c] / float(data[c]) - 1)
            mon.count("errors_nonzero", int(e > 0))
            mon.check(abs(float(v[c + " error"]) - e) <= 0.0000501, "error", lambda: "day %d: error of %s is %s instead of %s" % (
                t, c, v[c + " error"], e))
            err += abs(at[c] - float(data[c]))
        if diff is not None:
            raw += diff
            new = diff - debt
            if t == 0 and sr["insert_day0"]:
                new = 0
            debt = max(0, -new)
        mon.count("raw_zero", int(raw <= 0))
        mon.count("debt_rows", int(debt > 0))
        tot = err / raw if raw > 0 else 0.0
        mon.count("total_errors", int(tot > 0))
        mon.check(abs(float(v["Total error"]) - tot) <= 1e-3 * max(1.0, tot) * 0.01 + 1e-4 * len(camps) / max(1.0, raw), "total-error", lambda: (
            "day %d: total error %s instead of %s" % (t, v["Total error"], tot)))
        mon.check(int(v["refugees in camps (UNHCR)"]) == int(sum(data.values())), "data-sum", lambda: "day %d: data sum %s instead of %s" % (
            t, v["refugees in camps (UNHCR)"], sum(data.values())))
        mon.check(int(v["total refugees (simulation)"]) == total, "total", lambda: "day %d: %s agents reported, %d were added" % (
            t, v["total refugees (simulation)"], total))
        mon.check(float(v["raw UNHCR refugee count"]) == raw, "raw", lambda: "day %d: raw count %s instead of %s" % (
            t, v["raw UNHCR refugee count"], raw))
        mon.check(float(v["refugee_debt"]) == debt, "debt", lambda: "day %d: debt %s instead of %s" % (t, v["refugee_debt"], debt))
        mon.check(int(v["refugees in camps (simulation)"]) == sum(at[c] for c in camps), "sim-sum", lambda: (
            "day %d: %s agents in camps instead of %s" % (t, v["refugees in camps (simulation)"], sum(at[c] for c in camps))))
        if idp:
            mon.count("idp_rows")
            mon.check(int(v["total IDPs"]) == idps, "idps", lambda: "day %d: %s IDPs instead of %d" % (t, v["total IDPs"], idps))
        if mon.violations:
            return
