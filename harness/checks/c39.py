"""Inputs that contradict one another do not pass silently."""
import contextlib
import csv
import io
import os
import random
import re
import runpy
import sys

import yaml

import common
import scenario
import worlds as W

RULE = ("complete random inputs with one flaw (a place, kind, file, date or table that the rest does not know) in the real run "
        "script, and graphs built through the interfaces of the serial, parallel and micro model; whether the run stops before "
        "its last row or names the culprit; non-trivial: every run; distinct by flaw and input")
CASES = [("run", 420, 6000), ("graph", 200, 3000)]
KINDS = ["route", "population", "data_file", "camp_without_data", "date", "correction", "conflict_end", "major_route", "conflict_name",
         "type", "closed_link", "closed_border", "changed_place", "changed_type", "flood_end"]
REQUIRED = dict({"flaw_" + k: 8 for k in KINDS}, stopped=150, named=150, graph_unknown=300, graph_valid=300)
# Flaws that stop the run; the others are reported with the name.
STOP = {"route", "population", "data_file", "camp_without_data", "date", "correction", "conflict_end", "major_route", "flood_end"}
ALARM = re.compile("error|warn|not found|unknown|invalid|cannot|can't", re.I)


def rd(f):
    with open(f, encoding="utf-8", newline="") as h:
        return list(csv.reader(h))


def wr(f, rows):
    with open(f, "w", encoding="utf-8", newline="") as h:
        csv.writer(h, lineterminator="\n").writerows(rows)


def body(rows):
    """Indices of the rows that are no comments."""
    return [i for i, r in enumerate(rows) if r and r[0] and r[0][0] != "#"]


def flaw(kind, rng, g, days, tok):
    """Spoil the input; returns the name that has to be reported, or None if this input cannot have the flaw."""
    names = [r[0] for r in rd("input_csv/locations.csv")[1:] if r and r[0] and r[0][0] != "#"]
    if kind == "route":
        r = rd("input_csv/routes.csv")
        r[rng.choice(body(r))][rng.choice([0, 1])] = tok
        wr("input_csv/routes.csv", r)
    elif kind in ("population", "type"):
        r = rd("input_csv/locations.csv")
        i = rng.choice(body(r))
        bad = rng.choice(["x12", "1.2.3", "12k"])
        r[i][7 if kind == "population" else 5] = bad if kind == "population" else tok
        wr("input_csv/locations.csv", r)
        return r[i][0] if kind == "population" else tok
    elif kind == "data_file":
        r = rd("data/data_layout.csv")
        r[rng.choice(body(r))][1] = tok + ".csv"
        wr("data/data_layout.csv", r)
    elif kind == "camp_without_data":
        r = rd("data/data_layout.csv")
        i = rng.choice([i for i in body(r) if r[i][0] in g["camps"]])
        n = r.pop(i)[0]
        wr("data/data_layout.csv", r)
        return n
    elif kind == "date":
        r = rd("data/data_layout.csv")
        f = "data/" + r[rng.choice([i for i in body(r) if r[i][0] in g["camps"]])][1]
        x = rd(f)
        rows = [i for i in body(x) if len(x[i]) > 1 and x[i][1].strip() and re.match(r"\d{4}-", x[i][0])]
        if not rows:
            return None
        bad = rng.choice(["2020-13-45", "tomorrow", "2020/01/02x"])
        x[rng.choice(rows)][0] = bad
        wr(f, x)
        return bad
    elif kind == "correction":
        with open("input_csv/registration_corrections.csv", "a", encoding="utf-8") as f:
            f.write("%s,%s\n" % (tok, g["data"].start))
    elif kind in ("conflict_name", "conflict_end"):
        r = rd("input_csv/conflicts.csv")
        if kind == "conflict_end":
            wr("input_csv/conflicts.csv", r[:rng.randint(2, days)])
        else:
            r[0].append(tok)
            s = rng.randrange(days)
            wr("input_csv/conflicts.csv", [r[0]] + [x + ["1" if k >= s else "0"] for k, x in enumerate(r[1:])])
    elif kind == "flood_end":
        f = "input_csv/flood_level.csv"
        if not os.path.exists(f):
            return None
        wr(f, rd(f)[:rng.randint(2, days)])
    elif kind == "major_route":
        m = g["settings"]["move_rules"]
        if m.get("awareness_level", 1) < 1:
            return None
        m["fixed_routes"] = True
        with open("simsetting.yml", "w", encoding="utf-8") as f:
            yaml.safe_dump(g["settings"], f)
        marker = {r[0] for r in rd("input_csv/locations.csv") if len(r) > 5 and "marker" in r[5]}
        r = rd("input_csv/routes.csv")
        pairs = [(a, b) for x in (r[i] for i in body(r)) for a, b in ((x[0], x[1]), (x[1], x[0])) if a not in marker]
        closed = {n for c in rd("input_csv/closures.csv") for n in c[1:3]} if os.path.exists("input_csv/closures.csv") else set()
        pairs = [p for p in pairs if p[0] not in closed]
        changed = {c[0] for c in rd("location_changes.csv") if c} if os.path.exists("location_changes.csv") else set()
        pairs = [p for p in pairs if p[0] not in changed]
        if not pairs:
            return None
        a, b = rng.choice(pairs)
        with open("input_csv/major_routes.csv", "a", encoding="utf-8") as f:
            f.write(",".join([a, b, tok]) + "\n")
    elif kind in ("closed_link", "closed_border"):
        n = rng.choice(names)
        row = {"closed_link": rng.choice([["link", tok, n], ["link", n, tok]]), "closed_border": ["country", tok, "Y"]}[kind]
        with open("input_csv/closures.csv", "a", encoding="utf-8") as f:
            f.write(",".join(row + [str(rng.randrange(days)), "-1"]) + "\n")
    elif kind in ("changed_place", "changed_type"):
        with open("location_changes.csv", "a", encoding="utf-8") as f:
            f.write("%s,%d\n" % (",".join([tok, "town"] if kind == "changed_place" else [rng.choice(names), tok]), rng.randrange(1, days)))
    else:
        return None
    return tok


def run_flaw(rng, mon, kind):
    import numpy as np

    days = rng.randint(3, 6)
    g = scenario.generate(rng, days, ".", small=True, floods=1.0 if kind == "flood_end" else 0.1 * (kind not in ("conflict_name", "conflict_end")))
    tok = rng.choice(["Nowhere%d", "New Place %d", "x%d-y"]) % rng.randrange(100, 999)
    name = flaw(kind, rng, g, days, tok)
    if name is None:
        return
    mon.count("flaw_" + kind)
    out, err, end = io.StringIO(), io.StringIO(), None
    old = sys.argv
    sys.argv = ["run.py", "input_csv", "data", str(days)]
    random.seed(1)
    np.random.seed(1)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            runpy.run_path(os.path.join(common.REPO, "runscripts", "run.py"), run_name="__main__")
    except SystemExit as ex:
        end = "exit %s" % (ex.code,)
    except Exception as ex:  # pylint: disable=broad-except
        end = "%s %s" % (type(ex).__name__, ex)
    finally:
        sys.argv = old
    rows = [r for r in csv.reader(io.StringIO(out.getvalue())) if r]
    lines = err.getvalue().splitlines() + ([end] if end else [])
    if kind in STOP:
        mon.count("stopped", int(end is not None))
        mon.check(end is not None and len(rows) < days + 1, "not-stopped:" + kind, lambda: (
            "an input with a flaw (%s, %s) ran through and printed %d rows" % (kind, name, len(rows))))
    if kind not in ("conflict_end", "flood_end"):
        said = [l for l in lines if name in l and (ALARM.search(l) or l is end)]
        mon.count("named", int(bool(said)))
        mon.check(said, "not-named:" + kind, lambda: "an input with a flaw (%s, %s) ended with %s, and nothing on the error output names it: %s" % (
            kind, name, end, [l for l in lines if name in l][:3]))
    mon.sig(kind, rows[:1], name)
    mon.sample = {"flaw": kind, "name": name, "end": end, "rows": len(rows)}


def run_graph(rng, mon):
    """Links and conflict zones through the interfaces of the three models."""
    W.settings(log_levels={"agent": 0}, spawn_rules={}, move_rules={})
    from flee import flee, pflee, pmicro_flee

    mod = rng.choice([flee, pflee, pmicro_flee])
    e = mod.Ecosystem()
    names = rng.sample(["A", "B", "a", "AB", "C 1", "D-2"], rng.randint(2, 5))
    for n in names:
        e.addLocation(name=n, location_type=rng.choice(["town", "camp", "conflict_zone"]), pop=10)
    links = 0
    err = io.StringIO()
    for _ in range(8):
        a, b = rng.choice(names), rng.choice(names + ["Z", names[0] + " ", names[0].swapcase() + "_", ""])
        if rng.random() < 0.5:
            a, b = b, a
        stopped = False
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            try:
                e.linkUp(endpoint1=a, endpoint2=b, distance=10.0)
            except SystemExit:
                stopped = True
        known = a in names and b in names
        mon.count("graph_valid" if known else "graph_unknown")
        links += 2 * int(known)
        mon.check(stopped is not known, "link", lambda: "%s: linking %r and %r among %s %s" % (mod.__name__, a, b, names, "stopped" if stopped else "went through"))
        mon.check(sum(len(l.links) for l in e.locations) == links, "link-count", lambda: "%d links instead of %d" % (sum(len(l.links) for l in e.locations), links))
    mon.sig(mod.__name__, names, links)
    mon.sample = {"model": mod.__name__, "places": names, "links": links}


def run(case, mon):
    rng = random.Random(case["seed"])
    if case["kind"] == "graph":
        run_graph(rng, mon)
    else:
        run_flaw(rng, mon, KINDS[case["j"] % len(KINDS)])
