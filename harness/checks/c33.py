"""A multiscale run of the real script: outputs, exchanges and logs of all instances of both submodels."""
import csv
import os
import random
import shutil
import threading

import yaml

import common
import datagen
import simrun
import worlds as W

RULE = ("the real multiscale script on random pairs of macro and micro inputs (coupled places and camps, ghost conflict zones, conflicts "
        "that begin and end, data that rises and falls, closed and forced routes, optionally weather-coupled micro links), 1 to 3 instances of "
        "each submodel on 1 or 2 MPI ranks, file coupling with random pauses and slow writes, observed from inside: agents by place after every "
        "step and around every exchange are compared with the output tables, the exchange logs, the data and the numbers of the other side; "
        "non-trivial: agents were handed over in both directions or from ghosts; distinct by the outputs")
CASES = [("run", 24, 300)]
REQUIRED = {"rows": 150, "camp_cells": 200, "exchanges": 250, "handed_over": 2000, "ghost_people": 300, "log_rows": 250, "means": 40,
            "debt_days": 10, "negative_days": 10, "ranks_2": 3, "weather": 1, "starts": 1, "end_given": 3, "three_instances": 1}
CASE_TIMEOUT = 280
WORKERS = 3
DEADLINE = 110


def place(name, kind, rng, country="A"):
    return {"name": name, "region": "R", "country": country, "x": round(rng.uniform(3, 9), 4), "y": round(rng.uniform(28, 34), 4),
            "type": kind, "capacity": rng.choice([-1, 200, 5000]) if "camp" in kind else -1,
            "pop": 0 if "camp" in kind else rng.choice([0, 500, 5000]), "attributes": {}}


def generate(rng):
    days = rng.randint(4, 9)
    plain = rng.random() < 0.6
    pool = (["L%d" % i for i in range(30)] if plain else W.nested_names(rng, 30))
    take = iter(pool)
    shared = [next(take) for _ in range(rng.randint(1, 3))]
    kinds = [rng.choice(["town", "town", "camp"]) for _ in shared]
    ghosts = [next(take) for _ in range(rng.choice([0, 1, 1, 2, 2]))]
    late = {g: rng.choice([0, 0, 0, rng.randint(1, days - 1)]) for g in ghosts}  # day the conflict starts
    sides = {}
    for side in ("macro", "micro"):
        locs = []
        if side == "macro" or rng.random() < 0.2:
            first = next(take)
            locs.append(place(first, "conflict_zone", rng))
        conflicts = {}
        if side == "macro":
            conflicts[first] = [1.0] * (days + 2)
            locs[0]["pop"] = 1000000
            if rng.random() < 0.4:
                n = next(take)
                s = rng.randint(1, days)
                locs.append(place(n, "town", rng))
                locs[-1]["pop"] = 5000
                conflicts[n] = [0.0] * s + [rng.choice([0.5, 1.0])] * (days + 2 - s)
            if rng.random() < 0.4:
                n = next(take)
                s = rng.randint(1, days)
                locs.append(place(n, "conflict_zone", rng))
                locs[-1]["pop"] = 5000
                conflicts[n] = [1.0] * s + [0.0] * (days + 2 - s)
        elif locs:
            locs[0]["type"] = "town"
        for n, k in zip(shared, kinds):
            locs.append(place(n, k, rng))
        for _ in range(rng.randint(0 if side == "macro" else 1, 3)):
            locs.append(place(next(take), rng.choice(["camp", "camp", "town"]), rng, rng.choice(["A", "B"])))
        if side == "micro" and not any(l["type"] == "camp" for l in locs):
            locs.append(place(next(take), "camp", rng, "B"))
        links = [{"a": locs[a]["name"], "b": locs[b]["name"], "dist": W.distance(rng, rng.choice(["short", "mixed"])),
                  "forced": rng.choice([0, 0, 0, 1]) if side == "macro" else 0, "attributes": {}} for a, b in W.graph(
                      rng, len(locs), rng.choice(["line", "ring", "star", "tree", "random", "grid", "dense"]))]
        if side == "micro":
            linked = [l["name"] for l in locs]
            for g in ghosts:
                links.append({"a": g, "b": rng.choice(linked), "dist": W.distance(rng, "short"), "forced": 0, "attributes": {}})
        for g in ghosts:
            x = place(g, "conflict_zone" if late[g] == 0 else "town", rng)
            x["pop"] = rng.choice([50000, 1000000, 3000000])
            locs.append(x)
            conflicts[g] = [0.0] * late[g] + [rng.choice([0.5, 1.0, 3.0])] * (days + 2 - late[g])
        head, rest = locs[:1], locs[1:]
        rng.shuffle(rest)
        locs = head + rest
        for k in links:
            k["type"] = "" if side == "macro" else rng.choice(["drive", "walk", "crossing"])
        order = list(conflicts)
        rng.shuffle(order)
        camps = [l["name"] for l in locs if "camp" in l["type"]]
        closures = []
        if rng.random() < 0.3 and links:
            k = rng.choice(links)
            closures.append(["link", k["a"], k["b"], 0, -1])
        sides[side] = {"world": {"locs": locs, "links": links, "closures": closures, "changes": [],
                                 "conflicts": {n: conflicts[n] for n in order}}, "camps": camps}
    coupled = list(shared)
    if ghosts and rng.random() < 0.3:
        coupled += ghosts[:1]  # a place that is listed and has a conflict is coupled in both directions
    rng.shuffle(coupled)
    return {"days": days, "sides": sides, "coupled": coupled, "ghosts": ghosts, "late": late}


def write(sp, rng, base):
    os.makedirs(base)
    start = "2016-06-01"
    for i, side in enumerate(("macro", "micro")):
        s = sp["sides"][side]
        W.write_csv(dict(s["world"], conflicts=None), "tmp-%d" % i)
        for f in ("locations", "closures"):
            shutil.move("tmp-%d/%s.csv" % (i, f), os.path.join(base, "%s-%d.csv" % (f, i)))
        with open(os.path.join(base, "routes-%d.csv" % i), "w", encoding="utf-8") as f:
            f.write("#name1,name2,distance,forced_redirection,link_type\n")
            for k in s["world"]["links"]:
                f.write("%s,%s,%r,%s,%s\n" % (k["a"], k["b"], k["dist"], k["forced"], k["type"]))
        c = s["world"]["conflicts"]
        with open(os.path.join(base, "conflicts-%d.csv" % i), "w", encoding="utf-8") as f:
            f.write(",".join(["#Day"] + list(c)) + "\n")
            for t in range(sp["days"] + 2):
                f.write(",".join([str(t)] + [repr(c[n][t]) for n in c]) + "\n")
        open(os.path.join(base, "registration_corrections-%d.csv" % i), "w", encoding="utf-8").close()
        s["data"] = datagen.Data(rng, s["camps"], start=start, horizon=max(10, sp["days"] + 3), multi=False)
        if side == "macro":
            # The arrivals of the region: rising most of the time.
            v, rows = rng.choice([0, 40, 300]), []
            for d in sorted(rng.sample(range(sp["days"] + 4), rng.randint(1, 5))):
                rows.append([d, v])
                v = max(0, v + rng.choice([300, 100, 20, -150]))
            s["data"].total = rows
        s["data"].write(os.path.join(base, "source_data-%d" % i))
    with open(os.path.join(base, "coupled_locations.csv"), "w", encoding="utf-8") as f:
        f.write("#Location\n" + "".join(n + "\n" for n in sp["coupled"]))
    with open(os.path.join(base, "sim_period.csv"), "w", encoding="utf-8") as f:
        # The end may also be given on the command line.
        f.write("StartDate,%s\nLength,%d\n" % (start, sp["days"] + sp["shift"]))


def weather(sp, rng, base):
    import micro_worker

    w = sp["sides"]["micro"]["world"]
    wx = micro_worker.Weather(rng, w, sp["days"] + rng.choice([0, 3]))
    for l in w["locs"]:
        l["x"], l["y"] = wx.pos[l["name"]]
    return wx


def weather_files(sp, wx, base):
    import datetime

    d = os.path.join(base, "weather_data")
    os.makedirs(d)
    wx.files["precipitation"].to_csv(os.path.join(d, "precipitation.csv"), index=False)
    # The period of the simulation decides which days are asked for.
    dis = wx.files["river_discharge"].copy()
    shift = datetime.date(2016, 6, 1) - wx.start
    dis["time"] = [str(datetime.date.fromisoformat(x) + shift) for x in dis["time"]]
    dis.to_csv(os.path.join(d, "river_discharge.csv"), index=False)
    wx.files["40yrs_total_precipitation"].to_csv(os.path.join(d, "40yrs_tp.csv"), index=False)


def read(path):
    with open(path, newline="", encoding="utf-8") as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


def numbers(rows):
    return [[float(x) for x in r] for r in rows]


def near(a, b):
    return abs(a - b) <= 0.000051


TAIL = ["Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count", "refugees in camps (simulation)",
        "refugee_debt"]


def check_rows(sp, side, i, path, rec, mon):
    """The output of one instance; returns the numbers of new people per day."""
    s = sp["sides"][side]
    camps, data, tag = s["camps"], s["data"], "%s[%d]" % (side, i)
    try:
        head, rows = read(path)
    except (OSError, IndexError):
        mon.violate("missing-output", "%s has no output table" % tag)
        return None
    want = ["Day"] + [c + x for c in camps for x in (" sim", " data", " error")] + TAIL
    if not mon.check(head == want, "header", lambda: "%s: header %s instead of %s" % (tag, head, want)):
        return None
    if not mon.check([r[0] for r in rows] == [str(t) for t in range(sp["days"])], "days", lambda: "%s: rows for the days %s" % (tag, [r[0] for r in rows])):
        return None
    after = [r[1] for r in rec if r[0] == "evolve"]
    mon.check(len(after) == sp["days"], "steps", lambda: "%s: %d steps for %d days" % (tag, len(after), sp["days"]))
    new, debt, raw0 = [], 0, 0
    for t, r in enumerate(rows):
        mon.count("rows")
        here, total = after[t]
        z = dict(zip(head, map(float, r)))
        dev = 0
        for c in camps:
            mon.count("camp_cells")
            n, d, e = z[c + " sim"], z[c + " data"], z[c + " error"]
            mon.check(n == here[c], "camp-count", lambda: "%s day %d: %s people at %s written, %d counted" % (tag, t, n, c, here[c]))
            mon.check(int(d) in data.possible(data.camps[c][0], t), "camp-data", lambda: "%s day %d: data of %s is %s, expected %s" % (
                tag, t, c, d, data.possible(data.camps[c][0], t)))
            exp = 0.0 if d < 1e-5 else abs(here[c] / d - 1)
            mon.check(near(e, exp), "camp-error", lambda: "%s day %d: error of %s is %s instead of %s" % (tag, t, c, e, exp))
            dev += abs(here[c] - d)
        raw = [x for x in data.possible(data.total, t)]
        if z["raw UNHCR refugee count"] == 0 and 0 in raw:
            mon.count("empty_rows")
            mon.check(all(z[k] == 0 for k in TAIL), "empty-row", lambda: "%s day %d: %s while the data has nobody" % (tag, t, z))
            now = 0
        else:
            now = z["raw UNHCR refugee count"]
            mon.check(now in raw, "raw", lambda: "%s day %d: raw count %s instead of %s" % (tag, t, now, raw))
            mon.check(near(z["Total error"], dev / max(1, now)), "total-error", lambda: "%s day %d: total error %s instead of %s" % (
                tag, t, z["Total error"], dev / max(1, now)))
            mon.check(z[TAIL[1]] == sum(z[c + " data"] for c in camps), "camp-sum-data", lambda: "%s day %d: %s people in camps in the data" % (tag, t, z[TAIL[1]]))
            mon.check(z[TAIL[2]] == total, "total", lambda: "%s day %d: %s people written, %d exist" % (tag, t, z[TAIL[2]], total))
            mon.check(z[TAIL[4]] == sum(here[c] for c in camps), "camp-sum", lambda: "%s day %d: %s people in camps written, %d counted" % (
                tag, t, z[TAIL[4]], sum(here[c] for c in camps)))
        n = now - raw0 - debt
        raw0 = now
        new.append(n)
        debt = max(0, -n)
        mon.count("negative_days", int(n < 0))
        mon.count("debt_days", int(debt > 0))
        if now != 0:
            mon.check(z["refugee_debt"] == debt, "debt", lambda: "%s day %d: debt %s instead of %s" % (tag, t, z["refugee_debt"], debt))
    mon.sig(rows)
    return new


def check_exchange(sp, recs, news, inst, mon):
    both = set(sp["coupled"])
    for side in ("macro", "micro"):
        other = "micro" if side == "macro" else "macro"
        ghosts = [g for g in sp["ghosts"] if g not in both]
        sends = {"macro": both | set(ghosts), "micro": both}
        takes = {"macro": both, "micro": both | set(ghosts)}
        w = sp["sides"][side]["world"]
        for i in range(inst):
            tag = "%s[%d]" % (side, i)
            ex = [r for r in recs[side, i] if r[0] == "couple"]
            ev = [r[1] for r in recs[side, i] if r[0] == "evolve"]
            if not mon.check(len(ex) == sp["days"], "exchanges", lambda: "%s: %d exchanges" % (tag, len(ex))):
                continue
            for t, (_, b, a) in enumerate(ex):
                mon.count("exchanges")
                prev = ev[t - 1] if t else ({n: 0 for n in b[0]}, 0)
                # New people appear in conflict zones of the macro model only.
                add = b[1] - prev[1]
                exp = max(0, news[side, i][t]) if side == "macro" else 0
                mon.check(add == exp, "new-people", lambda: "%s day %d: %d new people, expected %d (data minus debt)" % (tag, t, add, exp))
                for n in b[0]:
                    grown = b[0][n] - prev[0][n]
                    zone = w["conflicts"].get(n, [0] * 99)[t] > 0
                    mon.check(grown >= 0 and (grown == 0 or zone), "new-people-place", lambda: "%s day %d: %+d people at %s before the exchange" % (tag, t, grown, n))
                    if grown and n in sp["late"]:
                        mon.count("ghost_people", grown)
                        mon.count("starts", int(sp["late"][n] > 0))
                for n in b[0]:
                    if n not in sends[side] | takes[side]:
                        mon.check(a[0][n] == b[0][n], "uncoupled", lambda: "%s day %d: %d people at %s before the exchange, %d after it" % (
                            tag, t, b[0][n], n, a[0][n]))
                    elif n in takes[side] and n in sends[other]:
                        src = [[r for r in recs[other, j] if r[0] == "couple"][t][1][0][n] for j in range(inst)]
                        m = sum(src) / len(src)
                        mon.count("handed_over", a[0][n])
                        mon.check(abs(a[0][n] - m) <= 0.5 + 1e-9, "handed-over", lambda: "%s day %d: %d people at %s after the exchange, the other side had %s" % (
                            tag, t, a[0][n], n, src))
                    else:
                        mon.check(a[0][n] == 0, "not-cleared", lambda: "%s day %d: %d people left at %s that were handed over" % (tag, t, a[0][n], n))
                if t < len(ev):
                    mon.check(ev[t][1] == a[1], "conserved", lambda: "%s day %d: %d people before the step, %d after" % (tag, t, a[1], ev[t][1]))


def columns(rows, head):
    return {h: [float(r[j]) for r in rows] for j, h in enumerate(head)}


def check_logs(sp, side, i, out, rec, new, mon):
    d = os.path.join(out, "log_exchange_data")
    tag = "%s[%d]" % (side, i)
    ex = [r for r in rec if r[0] == "couple"]
    sends = set(sp["coupled"]) | (set(sp["ghosts"]) if side == "macro" else set())

    def get(name):
        p = os.path.join(d, "%s_%s.csv" % (name, tag))
        if not mon.check(os.path.exists(p), "missing-log", "no %s of %s" % (name, tag)):
            return None
        head, rows = read(p)
        mon.count("log_rows", len(rows))
        mon.check([r[0] for r in rows] == [str(t) for t in range(sp["days"])], "log-days", lambda: "%s of %s has rows %s" % (name, tag, rows))
        return columns(rows, head)

    x = get("logTotalAgents")
    if x:
        mon.check(x.get("total_agents") == [r[1][1] for r in ex], "log-total", lambda: "%s: totals %s, exchanged at %s" % (tag, x, [r[1][1] for r in ex]))
    x = get("logLocationsNumAgents")
    if x:
        mon.check(set(x) - {"day"} == sends, "log-places", lambda: "%s: log of %s, handed over: %s" % (tag, sorted(x), sorted(sends)))
        for n in sends & set(x):
            exp = [r[1][0][n] for r in ex]
            mon.check(x[n] == exp, "log-place", lambda: "%s: log of %s is %s, people there %s" % (tag, n, x[n], exp))
    x = get("logNewRefugees")
    if x:
        mon.check(x.get("new_refs") == new, "log-new", lambda: "%s: new people %s, expected %s" % (tag, x, new))


def check_mean(sp, side, inst, out, mon):
    p = os.path.join(out, side, "out.csv")
    if not mon.check(os.path.exists(p), "missing-mean", "no common table of the %s instances" % side):
        return
    head, rows = read(p)
    parts = [read(os.path.join(out, side, "out[%d].csv" % i)) for i in range(inst)]
    mon.check(head == parts[0][0], "mean-header", lambda: "%s: header %s" % (side, head))
    if not mon.check([int(float(r[0])) for r in rows] == list(range(sp["days"])), "mean-days", lambda: "%s: rows %s" % (side, [r[0] for r in rows])):
        return
    for t, r in enumerate(rows):
        for j, h in enumerate(head[1:], 1):
            m = sum(float(x[1][t][j]) for x in parts) / inst
            tol = 1e-9 if "error" in h.lower() else 0.5 + 1e-9
            mon.count("means", int(inst > 1))
            mon.check(abs(float(r[j]) - m) <= tol, "mean", lambda: "%s day %d: %s of %s is %s, the instances have %s" % (
                side, t, "mean", h, r[j], [x[1][t][j] for x in parts]))


def run(case, mon):
    import mpijob

    rng = random.Random(case["seed"])
    sp = generate(rng)
    sp["shift"] = rng.choice([0, 0, 1 - sp["days"], 2]) if sp["days"] > 1 else 0
    if sp["shift"]:
        mon.count("end_given")
    base = os.path.abspath("multiscale")
    os.makedirs(base)
    shutil.copy(os.path.join(common.REPO, "multiscale", "run_mscale.py"), base)
    wx = None
    if rng.random() < 0.2:
        wx = weather(sp, rng, base)
    write(sp, rng, os.path.join(base, "scenario"))
    if wx:
        weather_files(sp, wx, os.path.join(base, "scenario"))
        mon.count("weather")
    out = os.path.join(base, "out", *(["weather"] if wx else []), "file")
    for d in ("coupled", "macro", "micro", "log_exchange_data", "plot_exchange_data"):
        os.makedirs(os.path.join(out, d))
    st = simrun.random_settings(rng, agent_log=0, sinks=False)
    st["log_levels"]["link"] = st["log_levels"]["camp"] = 0
    st["move_rules"]["fixed_routes"] = False
    with open("simsetting.yml", "w", encoding="utf-8") as f:
        yaml.safe_dump(st, f)
    inst = rng.choice([1, 1, 2, 3])
    ranks = {s: rng.choice([1, 1, 2]) if inst < 3 else 1 for s in ("macro", "micro")}
    if inst == 3:
        mon.count("three_instances")
    mon.count("ranks_2", sum(1 for r in ranks.values() if r == 2))
    stop = threading.Event()
    res = {}
    slow, pause = rng.random() < 0.4, rng.random() < 0.5
    behind = rng.choice([None, ("macro", inst - 1), ("micro", inst - 1)])  # an instance that finishes late

    def go(side, i):
        d = os.path.abspath("job-%s-%d" % (side, i))
        os.makedirs(d)
        job = {"script": os.path.join(base, "run_mscale.py"), "submodel": side, "seed": "%d %s %d" % (case["seed"], side, i), "slow": slow,
               "pause": pause, "days": sp["days"], "last": 1.5 if behind == (side, i) else 0,
               "argv": ["--data_dir=scenario", "--submodel", side, "--log_exchange_data", "true", "--instance_index", str(i), "--coupling_type",
                        "file", "--num_instances", str(inst), "--weather_coupling", "true" if wx else "false",
                        "--simsetting", os.path.abspath("simsetting.yml")] + (["--end_time", str(sp["days"])] if sp["shift"] else [])}
        res[side, i] = mpijob.launch("mscale_worker.py", job, ranks[side], DEADLINE, cwd=d, stop=stop)
        if res[side, i][0] is None:
            stop.set()

    th = [threading.Thread(target=go, args=(s, i)) for s in ("macro", "micro") for i in range(inst)]
    for x in th:
        x.start()
    for x in th:
        x.join()
    for k, (r, fails, late, text) in res.items():
        for f in fails:
            if f["kind"] == "flee":
                mon.violate("crash:%s" % f["where"], "rank %d of %s[%d]: %s" % (f["rank"], k[0], k[1], f["text"]))
    if mon.violations:
        return
    for k, (r, fails, late, text) in res.items():
        if fails:
            raise RuntimeError(fails[0]["text"])
    bad = {k: (late, text) for k, (r, fails, late, text) in res.items() if r is None}
    if bad:
        if any(late for late, _ in bad.values()) and not stop_by_failure(bad):
            mon.violate("hang", "the submodels do not finish: %s" % {str(k): v[1][-200:] for k, v in bad.items()})
            return
        raise RuntimeError(str(bad)[:1500])
    recs = {k: r[0]["sample"]["rec"] for k, r in res.items()}
    for k, r in res.items():
        for v in r[0]["violations"]:
            mon.violate(v["key"], v["msg"])
        for c, n in r[0]["counts"].items():
            mon.count(c, n)
    news = {k: check_rows(sp, k[0], k[1], os.path.join(out, k[0], "out[%d].csv" % k[1]), recs[k], mon) for k in res}
    if mon.violations or None in news.values():
        return
    check_exchange(sp, recs, news, inst, mon)
    for k in res:
        check_logs(sp, k[0], k[1], out, recs[k], news[k], mon)
    for side in ("macro", "micro"):
        check_mean(sp, side, inst, out, mon)
    mon.sample = {"coupled": sp["coupled"], "ghosts": sp["ghosts"], "instances": inst, "ranks": ranks, "days": sp["days"],
                  "new": {str(k): v for k, v in news.items()}, "seconds": max(r[0]["sample"]["seconds"] for r in res.values())}


def stop_by_failure(bad):
    """Some instance ended without a result on its own, the others were stopped because of that."""
    return any(not late for late, _ in bad.values())
