"""Coupled submodels hand over exactly the agents at the coupled places, whatever the timing."""
import collections
import csv
import math
import os
import pickle
import queue
import random
import threading
import time
import traceback

import common
import simrun
import tracing
import worlds as W

RULE = ("a macro and a micro model with 1 to 3 instances each, coupled over files in separate processes (random delays, writes that "
        "take long, exchange names that differ from the places' names, one-way and two-way places, several intervals) or over "
        "in-memory message channels with managers; agents are traced and recounted around every exchange and compared with the "
        "messages of the other side; logs, means over instances and plots are compared with the exchanged numbers; non-trivial: "
        "agents were handed over; distinct by the exchanged numbers")
CASES = [("file", 60, 1500), ("managers", 60, 1500), ("mpi", 6, 60)]
REQUIRED = {"exchanges": 300, "handed_over": 3000, "messages": 400, "means_of_several": 200, "slow_writes": 100, "log_rows": 300,
            "curves": 60, "kept_agents": 3000, "conserved": 40, "skipped_days": 30}
CASE_TIMEOUT = 240
PRELOAD_ALSO = ("flee.coupling",)
WORKERS = 4


def spec(rng):
    """Two worlds that share some places, with different names for these."""
    worlds = {}
    shared = rng.randint(1, 4)
    # Names of exchanged places may contain one another or differ in case only.
    names = ["X%d" % i for i in range(shared)] if rng.random() < 0.6 else rng.sample(["Xa", "xa", "X", "Xab", "XA", "a", "11 de Mayo", "3", "b_", "N'Dj\u00e9", "-x", "(c) d", "\u00c9"], shared)
    dirs = []
    for i in range(shared):
        dirs.append(rng.choice([("inout", "inout"), ("inout", "inout"), ("out", "in"), ("in", "out")]))
    for side in ("macro", "micro"):
        w = W.world(rng, nmin=shared + 1, nmax=shared + 4, types=["town", "town", "camp", "conflict_zone", "forwarding_hub"])
        order = [l["name"] for l in w["locs"]]
        pick = order[1:1 + shared] if rng.random() < 0.7 else rng.sample(order, shared)
        k = 0 if side == "macro" else 1
        coupled = [(pick[i], names[i], dirs[i][k]) for i in range(shared)]
        rng.shuffle(coupled)
        worlds[side] = {"world": w, "coupled": coupled}
    inst = rng.choice([1, 1, 2, 3])
    return {"sides": worlds, "instances": inst, "days": rng.randint(3, 8), "interval": rng.choice([1, 1, 1, 2, 3]),
            "settings": {"log_levels": {"agent": 0, "link": 0, "camp": 0},
                         "move_rules": {"awareness_level": 1, "default_movechance": rng.choice([0.3, 1.0]), "camp_movechance": 0.1,
                                        "max_move_speed": float(rng.choice([100, 300])), "conflict_movechance": 1.0},
                         "spawn_rules": {"take_from_population": rng.random() < 0.3}},
            "plans": {(s, i): [[(rng.choice([l["name"] for l in worlds[s]["world"]["locs"]]), rng.choice([0, 3, 10, 40])) for _ in range(rng.randint(0, 3))]
                               for _ in range(8)] for s in worlds for i in range(3)},
            "slow": rng.random() < 0.6, "seed": rng.randrange(10**6), "log": rng.random() < 0.7}


class Where(tracing.Movement):
    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.lock = threading.Lock()
        self.at = {}

    def created(self, n, a, loc):
        self.at[id(a)] = loc

    def moved(self, n, a, old, new):
        self.at[id(a)] = new


class Side:
    """One instance of one submodel, driven day by day; records what happens around each exchange."""

    def __init__(self, sp, side, idx, outdir, kind, F, tr, fake=None):
        from flee import coupling

        self.sp, self.side, self.idx, self.F, self.tr = sp, side, idx, F, tr
        self.rng = random.Random("%s %s %d" % (sp["seed"], side, idx))
        d = sp["sides"][side.replace("_manager", "")]
        self.e, self.lm = W.build(d["world"], mod=F)
        self.c = coupling.CouplingInterface(e=self.e, submodel=side, instance_index=idx, num_instances=sp["instances"],
                                            coupling_type=kind, outputdir=outdir, log_exchange_data=sp["log"])
        if fake is not None:
            self.c.instance = fake
        if kind == "file":
            if side == "macro":
                self.c.setCouplingChannel(outputchannel="in", inputchannel="out")
            else:
                self.c.setCouplingChannel(outputchannel="out", inputchannel="in")
        for loc, name, direction in d["coupled"]:
            self.c.addCoupledLocation(location=self.lm[loc], name=name, direction=direction, interval=sp["interval"])
        self.coupled = d["coupled"]
        self.rec = []

    def people(self):
        out = collections.defaultdict(list)
        for a in self.e.agents:
            x = self.tr.at.get(id(a))
            if x is not None:
                out[x.name].append(id(a))
        return out

    def day(self, t):
        for loc, n in self.sp["plans"][(self.side, self.idx)][t]:
            for _ in range(n):
                self.e.addAgent(location=self.lm[loc], attributes={})
        if hasattr(self.e, "mpi"):
            self.e.updateNumAgents(log=False)
        before = self.people()
        tot = self.e.numAgents()
        self.c.Couple(time=t)
        after = self.people()
        names = {x[0] for x in self.coupled}
        keep_b = {k: sorted(v) for k, v in before.items() if k not in names and v}
        keep_a = {k: sorted(v) for k, v in after.items() if k not in names and v}
        self.rec.append({"t": t, "before": {n: len(before.get(l, [])) for l, n, _ in self.coupled},
                         "after": {n: len(after.get(l, [])) for l, n, _ in self.coupled},
                         "fresh": all(not set(before.get(l, [])) & set(after.get(l, [])) for l in names),
                         "kept": keep_a == keep_b, "n_kept": sum(len(v) for v in keep_a.values()),
                         "total": (tot, self.e.numAgents()),
                         "counts": all(self.lm[l].numAgents == len(after.get(l, [])) for l in names)})
        self.e.evolve()

    def result(self):
        return {"side": self.side, "idx": self.idx, "rec": self.rec,
                "total": getattr(self.c, "logTotalAgents", None), "locs": getattr(self.c, "logLocationsNumAgents", None)}


def expected_rows(sp, side, res):
    return [n for _, n, d in sp["sides"][side]["coupled"] if "out" in d]


def mean_ok(values, got):
    m = sum(values) / len(values)
    return got in (math.floor(m + 0.5), math.ceil(m - 0.5))


def judge(mon, sp, results):
    """Every exchange against the agents that were at the coupled places on the other side."""
    by = {(r["side"], r["idx"]): r["rec"] for r in results}
    inst = range(sp["instances"])
    for side, other in (("macro", "micro"), ("micro", "macro")):
        d = {n: x for _, n, x in sp["sides"][side]["coupled"]}
        od = {n: x for _, n, x in sp["sides"][other]["coupled"]}
        for i in inst:
            for r in by[(side, i)]:
                t = r["t"]
                if t % sp["interval"] != 0:
                    mon.count("skipped_days")
                    mon.check(r["before"] == r["after"] and r["kept"], "off-day", lambda: "day %d: agents were exchanged between intervals (%d): %s -> %s" % (
                        t, sp["interval"], r["before"], r["after"]))
                    continue
                mon.count("exchanges")
                mon.count("kept_agents", r["n_kept"])
                mon.check(r["kept"], "others-touched", lambda: "day %d: agents away from the coupled places changed" % t)
                mon.check(r["fresh"], "not-removed", lambda: "day %d: agents that were handed over are still there" % t)
                mon.check(r["counts"], "counts", lambda: "day %d: reported counts differ from the agents there" % t)
                for n, dn in d.items():
                    vals = [[x for x in by[(other, j)] if x["t"] == t][0]["before"][n] for j in inst]
                    got = r["after"][n]
                    if "in" in dn and "out" in od[n]:
                        ok = mean_ok(vals, got)
                        mon.count("handed_over", got)
                        mon.count("means_of_several", int(len(vals) > 1 and len(set(vals)) > 1))
                    else:
                        ok = got == 0
                    mon.check(ok, "handover", lambda: "day %d: %s[%d] has %d agents at %s (%s) after the exchange; the other side (%s) had %s there" % (
                        t, side, i, got, n, dn, od[n], vals))
                a, b = r["total"]
                mon.check(b - a == sum(r["after"].values()) - sum(r["before"].values()), "total", lambda: "day %d: total goes from %d to %d" % (t, a, b))
    if sp["instances"] == 1 and all("in" in x and "out" in y or "out" in x and "in" in y for (_, _, x), y in (
            (c, {n: z for _, n, z in sp["sides"]["micro"]["coupled"]}[c[1]]) for c in sp["sides"]["macro"]["coupled"])):
        for r, s in zip(by[("macro", 0)], by[("micro", 0)]):
            # Agents at one-way places of the receiving side are replaced, all others only change sides.
            lost = 0
            if r["t"] % sp["interval"] == 0:
                for c in sp["sides"]["macro"]["coupled"]:
                    o = [x for x in sp["sides"]["micro"]["coupled"] if x[1] == c[1]][0]
                    lost += r["before"][c[1]] if "out" not in c[2] else 0
                    lost += s["before"][c[1]] if "out" not in o[2] else 0
            mon.count("conserved")
            mon.check(r["total"][0] + s["total"][0] - lost == r["total"][1] + s["total"][1], "conservation", lambda: (
                "day %d: %s agents before, %s after the exchange (%d at places that only receive)" % (
                    r["t"], (r["total"][0], s["total"][0]), (r["total"][1], s["total"][1]), lost)))
    for r in results:
        if r["side"] not in sp["sides"] or r["total"] is None:
            continue
        outs = expected_rows(sp, r["side"], r)
        want_t = [[x["t"], x["total"][0]] for x in r["rec"] if x["t"] % sp["interval"] == 0]
        want_l = [[x["t"]] + [x["before"][n] for n in outs] for x in r["rec"] if x["t"] % sp["interval"] == 0]
        mon.count("log_rows", len(want_l))
        mon.check([list(map(int, x)) for x in r["total"]] == want_t, "log-total", lambda: "%s[%d]: logged totals %s instead of %s" % (r["side"], r["idx"], r["total"], want_t))
        mon.check([list(map(int, x)) for x in r["locs"]] == want_l, "log-places", lambda: "%s[%d]: logged numbers %s instead of %s" % (r["side"], r["idx"], r["locs"], want_l))
    mon.sig([[x["after"] for x in r["rec"]] for r in results])
    mon.sample = {"instances": sp["instances"], "interval": sp["interval"], "macro": [x["after"] for x in by[("macro", 0)]][:4]}


class SlowFile:
    """A file whose content arrives piece by piece, as on a busy file system."""

    def __init__(self, f, rng, rec):
        self.f, self.rng, self.rec = f, rng, rec

    def write(self, s):
        self.rec[0] += 1
        k = max(1, len(s) // 3)
        for i in range(0, len(s), k):
            self.f.write(s[i:i + k])
            self.f.flush()
            time.sleep(self.rng.choice([0.0, 0.01, 0.03]))
        return len(s)

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        return self.f.__exit__(*a)


def slow_down(rng, rec, slow):
    from flee import coupling
    import builtins

    real_sleep = time.sleep
    time.sleep = lambda s: real_sleep(min(s, 0.004))

    def opener(path, mode="r", *a, **k):
        f = builtins.open(path, mode, *a, **k)
        if slow and ("w" in mode or "a" in mode) and "b" not in mode and ("coupled" in str(path) or "log_exchange" in str(path)):
            return SlowFile(f, rng, rec)
        return f

    coupling.open = opener
    return real_sleep


def process(sp, side, idx, outdir, path):
    """Body of one instance in a process of its own."""
    try:
        mon = common.Mon({})
        W.settings(**sp["settings"])
        F = W.sim()
        tr = Where(F, mon)
        rng = random.Random("%s d %s %d" % (sp["seed"], side, idx))
        rec = [0]
        sleep = slow_down(rng, rec, sp["slow"])
        random.seed("%s %s %d" % (sp["seed"], side, idx))
        import numpy as np

        np.random.seed(random.randrange(2**31))
        s = Side(sp, side, idx, outdir, "file", F, tr)
        for t in range(sp["days"]):
            sleep(rng.choice([0, 0, 0, 0.01, 0.03]))
            s.day(t)
        res = s.result()
        res["slow"] = rec[0]
        if sp["log"]:
            for t in range(sp["days"]):
                s.c.logNewAgents(t, t * 7 + idx)
            s.c.saveExchangeDataToFile()
    except BaseException as e:  # pylint: disable=broad-except
        kind, fr = common._classify_exception(e)  # pylint: disable=protected-access
        res = {"error": "".join(traceback.format_exception(e))[-1500:], "kind": kind, "where": fr.name if fr else "?"}
    with open(path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.replace(path + ".tmp", path)


def collect(mon, results):
    for r in results:
        if r is None:
            return False
        if "error" in r:
            if r["kind"] != "flee":
                raise RuntimeError(r["error"])
            mon.violate("crash:%s" % r["where"], r["error"])
            return False
    return True


def run_file(rng, mon):
    sp = spec(rng)
    outdir = os.path.abspath("out")
    for d in ("coupled", "macro", "micro", "log_exchange_data", "plot_exchange_data"):
        os.makedirs(os.path.join(outdir, "file", d))
    jobs = []
    todo = [(s, i) for s in ("macro", "micro") for i in range(sp["instances"])]
    rng.shuffle(todo)
    for side, i in todo:
        d = os.path.abspath("p-%s-%d" % (side, i))
        os.makedirs(d)
        path = os.path.join(d, "res")
        pid = os.fork()
        if pid == 0:
            try:
                os.chdir(d)
                process(sp, side, i, outdir, path)
            finally:
                os._exit(0)
        jobs.append((pid, path))
    end = time.time() + 100
    results = []
    for pid, path in jobs:
        while time.time() < end:
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.01)
        else:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
        results.append(pickle.load(open(path, "rb")) if os.path.exists(path) else None)
    if not collect(mon, [r for r in results if r]):
        return
    if any(r is None for r in results):
        mon.violate("hang", "the instances wait for each other forever")
        return
    mon.count("slow_writes", sum(r["slow"] for r in results))
    # The messages themselves.
    for r in results:
        outs = [(l, n) for l, n, d in sp["sides"][r["side"]]["coupled"] if "out" in d]
        for x in r["rec"]:
            fn = os.path.join(outdir, "file", "coupled", "%s[%d].%d.csv" % ("in" if r["side"] == "macro" else "out", r["idx"], x["t"]))
            if x["t"] % sp["interval"]:
                continue
            mon.count("messages")
            if not mon.check(os.path.exists(fn), "no-message", "message %s is missing" % fn):
                continue
            got = {row[0]: int(row[1]) for row in csv.reader(open(fn, encoding="utf-8")) if row}
            want = {n: x["before"][n] for _, n in outs}
            mon.check(got == want, "message", lambda: "day %d: %s[%d] announces %s, %s are there" % (x["t"], r["side"], r["idx"], got, want))
    judge(mon, sp, results)
    if sp["log"] and not mon.violations:
        reports(rng, mon, sp, outdir, results)


def reports(rng, mon, sp, outdir, results):
    """Logs, plots and means of the run."""
    import matplotlib.pyplot as plt
    import pandas as pd

    rows = {}
    for side in ("macro", "micro"):
        mine = sorted([r for r in results if r["side"] == side], key=lambda r: r["idx"])
        cols = ["A sim", "A data", "A error", "Total error"]
        frames = []
        for i in range(sp["instances"]):
            df = pd.DataFrame({"Day": list(range(sp["days"])), **{c: [rng.randint(0, 90) if "error" not in c else round(rng.random(), 4) for _ in range(sp["days"])] for c in cols}})
            df.to_csv(os.path.join(outdir, "file", side, "out[%d].csv" % i), index=False)
            frames.append(df)
        W.settings(**sp["settings"])
        s = Side(sp, side, 0, outdir, "file", W.sim(), Where(W.sim(), mon))
        s.c.logTotalAgents = s.c.logLocationsNumAgents = s.c.logNewRefugees = []
        for r in mine:
            fn = os.path.join(outdir, "file", "log_exchange_data", "logLocationsNumAgents_%s[%d].csv" % (side, r["idx"]))
            got = list(csv.reader(open(fn, encoding="utf-8")))
            outs = expected_rows(sp, side, r)
            mon.check(got[0] == ["day"] + outs, "log-header", lambda: "header of %s: %s" % (fn, got[0]))
            mon.check([list(map(int, x)) for x in got[1:]] == [list(map(int, x)) for x in r["locs"]], "log-file", lambda: "%s: %s" % (fn, got))
            fn = fn.replace("logLocationsNumAgents", "logTotalAgents")
            got = list(csv.reader(open(fn, encoding="utf-8")))
            mon.check([list(map(int, x)) for x in got[1:]] == [list(map(int, x)) for x in r["total"]], "log-file", lambda: "%s: %s" % (fn, got))
        figs = []
        save = plt.savefig
        plt.savefig = lambda path, *a, **k: figs.append((os.path.basename(path), [
            (ax.get_legend_handles_labels()[1], [list(map(float, ln.get_ydata())) for ln in ax.get_lines()],
             [list(map(float, ln.get_xdata())) for ln in ax.get_lines()]) for ax in plt.gcf().axes]))
        days = [x["t"] for x in mine[0]["rec"] if x["t"] % sp["interval"] == 0]
        try:
            if len(days) > 1:
                s.c.plotExchangedData()
        finally:
            plt.savefig = save
            plt.close("all")
        for name, axes in figs:
            if name.startswith("plotLocations"):
                outs = expected_rows(sp, side, None)
                want = [[[float(x["before"][n]) for x in r["rec"] if x["t"] % sp["interval"] == 0] for r in mine] for n in outs]
                mon.check([ax[1] for ax in axes] == want and [ax[0] for ax in axes] == [[n] for n in outs], "plot-places", lambda: "curves %s instead of %s" % (axes, want))
                mon.count("curves", sum(len(ax[1]) for ax in axes))
                mon.check(all(x == [float(t) for t in days] for ax in axes for x in ax[2]), "plot-days", "days of the curves")
            elif name.startswith("plotTotal"):
                want = [[float(x["total"][0]) for x in r["rec"] if x["t"] % sp["interval"] == 0] for r in mine]
                mon.check(axes[0][1] == want, "plot-total", lambda: "curves %s instead of %s" % (axes[0][1], want))
                mon.count("curves", len(want))
            elif name.startswith("plotNew"):
                want = [[float(t * 7 + r["idx"]) for t in range(1, sp["days"])] for r in mine]
                mon.check(axes[0][1] == want, "plot-new", lambda: "curves %s instead of %s" % (axes[0][1], want))
        s.c.sumOutputCSVFiles()
        out = pd.read_csv(os.path.join(outdir, "file", side, "out.csv"))
        for c in cols:
            for t in range(sp["days"]):
                m = sum(float(f[c][t]) for f in frames) / len(frames)
                got = float(out[c][t])
                ok = abs(got - m) < 1e-9 if "error" in c else abs(got - m) <= 0.5 + 1e-9 and got == int(got)
                mon.count("means")
                mon.check(ok and int(out["Day"][t]) == t, "mean-table", lambda: "day %d, %s: %s instead of %s" % (t, c, got, m))
        rows[side] = out


class Channel:
    """Stand-in for a MUSCLE3 instance: named ports over in-memory queues."""

    def __init__(self, net, me, idx, sides):
        self.net, self.me, self.idx, self.sides = net, me, idx, sides

    def reuse_instance(self):
        return True

    def send(self, port, msg, slot=None):
        if port.rstrip("[]") != "out":
            raise ValueError(port)
        if self.me.endswith("_manager"):
            dest = ("micro" if self.me == "macro_manager" else "macro", slot)
        else:
            dest = (self.me + "_manager", self.idx)
        self.net[dest].put((self.me, msg.timestamp, pickle.loads(pickle.dumps(msg.data))))

    def receive(self, port, slot=None):
        if port.rstrip("[]") != "in":
            raise ValueError(port)
        me = (self.me, slot if self.me.endswith("_manager") else self.idx)
        src, ts, data = self.net[me].get(timeout=60)
        return type("Msg", (), {"timestamp": ts, "data": data})()


def run_managers(rng, mon):
    from flee import coupling

    sp = spec(rng)
    W.settings(**sp["settings"])
    F = W.sim()
    tr = Where(F, mon)
    keys = [(s, i) for s in ("macro", "micro", "macro_manager", "micro_manager") for i in range(sp["instances"])]
    net = {k: queue.Queue() for k in keys}
    coupling.Instance = lambda *a, **k: None
    actors = []
    for side in ("macro", "micro"):
        for i in range(sp["instances"]):
            actors.append(Side(sp, side, i, "out", "muscle3", F, tr, Channel(net, side, i, sp)))
    managers = [Side(sp, m, 0, "out", "muscle3", F, tr, Channel(net, m, 0, sp)) for m in ("macro_manager", "micro_manager")]
    errors = []
    lock = threading.Lock()

    def drive(a, manager):
        r = random.Random("%s %s %d" % (sp["seed"], a.side, a.idx))
        try:
            for t in range(sp["days"]):
                time.sleep(r.choice([0, 0, 0.002, 0.01]))
                if manager:
                    a.c.Couple(time=t)
                else:
                    a.day(t)
        except BaseException as e:  # pylint: disable=broad-except
            with lock:
                errors.append(e)

    th = [threading.Thread(target=drive, args=(a, False), daemon=True) for a in actors]
    th += [threading.Thread(target=drive, args=(a, True), daemon=True) for a in managers]
    rng.shuffle(th)
    for x in th:
        x.start()
    end = time.time() + 90
    for x in th:
        x.join(max(0.01, end - time.time()))
        if errors:
            raise errors[0]
    if any(x.is_alive() for x in th):
        mon.violate("hang", "submodels and managers wait for each other forever")
        return
    mon.check(all(q.empty() for q in net.values()), "unread", "messages were not read")
    mon.count("messages", sum(len(a.rec) for a in actors))
    judge(mon, sp, [a.result() for a in actors])


def run_mpi(rng, mon, case):
    import mpijob

    sp = spec(rng)
    sp["instances"] = 1
    out = os.path.abspath("out")
    for d in ("coupled", "macro", "micro", "log_exchange_data"):
        os.makedirs(os.path.join(out, "file", d))
    sp["plans"] = {"%s %d" % k: v for k, v in sp["plans"].items()}
    res = {}

    def go(side, ranks):
        d = os.path.abspath("mpi-" + side)
        os.makedirs(d)
        res[side] = mpijob.launch("coupling_worker.py", {"spec": sp, "side": side, "out": out}, ranks, 90, cwd=d)

    th = [threading.Thread(target=go, args=(s, rng.choice([1, 2, 3]))) for s in ("macro", "micro")]
    for x in th:
        x.start()
    for x in th:
        x.join()
    results = []
    for side, (r, fails, late, text) in res.items():
        for f in fails:
            if f["kind"] == "flee":
                mon.violate("crash:%s" % f["where"], "rank %d of %s: %s" % (f["rank"], side, f["text"]))
        if mon.violations:
            return
        if fails:
            raise RuntimeError(fails[0]["text"])
        if r is None and late:
            mon.count("timeouts")
            mon.violate("hang", "%s: the ranks do not finish: %s" % (side, text[-300:]))
            return
        if r is None:
            raise RuntimeError(text)
        for v in r["violations"]:
            mon.violate(v["key"], v["msg"])
        for k, n in r["counts"].items():
            mon.count(k, n)
        results.append(r["sample"])
    judge(mon, sp, results)
    mon.count("mpi_runs")


def run(case, mon):
    rng = random.Random(case["seed"])
    if case["kind"] == "file":
        run_file(rng, mon)
    elif case["kind"] == "managers":
        run_managers(rng, mon)
    else:
        run_mpi(rng, mon, case)
