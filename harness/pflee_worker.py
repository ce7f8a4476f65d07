"""Scenarios of parallel Flee, run on every MPI rank; the observations of all ranks are judged on rank 0."""
import collections
import contextlib
import io
import os
import random
import runpy
import shutil
import sys

import common
import mpijob
import oracle as O
import refnet
import scenario
import simrun
import tracing
import worlds as W

CYCLE = [("loc-par", "high_latency"), ("classic", "high_latency"), ("loc-par", "low_latency"), ("classic", "low_latency")]


class Watch(tracing.Movement):
    """Where every agent of this rank is, from assignments of positions alone."""

    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.reset()

    def reset(self, net=None):
        self.at = {}
        self.home = {}
        self.serial = {}
        self.order = []
        self.entered = []
        self.net = net
        self.first = {}
        self.on = False

    def created(self, n, a, loc):
        self.at[n] = loc
        self.mon.count("created")

    def moved(self, n, a, old, new):
        mon = self.mon
        self.at[n] = new
        mon.count("moves")
        if old is None:
            mon.violate("resurrected", "an agent that left the simulation is back")
        elif new is None:
            mon.check(not tracing.is_link(old), "retired-underway", "an agent retired on a link")
        elif tracing.is_link(new):
            mon.check(not tracing.is_link(old) and new.startpoint is old, "teleport", "agent jumps from %s to %s" % (old.name, new.name))
            if self.net is not None:
                mon.check(self.net.is_open(new.startpoint.name, new.endpoint.name), "closed-link",
                          lambda: "agent enters the link %s-%s, which is not open" % (new.startpoint.name, new.endpoint.name))
            if self.on and n not in self.first:
                self.first[n] = (old.name, (new.endpoint.name,) + tuple(a.route))
        else:
            ok = tracing.is_link(old) and new is (old.startpoint if old.closed else old.endpoint)
            mon.count("bounces", int(ok and bool(old.closed)))
            mon.check(ok, "teleport", lambda: "agent jumps from %s to %s" % (old.name, new.name))


def seed_rank(seed, rank):
    import numpy as np

    random.seed(seed * 64 + rank)
    np.random.seed((seed * 64 + rank) % 2**32)


def link_lists(e):
    for l in e.locations:
        for k in l.links:
            yield k, "open"
        for k in l.closed_links:
            yield k, "closed"


def snapshot(e, tr):
    """What this rank sees and has."""
    here = collections.Counter(id(x) for x in (tr.at[tr.ident(a)] for a in e.agents) if x is not None)
    # Retired agents stay in the population of their camp.
    gone = sum(1 for a in e.agents if tr.at[tr.ident(a)] is None)
    known = set()
    links, mine = [], []
    for k, st in link_lists(e):
        known.add(id(k))
        links.append((k.startpoint.name, k.endpoint.name, st, int(k.numAgents)))
        mine.append(here.get(id(k), 0))
    stray = sum(n for i, n in here.items() if i not in known and i not in {id(l) for l in e.locations})
    return {
        "locs": [(l.name, int(l.numAgents)) for l in e.locations], "mine": [here.get(id(l), 0) for l in e.locations],
        "links": links, "mine_links": mine, "stray": stray, "gone": gone,
        "total": int(e.numAgents()), "own": len(e.agents), "onrank": int(e.numAgentsOnRank()), "idps": int(e.numIDPs()), "time": e.time,
        "idp": [bool(l.idpcamp) for l in e.locations],
        "scores": [round(float(l.getScore(1)), 9) for l in e.locations],
        "pop": [int(l.pop) for l in e.locations], "spawned": [int(l.numAgentsSpawned) for l in e.locations],
        "weights": [round(float(x), 9) for x in e.spawn_weights],
        "flags": [(bool(l.camp), bool(l.foreign), round(float(l.conflict), 9), round(float(l.movechance), 9), int(l.capacity)) for l in e.locations],
        "routes": {l.name: {k: (round(v[0], 12), tuple(v[1])) for k, v in l.routes.items()} for l in e.locations},
        "dup": len({id(a) for a in e.agents}) != len(e.agents),
    }


SAME = ["total", "idps", "time", "scores", "pop", "spawned", "weights", "flags", "routes", "idp"]


def judge(mon, all_, expect, retired_at, when, removed=False):
    """Counts agree with the agents of all ranks, and ranks agree with each other (on rank 0)."""
    z = all_[0]
    mon.count("recounts")
    for r, s in enumerate(all_):
        for k in SAME:
            mon.check(s[k] == z[k], "ranks-disagree-%s" % k, lambda: "%s: rank %d has %s %s, rank 0 has %s" % (when, r, k, s[k], z[k]))
        mon.check(not s["dup"], "duplicate", "%s: rank %d lists an agent twice" % (when, r))
        mon.check(s["onrank"] == s["own"], "on-rank", "%s: rank %d reports %s agents, has %d" % (when, r, s["onrank"], s["own"]))
    own = [s["own"] for s in all_]
    mon.check(sum(own) == expect, "agents-lost", lambda: "%s: the ranks have %s agents, %d were added" % (when, own, expect))
    mon.check(z["total"] == expect, "total", lambda: "%s: %d agents reported instead of %d" % (when, z["total"], expect))
    for i, (name, _) in enumerate(z["locs"]):
        n = sum(s["mine"][i] for s in all_) + retired_at.get(name, 0)
        for r, s in enumerate(all_):
            mon.check(s["locs"][i][1] == n, "location-count", lambda: "%s: rank %d reports %d agents at %s, %d are there" % (
                when, r, s["locs"][i][1], name, n))
    for i, lk in enumerate(z["links"]):
        n = sum(s["mine_links"][i] for s in all_)
        if n:
            mon.count("links_with_agents")
            if lk[2] == "closed":
                mon.count("closed_links_with_agents")
        for r, s in enumerate(all_):
            mon.check(s["links"][i][:3] == lk[:3], "links-disagree", lambda: "%s: links of rank %d differ" % (when, r))
            mon.check(s["links"][i][3] == n, "link-count", lambda: "%s: rank %d reports %d agents on %s, %d are there" % (
                when, r, s["links"][i][3], lk[:3], n))
    idps = sum(n for (_, n), f in zip(z["locs"], z["idp"]) if f)
    mon.check(z["idps"] == idps, "idps", lambda: "%s: %d IDPs reported instead of %d" % (when, z["idps"], idps))


def world_and_plan(rng, days, capacity=None, fixed=True):
    w = simrun.random_world(rng, nmin=3, nmax=9, capacity=capacity)
    for l in w["locs"]:
        if "camp" not in l["type"]:
            l["pop"] = max(l["pop"], 5000)
    st = simrun.random_settings(rng, agent_log=rng.choice([0, 1]), fixed=fixed, small=len(w["locs"]) <= 6)
    st["log_levels"]["link"] = rng.choice([0, 1])
    st["log_levels"]["camp"] = rng.choice([0, 1])
    plan = []
    for evs in simrun.plan(rng, w, days):
        plan.append(evs)
    return w, st, plan


def build(F, tr, w, seed, rank, mode):
    tr.reset(refnet.Net(w))
    seed_rank(seed, rank)
    e = F.Ecosystem()
    e.parallel_mode, e.latency_mode = mode
    W.build(w, eco=e)
    return e, {l.name: l for l in e.locations}


def dynamics(rng, mon, comm, F, tr):
    days = rng.randint(4, 10)
    w, st, plan = world_and_plan(rng, days)
    W.settings(**st)
    mode = rng.choice(CYCLE)
    e, lm = build(F, tr, w, rng.randrange(10**6), comm.rank, mode)
    for k, road in enumerate(k for l in e.locations for k in l.links):
        road.verif_road = k  # closing a link copies it
    ret = collections.Counter()
    inner = tr.moved
    log, link_log = [], []
    before_sinks = {}
    entered = collections.Counter()

    def moved(n, a, old, new):
        if new is None and old is not None:
            ret[old.name] += 1
            before_sinks[n] = old  # agents retire after the log of the day was written
        if new is not None and tracing.is_link(new):
            entered[getattr(new, "verif_road", None)] += 1
        inner(n, a, old, new)

    tr.moved = moved
    try:
        alive = 0
        hist = []
        for t, evs in enumerate(plan):
            for ev in evs:
                if ev[0] == "clear":
                    mine = sum(1 for a in e.agents if a.location is not None and a.location.name in ev[1])
                    alive -= comm.allreduce(mine)
                elif ev[0] in ("add", "insert"):
                    alive += ev[2]
                simrun.apply_event(e, lm, ev)
                tr.net.apply(ev)
            t0 = e.time
            e.evolve()
            if st["log_levels"]["agent"] == 1:
                log.append([x.name for x in (before_sinks.get(tr.ident(a), tr.at[tr.ident(a)]) for a in e.agents) if x is not None])
            before_sinks.clear()
            if st["log_levels"]["link"] == 1:
                link_log.append([[k.startpoint.name, k.endpoint.name, str(entered[k.verif_road]), "total"] for l in e.locations for k in l.links])
            every = comm.gather((snapshot(e, tr), dict(ret)), root=0)
            if comm.rank == 0:
                at = collections.Counter()
                for _, x in every:
                    at.update(x)
                snaps = [s for s, _ in every]
                when = "%s, %d ranks, day %d after %s" % ("/".join(mode), comm.size, t0, evs)
                judge(mon, snaps, alive, at, when)
                mon.check(e.time == t0 + 1, "time", "time goes from %d to %d" % (t0, e.time))
                own = [s["own"] for s in snaps]
                if not any(ev[0] == "clear" for day in plan[:t + 1] for ev in day):
                    mon.check(max(own) - min(own) <= 1, "balance", lambda: "%s: agents per rank %s" % (when, own))
                M, SR = W_S().move_rules, W_S().spawn_rules
                for l, got in zip(e.locations, snaps[0]["scores"]):
                    mon.count("scores")
                    want = O.location_score(l, M, SR, t0)
                    mon.check(abs(got - want) <= 1e-7 * max(1.0, want), "score", lambda: "%s: score of %s is %r instead of %r" % (
                        when, l.name, got, want))
                hist.append([x[1] for x in snaps[0]["locs"]])
                mon.count("retired", sum(at.values()) if t == days - 1 else 0)
            if comm.bcast(len(mon.violations) if comm.rank == 0 else 0, root=0):
                break
    finally:
        tr.moved = inner
    if log:
        check_log(mon, comm.rank, log)
    if link_log:
        check_link_log(mon, comm.rank, link_log)
    if comm.rank == 0:
        mon.count("mode %s" % "/".join(mode))
        mon.sig(comm.size, hist)
        mon.sample = {"ranks": comm.size, "mode": mode, "counts_by_day": hist[:4]}
    mon.count("agents_on_rank_%d" % comm.rank, len(e.agents))


def check_log(mon, rank, log):
    """The agent log of every rank lists the agents of this rank, day by day."""
    rows = collections.defaultdict(list)
    with open("agents.out.%d" % rank, encoding="utf-8") as f:
        for line in f:
            if not line.startswith("#"):
                p = line.split(",")
                rows[int(p[0])].append((p[1].split("-")[0], p[3]))
    for t, want in enumerate(log):
        got = [x for _, x in rows[t]]
        mon.count("log_rows", len(got))
        if not mon.check(got == want and all(r == str(rank) for r, _ in rows[t]), "agent-log", lambda: "day %d, rank %d: the log has %s, the agents are at %s" % (
                t, rank, collections.Counter(got), collections.Counter(want))):
            break


def check_link_log(mon, rank, log):
    """The link log of every rank has the journeys of the agents of this rank over every open link."""
    rows = collections.defaultdict(list)
    with open("links.out.%d" % rank, encoding="utf-8") as f:
        for line in f:
            if not line.startswith("#"):
                p = line.rstrip("\n").split(",")
                rows[int(p[0])].append(p[1:])
    for t, want in enumerate(log):
        mon.count("link_log_rows", len(rows[t]))
        mon.count("link_log_journeys", sum(int(x[2]) for x in rows[t]))
        if not mon.check(sorted(rows[t]) == sorted(want), "link-log", lambda: "day %d, rank %d: the log has %s instead of %s" % (
                t, rank, [x for x in rows[t] if x not in want], [x for x in want if x not in rows[t]])):
            break


def W_S():
    from flee.SimulationSettings import SimulationSettings

    return SimulationSettings


def history(F, tr, w, plan, seed, rank, mode):
    e, lm = build(F, tr, w, seed, rank, mode)
    out = []
    for evs in plan:
        for ev in evs:
            simrun.apply_event(e, lm, ev)
            tr.net.apply(ev)
        e.evolve()
        out.append(([tr.at[tr.ident(a)].name if tr.at[tr.ident(a)] is not None else None for a in e.agents],
                    [int(l.numAgents) for l in e.locations], [(int(k.numAgents), s) for k, s in link_lists(e)],
                    [round(float(a.distance_travelled), 6) if hasattr(a, "distance_travelled") else 0 for a in e.agents]))
    return out


def modes(rng, mon, comm, F, tr):
    days = rng.randint(3, 7)
    w, st, plan = world_and_plan(rng, days)
    W.settings(**st)
    seed = rng.randrange(10**6)
    ref = None
    for mode in CYCLE:
        got = history(F, tr, w, plan, seed, comm.rank, mode)
        if ref is None:
            ref = got
            continue
        mon.count("mode_comparisons")
        for t, (x, y) in enumerate(zip(ref, got)):
            if not mon.check(x == y, "modes-differ", lambda: "day %d on rank %d of %d: %s gives %s, loc-par/high_latency %s" % (
                    t, comm.rank, comm.size, "/".join(mode), [y[1], y[2]], [x[1], x[2]])):
                break
    mon.sig(comm.size, comm.rank, [x[1] for x in ref])


def serial(rng, mon, comm, F, tr):
    """One rank gives what sequential Flee gives, if capacities do not matter."""
    from flee import flee as FS

    days = rng.randint(3, 9)
    w, st, plan = world_and_plan(rng, days, capacity=-1)
    W.settings(**st)
    seed = rng.randrange(10**6)
    par = history(F, tr, w, plan, seed, 0, rng.choice(CYCLE))
    tr.reset(refnet.Net(w))
    seed_rank(seed, 0)
    e, lm = W.build(w, mod=FS)
    for t, evs in enumerate(plan):
        for ev in evs:
            simrun.apply_event(e, lm, ev)
            tr.net.apply(ev)
        e.evolve()
        mon.count("serial_days")
        got = [tr.at[tr.ident(a)].name if tr.at[tr.ident(a)] is not None else None for a in e.agents]
        if not mon.check(got == par[t][0], "serial-differs", lambda: "day %d: agents of parallel Flee on one rank are at %s, of sequential Flee at %s" % (
                t, collections.Counter(par[t][0]), collections.Counter(got))):
            break
        if not mon.check([l.numAgents for l in e.locations] == par[t][1], "serial-counts", lambda: "day %d: counts %s and %s" % (
                t, par[t][1], [l.numAgents for l in e.locations])):
            break
    mon.sig([x[1] for x in par])


def crowd(rng, mon, comm, F, tr):
    """The choices of a crowd over all ranks follow the same law as in sequential Flee."""
    import checks.c06 as c06

    w, S = c06.scenario(rng)
    tr.reset(None)
    seed_rank(rng.randrange(10**6), comm.rank)
    e = F.Ecosystem()
    e.parallel_mode, e.latency_mode = rng.choice(CYCLE)
    W.build(w, eco=e)
    lm = {l.name: l for l in e.locations}
    M = S.move_rules
    p_move = rng.choice([1.0, 1.0, 0.3, 0.65])
    src = lm[w["locs"][0]["name"]]
    src.attributes["flood_level"] = 0
    for l in e.locations:
        if l.camp and l.capacity > 0 and l.capacity <= 100:
            for _ in range(int(l.capacity * rng.choice([0, 0, 0.6, 1.2]))):
                e.insertAgent(location=l, attributes=c06.person(rng))
    e.updateNumAgents(log=False)
    src.movechance = p_move
    attrs = c06.person(rng)
    n = 3000
    base = len(e.agents)
    for _ in range(n):
        e.insertAgent(location=src, attributes=dict(attrs))
    e.updateNumAgents(log=False)
    counts = {l.name: l.numAgents for l in e.locations}
    # The crowd decides first, so that ranks see the counts of the day before.
    e.agents = e.agents[base:] + e.agents[:base]
    mine = len(e.agents) - base
    ids = {tr.ident(a) for a in e.agents[:mine]}
    exp = c06.expected(e, lm, src, attrs, src, S, e.time, counts)
    tr.on = True
    e.evolve()
    every = comm.gather(collections.Counter(v[1] for k, v in tr.first.items() if k in ids), root=0)
    if comm.rank != 0:
        return
    got = collections.Counter()
    for c in every:
        got.update(c)
    if not exp or M["UsePopForLocWeight"]:
        return
    ws = [x for _, x in exp]
    lim = max(ws) / M["PruningThreshold"] if M["PruningThreshold"] >= 1.001 else 0.0
    if any(lim and abs(x - lim) < 1e-7 * lim for x in ws):
        return
    if any(l.camp and abs(O.capacity_multiplier(l.capacity, counts[l.name], M) - 0.5) < 0.05 for l in e.locations):
        return
    keep = O.prune(ws, M)
    prob = dict(zip([exp[i][0] for i in keep], O.probabilities([ws[i] for i in keep])))
    move = O.move_chance(p_move, src, M)
    mon.count("crowds")
    mon.count("choices", n)
    mon.check(set(got) <= set(prob), "unoffered", lambda: "agents chose %s, on offer: %s" % (got, prob))
    for r, p in prob.items():
        d = lm[r[-1]]
        q = p * min(1.0, move)
        if d.camp and O.capacity_multiplier(d.capacity, counts[d.name], M) < 0.5:
            q = 0.0
        mon.check(O.binom_ok(got[r], n, q), "frequency", lambda: "%d ranks: %d of %d agents chose %s, probability %.4f" % (
            comm.size, got[r], n, r, q))
    mon.sig([round(p, 6) for p in prob.values()], round(move, 6))


def script(rng, mon, comm, F, tr, k):
    """The parallel run script prints one table, and it reports the agents of all ranks."""
    import checks.c28 as c28

    days = rng.randint(2, 6)
    d = os.path.abspath("script%d" % k)
    seed = rng.randrange(10**6)
    state = rng.getstate()
    if comm.rank == 0:
        g = scenario.generate(rng, days, d, small=rng.random() < 0.5, floods=0.2)
    g = comm.bcast(g if comm.rank == 0 else None, root=0)
    rng.setstate(state)
    os.chdir(d)
    tr.reset(None)
    seed_rank(seed, comm.rank)
    snaps = []
    total = []
    E = F.Ecosystem
    evolve = E.evolve
    retired = collections.Counter()
    inner = tr.moved

    def moved(n, a, old, new):
        if new is None and old is not None:
            retired[old.name] += 1
        inner(n, a, old, new)

    def watched(self, *a, **kw):
        res = evolve(self, *a, **kw)
        every = comm.gather((snapshot(self, tr), dict(retired)), root=0)
        if comm.rank == 0:
            at = collections.Counter()
            for s, x in every:
                at.update(x)
            alive = sum(s["own"] for s, _ in every)
            judge(mon, [s for s, _ in every], alive, at, "script, day %d" % (self.time - 1))
            for i, l in enumerate(self.locations):
                at[l.name] += sum(s["mine"][i] for s, _ in every)
            snaps.append(({l.name: at[l.name] for l in self.locations}, alive, sum(at[l.name] for l in self.locations if l.idpcamp)))
        return res

    E.evolve = watched
    tr.moved = moved
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["run_par.py", "input_csv", "data", str(days)]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(common.REPO, "runscripts", "run_par.py"), run_name="__main__")
    finally:
        sys.argv = old
        E.evolve = evolve
        tr.moved = inner
    if comm.rank == 0:
        lines = [x for x in out.getvalue().splitlines(keepends=True) if x.startswith("Day,") or x[:1].isdigit()]
        c28.check_table(mon, g, days, g["data"].start, "".join(lines), snaps)
        mon.count("tables")
        mon.sig(out.getvalue())
    else:
        mon.check(not any(x.startswith("Day,") or x[:1].isdigit() for x in out.getvalue().splitlines()), "printed-twice",
                  lambda: "rank %d prints a table, too: %s" % (comm.rank, out.getvalue()[:200]))
    os.chdir(os.path.dirname(d))
    comm.Barrier()
    if comm.rank == 0:
        shutil.rmtree(d, ignore_errors=True)


def body(case, mon, comm):
    from flee import pflee as F

    tr = Watch(F, mon)
    if case["kind"] == "serial":
        from flee import flee as FS

        tracing.watch(FS.Person, "location", tr._on_location)  # pylint: disable=protected-access
    rng = random.Random(case["seed"])
    base = os.getcwd()
    own = os.path.join(base, "r%d" % comm.rank)
    os.makedirs(own)
    sys.stderr.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    err = os.dup(2)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    for k in range(case["n"]):
        r = random.Random(rng.randrange(10**12))
        os.chdir(own if case["kind"] != "script" else base)
        for fn in os.listdir("."):
            if fn.startswith(("agents.out", "links.out")):
                os.remove(fn)
        if case["kind"] == "script":
            script(r, mon, comm, F, tr, k)
        else:
            {"dynamics": dynamics, "modes": modes, "serial": serial, "crowd": crowd}[case["kind"]](r, mon, comm, F, tr)
        mon.count("scenarios")
        if comm.allreduce(len(mon.violations)):
            break
    os.chdir(base)
    os.dup2(err, 2)


if __name__ == "__main__":
    mpijob.main(body)
