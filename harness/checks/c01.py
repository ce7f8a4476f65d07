"""Agent conservation: nobody is lost, duplicated or counted twice."""
import collections
import contextlib
import io
import random

import simrun
import tracing
import worlds as W

RULE = ("random worlds, settings and daily interventions (spawning, inserting, closing, reopening and removing links, "
        "locations and borders, changing types, clearing locations); non-trivial: agents moved along links; distinct "
        "by the day-by-day vector of counts per location")
CASES = [("sim", 900, 10000), ("long", 50, 700), ("sinks", 200, 2000), ("zero", 100, 1000)]
REQUIRED = {"recounts": 3000, "moves": 5000, "created": 3000, "summaries": 500}


class Census(tracing.Movement):
    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.deactivated = collections.Counter()
        self.born = 0

    def created(self, n, a, loc):
        self.born += 1
        self.mon.count("created")

    def moved(self, n, a, old, new):
        if new is None:
            self.deactivated[id(old)] += 1
        elif old is None:
            self.mon.violate("resurrected", "an agent that left the simulation is back at %s" % new.name)
        self.mon.count("moves")


def audit(mon, e, census, alive, when, extra_links=()):
    mon.count("recounts")
    here = collections.Counter(id(a.location) for a in e.agents if a.location is not None)
    ids = [id(a) for a in e.agents]
    mon.check(len(set(ids)) == len(ids), "duplicate-agent", lambda: "%s: an agent is listed twice" % when)
    mon.check(len(e.agents) == alive, "agents-lost", lambda: "%s: %d agents, expected %d" % (when, len(e.agents), alive))
    mon.check(e.numAgents() == alive, "total", lambda: "%s: numAgents()=%s, expected %d" % (when, e.numAgents(), alive))
    known = set()
    for loc in e.locations:
        known.add(id(loc))
        exp = here[id(loc)] + census.deactivated[id(loc)]
        mon.check(loc.numAgents == exp, "location-count",
                  lambda: "%s: %s reports %s agents, %d are there" % (when, loc.name, loc.numAgents, exp))
        for k in list(loc.links) + list(loc.closed_links):
            known.add(id(k))
            mon.check(k.numAgents == here[id(k)], "link-count",
                      lambda: "%s: %s reports %s agents, %d are on it" % (when, k.name, k.numAgents, here[id(k)]))
    underway = 0
    for a in e.agents:
        if a.location is None:
            continue
        link = tracing.is_link(a.location)
        mon.check(bool(a.travelling) == link, "travelling-flag",
                  lambda: "%s: travelling=%s but location is %s" % (when, a.travelling, a.location.name))
        if not link:
            mon.check(id(a.location) in known, "stray-location",
                      lambda: "%s: agent at unknown location %s" % (when, a.location.name))
        elif id(a.location) not in known:
            underway += 1
            mon.check(a.location.numAgents == here[id(a.location)], "detached-link-count",
                      lambda: "%s: detached %s reports %s agents, %d are on it" % (
                          when, a.location.name, a.location.numAgents, here[id(a.location)]))
    mon.count("underway_on_closed", underway)
    inplaces = sum(loc.numAgents for loc in e.locations)
    onlinks = sum(1 for a in e.agents if a.location is not None and tracing.is_link(a.location))
    mon.check(inplaces + onlinks == alive + census.cleared_dead, "sum-of-counts",
              lambda: "%s: %d in locations + %d underway != %d agents" % (when, inplaces, onlinks, alive))


def printed(mon, e, alive, when):
    """The summaries on the terminal show the same numbers."""
    err, out = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        e.printInfo()
    zones = [l.name for l in e.locations if l.conflict > 0.0]
    want = ["Time: %d, # of agents: %d, # of conflict zones %d." % (e.time, alive, len(zones))]
    if zones:
        want.append("First conflict zone is called %s" % zones[0])
    want += ["%s %d" % (l.name, l.numAgents) for l in e.locations]
    got = err.getvalue().split("\n")[:-1]
    mon.count("summaries")
    mon.check(got == want, "summary", lambda: "%s: summary %s instead of %s" % (when, got, want))
    err, out = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        e.printComplete()
    mon.check(out.getvalue().split() == ["Time:", str(e.time), ",", "#", "of", "agents:", str(alive)], "complete",
              lambda: "%s: %r for %d agents on day %d" % (when, out.getvalue(), alive, e.time))
    got = [x for x in err.getvalue().split("\n") if x.startswith("Location name ") and "number of agents" in x]
    want = ["Location name %s, number of agents %s" % (l.name, l.numAgents) for l in e.locations]
    mon.check(got == want, "complete", lambda: "%s: %s instead of %s" % (when, got, want))
    got = [x for x in err.getvalue().split("\n") if x.startswith("Link from ")]
    want = ["Link from %s to %s, dist: %s, pop. %s" % (l.name, k.endpoint.name, k.get_distance(), k.numAgents) for l in e.locations for k in l.links]
    mon.check(got == want, "complete-links", lambda: "%s: %s instead of %s" % (when, got, want))


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    big = case["kind"] == "long"
    w = simrun.random_world(rng, nmin=3, nmax=12 if big else 8, topo=rng.choice(["line", "tree", "ring", "random"]) if big else None)
    S, _ = W.settings(**simrun.random_settings(rng, agent_log=rng.choice([0, 1, 2]), fixed=True, small=len(w["locs"]) <= 6,
                                        sinks=True if case["kind"] == "sinks" else None))
    if case["kind"] == "zero":
        # Camps next to their town: some links to camps have no length at all.
        m = S.move_rules
        m["DistanceSoftening"], m["AvoidShortStints"] = 10.0, False
        m["DefaultMoveChance"] = min(0.5, m["DefaultMoveChance"])
        camps = {l["name"] for l in w["locs"] if "camp" in l["type"]}
        for k in w["links"]:
            if (k["a"] in camps or k["b"] in camps) and rng.random() < 0.6:
                k["dist"] = 0.0
                mon.count("zero_links")
    census = Census(F, mon)
    census.cleared_dead = 0
    e, lm = W.build(w)
    days = rng.randint(25, 50) if big else rng.randint(6, 16)
    alive = 0
    hist = []
    for t, evs in enumerate(simrun.plan(rng, w, days, types=case["kind"] != "zero")):
        for ev in evs:
            expect = alive
            if ev[0] in ("add", "insert"):
                expect += ev[2]
            elif ev[0] == "clear":
                # Agents standing in (not travelling to or from) the named places go.
                expect -= sum(1 for a in e.agents if a.location is not None and a.location.name in ev[1])
            simrun.apply_event(e, lm, ev)
            alive = expect
            audit(mon, e, census, alive, "day %d after %s" % (t, ev))
        e.evolve()
        audit(mon, e, census, alive, "day %d after evolve" % t)
        if rng.random() < 0.1:
            printed(mon, e, alive, "day %d" % t)
        hist.append(tuple(l.numAgents for l in e.locations))
        if mon.violations:
            break
    mon.check(census.born >= alive, "born", "more agents than were ever created")
    if mon.counts["moves"] > 5:
        mon.sig(hist)
        mon.sample = {"world": W.summary(w), "counts_by_day": hist[:6]}
