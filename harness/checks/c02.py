"""Agents only move along open links, and end up where the link leads."""
import random

import refnet
import simrun
import tracing
import worlds as W

RULE = ("random worlds with daily closures, reopenings and removals of links, locations and borders while agents are "
        "underway; every change of an agent's position is compared with a reference model of open links; non-trivial: "
        "at least one agent bounced off a link closed under way or a departure with closed links around; distinct by "
        "the multiset of transitions of a case")
CASES = [("sim", 1200, 14000), ("closing", 300, 3500)]
REQUIRED = {"departures": 8000, "arrivals": 3000, "bounces": 150}


class Legal(tracing.Movement):
    def __init__(self, mod, mon, net):
        super().__init__(mod, mon)
        self.net = net
        self.inside = False
        self.seen = {}
        self.entered = {}

    def created(self, n, a, loc):
        self.mon.check(not tracing.is_link(loc), "created-on-link", lambda: "agent created on %s" % loc.name)

    def moved(self, n, a, old, new):
        mon = self.mon
        mon.check(self.inside, "moved-outside-step", "an agent moved outside a simulation step")
        if new is None:
            mon.check(old is not None and not tracing.is_link(old) and bool(old.camp), "vanished",
                      lambda: "agent vanished from %s" % old.name)
            mon.count("deactivated")
            return
        if old is None:
            mon.violate("reappeared", "an agent that left the simulation appears at %s" % new.name)
            return
        ol, nl = tracing.is_link(old), tracing.is_link(new)
        if not ol and nl:
            mon.count("departures")
            mon.check(new.startpoint is old, "wrong-start",
                      lambda: "agent at %s entered %s" % (old.name, new.name))
            mon.check(any(k is new for k in old.links), "not-a-link-of-location",
                      lambda: "agent at %s entered %s, which is not one of its open links" % (old.name, new.name))
            mon.check(not new.closed and self.net.is_open(new.startpoint.name, new.endpoint.name), "entered-closed",
                      lambda: "agent at %s entered closed %s" % (old.name, new.name))
            self.seen[(old.name, new.endpoint.name)] = self.seen.get((old.name, new.endpoint.name), 0) + 1
            self.entered[n] = new
        elif ol and not nl:
            # A link object on which agents stay after it was closed under way remains closed for them.
            if old.closed:
                mon.count("bounces")
                mon.check(new is old.startpoint, "closed-not-returned",
                          lambda: "agent on closed %s ended at %s" % (old.name, new.name))
                self.seen[("bounce", old.name)] = self.seen.get(("bounce", old.name), 0) + 1
            else:
                mon.count("arrivals")
                mon.check(new is old.endpoint, "wrong-end",
                          lambda: "agent on %s arrived at %s" % (old.name, new.name))
        else:
            mon.violate("jump", "agent jumped from %s to %s" % (old.name, new.name))


def run(case, mon):
    rng = random.Random(case["seed"])
    F = W.sim()
    w = simrun.random_world(rng, nmin=3, nmax=8, scale="long" if case["kind"] == "closing" else None)
    W.settings(**simrun.random_settings(rng, fixed=True, small=len(w["locs"]) <= 6))
    net = refnet.Net(w)
    legal = Legal(F, mon, net)
    e, lm = W.build(w)
    days = rng.randint(6, 15)
    closed_by_us = {}
    for t, evs in enumerate(simrun.plan(rng, w, days)):
        if case["kind"] == "closing" and t > 1:
            k = rng.choice(w["links"]) if w["links"] else None
            if k:
                evs = evs + [(rng.choice(["close_link", "reopen_link"]), k["a"], k["b"], rng.random() < 0.5)]
        for ev in evs:
            underway = {id(a): (a, a.location) for a in e.agents if a.location is not None and tracing.is_link(a.location)}
            before = {id(a): a.location for a in e.agents}
            was_open = {id(k) for _, k in underway.values()
                        if net.is_open(k.startpoint.name, k.endpoint.name) and any(x is k for x in k.startpoint.links)}
            simrun.apply_event(e, lm, ev)
            net.apply(ev)
            for a in e.agents:
                if id(a) in before:
                    mon.check(a.location is before[id(a)], "event-moved-agent",
                              lambda: "%s moved an agent" % (ev,))
            # Agents underway on a link that is closed now are bound to return.
            if ev[0].startswith("close"):
                for a, k in underway.values():
                    if id(k) in was_open and not net.is_open(k.startpoint.name, k.endpoint.name) and id(k) not in closed_by_us:
                        closed_by_us[id(k)] = k
                        mon.check(bool(k.closed), "closure-ignored-underway",
                                  lambda: "%s: %s is still open for agents underway" % (ev, k.name))
        legal.inside = True
        e.evolve()
        legal.inside = False
        for a in e.agents:
            if a.location is not None and tracing.is_link(a.location):
                k = a.location
                ok = net.is_open(k.startpoint.name, k.endpoint.name) or k.closed or \
                    not any(x is k for x in k.startpoint.links)
                mon.check(ok, "on-closed", lambda: "agent is on %s, which is closed" % k.name)
        if mon.violations:
            return
    if mon.counts["bounces"] or mon.counts["departures"] > 20:
        mon.sig(sorted(legal.seen.items(), key=str))
        mon.sample = {"world": W.summary(w), "transitions": [str(x) for x in sorted(legal.seen.items(), key=str)[:12]]}
