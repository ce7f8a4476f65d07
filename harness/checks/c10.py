"""What kind of place a location is, and what follows from it."""
import random

import worlds as W

RULE = ("random histories of type changes, camp openings and closings and conflict changes, through the API, "
        "location_changes.csv and case variants of type names; kind, move chance, camp list and IDP totals are compared "
        "with a reference state machine after every step; non-trivial: the kind changed; distinct by (old kind, "
        "operation, new kind, rounded move chance)")
CASES = [("api", 1500, 20000), ("csv", 500, 7000)]
REQUIRED = {"operations": 20000, "changes": 8000, "csv_changes": 1500, "idp_totals": 5000, "constructed": 8000, "chances_set": 300}

NAMES = {"town": ["town", "Town", "default"], "camp": ["camp", "Camp", "refugee_camp"], "idpcamp": ["idpcamp", "IDPcamp", "idp_camp"],
         "conflict": ["conflict_zone", "Conflict_Zone", "conflict"], "forward": ["forwarding_hub", "forward", "Forwarding_hub"],
         "marker": ["marker", "Marker"], "flood": ["flood_zone", "Flood_Zone"]}


class Place:
    def __init__(self, kind, M, intensity=None):
        self.M = M
        self.mc = None
        self.turn(kind, intensity)

    def turn(self, kind, intensity=None):
        self.kind = kind
        self.conflict = None
        M = self.M
        if kind == "conflict":
            self.conflict = 1.0 if intensity is None else intensity
        self.mc = {"town": M["DefaultMoveChance"], "camp": M["CampMoveChance"], "idpcamp": M["IDPCampMoveChance"],
                   "conflict": M["ConflictMoveChance"], "forward": 1.0, "marker": 1.0, "flood": M["DefaultMoveChance"]}[kind]


def kinds(l):
    out = set()
    if l.idpcamp:
        out.add("idpcamp")
        if not l.camp:
            out.add("idp-but-no-camp")
    elif l.camp:
        out.add("camp")
    if l.town:
        out.add("town")
    if l.conflict > 0:
        out.add("conflict")
    if l.forward:
        out.add("forward")
    if l.marker:
        out.add("marker")
    if l.flood_zone:
        out.add("flood")
    return out


def compare(mon, e, model, when):
    ok = True
    for l in e.locations:
        p = model[l.name]
        ok &= mon.check(kinds(l) == {p.kind}, "kind", lambda: "%s: %s is %s, expected %s" % (when, l.name, sorted(kinds(l)), p.kind))
        ok &= mon.check(abs(l.movechance - p.mc) < 1e-12, "movechance", lambda: "%s: move chance of %s (%s) is %s, expected %s" % (
            when, l.name, p.kind, l.movechance, p.mc))
        if p.kind == "conflict":
            ok &= mon.check(abs(l.conflict - p.conflict) < 1e-12, "intensity", lambda: "%s: intensity of %s is %s, expected %s" % (
                when, l.name, l.conflict, p.conflict))
    mon.check(e.get_camp_names() == [l.name for l in e.locations if "camp" in model[l.name].kind], "camp-names",
              lambda: "%s: camps are %s" % (when, e.get_camp_names()))
    idps = sum(l.numAgents for l in e.locations if model[l.name].kind == "idpcamp")
    mon.count("idp_totals")
    mon.check(e.numIDPs() == idps, "idp-total", lambda: "%s: numIDPs()=%s, expected %s" % (when, e.numIDPs(), idps))
    return ok


def attr_intensity(l):
    return float(l["attributes"].get("conflict_intensity", 1.0))


def run(case, mon):
    rng = random.Random(case["seed"])
    S, _ = W.settings(log_levels={}, spawn_rules={}, move_rules={
        "camp_movechance": 0.011, "idpcamp_movechance": 0.12, "default_movechance": 0.33, "conflict_movechance": 0.94})
    M = S.move_rules
    w = W.world(rng, nmin=2, nmax=7, first=None, types=["town"])
    model = {}
    for l in w["locs"]:
        k = rng.choice(list(NAMES))
        l["type"] = rng.choice(NAMES[k])
        l["pop"] = 100
        if rng.random() < 0.4:
            l["attributes"]["conflict_intensity"] = rng.choice([0.5, "2.5", 1])
        model[l["name"]] = Place(k, M, attr_intensity(l))
    byname = {l["name"]: l for l in w["locs"]}
    days = rng.randint(5, 15)
    csv = case["kind"] == "csv"
    if csv:
        for l in w["locs"]:
            l["attributes"].setdefault("conflict_intensity", 1.0)
            model[l["name"]].turn(model[l["name"]].kind, attr_intensity(l))
        changes = []
        for _ in range(rng.randint(1, 12)):
            k = rng.choice(list(NAMES))
            changes.append((rng.choice(w["locs"])["name"], rng.choice(NAMES[k]), rng.randrange(days), k))
        w["changes"] = [c[:3] for c in changes]
        W.write_csv(w, "in", loc_attr=["conflict_intensity"])
        e, lm, ig = W.load_csv("in")
    else:
        e, lm = W.build(w)
    mon.count("constructed", len(w["locs"]))
    if not compare(mon, e, model, "initially"):
        return
    for l in e.locations:
        e.insertAgents(l, rng.randint(0, 4))
    for t in range(days):
        ops = []
        if csv:
            ig.AddNewConflictZones(e, t)
            for name, _typ, day, k in changes:
                if day == t:
                    old = model[name].kind
                    model[name].turn(k, attr_intensity(byname[name]))
                    mon.count("csv_changes")
                    mon.count("operations")
                    mon.count("changes", int(old != k))
                    mon.sig(old, "csv", k, round(model[name].mc, 3))
            if not compare(mon, e, model, "day %d" % t):
                return
        for _ in range(rng.randint(1, 3) if not csv else 0):
            name = rng.choice(w["locs"])["name"]
            p = model[name]
            old = p.kind
            op = rng.choice(["type", "type", "open", "close", "add", "remove", "set"])
            if rng.random() < 0.05:
                op = "chance"
            if op in ("add", "set", "remove") and p.kind not in ("town", "conflict"):
                op = "type"
            mc0 = p.mc
            if op == "type":
                k = rng.choice(list(NAMES))
                e.change_location_type(name, rng.choice(NAMES[k]))
                p.turn(k, attr_intensity(byname[name]))
            elif op == "chance":
                if rng.random() < 0.5:
                    e.locations[e.locationNames.index(name)].SetCampMoveChance()
                    p.mc = M["CampMoveChance"]
                else:
                    e.locations[e.locationNames.index(name)].SetConflictMoveChance()
                    p.mc = M["ConflictMoveChance"]
                mon.count("chances_set")
            elif op == "open":
                idp = rng.random() < 0.5
                e.open_camp(name, IDP=idp)
                p.turn("idpcamp" if idp else "camp")
            elif op == "close":
                e.close_camp(name, IDP=rng.random() < 0.5)
                p.turn("town")
            else:
                x = rng.choice([0.3, 1.0, 4.0]) if op != "remove" else 0.0
                if op == "set" and rng.random() < 0.4:
                    x = rng.choice([0.0, 1e-9])
                keep = rng.random() < 0.25
                kw = {"change_movechance": False} if keep else {}
                if op == "add":
                    e.add_conflict_zone(name, x, **kw)
                elif op == "remove":
                    e.remove_conflict_zone(name, **kw)
                else:
                    e.set_conflict_intensity(name, x, **kw)
                p.turn("conflict" if x > 1e-6 else "town", x)
                if keep:
                    p.mc = mc0
            ops.append((op, name))
            mon.count("operations")
            if old != p.kind:
                mon.count("changes")
                mon.sig(old, op, p.kind, round(p.mc, 3))
            if not compare(mon, e, model, "day %d after %s" % (t, ops[-1])):
                return
        if rng.random() < 0.03:
            e.close_camp("Nowhere", IDP=False)
            e.open_camp("Nowhere", IDP=True)
            e.change_location_type("Nowhere", "camp")
            if not compare(mon, e, model, "day %d after operations on unknown places" % t):
                return
        e.evolve()
        if not compare(mon, e, model, "day %d after evolve" % t):
            return
    mon.sample = {"types": [(l["name"], l["type"]) for l in w["locs"]], "final": [(n, p.kind) for n, p in model.items()]}
