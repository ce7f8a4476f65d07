"""Reference formulas, written from the documentation of Flee's rules.

They read locations only through their public data (flags, capacity, agents
present, attributes) and the settings of the case; nothing here calls Flee.
"""
import math


def decay(spawn_rules, elapsed):
    """Factor by which a conflict still matters `elapsed` days after it flared up."""
    lst = spawn_rules.get("conflict_spawn_decay")
    if not lst:
        return 1.0
    i = int(elapsed / spawn_rules["conflict_spawn_decay_interval"])
    return float(lst[min(i, len(lst) - 1)])


def location_score(loc, M, SR, t, since=None):
    """Attractiveness of a place, from its type."""
    s = 1.0
    if loc.foreign:
        s *= M["ForeignWeight"]
    if loc.camp or loc.idpcamp:
        s *= M["CampWeight"]
    if loc.conflict > 0.0:
        t0 = loc.time_of_conflict if since is None else since
        s *= M["ConflictWeight"] ** (decay(SR, t - t0) * loc.conflict)
    if loc.flood_zone and loc.attributes.get("flood_level") is not None:
        s *= float(M["FloodLocWeights"][loc.attributes["flood_level"]])
    return s


def great_circle(a, b):
    la, lb = math.radians(a.y), math.radians(b.y)
    dlon = math.radians(b.x - a.x)
    # Spherical law of cosines in vector form: stable and not the haversine used by Flee.
    va = (math.cos(la), 0.0, math.sin(la))
    vb = (math.cos(lb) * math.cos(dlon), math.cos(lb) * math.sin(dlon), math.sin(lb))
    cr = (va[1] * vb[2] - va[2] * vb[1], va[2] * vb[0] - va[0] * vb[2], va[0] * vb[1] - va[1] * vb[0])
    return 6371.0 * math.atan2(math.sqrt(sum(c * c for c in cr)), sum(p * q for p, q in zip(va, vb)))


def forecast(loc, M, t):
    """Forecast flooding of a place as (sum, mean over the timescale) of weighted levels; None when none is in use."""
    if not M["FloodRulesEnabled"] or not M.get("FloodForecaster"):
        return None
    n, end = M["FloodForecasterTimescale"], M["FloodForecasterEndTime"]
    if n <= 1 or t > end:
        return None
    levels = loc.attributes["forecast_flood_levels"]
    # Today and days beyond the end of the forecast do not count; on the last day the forecast is that day itself.
    days = [d for d in range(t + 1, t + n + 1) if d <= end] or [end]
    tot = sum(float(M["FloodLocWeights"][levels[d]]) * float(M["FloodForecasterWeights"][d]) for d in days if levels[d] > 0)
    return tot, tot / n


def awareness(attributes, M):
    return float(M["FloodAwarenessWeights"][int(attributes["floodawareness"])])


def endpoint_score(attributes, home, loc, M, SR, t, base=None):
    """Attractiveness of a place for one agent."""
    s = location_score(loc, M, SR, t) if base is None else base
    if M["ChildrenAvoidHazards"]:
        if attributes["age"] < 19:
            s = s * s
        if M["BoysTakeRisk"] and attributes["gender"] == "male" and attributes["age"] > 14:
            s = 1.0
    if M["StayCloseToHome"]:
        s /= max(1.0, great_circle(loc, home)) ** M["HomeDistancePower"]
    if M["FloodRulesEnabled"]:
        lvl = loc.attributes.get("flood_level", 0)
        if lvl > 0:
            s *= float(M["FloodLocWeights"][lvl])
        f = forecast(loc, M, t)
        if f:
            s *= f[0] * f[1] * awareness(attributes, M)
    kind = "camp" if loc.camp else ("conflict" if loc.conflict > 0.0 else "town")
    if M[{"camp": "MatchCampEthnicity", "conflict": "MatchConflictEthnicity", "town": "MatchTownEthnicity"}[kind]]:
        s *= 10.0 * float(loc.attributes[attributes["ethnicity"]]) / float(loc.pop)
    if kind != "camp" and M["UsePopForLocWeight"]:
        s *= max(1.0, loc.pop) ** M["PopPowerForLocWeight"]
    return s


def capacity_multiplier(capacity, n, M):
    """1 up to the buffer, 0 from the capacity on, linear in between."""
    cap = capacity * M["CapacityScaling"]
    if cap < 1:
        return 1.0
    lo = M["CapacityBuffer"] * cap
    if n <= lo:
        return 1.0
    if n >= cap:
        return 0.0
    return (cap - n) / (cap - lo)


def routes(adj, markers, src, awareness):
    """[(route, length)]: simple paths of at most `awareness` hops; markers do not count."""
    out = []

    def walk(path, length, used):
        for nxt, dist in adj.get(path[-1], []):
            if nxt in path:
                continue
            cost = used + (0 if nxt in markers else 1)
            if cost > awareness and nxt not in markers:
                continue
            if used >= awareness:
                continue
            if nxt not in markers:
                out.append((path[1:] + [nxt], length + dist))
            walk(path + [nxt], length + dist, cost)

    walk([src], 0.0, 0)
    return out


def weight(score, dist, cap, M):
    return ((M["WeightSoftening"] + score) / (M["DistanceSoftening"] + dist) ** M["DistancePower"] * cap) ** M["WeightPower"]


def prune(ws, M):
    """Indices of the routes that survive pruning."""
    th = M["PruningThreshold"]
    if th < 1.001 or not ws:
        return list(range(len(ws)))
    lim = max(ws) / th
    return [i for i, w in enumerate(ws) if w >= lim]


def probabilities(ws):
    tot = sum(ws)
    if tot > 0:
        return [w / tot for w in ws]
    return [1.0 / len(ws) for _ in ws]


def move_chance(base, loc, M, forced=False, attributes=None, t=0):
    if loc.town and forced:
        return 1.0
    p = base * (float(max(loc.pop, loc.capacity)) / M["MovechancePopBase"]) ** M["MovechancePopScaleFactor"]
    if M["FloodRulesEnabled"] and loc.attributes.get("flood_level", 0) > 0:
        p = float(M["FloodMovechances"][loc.attributes["flood_level"]])
    f = forecast(loc, M, t)
    if f:
        p *= f[1] * awareness(attributes, M)
    return p


def type_move_chance(kind, M, explicit=None):
    if kind is None:
        return explicit
    k = kind.lower()
    if "camp" in k:
        return M["IDPCampMoveChance"] if "idp" in k else M["CampMoveChance"]
    if "conflict" in k:
        return M["ConflictMoveChance"]
    if "forward" in k or "marker" in k:
        return 1.0
    return M["DefaultMoveChance"]


def binom_ok(k, n, p, z=6.5):
    """Whether k of n successes is plausible for probability p."""
    p = min(1.0, max(0.0, p))
    return abs(k - n * p) <= z * math.sqrt(n * p * (1 - p)) + (1e-9 if p in (0.0, 1.0) else 4.0)
