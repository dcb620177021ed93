"""Reference (specification) functions written from the documentation, independent of the code under test."""
import fenv
from fenv import mv


class RLoc:
    """Reference view of one location."""

    def __init__(self, d, y):
        self.name = d["n"]
        self.d = d
        f = fenv.type_flags(d["t"])
        self.marker = f["marker"]
        self.camp = f["camp"]
        self.idp = f["idpcamp"]
        self.conflict = 0.0
        if f["conflict"]:
            self.conflict = float((d.get("a") or {}).get("conflict_intensity", 1.0))
        self.foreign = bool(d.get("f", False))
        self.cap = int(d.get("cap", -1))
        self.pop = int(d.get("pop", 0))
        self.since = -1
        self.n = 0          # agents present
        self.x = float(d.get("x", 0.0))
        self.yy = float(d.get("y", 0.0))
        self.attrs = d.get("a") or {}
        self.chance = fenv.type_movechance(y, d["t"])
        if self.chance < 0.005 and not self.camp and not f["flood_zone"]:
            self.camp = True
        self.out = []       # (endpoint index, distance)


def rnet(net, y):
    locs = [RLoc(d, y) for d in net["locs"]]
    for l in net["links"]:
        locs[l[0]].out.append((l[1], float(l[2])))
        locs[l[1]].out.append((l[0], float(l[2])))
    return locs


def decay(y, elapsed):
    sp = (y or {}).get("spawn_rules") or {}
    d = sp.get("conflict_spawn_decay")
    if d is None or len(d) == 0:
        return 1.0
    return float(d[min(int(elapsed / int(sp.get("conflict_spawn_decay_interval", 30))), len(d) - 1)])


def loc_score(loc, y, t):
    s = 1.0
    if loc.foreign:
        s *= float(mv(y, "foreign_weight"))
    if loc.camp:
        s *= float(mv(y, "camp_weight"))
    if loc.conflict > 0:
        s *= float(mv(y, "conflict_weight")) ** (decay(y, t - loc.since) * loc.conflict)
    return s


def cap_mult(n, cap, y):
    scale = float(mv(y, "capacity_scaling"))
    buf = float(mv(y, "capacity_buffer"))
    c = cap * scale
    if c < 1:
        return 1.0
    if n <= buf * c:
        return 1.0
    if n >= c:
        return 0.0
    return 1.0 - (n - buf * c) / (c - buf * c)


def agent_score(loc, y, t, attrs, home):
    """Score of a location in the eyes of one agent."""
    s = loc_score(loc, y, t)
    if mv(y, "ChildrenAvoidHazards"):
        if attrs["age"] < 19:
            s = s * s
        if mv(y, "BoysTakeRisk") and attrs["gender"] == "male" and attrs["age"] > 14:
            s = 1.0
    if mv(y, "stay_close_to_home"):
        d = fenv.haversine(loc.x, loc.yy, home[0], home[1])
        s /= max(1.0, d) ** float(mv(y, "home_distance_power"))
    kind = "camp" if loc.camp else ("conflict" if loc.conflict > 0 else "town")
    eth = {"camp": "MatchCampEthnicity", "conflict": "MatchConflictEthnicity", "town": "MatchTownEthnicity"}[kind]
    if mv(y, eth):
        s *= 10.0 * float(loc.attrs[attrs["ethnicity"]]) / loc.pop
    if kind != "camp" and mv(y, "use_pop_for_loc_weight"):
        s *= max(1.0, loc.pop) ** float(mv(y, "pop_power_for_loc_weight"))
    return s


def options(locs, start, y, score, awareness):
    """All routes an agent at `start` considers: {path names: weight} as a list of (path, weight)."""
    res = []
    soft = float(mv(y, "softening"))
    wsoft = float(mv(y, "weight_softening"))
    wp = float(mv(y, "weight_power"))
    dp = float(mv(y, "distance_power"))

    def walk(cur, prior, path, step):
        for (j, dist) in locs[cur].out:
            if j in path:
                continue
            ep = locs[j]
            nstep = step
            if not ep.marker:
                w = (wsoft + score(j)) / (soft + dist + prior) ** dp * cap_mult(ep.n, ep.cap, y)
                res.append((tuple(locs[k].name for k in path) + (ep.name,), w ** wp))
                nstep = step + 1
            if nstep < awareness:
                walk(j, prior + dist, path + [j], nstep)

    walk(start, 0.0, [start], 0)
    return res
