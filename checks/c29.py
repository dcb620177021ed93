"""C29: floods: levels from the file, move chances and destination weights of flooded locations."""
import random
from collections import Counter

from hypothesis import strategies as st

import fenv
import geo
import ref
from vlib import Sub, close, expect, expect_close, expect_eq, workdir

RULE = ("A case is a network read from files, a table of flood levels for some locations and days, and flood rules; every "
        "day the level of every location, the move chance and departure of an agent at each location (with a forced draw), "
        "and the weights of all routes of an agent are compared with the tables.  Non-trivial: on some day a location is "
        "flooded that an agent stands at and one that an agent can go to, and some level changes.")

TYPES = ("town", "flood_zone", "flood_zone", "camp", "idpcamp", "marker", "forwarding_hub")


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, coords=True, max_extra=4, types=TYPES,
                                 dists=st.sampled_from([1.0, 10.0, 50.0, 200.0, 400.0])))
    for i, d in enumerate(net["locs"]):
        d["n"] = ["Ayod", "Bor", "B", "AB", "Camp-1", "F 1"][i]
        camp = "camp" in d["t"]
        d["pc"] = draw(st.sampled_from([0, 3, 50, 9999])) if camp else draw(st.sampled_from([0, 1, 100, 9999, 250000]))
        d["cap"], d["pop"] = (d["pc"], 0) if camp else (-1, d["pc"])
        d["f"] = d["c"] != net["locs"][0]["c"]
        d.pop("a", None)
        d["date"] = None
    n = len(net["locs"])
    top = draw(st.integers(1, 4) | st.integers(3, 8))
    w = lambda vals: [draw(st.sampled_from(vals)) for _ in range(top + 1)]  # noqa: E731
    m = {"max_move_speed": 0.5,      # whoever sets out is on the link at the end of the day
         "awareness_level": draw(st.integers(1, 3)),
         "flood_rules": {"max_flood_level": top, "flood_movechances": w([0.0, 0.25, 0.4, 0.7, 1.0, 1]),
                         "flood_loc_weights": w([0.0, 0.1, 0.5, 1.0, 2.0, 1])}}

    def opt(k, vals, p=3):
        if draw(st.integers(0, p)) == 0:
            m[k] = draw(st.sampled_from(vals))
    opt("default_movechance", [0.0, 0.5, 1.0])
    opt("camp_movechance", [0.0, 0.5, 1.0])
    opt("movechance_pop_scale_factor", [0.5, 1.0])
    opt("camp_weight", [0.5, 3.0])
    opt("foreign_weight", [0.5, 2.0])
    opt("use_pop_for_loc_weight", [True])
    opt("stay_close_to_home", [True])
    opt("weight_softening", [0.1])
    opt("weight_power", [0.0, 2.0], 6)
    opt("distance_power", [0.0, 2.0], 6)
    days = draw(st.integers(1, 5))
    names = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    table = [[draw(st.integers(0, top) | st.sampled_from([0, top, top])) for _ in names] for _ in range(days)]
    return {"net": net, "names": names, "table": table, "days": days,
            "y": {"move_rules": m, "spawn_rules": {
                "flood_zone_spawning_only": True, "conflict_zone_spawning_only": False, "take_from_population": True,
                "flood_driven_spawning": {"spawn_mode": "constant", "displaced_per_flood_day": [0] * (top + 1)}}},
            "us": draw(st.lists(st.sampled_from(["below", "at", "above", "mid", "zero", "one"]), min_size=days, max_size=days)),
            "who": draw(st.integers(0, n - 1)), "seed": draw(st.integers(0, 10 ** 6))}


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    fenv.fresh(c["y"], c["seed"])
    net, y = c["net"], c["y"]
    n = len(net["locs"])
    geo.write_locations("locations.csv", net["locs"])
    geo.write_routes("routes.csv", net["locs"], net["links"])
    geo.write_closures("closures.csv", [])
    geo.write_conflicts("flood_level.csv", [net["locs"][i]["n"] for i in c["names"]], c["table"])
    ig, e, lm = geo.load(flood_file="flood_level.csv")
    locs = [lm[d["n"]] for d in net["locs"]]
    r = ref.rnet(net, y)
    fr = y["move_rules"]["flood_rules"]
    nt = changed = False
    before = None
    for t in range(c["days"]):
        level = [0] * n
        for i, v in zip(c["names"], c["table"][t]):
            level[i] = v
        ig.AddNewConflictZones(e, t)
        for i in range(n):
            expect_eq(locs[i].attributes.get("flood_level", 0), level[i], "day %d: flood level of %s" % (t, locs[i].name))
        for loc in locs:
            e.insertAgent(location=loc, attributes={})
        fresh = e.agents[-n:]
        p = []
        for i, d in enumerate(net["locs"]):
            f = float(fenv.mv(y, "movechance_pop_scale_factor"))
            q = r[i].chance
            if f:
                q *= (max(d["pop"], d["cap"]) / float(fenv.mv(y, "movechance_pop_base"))) ** f
            if level[i] > 0:
                q = float(fr["flood_movechances"][level[i]])
            p.append(q)
            expect_close(fenv.moving.calculateMoveChance(fresh[i], False, e.time), q,
                         "day %d: move chance at %s (level %d)" % (t, locs[i].name, level[i]), rel=1e-9)
        q = p[c["who"]]
        u = {"below": q * (1 - 1e-9) - 1e-15, "at": q, "above": q * (1 + 1e-9) + 1e-15, "mid": q / 2, "zero": 0.0,
             "one": 1 - 1e-12}[c["us"][t]]
        u = min(max(u, 0.0), 1 - 1e-12)
        score = lambda j: ref.agent_score(r[j], y, t, {}, home) * (fr["flood_loc_weights"][level[j]] if level[j] else 1.0)  # noqa
        k = int(fenv.mv(y, "awareness_level"))
        orig = random.random
        random.random = lambda: u
        try:
            e.evolve()
        finally:
            random.random = orig
        for i, a in enumerate(fresh):
            home = (r[i].x, r[i].yy)
            exits = len(ref.options(r, i, y, score, k))
            if abs(u - p[i]) <= 1e-12 and fenv.mv(y, "movechance_pop_scale_factor"):
                continue
            moved = fenv.is_link(a.location)
            if u < p[i] and any(0 < rr.cap <= l.numAgents + 2 * n for rr, l in zip(r, locs)):
                continue        # may have turned round in front of a full camp
            expect_eq(moved, u < p[i] and exits > 0, "day %d: departure from %s (level %d, chance %r, draw %r, %d routes)"
                      % (t, locs[i].name, level[i], p[i], u, exits))
        # what an agent at each location would now choose from
        for i, loc in enumerate(locs):
            e.insertAgent(location=loc, attributes={})
            a = e.agents[-1]
            for rr, l in zip(r, locs):
                rr.n = l.numAgents
            weights, routes = fenv.moving.selectRoute(a, time=t, return_all_routes=True)
            home = (r[i].x, r[i].yy)
            want = ref.options(r, i, y, score, k)
            expect_eq(Counter(tuple(x) for x in routes), Counter(x for x, _ in want), "day %d: routes from %s" % (t, loc.name))
            g, w = {}, {}
            for x, v in zip(routes, weights):
                g.setdefault(tuple(x), []).append(float(v))
            for x, v in want:
                w.setdefault(x, []).append(float(v))
            top = max([v for _, v in want], default=0.0)
            for x in w:
                for v1, v2 in zip(sorted(g[x]), sorted(w[x])):
                    expect(close(v1, v2, rel=1e-6, abs_=1e-9 * top),
                           lambda: "day %d: weight of %r is %r, expected %r (level there %d)"
                           % (t, x, v1, v2, level[[l.name for l in locs].index(x[-1])]))
            nt = nt or (level[i] > 0 and any(level[[l.name for l in locs].index(x[-1])] for x in w))
        changed = changed or (before is not None and before != level)
        before = level
    s.label("several_days", c["days"] > 1)
    s.nontrivial(nt and (changed or c["days"] == 1))


SUBS = [Sub("levels", lambda: case(), judge, quick=2500, shards=8)]
