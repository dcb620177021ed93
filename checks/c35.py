"""C35: the flood forecast: which days it covers and what it does to move chances and route weights."""
from hypothesis import strategies as st

import fenv
import geo
from vlib import Sub, expect, expect_eq, workdir

RULE = ("A case is a network read from files, a table of flood levels for all days, forecast settings and a day.  The move "
        "chance of an agent at each location and the weights of all its routes are compared with those for a table that differs "
        "on one future day for one location, without forecasts, and with other weights for agents of other awareness.  "
        "Non-trivial: the day that differs is one that the forecast covers.")

NAMES = ["Ayod", "Bor", "B", "AB", "Camp-1", "F 1"]
TYPES = ("town", "flood_zone", "flood_zone", "camp", "idpcamp", "marker", "forwarding_hub")


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, connected=True, coords=True, max_extra=3, types=TYPES,
                                 dists=st.sampled_from([1.0, 10.0, 50.0, 200.0, 400.0])))
    for i, d in enumerate(net["locs"]):
        d["n"] = NAMES[i]
        camp = "camp" in d["t"]
        d["pc"] = draw(st.sampled_from([0, 3, 50, 9999])) if camp else draw(st.sampled_from([0, 1, 100, 250000]))
        d["cap"], d["pop"] = (d["pc"], 0) if camp else (-1, d["pc"])
        d["f"] = d["c"] != net["locs"][0]["c"]
        d.pop("a", None)
        d["date"] = None
    n = len(net["locs"])
    top = draw(st.integers(1, 5))
    days = draw(st.integers(2, 12)) if draw(st.integers(0, 14)) else draw(st.integers(13, 60))
    t = draw(st.integers(0, days - 1))
    end = draw(st.integers(0, days - 1) | st.sampled_from([days - 1, days - 1]))
    ts = draw(st.integers(0, 5) | st.integers(0, days))
    pos = [0.1, 0.3, 0.5, 1.0, 2.0]
    fr = {"max_flood_level": top,
          "flood_movechances": [draw(st.sampled_from([0.25, 0.4, 0.7, 1.0])) for _ in range(top + 1)],
          "flood_loc_weights": [draw(st.sampled_from(pos)) for _ in range(top + 1)],
          "flood_forecaster": True, "flood_forecaster_timescale": ts, "flood_forecaster_end_time": end}
    fr["flood_forecaster_weights"] = [draw(st.sampled_from([0.1, 0.25, 0.5, 0.9, 1.0])) for _ in range(days)]
    fr["flood_awareness_weights"] = [draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])) for _ in range(3)]
    m = {"awareness_level": draw(st.integers(1, 3)), "flood_rules": fr}
    if draw(st.integers(0, 2)) == 0:
        m["camp_weight"] = draw(st.sampled_from([0.5, 3.0]))
    names = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    table = [[draw(st.sampled_from([0, 0, 1, top]) | st.integers(0, top)) for _ in names] for _ in range(days)]
    return {"net": net, "names": names, "table": table, "days": days, "t": t, "top": top,
            "y": {"move_rules": m, "spawn_rules": {
                "flood_zone_spawning_only": True, "conflict_zone_spawning_only": False, "take_from_population": True,
                "flood_driven_spawning": {"spawn_mode": "constant", "displaced_per_flood_day": [0] * (top + 1)}}},
            "who": [draw(st.integers(0, 2)) for _ in range(n)], "other": [draw(st.sampled_from(pos)) for _ in range(3)],
            "change": [draw(st.integers(0, days - 1)), draw(st.integers(0, len(names) - 1)), draw(st.integers(1, top))],
            "seed": draw(st.integers(0, 10 ** 6))}


def figures(c, table, y):
    """For an agent at each location on the day: move chance and {route: weights}."""
    fenv.fresh(y, c["seed"])
    net, t = c["net"], c["t"]
    geo.write_locations("locations.csv", net["locs"])
    geo.write_routes("routes.csv", net["locs"], net["links"])
    geo.write_closures("closures.csv", [])
    geo.write_conflicts("flood_level.csv", [net["locs"][i]["n"] for i in c["names"]], table)
    ig, e, lm = geo.load(flood_file="flood_level.csv")
    for d in range(t + 1):
        ig.AddNewConflictZones(e, d)
    locs = [lm[d["n"]] for d in net["locs"]]
    for i, loc in enumerate(locs):
        e.insertAgent(location=loc, attributes={"floodawareness": float(c["who"][i])})
    for loc in locs:
        fenv.scoring.updateLocationScore(t, loc)
    out = []
    for a in e.agents:
        ws, rs = fenv.moving.selectRoute(a, time=t, return_all_routes=True)
        got = {}
        for w, r in zip(ws, rs):
            got.setdefault(tuple(r), []).append(float(w))
        out.append((float(fenv.moving.calculateMoveChance(a, False, t)), {k: sorted(v) for k, v in got.items()},
                    {l.name: float(l.getScore(1)) for l in locs}))
    return out


def same(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    net, y, t = c["net"], c["y"], c["t"]
    fr = y["move_rules"]["flood_rules"]
    ts, end = fr["flood_forecaster_timescale"], fr["flood_forecaster_end_time"]
    day, col, v = c["change"]
    if day <= t:
        day = min(c["days"] - 1, t + 1 + day % 3)
    if day <= t:
        return
    # the level of one location on one day to come
    t1, t2 = ([list(row) for row in c["table"]] for _ in range(2))
    t1[day][col], t2[day][col] = 0, v
    where = c["names"][col]
    a = figures(c, t1, y)
    b = figures(c, t2, y)
    known = t < day <= min(t + ts, end)
    off = figures(c, t1, dict(y, move_rules=dict(y["move_rules"], flood_rules=dict(fr, flood_forecaster=False))))
    # switched off, the other settings of the forecast have no meaning
    bare = {k: x for k, x in fr.items() if "forecaster" not in k and "awareness" not in k}
    none = figures(c, t2, dict(y, move_rules=dict(y["move_rules"], flood_rules=bare)))
    for i, (x0, xn) in enumerate(zip(off, none)):
        expect(same(x0[0], xn[0]) and sorted(x0[1]) == sorted(xn[1]) and all(
            same(p, q) for k in x0[1] for p, q in zip(x0[1][k], xn[1][k])),
            lambda: "agent at %s: %r with the forecaster off, %r with no settings for it" % (net["locs"][i]["n"], x0, xn))
    w = "day %d, forecast of %d days to day %d, level of %s on day %d changed from 0 to %d: " % (
        t, ts, end, net["locs"][where]["n"], day, v)
    for i, (x1, x2, x0) in enumerate(zip(a, b, off)):
        aw = fr["flood_awareness_weights"][c["who"][i]]
        here = known and aw > 0
        name = net["locs"][i]["n"]
        if i == where and here:
            if x0[0] > 0:
                expect(not same(x1[0], x2[0]), lambda: w + "move chance there is still %r" % x2[0])
        else:
            expect(same(x1[0], x2[0]), lambda: w + "move chance at %s changed from %r to %r" % (name, x1[0], x2[0]))
        expect_eq(sorted(x1[1]), sorted(x2[1]), w + "routes from " + name)
        for n in x1[2]:
            g1, g2 = x1[2][n], x2[2][n]
            if n == net["locs"][where]["n"] and known:
                if g1 > 0:
                    s.label("score known")
                if net["locs"][where]["t"] == "flood_zone":
                    expect(not same(g1, g2), lambda: w + "score there is still %r" % g2)
            else:
                expect(same(g1, g2), lambda: w + "score of %s changed from %r to %r" % (n, g1, g2))
        for k in x1[1]:
            for u1, u2, u0 in zip(x1[1][k], x2[1][k], x0[1][k]):
                if k[-1] == net["locs"][where]["n"] and here:
                    if u0 > 0:
                        expect(not same(u1, u2), lambda: w + "weight of %r is still %r" % (k, u2))
                        # the weight follows the forecast by way of the score of the place, and by the agent's own judgement
                        g1, g2 = (x[2][k[-1]] for x in (x1, x2))
                        if g1 > 0 and u1 > 0:
                            expect(not same(u1 / g1, u2 / g2), lambda: w + "weight of %r went from %r to %r, just as the score "
                                   "of the place did" % (k, u1, u2))
                else:
                    expect(same(u1, u2), lambda: w + "weight of %r changed from %r to %r" % (k, u1, u2))
                if t > end or ts == 0:
                    expect(same(u1, u0), lambda: w + "weight of %r is %r, %r without forecasts" % (k, u1, u0))
        if t > end or ts == 0:
            expect(same(x1[0], x0[0]), lambda: w + "move chance at %s is %r, %r without forecasts" % (name, x1[0], x0[0]))
    # the weights of other people's awareness do not matter
    me = c["who"][0]
    aws = [x if k == me else c["other"][k] for k, x in enumerate(fr["flood_awareness_weights"])]
    o = figures(c, t1, dict(y, move_rules=dict(y["move_rules"], flood_rules=dict(fr, flood_awareness_weights=aws))))
    for i, (x1, x2) in enumerate(zip(a, o)):
        if c["who"][i] == me:
            expect(same(x1[0], x2[0]), lambda: "move chance of an agent with awareness %d depends on the weights of others" % me)
            expect_eq({k: len(u) for k, u in x1[1].items()}, {k: len(u) for k, u in x2[1].items()}, "routes")
            expect(all(same(p, q) for k in x1[1] for p, q in zip(x1[1][k], x2[1][k])),
                   "route weights of an agent with awareness %d depend on the weights of others" % me)
    s.label("known", known)
    s.label("beyond the days", day > t + ts)
    s.label("beyond the end", day > end)
    s.nontrivial(known)


SUBS = [Sub("reach", lambda: case(), judge, quick=2400, shards=8)]
