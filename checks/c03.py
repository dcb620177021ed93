"""C03: an agent departs exactly when its draw falls below the prescribed move chance."""
import contextlib
import random

from hypothesis import strategies as st

import fenv
import hist
import indep
from vlib import Sub, expect, expect_close, expect_eq, workdir

RULE = ("A case is a network with random location types, explicit move chances, populations, capacities and move "
        "settings, optional type changes, and a draw u placed just below, at or above the reference move chance of "
        "one location; every agent must depart iff u is below the reference chance of its location and an open link "
        "exists.  Non-trivial: at least one agent departs and one stays, or u is within 1e-6 of a threshold.  In "
        "'coins' agents appear daily at two places for 8 x 30 days; the numbers that set out each day are compared with "
        "independent decisions of the configured chance (mean, spread within a day, correlation between successive days "
        "and between the places).")


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, big=True, connected=draw(st.integers(0, 3)) > 0,
                                 types=("town", "conflict_zone", "camp", "forwarding_hub", "idpcamp", "default"),
                                 caps=st.sampled_from([-1, 500, 20000, 1000000]), conflict_attr=False,
                                 dists=st.sampled_from([20001.0, 30000.0])))
    for d in net["locs"]:
        if draw(st.integers(0, 4)) == 0:
            d["t"] = None
            d["mc"] = draw(st.sampled_from([0.0, 0.004, 0.0049999, 0.005, 0.02, 0.5, 1.0]))
    m = {}
    for k, vals in (("default_movechance", [0.0, 0.1, 0.3, 0.999, 1.0]), ("camp_movechance", [0.0, 0.001, 0.1, 1.0]),
                    ("idpcamp_movechance", [0.0, 0.1, 0.25, 1.0]), ("conflict_movechance", [0.0, 0.2, 1.0])):
        if draw(st.booleans()):
            m[k] = draw(st.sampled_from(vals) | st.floats(0.0, 1.0).map(lambda v: round(v, 4)))
    if draw(st.integers(0, 2)) == 0:
        m["movechance_pop_scale_factor"] = draw(st.sampled_from([0.1, 0.5, 1.0, 2.0]))
        if draw(st.booleans()):
            m["movechance_pop_base"] = draw(st.sampled_from([1.0, 500.0, 10000.0, 1000000.0]))
    m["awareness_level"] = draw(st.integers(0, 2))
    if draw(st.integers(0, 4)) == 0:
        m["fixed_routes"] = True
    n = len(net["locs"])
    changes = draw(st.lists(st.tuples(st.sampled_from(["type", "camp_open", "camp_close", "conflict"]),
                                      st.integers(0, n - 1),
                                      st.sampled_from(["town", "conflict_zone", "camp", "forwarding_hub", "idpcamp",
                                                       "default"]), st.booleans()).map(list), max_size=2))
    closed = draw(st.lists(st.integers(0, n - 1), max_size=1))
    return {"net": net, "y": {"move_rules": m}, "changes": changes, "closed": closed,
            "at": draw(st.integers(0, n - 1)), "mode": draw(st.sampled_from(["below", "at", "above", "mid", "zero",
                                                                            "one"])),
            "pre": draw(st.integers(0, 2)), "seed": draw(st.integers(0, 10 ** 6))}


@contextlib.contextmanager
def drawn(u):
    """Every uniform draw of the standard generator is u."""
    fixed = random.Random(0)
    fixed.random = lambda: u
    saved = {n: getattr(random, n) for n in ("uniform", "random")}
    random.random, random.uniform = fixed.random, fixed.uniform
    try:
        yield
    finally:
        random.random, random.uniform = saved["random"], saved["uniform"]


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    fenv.fresh(c["y"], c["seed"])
    net, y = c["net"], c["y"]
    e, locs = fenv.build(net)
    chance = []
    for d in net["locs"]:
        chance.append(d["mc"] if d["t"] is None else fenv.type_movechance(y, d["t"]))
    for kind, i, t, flag in c["changes"]:
        if kind == "type":
            e.change_location_type(locs[i].name, t)
            chance[i] = fenv.type_movechance(y, t)
        elif kind == "camp_open":
            e.open_camp(locs[i].name, IDP=flag)
            chance[i] = float(fenv.mv(y, "idpcamp_movechance" if flag else "camp_movechance"))
        elif kind == "camp_close":
            e.close_camp(locs[i].name, IDP=flag)
            chance[i] = float(fenv.mv(y, "default_movechance"))
        else:
            e.add_conflict_zone(locs[i].name)
            chance[i] = float(fenv.mv(y, "conflict_movechance"))
    for i in c["closed"]:
        e.close_location(location_name=locs[i].name)
    p = []
    for i, d in enumerate(net["locs"]):
        size = max(d["pop"], d.get("cap", -1))
        f = float(fenv.mv(y, "movechance_pop_scale_factor"))
        scale = 1.0 if f == 0.0 else (size / float(fenv.mv(y, "movechance_pop_base"))) ** f
        p.append(chance[i] * scale)
    exits = [0] * len(locs)
    for l in net["links"]:
        if l[0] not in c["closed"] and l[1] not in c["closed"]:
            exits[l[0]] += 1
            exits[l[1]] += 1
    for i, loc in enumerate(locs):
        e.insertAgent(location=loc, attributes={})
    for a, q in zip(e.agents, p):
        expect_close(fenv.moving.calculateMoveChance(a, False, e.time), q,
                     "move chance at %s" % a.location.name, rel=1e-9)
    # only u < 1 can be drawn
    q = p[c["at"]]
    u = {"below": q * (1 - 1e-9) - 1e-15, "at": q, "above": q * (1 + 1e-9) + 1e-15, "mid": q / 2, "zero": 0.0,
         "one": 1 - 1e-12}[c["mode"]]
    u = min(max(u, 0.0), 1 - 1e-12)
    with drawn(u):
        e.evolve()
    went = 0
    for i, a in enumerate(e.agents):
        if abs(u - p[i]) <= 1e-12 * max(1.0, p[i]) and u != p[i]:
            continue        # rounding of the product could decide either way
        if u == p[i] and i != c["at"] and p[i] != 0.0 and fenv.mv(y, "movechance_pop_scale_factor") != 0.0:
            continue
        if u == p[i] and fenv.mv(y, "movechance_pop_scale_factor") != 0.0 and p[i] != 0.0:
            continue
        want = u < p[i] and exits[i] > 0
        got = fenv.is_link(a.location)
        expect_eq(got, want, "departure of the agent at %s (chance %r, draw %r, %d open links)"
                  % (locs[i].name, p[i], u, exits[i]))
        if got:
            went += 1
            expect(a.location.startpoint is locs[i], "agent at %s left over a link from %s"
                   % (locs[i].name, a.location.startpoint.name))
            expect(a.location in locs[i].links, "agent at %s left over a link that is not open" % locs[i].name)
        else:
            expect(a.location is locs[i], "agent at %s moved without travelling" % locs[i].name)
    s.label("no_exit", any(x == 0 for x in exits))
    s.label("pop_scaled", fenv.mv(y, "movechance_pop_scale_factor") != 0.0)
    s.nontrivial(0 < went < len(locs) or c["mode"] in ("below", "at", "above"))


# -------------------------------------------------------- independent decisions

@st.composite
def coins_case(draw):
    chance = st.sampled_from([0.05, 0.2, 0.3, 0.5, 0.5, 0.8, 0.95])
    types = draw(st.sampled_from([("town", "town"), ("town", "conflict_zone"), ("conflict_zone", "conflict_zone"),
                                  ("camp", "town"), ("idpcamp", "conflict_zone"), ("camp", "camp")]))
    m = {"default_movechance": draw(chance), "conflict_movechance": draw(chance), "camp_movechance": draw(chance),
         "idpcamp_movechance": draw(chance), "max_move_speed": 1.0, "awareness_level": draw(st.sampled_from([0, 1]))}
    if draw(st.integers(0, 4)) == 0:
        m["fixed_routes"] = True
    return {"types": list(types), "y": {"move_rules": m}, "per": draw(st.lists(st.integers(2, 8), min_size=2, max_size=2)),
            "shared": draw(st.booleans()), "days": 30, "rounds": 8, "seed": draw(st.integers(0, 10 ** 6))}


def coins_judge(c, s):
    with workdir():
        fenv.fresh(c["y"], c["seed"])
        p = [fenv.type_movechance(c["y"], t) for t in c["types"]]
        series = [[], []]
        for _ in range(c["rounds"]):
            e = fenv.flee.Ecosystem()
            e.print_location_output = False
            src = [e.addLocation(name=n, location_type=t) for n, t in zip(("A", "B"), c["types"])]
            for i, n in enumerate(("C",) if c["shared"] else ("C", "D")):
                e.addLocation(name=n, location_type="town")
                e.linkUp("AB"[i], n, 1000.0)
            if c["shared"]:
                e.linkUp("B", "C", 1000.0)
            for _d in range(c["days"]):
                for l, k in zip(src, c["per"]):
                    e.insertAgents(location=l, number=k)
                pre = [(a, src.index(a.location)) for a in e.agents if not fenv.is_link(a.location)]
                e.evolve()
                n, went = [0, 0], [0, 0]
                for a, i in pre:
                    n[i] += 1
                    went[i] += fenv.is_link(a.location)
                for i in (0, 1):
                    series[i].append((went[i], n[i], p[i]))
        for i in (0, 1):
            indep.one(series[i], "departures from %s %s" % (c["types"][i], "AB"[i]))
        indep.two(series[0], series[1], "departures from %s A and %s B" % tuple(c["types"]))
        s.nontrivial(all(0.0 < q < 1.0 for q in p))


SUBS = [Sub("departures", lambda: case(), judge, quick=6000, shards=8),
        Sub("coins", lambda: coins_case(), coins_judge, quick=300, shards=6)]
