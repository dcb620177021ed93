"""C24: a parallel run decides as a serial run does."""
from collections import Counter

from hypothesis import strategies as st

import c03
import fenv
import hist
import indep
import simmpi
from vlib import Sub, close, expect, expect_close, expect_eq, quiet, workdir

RULE = ("The same network, settings and history are run by the serial code and by the parallel code on 1-5 processes of a "
        "simulated MPI.  In 'decisions' the scores, spawn weights, fixed routes, move chances, capacity factors and route "
        "options (with weights) of agents at every location must be equal on every process; in 'journeys' the settings "
        "leave nothing to chance and the positions of all agents must be equal after every day; in 'departures' one draw decides for all, and as many agents as in the serial run set out from every "
        "place; in 'coins' the departures over 90 days on 2-4 processes are compared with independent decisions of the "
        "configured chance, per process and per place.  Non-trivial: at least two "
        "processes and, in 'decisions', scores that differ between locations or changed, in 'journeys', agents that moved "
        "on two days.")

with quiet():
    simmpi.copies(5)

TYPES = ("town", "conflict_zone", "camp", "idpcamp", "marker", "forwarding_hub", "default", "flood_zone")


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=draw(st.sampled_from([1, 2, 4, 7, 9])), max_locs=11, coords=True, types=TYPES,
                                 pops=st.sampled_from([0, 10, 500, 9999]), max_extra=4))
    m = {}

    def opt(k, vals, p=1):
        if draw(st.integers(0, p)) == 0:
            m[k] = draw(st.sampled_from(vals))
    opt("awareness_level", [0, 2, 3])
    opt("foreign_weight", [0.5, 2.0])
    opt("camp_weight", [0.25, 2.0, 5.0])
    opt("conflict_weight", [0.1, 0.25, 0.9])
    opt("weight_power", [0.5, 2.0], 3)
    opt("distance_power", [0.5, 2.0], 3)
    opt("capacity_buffer", [0.0, 0.5], 2)
    opt("capacity_scaling", [0.5, 2.0], 2)
    opt("use_pop_for_loc_weight", [True], 3)
    opt("stay_close_to_home", [True], 3)
    opt("movechance_pop_scale_factor", [0.5], 3)
    opt("fixed_routes", [True], 2)
    sp = {}
    if draw(st.integers(0, 2)) == 0:
        sp["conflict_spawn_decay"] = draw(st.lists(st.sampled_from([1.0, 0.9, 0.5, 0.1]), min_size=1, max_size=3))
        sp["conflict_spawn_decay_interval"] = draw(st.sampled_from([1, 2, 3]))
    flood = draw(st.integers(0, 3)) == 0
    if flood:
        sp.update(flood_zone_spawning_only=True, conflict_zone_spawning_only=False, take_from_population=True,
                  flood_driven_spawning={"spawn_mode": "constant", "displaced_per_flood_day": [0, 0, 0]})
        m["flood_rules"] = {"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 1.0],
                            "flood_loc_weights": [1.0, 0.5, 0.1]}
    y = {"move_rules": m, "spawn_rules": sp}
    n = len(net["locs"])
    i = st.integers(0, n - 1)
    kinds = ("close_link", "reopen_link", "remove_link", "close_border", "reopen_border", "close_loc", "reopen_loc", "type",
             "type", "conflict", "conflict", "camp_open", "camp_close", "day", "day", "day", "flood" if flood else "day")
    ops = [["day", draw(st.integers(1, 2))]] if draw(st.booleans()) else []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(kinds))
        if k == "day":
            ops.append([k, draw(st.integers(1, 4))])
        elif k == "flood":
            ops.append([k, draw(i), draw(st.integers(0, 2))])
        elif k in ("type", "conflict", "camp_open", "camp_close"):
            ops.append(draw(hist.op_strategy((k,))))
        else:
            o = draw(hist.op_strategy((k,)))
            ops.append(o)
    ops.append(["day", 1])
    K = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 5]))
    return {"net": net, "y": y, "ops": ops, "K": K, "order": draw(st.permutations(list(range(K)))),
            "crowd": draw(st.lists(st.integers(0, 5), min_size=n, max_size=n)),
            "mode": draw(st.sampled_from(["loc-par", "classic"])),
            "latency": draw(st.sampled_from(["high_latency", "low_latency"])), "seed": draw(st.integers(0, 10 ** 6))}


def do(e, net, op):
    if op[0] == "flood":
        e.locations[op[1]].attributes["flood_level"] = op[2]
    elif op[0] != "day":
        hist.apply_op(e, e.locations, net, op)


def routes_of(e):
    return [{k: (float(v[0]), list(v[1]), v[2].name) for k, v in loc.routes.items()} for loc in e.locations]


def same_routes(a, b, w):
    for i, (x, z) in enumerate(zip(a, b)):
        expect_eq(sorted(x), sorted(z), w + "destinations of the fixed routes at location %d" % i)
        for k in x:
            expect_close(x[k][0], z[k][0], w + "weight of the fixed route from %d to %s" % (i, k), rel=1e-9, abs_=1e-300)
            if x[k][1] != z[k][1]:
                # several ways of equal weight
                expect(x[k][2] == z[k][2] and len(x[k][1]) > 0, w + "fixed route from %d to %s: %r or %r" % (i, k, x[k], z[k]))


def options(m, a, t):
    try:
        ws, rs = m.selectRoute(a, time=t, return_all_routes=True)
    except ValueError:
        return None
    return sorted((tuple(r), float(w)) for w, r in zip(ws, rs))


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    K, net, y = c["K"], c["net"], c["y"]
    fenv.fresh(y, c["seed"])
    se, slocs = fenv.build(net)
    w = simmpi.World(K, y, c["seed"], c["order"])
    ecos = w.build(net, c["mode"], c["latency"])
    n = len(slocs)
    first = None
    nt = False
    for idx, op in enumerate(c["ops"]):
        if op[0] != "day":
            do(se, net, op)
            w.each(lambda e, m, r: do(e, net, op))
            continue
        for _ in range(op[1]):
            se.evolve()
            w.each(lambda e, m, r: e.evolve())
            want = [float(l.getScore(1)) for l in slocs]
            first = first or want
            nt = nt or len(set(want)) > 1 or want != first
            got = w.each(lambda e, m, r: ([float(l.getScore(1)) for l in e.locations],
                                          [float(x) for x in e.spawn_weights], routes_of(e)))
            for r in range(K):
                p = "op %d, day %d, process %d of %d (%s): " % (idx, se.time - 1, r, K, c["mode"])
                for i in range(n):
                    expect_close(got[r][0][i], want[i], p + "score of " + slocs[i].name)
                    expect_close(got[r][1][i], float(se.spawn_weights[i]), p + "spawn weight of " + slocs[i].name)
                same_routes(got[r][2], routes_of(se), p)
    # a crowd at every location, one of them on each process
    for i in range(n):
        x = c["crowd"][i] + 1
        se.insertAgents(location=slocs[i], number=x * K)
        w.each(lambda e, m, r: e.insertAgents(location=e.locations[i], number=x * K))
    w.each(lambda e, m, r: e.updateNumAgents(log=False))
    t = se.time

    def probe(e, mov, one):
        out = []
        for i, loc in enumerate(e.locations):
            a = [a for a in e.agents if a.location is loc]
            if not one:
                expect_eq(len(a), c["crowd"][i] + 1, "agents of this process at " + loc.name)
            res = [float(mov.calculateMoveChance(a[0], False, t)), float(mov.calculateMoveChance(a[0], True, t)),
                   float(mov.getCapMultiplier(loc, 0)), int(loc.numAgents)]
            if fenv.mv(y, "awareness_level") > 0 and not y["move_rules"].get("fixed_routes"):
                res.append(options(mov, a[0], t))
            out.append(res)
        return out
    want = probe(se, fenv.moving, True)
    got = w.each(lambda e, m, r: probe(e, m.moving, False))
    for r in range(K):
        for i in range(n):
            p = "process %d of %d (%s, %s), agent at %s: " % (r, K, c["mode"], c["latency"], slocs[i].name)
            for k, what in enumerate(("move chance", "move chance on a short stint", "capacity factor", "agents there")):
                expect_close(got[r][i][k], want[i][k], p + what)
            if len(want[i]) > 4:
                a, b = got[r][i][4], want[i][4]
                expect_eq([x for x, _ in a], [x for x, _ in b], p + "routes considered")
                for (x, u), (_, v) in zip(a, b):
                    expect_close(u, v, p + "weight of route %r" % (x,), rel=1e-9, abs_=1e-300)
    s.label(c["mode"])
    s.label("fixed", bool(y["move_rules"].get("fixed_routes")))
    s.label("flood", "flood_rules" in y["move_rules"])
    s.nontrivial(K > 1 and nt)


# ----------------------------------------------------------------- journeys

@st.composite
def jcase(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=7, connected=True, types=("town", "town", "conflict_zone", "camp",
                                                                               "forwarding_hub", "marker", "idpcamp"),
                                 pops=st.just(5000), caps=st.just(-1), max_extra=4))
    # lengths whose sums never coincide
    for k, l in enumerate(net["links"]):
        l[2] = round(draw(st.sampled_from([20.0, 45.0, 90.0, 150.0, 400.0])) + (k + 1) ** 0.5 * 3.1, 6)
        if draw(st.integers(0, 5)) == 0:
            l.append(draw(st.sampled_from([{"max_move_speed": 25.0}, {"max_move_speed": 130.0}, {"walk_probability": 1.0}])))
    m = {"pruning_threshold": 1.0011, "weight_power": 20.0, "default_movechance": 1.0, "conflict_movechance": 1.0,
         "camp_movechance": draw(st.sampled_from([0.0, 1.0])), "idpcamp_movechance": draw(st.sampled_from([0.0, 1.0])),
         "max_move_speed": draw(st.sampled_from([40.0, 100.0, 222.0])), "awareness_level": draw(st.integers(1, 3))}
    for k, v in (("avoid_short_stints", True), ("start_on_foot", True), ("use_pop_for_loc_weight", True)):
        if draw(st.integers(0, 2)) == 0:
            m[k] = v
    m["camp_weight"] = draw(st.sampled_from([1.0, 3.0]))
    m["conflict_weight"] = draw(st.sampled_from([0.25, 0.7]))
    sp = {}
    if draw(st.booleans()):
        sp["conflict_driven_spawning"] = {"displaced_per_conflict_day": draw(st.integers(1, 5))}
    if draw(st.integers(0, 2)) == 0:
        sp["take_from_population"] = True
    y = {"move_rules": m, "spawn_rules": sp}
    if draw(st.booleans()):
        y["log_levels"] = {"agent": draw(st.integers(1, 3)), "link": draw(st.integers(0, 2))}
    kinds = ("evolve",) * 8 + ("insert", "add", "add", "insertmany", "clear", "close_link", "reopen_link", "remove_link",
                               "close_border", "reopen_border", "close_loc", "reopen_loc", "type", "conflict", "conflict",
                               "camp_close")
    ops = draw(hist.history(kinds, min_size=2, max_size=10))
    if "conflict_driven_spawning" in sp:
        ops = [["driven"] if o[0] in ("insert", "add") else o for o in ops]
    first = [["insertmany", draw(st.integers(0, 6)), draw(st.integers(2, 7))], ["evolve", draw(st.integers(1, 3))]]
    K = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    return {"net": net, "y": y, "ops": first + ops, "K": K, "order": draw(st.permutations(list(range(K)))),
            "mode": draw(st.sampled_from(["loc-par", "classic"])),
            "latency": draw(st.sampled_from(["high_latency", "low_latency"])), "seed": draw(st.integers(0, 10 ** 6))}


def positions(agents):
    return Counter((hist.place_key(a.location), round(float(a.distance_travelled_on_link), 5) if fenv.is_link(a.location) else 0.0,
                    a.places_travelled, tuple(a.route), a.timesteps_since_departure,
                    a.home_location.name) for a in agents)


def jjudge(c, s):
    with workdir():
        _jjudge(c, s)


def _jjudge(c, s):
    K, net, y = c["K"], c["net"], c["y"]
    fenv.fresh(y, c["seed"])
    se, slocs = fenv.build(net)
    w = simmpi.World(K, y, c["seed"], c["order"])
    ecos = w.build(net, c["mode"], c["latency"])
    moved = 0
    for idx, op in enumerate(c["ops"]):
        if op[0] == "evolve":
            for _ in range(op[1]):
                before = positions(se.agents)
                se.evolve()
                w.each(lambda e, m, r: e.evolve())
                want = positions(se.agents)
                moved += want != before
                got = sum((positions(e.agents) for e in ecos), Counter())
                if got != want:
                    k = sorted((got - want).items(), key=repr)[:2]
                    l = sorted((want - got).items(), key=repr)[:2]
                    expect(False, "op %d, day %d, %d processes (%s, %s): in the parallel run but not in the serial run %r, the "
                           "other way round %r (place, km on it, places visited, route, days, home)"
                           % (idx, se.time - 1, K, c["mode"], c["latency"], k, l))
                for r, e in enumerate(ecos):
                    for l, sl in zip(e.locations, slocs):
                        expect_eq(int(l.numAgents), int(sl.numAgents), "day %d: agents at %s on process %d" % (se.time - 1, l.name, r))
                        expect_eq(int(l.pop), int(sl.pop), "day %d: population of %s on process %d" % (se.time - 1, l.name, r))
            continue
        if op[0] == "driven":
            x = fenv.spawning.spawn_daily_displaced(se, se.time, None)
            z = w.each(lambda e, m, r: m.spawning.spawn_daily_displaced(e, e.time, None))
            expect_eq([tuple(v) for v in z], [tuple(x)] * K, "op %d: result of the day's spawning" % idx)
        else:
            hist.apply_op(se, se.locations, net, op)
            w.each(lambda e, m, r: hist.apply_op(e, e.locations, net, op))
    s.label(c["mode"])
    s.label("driven", any(o[0] == "driven" for o in c["ops"]))
    s.nontrivial(K > 1 and moved >= 2)


# --------------------------------------------------------------- departures

@st.composite
def dcase(draw):
    c = draw(c03.case())
    for d in c["net"]["locs"]:
        if d["t"] is None:
            d["t"] = "town"
    K = draw(st.sampled_from([1, 2, 2, 3, 4]))
    return {"net": c["net"], "y": c["y"], "changes": c["changes"], "at": c["at"], "K": K,
            "us": draw(st.lists(st.sampled_from(["below", "at", "above", "mid", "zero", "one", "half"]), min_size=1, max_size=3)),
            "n": draw(st.integers(1, 3)), "order": draw(st.permutations(list(range(K)))),
            "mode": draw(st.sampled_from(["loc-par", "classic"])),
            "latency": draw(st.sampled_from(["high_latency", "low_latency"])), "seed": c["seed"]}


def left(agents):
    return Counter(("left", a.location.startpoint.name) if fenv.is_link(a.location) else ("stays at", a.location.name) for a in agents)


def djudge(c, s):
    with workdir():
        K, net, y = c["K"], c["net"], c["y"]
        fenv.fresh(y, c["seed"])
        se, slocs = fenv.build(net)
        w = simmpi.World(K, y, c["seed"], c["order"])
        w.build(net, c["mode"], c["latency"])

        def prepare(e, *_):
            for kind, i, t, flag in c["changes"]:
                nm = e.locations[i].name
                if kind == "type":
                    e.change_location_type(nm, t)
                elif kind == "camp_open":
                    e.open_camp(nm, IDP=flag)
                elif kind == "camp_close":
                    e.close_camp(nm, IDP=flag)
                else:
                    e.add_conflict_zone(nm)
            for l in e.locations:
                e.insertAgents(location=l, number=K * c["n"])
        prepare(se)
        w.each(prepare)
        some = False
        for t, how in enumerate(c["us"]):
            q = fenv.moving.calculateMoveChance(se.agents[c["at"] * K * c["n"]], False, se.time) if t == 0 else q
            u = {"below": q * (1 - 1e-9) - 1e-15, "at": q, "above": q * (1 + 1e-9) + 1e-15, "mid": q / 2, "zero": 0.0,
                 "one": 1 - 1e-12, "half": 0.5}[how]
            u = min(max(u, 0.0), 1 - 1e-12)
            with c03.drawn(u):
                se.evolve()
                w.each(lambda e, m, r: e.evolve())
            want = left(se.agents)
            got = sum(w.each(lambda e, m, r: left(e.agents)), Counter())
            expect_eq(sorted(got.items()), sorted(want.items()), "day %d, draw %r, %d processes (%s): agents in the parallel run"
                      % (t, u, K, c["mode"]))
            some = some or len(set(k[0] for k in want)) > 1
        s.label(c["mode"])
        s.nontrivial(K > 1 and some)


@st.composite
def ccase(draw):
    chance = st.sampled_from([0.1, 0.3, 0.5, 0.5, 0.8])
    K = draw(st.integers(2, 4))
    return {"y": {"move_rules": {"default_movechance": draw(chance), "conflict_movechance": draw(chance), "max_move_speed": 1.0,
                                 "awareness_level": draw(st.sampled_from([0, 1]))}},
            "per": draw(st.integers(2, 4)), "K": K, "order": draw(st.permutations(list(range(K)))),
            "mode": draw(st.sampled_from(["loc-par", "classic"])), "seed": draw(st.integers(0, 10 ** 6))}


def cjudge(c, s):
    with workdir():
        K = c["K"]
        fenv.fresh(c["y"], c["seed"])
        p = [fenv.type_movechance(c["y"], t) for t in ("town", "conflict_zone")]
        net = {"locs": [{"n": "A", "t": "town"}, {"n": "B", "t": "conflict_zone"}, {"n": "C", "t": "town"}],
               "links": [[0, 2, 1e5], [1, 2, 1e5]]}
        places, ranks = [[], []], [[] for _ in range(K)]
        for k in range(3):
            w = simmpi.World(K, c["y"], c["seed"] + k, c["order"])
            w.build(net, c["mode"], "high_latency")

            def day(e, m, r):
                for l in e.locations[:2]:
                    e.insertAgents(location=l, number=K * c["per"])
                pre = [(a, a.location is e.locations[1]) for a in e.agents if not fenv.is_link(a.location)]
                e.evolve()
                return [(sum(fenv.is_link(a.location) for a, z in pre if z == i), sum(z == i for _, z in pre)) for i in (0, 1)]
            for _ in range(30):
                got = w.each(day)
                for i in (0, 1):
                    places[i].append((sum(g[i][0] for g in got), sum(g[i][1] for g in got), p[i]))
                for r in range(K):
                    ranks[r].append((got[r][1][0], got[r][1][1], p[1]))
        for i in (0, 1):
            indep.one(places[i], "departures from %s on %d processes" % ("AB"[i], K))
        for r in range(K):
            indep.one(ranks[r], "departures from B on process %d of %d" % (r, K))
        for r in range(1, K):
            indep.two(ranks[0], ranks[r], "departures from B on processes 0 and %d" % r)
        indep.two(places[0], places[1], "departures from A and B on %d processes" % K)
        s.nontrivial(True)


SUBS = [Sub("departures", lambda: dcase(), djudge, quick=500, shards=4), Sub("coins", lambda: ccase(), cjudge, quick=60, shards=4),
        Sub("decisions", lambda: case(), judge, quick=700, shards=4),
        Sub("journeys", lambda: jcase(), jjudge, quick=450, shards=4)]
