"""C14: where new agents start: spawn weights and the choice of locations."""
import math
from collections import Counter

from hypothesis import strategies as st

import fenv
import ref
from vlib import Sub, expect, expect_close, expect_eq, workdir

RULE = ("Cases: histories of conflict, type and population changes after which the spawn weight of every location is "
        "compared with population x intensity x decay; and samples of 500 to 1500 drawn locations (through both public "
        "routes, at once or a few at a time) tallied against the weights at 6 standard deviations.  Non-trivial: at least two "
        "different positive weights.")


@st.composite
def weight_case(draw):
    net = draw(fenv.net_strategy(min_locs=1, max_locs=5, big=True, types=("town", "conflict_zone", "conflict_zone", "camp", "marker"),
                                 pops=st.sampled_from([0, 1, 3, 100, 9999, 250000]),
                                 dists=st.sampled_from([20.0, 50.0, 100.0, 500.0])))
    sp = {}
    if draw(st.booleans()):
        sp["conflict_spawn_decay"] = draw(st.lists(st.sampled_from([1.0, 0.9, 0.5, 0.0, 2.0]),
                                                      max_size=draw(st.sampled_from([4, 4, 12]))))
        if draw(st.booleans()):
            sp["conflict_spawn_decay_interval"] = draw(st.sampled_from([1, 2, 5]))
    if draw(st.booleans()):
        sp["take_from_population"] = True
    if draw(st.integers(0, 7)) == 0:
        sp["conflict_driven_spawning"] = {"displaced_per_conflict_day": 3}
    n = len(net["locs"])
    i = st.integers(0, n - 1)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("day"), st.integers(1, 4) | st.sampled_from([1, 12, 60])).map(list),
        st.tuples(st.just("conflict"), i, st.sampled_from([0.0, 0.1, 1.0, 3.0, 1e-7])).map(list),
        st.tuples(st.just("type"), i, st.sampled_from(["town", "conflict_zone", "camp", "marker"])).map(list),
        st.tuples(st.just("add"), i, st.integers(1, 4)).map(list),
        st.tuples(st.just("spawn"), st.integers(1, 4)).map(list),
        st.tuples(st.just("insert"), i, st.integers(1, 4)).map(list)), min_size=1, max_size=9))
    return {"net": net, "sp": sp, "ops": ops, "seed": draw(st.integers(0, 10 ** 6)),
            "only": True}


def weight_judge(c, s):
    with workdir():
        sp = dict(c["sp"])
        if not c["only"]:
            sp["conflict_zone_spawning_only"] = False
        y = {"spawn_rules": sp} if sp else {}
        fenv.fresh(y, c["seed"])
        e, locs = fenv.build(c["net"])
        r = ref.rnet(c["net"], y)
        take = bool(sp.get("take_from_population"))
        driven = "conflict_driven_spawning" in sp
        t = 0
        big = set()

        def compare(where):
            ws = []
            for k, (loc, x) in enumerate(zip(locs, r)):
                w = 0.0
                if x.conflict > 0 and not driven:
                    w = x.pop * x.conflict * ref.decay(y, t - x.since)
                ws.append(w)
                if w > 0:
                    big.add(round(w, 6))
                if c["only"]:
                    expect_close(e.spawn_weights[k], w, "%s: spawn weight of %s (population %d, conflict %r since %d)"
                                 % (where, x.name, x.pop, x.conflict, x.since))
                elif x.conflict <= 0 and x.pop > 0:
                    expect(e.spawn_weights[k] > 0, "%s: agents are not spawned from %s, outside the conflict zones"
                           % (where, x.name))
            return ws
        fenv.spawning.refresh_spawn_weights(e)
        compare("initially")
        for k, op in enumerate(c["ops"]):
            where = "after op %d %r" % (k, op)
            if op[0] == "day":
                for _ in range(op[1]):
                    e.evolve()
                    compare(where + ", day %d" % t)
                    t += 1
                continue
            if op[0] == "conflict":
                x = r[op[1]]
                if x.camp:
                    continue
                e.set_conflict_intensity(x.name, op[2])
                if op[2] < 1e-6:
                    x.conflict = 0.0
                else:
                    x.conflict, x.since = op[2], t
                # refreshed at once
                compare(where)
            elif op[0] == "type":
                x = r[op[1]]
                e.change_location_type(x.name, op[2])
                f = fenv.type_flags(op[2])
                x.camp = f["camp"]
                x.conflict = 0.0
                if f["conflict"]:
                    x.conflict, x.since = float(x.attrs.get("conflict_intensity", 1.0)), t
                compare(where)
            elif op[0] == "add":
                for _ in range(op[2]):
                    e.addAgent(location=locs[op[1]], attributes={})
                if take:
                    r[op[1]].pop = max(0, r[op[1]].pop - op[2])
            elif op[0] == "insert":
                for _ in range(op[2]):
                    e.insertAgent(location=locs[op[1]], attributes={})
            elif op[0] == "spawn":
                fenv.spawning.refresh_spawn_weights(e)
                if not sum(e.spawn_weights) > 0:
                    continue
                before = [l.numAgents for l in locs]
                fenv.spawning.spawn_agents(e, op[1])
                g = [l.numAgents - b for l, b in zip(locs, before)]
                expect_eq(sum(g), op[1], where + ": agents spawned")
                for x, k2 in zip(r, g):
                    expect(k2 == 0 or x.conflict > 0 and x.pop > 0, lambda: "%s: %d agents spawned at %s, weight 0"
                           % (where, k2, x.name))
                    if take:
                        x.pop = max(0, x.pop - k2)
            for loc, x in zip(locs, r):
                expect_eq(loc.pop, x.pop, where + ": population of " + x.name)
            fenv.spawning.refresh_spawn_weights(e)
            compare(where + " and a refresh")
        s.nontrivial(len(big) >= 2)


@st.composite
def pick_case(draw):
    n = draw(st.integers(1, 6))
    locs = [{"n": "Z%d" % i, "t": draw(st.sampled_from(["conflict_zone", "conflict_zone", "town", "camp"])),
             "pop": draw(st.sampled_from([0, 1, 10, 100, 250, 1000])),
             "a": {"conflict_intensity": draw(st.sampled_from([0.5, 1.0, 3.0]))}} for i in range(n)]
    locs[draw(st.integers(0, n - 1))].update(t="conflict_zone", pop=100)
    return {"locs": locs, "how": draw(st.sampled_from(["pick", "spawn", "batch"])), "k": draw(st.integers(1, 5)),
            "seed": draw(st.integers(0, 10 ** 6))}


def pick_judge(c, s):
    fenv.fresh({}, c["seed"])
    e, locs = fenv.build({"locs": c["locs"], "links": []})
    fenv.spawning.refresh_spawn_weights(e)
    w = [d["pop"] * d["a"]["conflict_intensity"] if "conflict" in d["t"] else 0.0 for d in c["locs"]]
    if c["how"] == "pick":
        N = 1500
        got = list(e.pick_spawn_locations(N))
        expect_eq(len(got), N, "number of locations drawn")
        cnt = Counter(l.name for l in got)
        expect_eq([l.name for l in e.pick_spawn_locations(0)], [], "zero locations drawn")
    elif c["how"] == "batch":      # the few agents of each of many days are drawn independently of each other
        k, M = c["k"], 300
        N = k * M
        cnt, pairs = Counter(), 0
        for _ in range(M):
            got = [l.name for l in e.pick_spawn_locations(k)]
            expect_eq(len(got), k, "number of locations drawn")
            cnt.update(got)
            pairs += k > 1 and got[0] == got[-1]
        q = sum((x / sum(w)) ** 2 for x in w)
        expect(k == 1 or abs(pairs - M * q) <= 6 * math.sqrt(M * q * (1 - q)) + 1e-9 * (q in (0.0, 1.0)) + 3.0 * (q < 1.0),
               lambda: "the first and the last of %d agents of a day started in the same place on %d of %d days; expected %.1f"
               % (k, pairs, M, M * q))
    else:
        N = 500
        fenv.spawning.spawn_agents(e, N)
        cnt = Counter(a.location.name for a in e.agents)
        expect_eq(len(e.agents), N, "number of agents spawned")
    for d, x in zip(c["locs"], w):
        p = x / sum(w)
        k = cnt.get(d["n"], 0)
        expect(abs(k - N * p) <= 6 * math.sqrt(N * p * (1 - p)) + (1e-9 if p in (0.0, 1.0) else 3.0),
               lambda: "%s was drawn %d of %d times; its share of the weight is %.4f" % (d["n"], k, N, p))
    s.nontrivial(len(set(x for x in w if x > 0)) >= 2)


SUBS = [
    Sub("weights", lambda: weight_case(), weight_judge, quick=3500, shards=5),
    Sub("pick", lambda: pick_case(), pick_judge, quick=1200, shards=3),
]
