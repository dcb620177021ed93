"""C34: agents leave the simulation in sink camps, and only there, with the configured chance."""
from hypothesis import strategies as st

import fenv
import hist
import indep
import simmpi
from vlib import Sub, expect, expect_eq, quiet, workdir

RULE = ("In 'history' a network with deactivation probabilities of 0 and 1 (absent, numbers or texts) on locations of all "
        "types runs through days, insertions and changes of location types, serially or on 1-3 processes: at the end of "
        "each day no active agent is in a sink camp of probability 1, deactivated agents are counted at such camps and "
        "nowhere else, and nothing about a deactivated agent changes afterwards.  In 'coins' agents wait in two camps for "
        "8 x 30 days and the numbers deactivated daily are compared with independent decisions of the given chances "
        "(mean, spread within a day, correlation between days and between camps).  Non-trivial: an agent was deactivated "
        "and another active one remained in a location, or both chances are between 0 and 1.")

with quiet():
    simmpi.copies(3)

TYPES = ("town", "camp", "camp", "idpcamp", "conflict_zone", "forwarding_hub")


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, connected=True, types=TYPES, caps=st.sampled_from([-1, 5, 1000]),
                                 dists=st.sampled_from([5.0, 50.0, 100.0, 250.0]), conflict_attr=False))
    for d in net["locs"]:
        p = draw(st.sampled_from([None, 0.0, "0.0", 1.0, "1.0", 1.0, 1, "1"]))
        if p is not None:
            d["a"] = {"deactivation_probability": p}
    m = {"max_move_speed": draw(st.sampled_from([60.0, 120.0])), "awareness_level": draw(st.sampled_from([0, 1, 2])),
         "default_movechance": draw(st.sampled_from([0.5, 1.0])), "camp_movechance": draw(st.sampled_from([0.0, 0.2, 1.0])),
         "idpcamp_movechance": draw(st.sampled_from([0.1, 0.5]))}
    if draw(st.integers(0, 3)) == 0:
        m["fixed_routes"] = True
        m["awareness_level"] = max(1, m["awareness_level"])
    kinds = ("evolve", "evolve", "evolve", "insert", "type", "camp_open", "camp_close", "attr", "close_link", "reopen_link",
             "clear")
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(kinds))
        if k == "attr":
            ops.append([k, draw(st.integers(0, 11)), draw(st.sampled_from([0.0, 1.0, "1.0"]))])
        elif k == "type":
            ops.append([k, draw(st.integers(0, 11)), draw(st.sampled_from(["town", "camp", "idpcamp", "conflict_zone",
                                                                          "forwarding_hub"]))])
        else:
            ops.append(draw(hist.op_strategy((k,))))
    K = draw(st.sampled_from([0, 0, 1, 2, 3]))
    sp = {}
    on = draw(st.integers(0, 5))
    if on:
        sp["camps_are_sinks"] = True
    elif draw(st.booleans()):
        sp["camps_are_sinks"] = False
    y = {"move_rules": m, "spawn_rules": sp}
    if draw(st.integers(0, 2)) == 0:
        y["log_levels"] = {"agent": draw(st.integers(1, 3)), "camp": 1}
    first = 4 if draw(st.integers(0, 29)) else draw(st.sampled_from([60, 300]))
    return {"net": net, "y": y, "ops": [["insertmany", draw(st.integers(0, 5)), first], ["evolve", 2]] + ops + [["evolve", 1]],
            "K": K, "seed": draw(st.integers(0, 10 ** 6)), "mode": draw(st.sampled_from(["loc-par", "classic"])),
            "latency": draw(st.sampled_from(["high_latency", "low_latency"]))}


class Runs:
    """One serial ecosystem, or those of all processes."""

    def __init__(self, c):
        fenv.fresh(c["y"], c["seed"])
        self.w = None
        if c["K"]:
            self.w = simmpi.World(c["K"], c["y"], c["seed"])
            self.ecos = self.w.build(c["net"], c["mode"], c["latency"])
        else:
            self.ecos = [fenv.build(c["net"])[0]]

    def do(self, f):
        if self.w:
            self.w.each(lambda e, m, r: f(e))
        else:
            f(self.ecos[0])

    def agents(self):
        return [a for e in self.ecos for a in e.agents]


def frozen(a):
    return (a.places_travelled, a.timesteps_since_departure, getattr(a, "distance_travelled", None), tuple(a.route), a.travelling,
            a.distance_travelled_on_link, sorted(a.attributes.items()))


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    net = c["net"]
    n = len(net["locs"])
    runs = Runs(c)
    on = bool(c["y"]["spawn_rules"].get("camps_are_sinks"))
    camp = [fenv.type_flags(d["t"])["camp"] for d in net["locs"]]
    prob = [float((d.get("a") or {}).get("deactivation_probability", 0.0)) for d in net["locs"]]
    names = [d["n"] for d in net["locs"]]
    gone = {}           # id -> state when deactivated
    counted = [0] * n
    hit = False
    for idx, op in enumerate(c["ops"]):
        where = "op %d %r" % (idx, op)
        if op[0] == "type":
            camp[op[1] % n] = fenv.type_flags(op[2])["camp"]
        elif op[0] == "camp_open":
            camp[op[1] % n] = True
        elif op[0] == "camp_close":
            camp[op[1] % n] = False
        elif op[0] == "attr":
            prob[op[1] % n] = float(op[2])

            def setp(e):
                e.locations[op[1] % n].attributes["deactivation_probability"] = op[2]
            runs.do(setp)
            continue
        if op[0] != "evolve":
            runs.do(lambda e: hist.apply_op(e, e.locations, net, op))
            if op[0] == "clear":
                alive = set(id(a) for a in runs.agents())
                gone = {k: v for k, v in gone.items() if k in alive}
                counted = _excess(runs, n)
            continue
        for _ in range(op[1]):
            runs.do(lambda e: e.evolve())
            new = 0
            rest = False
            for a in runs.agents():
                if a.location is None:
                    if id(a) in gone:
                        expect_eq(frozen(a), gone[id(a)], where + ": state of a deactivated agent (places, days, distance, route, "
                                  "travelling, distance on link, attributes)")
                    else:
                        gone[id(a)] = frozen(a)
                        new += 1
                        expect_eq(a.travelling, False, where + ": in transit when deactivated")
                    continue
                expect(id(a) not in gone, where + ": a deactivated agent came back")
                if not fenv.is_link(a.location):
                    i = names.index(a.location.name)
                    expect(not (on and camp[i] and prob[i] == 1.0), lambda: "%s: an agent is still active in %s, a sink camp of "
                           "deactivation probability 1" % (where, net["locs"][i]["n"]))
                    rest = True
            ex = _excess(runs, n)
            expect_eq(sum(ex) - sum(counted), new, where + ": deactivated agents counted at locations")
            for i in range(n):
                if not (on and camp[i] and prob[i] > 0.0):
                    expect_eq(ex[i], counted[i], "%s: deactivated agents counted at %s, which is no sink camp (sinks %s, camp %s, "
                              "probability %r)" % (where, net["locs"][i]["n"], on, camp[i], prob[i]))
            counted = ex
            hit = hit or (new and rest)
    s.label("parallel", c["K"] > 0)
    s.label("deactivated", bool(gone))
    s.nontrivial(hit)


def _excess(runs, n):
    out = []
    for i in range(n):
        here = sum(1 for e in runs.ecos for a in e.agents if a.location is e.locations[i])
        out.append(int(runs.ecos[0].locations[i].numAgents) - here)
    return out


# -------------------------------------------------------------- independence

@st.composite
def coins_case(draw):
    chance = st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.5, 0.5, 0.8, 0.95])
    return {"p": draw(st.lists(chance, min_size=2, max_size=2)), "text": draw(st.booleans()),
            "types": draw(st.lists(st.sampled_from(["camp", "camp", "idpcamp"]), min_size=2, max_size=2)),
            "per": draw(st.lists(st.integers(2, 8), min_size=2, max_size=2)), "days": 30, "rounds": 8,
            "K": draw(st.sampled_from([0, 0, 0, 2, 3])), "mode": "loc-par", "latency": "high_latency",
            "seed": draw(st.integers(0, 10 ** 6)),
            "y": {"move_rules": {"camp_movechance": 0.0, "idpcamp_movechance": 0.0},
                  "spawn_rules": {"camps_are_sinks": True}}}


def coins_judge(c, s):
    with workdir():
        series = [[], []]
        c = dict(c, net={"locs": [{"n": "AB"[i], "t": c["types"][i],
                                   "a": {"deactivation_probability": str(c["p"][i]) if c["text"] else c["p"][i]}}
                                  for i in (0, 1)], "links": [[0, 1, 100.0]]})
        for k in range(c["rounds"]):
            runs = Runs(dict(c, seed=c["seed"] + 1009 * k))
            for _ in range(c["days"]):
                runs.do(lambda e: [e.insertAgents(location=e.locations[i], number=c["per"][i]) for i in (0, 1)])
                pre = [(a, a.location.name == "B") for a in runs.agents() if a.location is not None]
                runs.do(lambda e: e.evolve())
                m, out = [0, 0], [0, 0]
                for a, i in pre:
                    m[i] += 1
                    out[i] += a.location is None
                for i in (0, 1):
                    series[i].append((out[i], m[i], c["p"][i]))
        for i in (0, 1):
            indep.one(series[i], "agents deactivated in %s (deactivation probability %r)" % ("AB"[i], c["p"][i]))
        indep.two(series[0], series[1], "agents deactivated in A and B")
        s.label("parallel", c["K"] > 0)
        s.nontrivial()


SUBS = [Sub("history", lambda: case(), judge, quick=1500, shards=4),
        Sub("coins", lambda: coins_case(), coins_judge, quick=160, shards=4)]
