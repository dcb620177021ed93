"""C23: a parallel run has each agent on one process, and every process knows the exact counts."""
import csv
from collections import Counter

from hypothesis import strategies as st

import fenv
import hist
import simmpi
from vlib import Sub, expect, expect_eq, quiet, workdir

RULE = ("A case is a random network, settings, number of processes (1-5), parallel and latency mode, and a history of "
        "insertions, spawning, days, closures, type changes and clearings, executed by the real parallel code on a "
        "simulated MPI (each process with its own random numbers, in a random order).  After every day and every update "
        "the counts on every process are compared with the agents on all processes.  Non-trivial: at least two processes, "
        "two days and three agents of which one moved.")

with quiet():
    simmpi.copies(5)


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=draw(st.sampled_from([1, 2, 3, 4])), max_locs=6, big=True, pops=st.sampled_from([500, 9999]),
                                 conflict_attr=False))
    y = draw(hist.move_settings(sinks=True))
    sp = y.setdefault("spawn_rules", {})
    take = draw(st.integers(0, 2)) == 0
    if take:
        sp["take_from_population"] = True
    driven = draw(st.integers(0, 3)) == 0
    if driven:
        sp["conflict_driven_spawning"] = {"displaced_per_conflict_day": draw(st.integers(0, 4))}
    if sp.get("camps_are_sinks"):
        for d in net["locs"]:
            d.setdefault("a", {})["deactivation_probability"] = draw(st.sampled_from([0.0, 0.5, 1.0]))
    logs = {}
    if draw(st.booleans()):
        logs["agent"] = draw(st.integers(1, 3))
    if draw(st.booleans()):
        logs["link"] = draw(st.integers(1, 2))
    y["log_levels"] = logs
    fenv.clamp_distances(net, y)
    kinds = ("evolve",) * 7 + ("insert", "add", "add", "insertmany", "clear", "close_link", "reopen_link", "remove_link",
                               "close_border", "close_loc", "type", "conflict", "camp_close")
    if not take:
        kinds += ("spawn", "spawn")
    ops = draw(hist.history(kinds, min_size=3, max_size=10))
    if driven:
        ops = [["driven"] if o[0] == "insert" else o for o in ops]
    first = [["insertmany", draw(st.integers(0, 5)), draw(st.integers(3, 9))], ["evolve", draw(st.integers(1, 2))]]
    K = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    return {"net": net, "y": y, "ops": first + ops, "K": K, "order": draw(st.permutations(list(range(K)))),
            "mode": draw(st.sampled_from(["loc-par", "classic"])),
            "latency": draw(st.sampled_from(["high_latency", "low_latency"])), "seed": draw(st.integers(0, 10 ** 6))}


def key(p):
    return hist.place_key(p)


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    K = c["K"]
    w = simmpi.World(K, c["y"], c["seed"], c["order"])
    ecos = w.build(c["net"], c["mode"], c["latency"])
    n = len(c["net"]["locs"])
    sp = c["y"]["spawn_rules"]
    take = bool(sp.get("take_from_population"))
    sinks = bool(sp.get("camps_are_sinks"))
    logs = c["y"]["log_levels"]
    total = 0
    pops = [d["pop"] for d in c["net"]["locs"]]
    spawned = [0] * n
    cleared = False
    closed = False
    days = moved = 0
    inactive_at = Counter()
    t = 0

    def audit(where, fresh=True):
        expect_eq(sum(len(e.agents) for e in ecos), total, where + ": agents on all processes")
        ids = Counter(id(a) for e in ecos for a in e.agents)
        expect(all(v == 1 for v in ids.values()), where + ": an agent is listed twice")
        act = Counter()
        for r, e in enumerate(ecos):
            expect_eq(e.numAgentsOnRank(), len(e.agents), where + ": agents on process %d" % r)
            per = Counter(id(a.location) for a in e.agents if a.location is not None)
            for a in e.agents:
                if a.location is not None:
                    act[key(a.location)] += 1
                    expect(a.location.name in e.locationNames or fenv.is_link(a.location), where + ": agent at an unknown place")
            for loc in e.locations:
                gone = inactive_at[r, loc.name]
                expect_eq(int(loc.numAgentsOnRank), per.get(id(loc), 0) + gone,
                          where + ": process %d's own agents at %s" % (r, loc.name))
        if not cleared:
            ns = [len(e.agents) for e in ecos]
            expect(max(ns) - min(ns) <= 1, lambda: where + ": uneven distribution of agents %r" % ns)
        if not fresh:
            return
        for r, e in enumerate(ecos):
            expect_eq(int(e.numAgents()), total, where + ": total number of agents known to process %d" % r)
            for loc in e.locations:
                gone = sum(inactive_at[q, loc.name] for q in range(K))
                expect_eq(int(loc.numAgents), act.get(key(loc), 0) + gone,
                          where + ": agents at %s as known to process %d of %d" % (loc.name, r, K))
                for kind in ("links", "closed_links"):
                    for k, l in enumerate(getattr(loc, kind)):
                        # several links (or a closed one) may connect the same places: count the objects
                        here = 0
                        for q in range(K):
                            lq = getattr(ecos[q].locations[e.locations.index(loc)], kind)[k]
                            here += sum(1 for a in ecos[q].agents if a.location is lq)
                        expect_eq(int(l.numAgents), here, where + ": agents on %s (%s) as known to process %d of %d"
                                  % (key(l), kind, r, K))
        idp = w.each(lambda e, m, r: int(e.numIDPs()))
        want = sum(int(l.numAgents) for l in ecos[0].locations if l.idpcamp)
        expect_eq(idp, [want] * K, where + ": IDP total on each process")

    for idx, op in enumerate(c["ops"]):
        where = "after op %d %r" % (idx, op)
        if op[0] == "evolve":
            for _ in range(op[1]):
                before = [list(e.agents) for e in ecos]
                pos = [[a.location for a in e.agents] for e in ecos]
                places = [[a.places_travelled for a in e.agents] for e in ecos]
                w.each(lambda e, m, r: e.evolve())
                t += 1
                for r, e in enumerate(ecos):
                    expect_eq(e.time, t, where + ": simulation time")
                    expect_eq([id(a) for a in e.agents], [id(a) for a in before[r]], where + ": agents of process %d" % r)
                    for a, p in zip(e.agents, pos[r]):
                        if p is None:
                            expect(a.location is None, where + ": a deactivated agent came back")
                        elif a.location is None:
                            expect(sinks, where + ": an agent vanished")
                        elif a.location is not p:
                            moved += 1
                if sinks:
                    # agents deactivated today stay counted where they were; which camp is known from the counts only
                    for r, e in enumerate(ecos):
                        per = Counter(id(a.location) for a in e.agents if a.location is not None)
                        for loc in e.locations:
                            ex = int(loc.numAgentsOnRank) - per.get(id(loc), 0)
                            old = inactive_at[r, loc.name]
                            can = loc.camp and float(loc.attributes.get("deactivation_probability", 0)) > 0
                            expect(ex == old or (ex > old and can), lambda: where + ": process %d counts %d agents at %s, %d are there"
                                   % (r, loc.numAgentsOnRank, loc.name, per.get(id(loc), 0)))
                            inactive_at[r, loc.name] = ex
                        expect_eq(sum(inactive_at[r, l.name] for l in e.locations), sum(1 for a in e.agents if a.location is None),
                                  where + ": deactivated agents of process %d" % r)
                if logs.get("agent"):
                    for r, e in enumerate(ecos):
                        with open("agents.out.%d" % r, encoding="utf-8") as f:
                            rows = [x for x in csv.reader(f) if x and x[0].split("-")[0] == str(t - 1)]
                        per = Counter(x[1] for x in rows)
                        main = {}
                        for x in rows:
                            main.setdefault(x[1], x)
                        for k, a in enumerate(e.agents):
                            nm = "%d-%d" % (r, k)
                            if pos[r][k] is None:
                                expect_eq(per.get(nm, 0), 0, where + ": rows for a deactivated agent")
                                continue
                            expect(nm in per, where + ": agent %s is not in the log" % nm)
                            if a.location is not None:
                                expect_eq(main[nm][3], a.location.name, where + ": logged place of agent " + nm)
                            hops = a.places_travelled - places[r][k]
                            expect(per[nm] - 1 <= (hops if logs["agent"] > 1 else 0), lambda:
                                   where + ": agent %s has %d log rows on a day on which it finished %d links" % (nm, per[nm], hops))
                        expect_eq(len(per), sum(1 for p in pos[r] if p is not None), where + ": agents logged by process %d" % r)
                if logs.get("link") and not closed and not cleared:
                    cum = 0
                    for r in range(K):
                        with open("links.out.%d" % r, encoding="utf-8") as f:
                            cum += sum(int(x[3]) for x in csv.reader(f) if x and x[0] == str(t - 1) and x[4] == "total")
                    want = sum(a.places_travelled - 1 + fenv.is_link(a.location) for e in ecos for a in e.agents
                               if a.location is not None)
                    if not any(a.location is None for e in ecos for a in e.agents):
                        expect_eq(cum, want, where + ": link use logged by all processes")
                for e in ecos:
                    for i in range(n):
                        if take:
                            expect_eq(int(e.locations[i].numAgentsSpawned), spawned[i],
                                      where + ": agents taken from the population of " + e.locations[i].name)
                audit(where)
                days += 1
            continue
        if op[0] == "spawn" and not sum(ecos[0].spawn_weights) > 0:
            continue
        if op[0] == "driven":
            rate = sp["conflict_driven_spawning"]["displaced_per_conflict_day"]
            new = w.each(lambda e, m, r: int(m.spawning.spawn_daily_displaced(e, e.time, None)[0]))
            add = [int(rate * l.conflict) if l.conflict > 0 else 0 for l in ecos[0].locations]
            expect_eq(new, [sum(add)] * K, where + ": number of new agents on each process")
            total += sum(add)
            if take:
                for i, x in enumerate(add):
                    pops[i] -= x
                    spawned[i] += x
        elif op[0] == "spawn":
            w.each(lambda e, m, r: m.spawning.spawn_agents(e, op[1]))
            total += op[1]
        else:
            if op[0] == "clear":
                names = set(ecos[0].locations[i % n].name for i in op[1])
                total -= sum(1 for e in ecos for a in e.agents if a.location is not None and a.location.name in names)
                cleared = True
            if op[0] in ("close_link", "close_border", "close_loc", "remove_link"):
                closed = True
            w.each(lambda e, m, r: hist.apply_op(e, e.locations, c["net"], op))
            if op[0] in ("insert", "insertmany", "add"):
                total += op[2]
                if op[0] == "add" and take:
                    pops[op[1] % n] -= op[2]
                    spawned[op[1] % n] += op[2]
        if op[0] in ("insert", "insertmany", "add", "spawn", "driven"):
            for r, e in enumerate(ecos):
                expect_eq(int(e.numAgents()), total, where + ": total number of agents known to process %d" % r)
        if take:
            for r, e in enumerate(ecos):
                expect_eq([l.pop for l in e.locations], pops, where + ": populations known to process %d" % r)
        fresh = op[0] == "clear"
        if not fresh and idx % 2:
            w.each(lambda e, m, r: e.updateNumAgents(log=False))
            fresh = True
        audit(where, fresh)
    s.label(c["mode"])
    s.label(c["latency"])
    s.label("sinks", sinks)
    s.label("cleared", cleared)
    s.nontrivial(K > 1 and days >= 2 and total >= 3 and moved > 0)


@st.composite
def large(draw):
    """Tens of thousands of agents, as in the scenarios of real countries."""
    net = draw(fenv.net_strategy(min_locs=2, max_locs=3, pops=st.sampled_from([100000, 999999]), conflict_attr=False))
    take = draw(st.booleans())
    y = {"spawn_rules": {"take_from_population": True} if take else {},
         "move_rules": {"default_movechance": draw(st.sampled_from([0.0, 0.2])), "camp_movechance": 0.0}, "log_levels": {}}
    fenv.clamp_distances(net, y)
    K = draw(st.sampled_from([1, 2, 3]))
    num = draw(st.sampled_from([33000, 40000, 66000]))
    ops = [["add" if take else draw(st.sampled_from(["add", "insertmany", "insert"])), draw(st.integers(0, 2)), num], ["evolve", 1],
           ["add", draw(st.integers(0, 2)), draw(st.integers(1, 3))]]
    return {"net": net, "y": y, "ops": ops, "K": K, "order": draw(st.permutations(list(range(K)))),
            "mode": draw(st.sampled_from(["loc-par", "classic"])),
            "latency": draw(st.sampled_from(["high_latency", "low_latency"])), "seed": draw(st.integers(0, 10 ** 6))}


def judge_large(c, s):
    judge(c, s)
    s.nontrivial(c["K"] > 1)


SUBS = [Sub("history", lambda: case(), judge, quick=1600, shards=8),
        Sub("large", lambda: large(), judge_large, quick=24, shards=8)]
