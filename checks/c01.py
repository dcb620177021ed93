"""C01: every agent is in exactly one place and every reported count is exact."""
from hypothesis import strategies as st

import fenv
import hist
from vlib import Sub, expect, expect_eq, workdir

RULE = ("A case is a random network, random settings and a random history of insertions, spawning, days, closures, "
        "re-openings, removals, type changes and clearings; it is non-trivial when at least two days were simulated "
        "with agents present and at least one agent changed place.")


@st.composite
def case(draw, sinks=False):
    net = draw(fenv.net_strategy(min_locs=draw(st.sampled_from([1, 2, 3, 3, 4])), max_locs=6, big=True, parallel=draw(st.integers(0, 5)) == 0))
    y = draw(hist.move_settings(take_pop=True, logs=True))
    if sinks:
        y.setdefault("spawn_rules", {})["camps_are_sinks"] = True
        for d in net["locs"]:
            if draw(st.integers(0, 2)) > 0:
                d.setdefault("a", {})["deactivation_probability"] = draw(st.sampled_from([0.0, 0.3, 1.0, "0.5"]))
        y.setdefault("move_rules", {})["default_movechance"] = 1.0
    fenv.clamp_distances(net, y)
    ops = draw(hist.history(min_size=4, max_size=16))
    first = [["insert", draw(st.integers(0, 5)), draw(st.integers(1, 8))]]
    return {"net": net, "y": y, "ops": first + ops, "seed": draw(st.integers(0, 10 ** 6))}


def audit(e, locs, excess, allow_more, where):
    """Checks every count against the agents themselves; returns the new excess map."""
    counts, places = fenv.actual_counts(e)
    expect_eq(e.numAgents(), len(e.agents), where + ": total number of agents")
    known = {}
    for loc in e.locations:
        known[id(loc)] = loc
        for l in loc.links + loc.closed_links:
            known[id(l)] = l
    new_excess = {}
    for k, p in list(known.items()) + [(k, p) for k, p in places.items() if k not in known]:
        n = counts.get(k, 0)
        if fenv.is_link(p):
            expect(p.numAgents == n, lambda: "%s: link %s reports %r agents, %d are on it"
                   % (where, hist.place_key(p), p.numAgents, n))
            expect(id(p.startpoint) in known and id(p.endpoint) in known,
                   lambda: where + ": link %s has an endpoint outside the simulation" % hist.place_key(p))
        else:
            expect(k in known, lambda: where + ": agent at a location outside the simulation: %s" % p.name)
            ex = p.numAgents - n
            old = excess.get(k, 0)
            lo, hi = old, (None if k in allow_more else old)
            expect(ex >= lo and (hi is None or ex <= hi),
                   lambda: "%s: location %s reports %r agents, %d are there (%d deactivated before)"
                   % (where, p.name, p.numAgents, n, old))
            new_excess[k] = ex
    inactive = sum(1 for a in e.agents if a.location is None)
    expect_eq(sum(new_excess.values()), inactive, where + ": agents counted beyond the active ones (deactivated)")
    for a in e.agents:
        if a.location is not None:
            expect_eq(bool(a.travelling), fenv.is_link(a.location), where + ": in-transit flag of an agent at %s"
                      % hist.place_key(a.location))
    expect_eq(int(e.numIDPs()), sum(l.numAgents for l in e.locations if l.idpcamp), where + ": IDP total")
    return new_excess


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    fenv.fresh(c["y"], c["seed"])
    e, locs = fenv.build(c["net"])
    sinks = bool((c["y"].get("spawn_rules") or {}).get("camps_are_sinks"))
    n = len(locs)
    expected = []          # agents in order of creation
    excess = {}
    days = moved = 0
    closed = False
    for idx, op in enumerate(c["ops"]):
        where = "after op %d %r" % (idx, op)
        before = list(e.agents)
        if op[0] == "evolve":
            for _ in range(op[1]):
                pos = [a.location for a in e.agents]
                t = e.time
                camps = set(id(l) for l in e.locations if sinks and l.camp
                            and float(l.attributes.get("deactivation_probability", 0.0)) > 0.0)
                e.evolve()
                expect_eq(e.time, t + 1, where + ": simulation time")
                expect_eq([id(a) for a in e.agents], [id(a) for a in before], where + ": population of agents")
                for a, p in zip(e.agents, pos):
                    if p is None:
                        expect(a.location is None, where + ": a deactivated agent came back")
                    elif a.location is not p:
                        moved += 1
                    if p is not None and a.location is None:
                        s.label("deactivated")
                excess = audit(e, locs, excess, camps, where)
                if before:
                    days += 1
            continue
        if op[0] == "spawn" and not sum(e.spawn_weights) > 0:
            continue
        hist.apply_op(e, locs, c["net"], op)
        after = list(e.agents)
        if op[0] in ("insert", "insertmany", "add", "spawn"):
            want = op[2] if op[0] != "spawn" else op[1]
            expect_eq([id(a) for a in after[:len(before)]], [id(a) for a in before], where + ": existing agents")
            expect_eq(len(after) - len(before), want, where + ": number of new agents")
            for a in after[len(before):]:
                if op[0] != "spawn":
                    expect(a.location is locs[op[1] % n], where + ": new agent is not where it was put")
                expect(a.home_location is a.location, where + ": home of a new agent is not where it started")
            expect_eq(len(set(map(id, after))), len(after), where + ": duplicate agents")
        elif op[0] == "clear":
            names = set(locs[i % n].name for i in op[1])
            keep = [a for a in before if a.location is None or fenv.is_link(a.location)
                    or a.location.name not in names]
            s.label("cleared", len(keep) < len(before))
            expect_eq([id(a) for a in after], [id(a) for a in keep], where + ": agents left after clearing")
        else:
            expect_eq([id(a) for a in after], [id(a) for a in before], where + ": agents after a network change")
        excess = audit(e, locs, excess, (), where)
        closed = closed or any(a.location is not None and fenv.is_link(a.location) and a.location.closed
                               for a in e.agents)
    s.label("agent_on_closed_link", closed)
    s.nontrivial(days >= 2 and moved > 0)


SUBS = [
    Sub("history", lambda: case(), judge, quick=5000, shards=5),
    Sub("sinks", lambda: case(sinks=True), judge, quick=2400, shards=3),
]
