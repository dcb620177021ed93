"""C06: how camp capacity throttles attractiveness and stops journeys to full camps."""
from hypothesis import strategies as st

import fenv
import hist
import ref
from vlib import Sub, close, expect, workdir

RULE = ("Cases: (occupancy, capacity, buffer, scaling) points, compared with the documented piecewise-linear "
        "multiplier, and crowded multi-agent simulations with camps nobody leaves, in which no agent may newly set "
        "out for a camp whose multiplier was below one half.  Non-trivial: the multiplier is neither the trivial 1 nor "
        "an unlimited camp, or a (nearly) full camp was in reach of a departing agent.")


@st.composite
def mult_case(draw):
    cap = draw(st.sampled_from([-1, 0, 1, 2, 3, 5, 10, 100, 1000, 99999]) | st.integers(0, 5000))
    scale = draw(st.sampled_from([1.0, 1.0, 0.1, 0.5, 0.75, 2.0, 10.0]))
    buf = draw(st.sampled_from([0.0, 0.25, 0.5, 0.75, 0.9, 0.9, 0.95, 1.0]) | st.floats(0, 1).map(lambda v: round(v, 3)))
    c = cap * scale
    n = draw(st.sampled_from([0, 1]) | st.integers(0, max(2, int(1.3 * c) + 2))
             | st.integers(max(0, int(buf * c) - 2), int(buf * c) + 2 if c > 0 else 2)
             | st.integers(max(0, int(c) - 2), max(2, int(c) + 2)))
    return {"cap": cap, "scale": scale, "buf": buf, "n": n, "t": draw(st.sampled_from(["camp", "idpcamp", "town"]))}


def mult_judge(c, s):
    y = {"move_rules": {"capacity_buffer": c["buf"], "capacity_scaling": c["scale"]}}
    fenv.fresh(y)
    e, locs = fenv.build({"locs": [{"n": "A", "t": c["t"], "cap": c["cap"]}], "links": []})
    loc = locs[0]
    if c["n"] <= 300:
        e.insertAgents(location=loc, number=c["n"])
    else:
        loc.numAgents = c["n"]
    got = float(fenv.moving.getCapMultiplier(loc, 1))
    want = ref.cap_mult(c["n"], c["cap"], y)
    cc = c["cap"] * c["scale"]
    edge = cc >= 1 and (abs(c["n"] - c["buf"] * cc) < 1e-9 * cc or abs(c["n"] - cc) < 1e-9 * cc)
    if edge and c["n"] != cc:
        # continuous at the buffer except when buffer == 1 (where the limit itself decides)
        expect(close(got, want, abs_=1e-6) or c["buf"] >= 1 - 1e-9,
               "multiplier at the buffer for %r: got %r, expected %r" % (c, got, want))
    else:
        expect(close(got, want, rel=1e-6, abs_=1e-9),
               "multiplier for %r: got %r, expected %r" % (c, got, want))
    expect(0.0 <= got <= 1.0, "multiplier outside [0, 1]: %r" % got)
    s.label("between", 0 < want < 1)
    s.label("full", want == 0)
    s.nontrivial(want < 1 or edge)


@st.composite
def crowd_case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, big=True, connected=True, max_extra=4,
                                 types=("town", "camp", "camp", "conflict_zone", "idpcamp", "marker"),
                                 caps=st.sampled_from([-1, 0, 1, 3, 5, 10, 20]), conflict_attr=False,
                                 dists=st.sampled_from([50.0, 100.0, 250.0, 400.0, 700.0])))
    m = {"awareness_level": draw(st.sampled_from([0, 1, 2, 3])), "camp_movechance": 0.0, "idpcamp_movechance": 0.0,
         "default_movechance": draw(st.sampled_from([0.5, 1.0])),
         "capacity_buffer": draw(st.sampled_from([0.0, 0.5, 0.9, 0.9, 1.0])),
         "capacity_scaling": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])), "camp_weight": 10.0}
    if draw(st.integers(0, 4)) == 0:
        m["fixed_routes"] = True
    n = len(net["locs"])
    start = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 12)).map(list), min_size=1, max_size=5))
    return {"net": net, "y": {"move_rules": m}, "start": start, "days": draw(st.integers(2, 8)),
            "seed": draw(st.integers(0, 10 ** 6))}


def crowd_judge(c, s):
    with workdir():
        fenv.fresh(c["y"], c["seed"])
        y = c["y"]
        e, locs = fenv.build(c["net"])
        caps = {d["n"]: d.get("cap", -1) for d in c["net"]["locs"]}
        camps = set(d["n"] for d in c["net"]["locs"] if fenv.type_flags(d["t"])["camp"])
        for i, k in c["start"]:
            e.insertAgents(location=locs[i], number=k)
        nt = False
        for day in range(c["days"]):
            full = set(l.name for l in locs if l.name in camps and ref.cap_mult(l.numAgents, caps[l.name], y) < 0.5)
            pre = [(a.location, a.places_travelled, list(a.route)) for a in e.agents]
            e.evolve()
            for a, (p, v, r) in zip(e.agents, pre):
                if not fenv.is_link(a.location):
                    continue
                if a.location is p and a.places_travelled == v:
                    continue      # still on the same journey leg
                dest = a.route[-1] if a.route else a.location.endpoint.name
                expect(dest not in full, lambda: "day %d: an agent set out from %s for camp %s, which was full (%d of %r) "
                       "and is never left" % (day, a.location.startpoint.name, dest,
                                              [l.numAgents for l in locs if l.name == dest][0], caps[dest]))
                if full:
                    nt = True
            for l in locs:
                if l.name in full and any(k.endpoint.name == l.name for q in locs if q.name not in camps
                                          and q.numAgents > 0 for k in q.links):
                    nt = True
                    s.label("full_camp_in_reach")
        s.nontrivial(nt)


SUBS = [
    Sub("multiplier", lambda: mult_case(), mult_judge, quick=3000, shards=2),
    Sub("full_camps", lambda: crowd_case(), crowd_judge, quick=2500, shards=6),
]
