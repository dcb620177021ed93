"""C04: the set of routes an agent considers and the weight of each."""
from collections import Counter

from hypothesis import strategies as st

import fenv
import hist
import ref
from vlib import Sub, close, expect, workdir

RULE = ("A case is a random network (markers, parallel links, capacities, populations, coordinates), random movement "
        "settings and an agent; the routes and weights the code offers are compared with an independent enumeration "
        "of loop-free paths within the awareness range.  Non-trivial: a route of two or more links or at least three "
        "routes were offered.")


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=7, big=True, connected=True, coords=True, max_extra=5,
                                 parallel=draw(st.integers(0, 6)) == 0,
                                 types=("town", "conflict_zone", "camp", "idpcamp", "marker", "marker", "forwarding_hub",
                                        "default"),
                                 caps=st.sampled_from([-1, 0, 1, 4, 10, 40]),
                                 pops=st.sampled_from([0, 1, 50, 9999, 250000])))
    m = {"awareness_level": draw(st.integers(1, 4) if len(net["links"]) < 8 else st.integers(1, 3))}

    def opt(k, vals, p=2):
        if draw(st.integers(0, p)) == 0:
            m[k] = draw(st.sampled_from(vals))
    opt("softening", [0.5, 1.0, 100.0])
    opt("weight_softening", [0.1, 2.0])
    opt("weight_power", [0.0, 0.5, 2.0], 3)
    opt("distance_power", [0.0, 0.5, 2.0])
    opt("foreign_weight", [0.5, 2.0])
    opt("camp_weight", [0.5, 3.0])
    opt("conflict_weight", [0.1, 0.25])
    opt("capacity_buffer", [0.0, 0.5, 0.9, 1.0])
    opt("capacity_scaling", [0.5, 2.0], 3)
    opt("use_pop_for_loc_weight", [True], 3)
    if m.get("use_pop_for_loc_weight"):
        opt("pop_power_for_loc_weight", [0.05, 0.5])
    opt("stay_close_to_home", [True], 3)
    if m.get("stay_close_to_home"):
        opt("home_distance_power", [0.1, 1.0])
    opt("ChildrenAvoidHazards", [True], 3)
    if m.get("ChildrenAvoidHazards"):
        opt("BoysTakeRisk", [True], 1)
    if draw(st.integers(0, 3)) == 0:
        for k in ("MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity"):
            opt(k, [True], 1)
        for d in net["locs"]:
            d["pop"] = max(1, d["pop"])
            d.setdefault("a", {})
            for eth in ("x", "y"):
                d["a"][eth] = draw(st.integers(0, d["pop"]))
    n = len(net["locs"])
    return {"net": net, "y": {"move_rules": m}, "start": draw(st.integers(0, n - 1)),
            "home": draw(st.integers(0, n - 1)),
            "attrs": {"age": draw(st.sampled_from([5, 14, 15, 18, 19, 40])),
                      "gender": draw(st.sampled_from(["male", "female"])),
                      "ethnicity": draw(st.sampled_from(["x", "y"]))},
            "crowd": draw(st.lists(st.integers(0, 12), min_size=n, max_size=n)),
            "t": draw(st.integers(0, 100)), "seed": 1}


def judge(c, s):
    fenv.fresh(c["y"], c["seed"])
    y = c["y"]
    e, locs = fenv.build(c["net"])
    r = ref.rnet(c["net"], y)
    e.insertAgent(location=locs[c["home"]], attributes=dict(c["attrs"]))
    a = e.agents[0]
    if c["start"] != c["home"]:
        a.handle_travel(locs[c["start"]], travelling=False)
    for i, k in enumerate(c["crowd"]):
        e.insertAgents(location=locs[i], number=k)
        r[i].n = k
    r[c["start"]].n += 1
    e.time = c["t"]
    for loc in locs:
        fenv.scoring.updateLocationScore(c["t"], loc)
    weights, routes = fenv.moving.selectRoute(a, time=c["t"], return_all_routes=True)
    expect(len(weights) == len(routes), "number of weights differs from number of routes")
    home = (r[c["home"]].x, r[c["home"]].yy)
    want = ref.options(r, c["start"], y, lambda j: ref.agent_score(r[j], y, c["t"], c["attrs"], home),
                       int(fenv.mv(y, "awareness_level")))
    got_c = Counter(tuple(x) for x in routes)
    want_c = Counter(p for p, _ in want)
    if got_c != want_c:
        expect(False, "routes offered: unexpected %r, missing %r" % (sorted((got_c - want_c).elements())[:5],
                                                                     sorted((want_c - got_c).elements())[:5]))
    g, w = {}, {}
    for p, x in zip(routes, weights):
        g.setdefault(tuple(p), []).append(float(x))
    for p, x in want:
        w.setdefault(p, []).append(float(x))
    for p in w:
        for x1, x2 in zip(sorted(g[p]), sorted(w[p])):
            expect(close(x1, x2, rel=1e-6, abs_=1e-9 * max(w[p])), lambda: "weight of route %r: got %r, expected %r" % (p, x1, x2))
    s.label("multi_step", any(len(p) > 2 for p in w))
    s.label("zero_weight", any(x == 0 for v in w.values() for x in v))
    s.label("through_marker", any(len(p) > 2 and any(rr.marker for rr in r if rr.name == p[1]) for p in w))
    s.nontrivial(len(w) >= 3 or any(len(p) > 2 for p in w))


SUBS = [Sub("options", lambda: case(), judge, quick=6000, shards=8)]
