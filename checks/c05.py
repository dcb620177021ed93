"""C05: pruning, normalising and drawing of routes, and following the drawn route."""
import math
from collections import Counter

from hypothesis import strategies as st

import fenv
import indep
import ref
from vlib import Sub, close, expect, expect_close, expect_eq, workdir

RULE = ("Cases: weight/route lists with a pruning threshold; weight lists to normalise; networks on which 400 route "
        "draws are tallied against the reference probabilities; and multi-day journeys of one agent under closures, "
        "whose place and remaining route must be reachable in the reference model.  Non-trivial: something was pruned, "
        "at least two distinct weights, at least two possible routes, or a journey over a multi-link route.  In 'crowds' "
        "agents set out daily from two places for 8 x 30 days; the numbers choosing one of the ways are compared with "
        "independent draws of the reference probability (mean, spread within a day, correlation between days and places).")


# ----------------------------------------------------------------- pruning

W = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.1, 1e-6, 3.0, 1000.0]), st.floats(0, 100).map(lambda v: round(v, 5)))


@st.composite
def prune_case(draw):
    n = draw(st.integers(0, 8))
    ws = [draw(W) for _ in range(n)]
    routes = [["R%d" % i] + ["x"] * draw(st.integers(0, 2)) for i in range(n)]
    return {"w": ws, "r": routes, "th": draw(st.sampled_from([0.0, 1.0, 1.5, 2.0, 10.0, 1e6]))}


def kept(ws, th):
    if th < 1.001 or not ws:
        return list(range(len(ws)))
    lim = max(ws) / th
    return [i for i, w in enumerate(ws) if not w < lim]


def prune_judge(c, s):
    fenv.fresh({"move_rules": {"pruning_threshold": c["th"]}})
    ws, rs = fenv.moving.pruneRoutes(list(c["w"]), [list(r) for r in c["r"]])
    k = kept(c["w"], c["th"])
    expect_eq(len(ws), len(rs), "weights and routes left after pruning")
    want = sorted((c["r"][i], c["w"][i]) for i in k)
    got = sorted((list(r), w) for r, w in zip(rs, ws))
    expect_eq(got, want, "routes (with weights) left after pruning at threshold %r of %r" % (c["th"], c["w"]))
    s.nontrivial(len(k) < len(c["w"]))


def norm_judge(c, s):
    fenv.fresh({})
    ws = [w * c["scale"] for w in c["w"]]
    out = [float(x) for x in fenv.moving.normalizeWeights(weights=list(ws))]
    expect_eq(len(out), len(ws), "number of probabilities")
    tot = math.fsum(ws)
    for i, w in enumerate(ws):
        expect_close(out[i], w / tot if tot > 0 else 1.0 / len(ws), "probability %d of weights %r" % (i, ws), rel=1e-9, abs_=1e-12)
    s.nontrivial(len(set(ws)) > 1 or (tot == 0 and len(ws) > 1))


# ---------------------------------------------------------------- selection

@st.composite
def select_case(draw):
    hub = draw(st.integers(0, 24)) == 0     # dozens of neighbours
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, big=True, connected=True, max_extra=4,
                                 types=("town", "conflict_zone", "camp", "idpcamp", "marker", "forwarding_hub"),
                                 caps=st.sampled_from([-1, 4, 10]), conflict_attr=False,
                                 dists=st.sampled_from([1.0, 10.0, 50.0, 100.0, 500.0])))
    m = {"awareness_level": draw(st.sampled_from([0, 1, 1, 2, 2, 3]))}
    if draw(st.booleans()):
        m["pruning_threshold"] = draw(st.sampled_from([1.5, 2.0, 5.0]))
    if draw(st.booleans()):
        m["camp_weight"] = draw(st.sampled_from([3.0, 10.0]))
    if draw(st.integers(0, 3)) == 0:
        m["weight_power"] = draw(st.sampled_from([0.0, 2.0, 6.0]))
    n = len(net["locs"])
    if hub:
        k = draw(st.integers(20, 70))
        net["locs"] += [{"n": "Spoke %d" % i, "t": "camp", "pop": 0, "c": "H", "f": False} for i in range(k)]
        net["links"] += [[0, n + i, draw(st.sampled_from([50.0, 100.0]))] for i in range(k)]
        m["awareness_level"] = min(m["awareness_level"], 1)
        n += k
    return {"net": net, "y": {"move_rules": m}, "start": 0 if hub else draw(st.integers(0, n - 1)),
            "crowd": draw(st.lists(st.integers(0, 10), min_size=n, max_size=n)), "seed": draw(st.integers(0, 10 ** 6))}


def route_probs(r, start, y):
    """{route (without the start): probability} by the documented rules; {} if there is no route."""
    aw = int(fenv.mv(y, "awareness_level"))
    if aw == 0:
        out = [(r[j].name,) for j, _ in r[start].out]
        c = Counter(out)
        return {k: v / len(out) for k, v in c.items()} if out else {}
    opts = ref.options(r, start, y, lambda j: ref.agent_score(r[j], y, 0, {}, (0.0, 0.0)), aw)
    if not opts:
        return {}
    ws = [w for _, w in opts]
    k = kept(ws, float(fenv.mv(y, "pruning_threshold")))
    tot = sum(ws[i] for i in k)
    p = {}
    for i in k:
        key = opts[i][0][1:]
        p[key] = p.get(key, 0.0) + (ws[i] / tot if tot > 0 else 1.0 / len(k))
    # a weight that sits on the pruning limit up to rounding cannot be decided
    th = float(fenv.mv(y, "pruning_threshold"))
    if th >= 1.001:
        lim = max(ws) / th
        if any(abs(w - lim) < 1e-9 * max(ws) for w in ws):
            return None
    return p


def select_judge(c, s):
    fenv.fresh(c["y"], c["seed"])
    y = c["y"]
    e, locs = fenv.build(c["net"])
    r = ref.rnet(c["net"], y)
    e.insertAgent(location=locs[c["start"]], attributes={})
    for i, k in enumerate(c["crowd"]):
        e.insertAgents(location=locs[i], number=k)
        r[i].n = k
    r[c["start"]].n += 1
    for loc in locs:
        fenv.scoring.updateLocationScore(0, loc)
    p = route_probs(r, c["start"], y)
    if p is None:
        return
    N = 400 if len(p) < 20 else 4000
    tally = Counter()
    for _ in range(N):
        x = fenv.moving.selectRoute(e.agents[0], time=0)
        tally[None if x is None else tuple(x)] += 1
    if not p:
        expect_eq(dict(tally), {None: N}, "routes drawn where there are none")
        return
    for k in tally:
        expect(p.get(k, 0.0) > 0.0, lambda: "drew route %r, which is not a possible choice (possible: %r)"
               % (k, sorted(p)[:6]))
    for k, q in p.items():
        dev = abs(tally.get(k, 0) - N * q)
        expect(dev <= 6.5 * math.sqrt(N * q * (1 - q)) + 8,
               lambda: "route %r has probability %.4f but was drawn %d times in %d" % (k, q, tally.get(k, 0), N))
    s.label("awareness0", fenv.mv(y, "awareness_level") == 0)
    s.nontrivial(sum(1 for q in p.values() if q > 0.02) >= 2)


# ---------------------------------------------------------------- following

@st.composite
def follow_case(draw):
    net = draw(fenv.net_strategy(min_locs=3, max_locs=6, connected=True, max_extra=2,
                                 types=("town", "town", "conflict_zone", "camp", "marker", "forwarding_hub"),
                                 caps=st.sampled_from([-1, -1, 4, 10]), conflict_attr=False,
                                 dists=st.sampled_from([150.0, 200.0, 300.0, 390.0])))
    m = {"awareness_level": draw(st.sampled_from([1, 2, 2, 3, 3])), "camp_movechance": 0.0,
         "default_movechance": draw(st.sampled_from([0.5, 1.0, 1.0])), "max_move_speed": 100.0}
    if draw(st.integers(0, 3)) == 0:
        m["pruning_threshold"] = draw(st.sampled_from([2.0, 5.0]))
    n = len(net["locs"])
    ops = []
    for _ in range(draw(st.integers(3, 10))):
        k = draw(st.integers(0, 9))
        if k < 7:
            ops.append(["day"])
        else:
            ops.append([draw(st.sampled_from(["close", "close", "remove", "reopen", "fill"])),
                        draw(st.integers(0, max(0, len(net["links"]) - 1))), draw(st.booleans())])
    ops.append(["day"])
    return {"net": net, "y": {"move_rules": m}, "start": draw(st.integers(0, n - 1)), "ops": ops,
            "crowd": draw(st.lists(st.integers(0, 12), min_size=n, max_size=n)), "seed": draw(st.integers(0, 10 ** 6))}


class FModel:
    def __init__(self, c):
        self.y = c["y"]
        self.r = ref.rnet(c["net"], self.y)
        self.speed = 100.0
        self.idx = {x.name: i for i, x in enumerate(self.r)}
        self.undecided = False

    def depart(self, loc, route):
        """[(place, dol, route)] possible after a departure decision."""
        x = self.r[loc]
        res = []
        if x.chance < 1.0:
            res.append((loc, 0.0, route))
        if x.chance <= 0.0:
            return res
        cands = [route]
        if not route:
            p = route_probs(self.r, loc, self.y)
            if p is None:
                self.undecided = True
                p = {}
            cands = [k for k, q in p.items() if q > 0.0] or [()]
        for cand in cands:
            if not cand:
                res.append((loc, 0.0, ()))
                continue
            hit = [(j, d) for j, d in x.out if self.r[j].name == cand[0]]
            dest = self.r[self.idx[cand[-1]]]
            if not hit or (dest.camp and ref.cap_mult(dest.n, dest.cap, self.y) < 0.5):
                res.append((loc, 0.0, ()))
            else:
                res.append(((loc, hit[0][0], hit[0][1]), 0.0, cand[1:]))
        return res

    def finish(self, place, dol, route, moved, doomed, res, depth=0):
        if not isinstance(place, tuple):
            res.add((place, 0.0, route))
            return
        dol += self.speed
        moved += self.speed
        if not dol > place[2]:
            res.add((place[:2], dol, route))
            return
        moved += place[2] - dol
        if doomed:
            res.add((place[0], 0.0, route))
            return
        if moved < self.speed:
            self.r[place[1]].n += 1
            for p2, d2, r2 in self.depart(place[1], route):
                if isinstance(p2, tuple):
                    self.r[place[1]].n -= 1
                    self.finish(p2, d2, r2, moved, False, res, depth + 1)
                    self.r[place[1]].n += 1
                else:
                    res.add((p2, 0.0, r2))
            self.r[place[1]].n -= 1
        else:
            res.add((place[1], 0.0, route))


def follow_judge(c, s):
    fenv.fresh(c["y"], c["seed"])
    e, locs = fenv.build(c["net"])
    m = FModel(c)
    net = c["net"]
    e.insertAgent(location=locs[c["start"]], attributes={})
    a = e.agents[0]
    for i, k in enumerate(c["crowd"]):
        if m.r[i].camp:            # camps are never left here, so the crowd stays
            e.insertAgents(location=locs[i], number=k)
            m.r[i].n = k
    doomed = False
    index = {id(l): i for i, l in enumerate(locs)}
    multi = False

    def spot():
        p = a.location
        if fenv.is_link(p):
            return (index[id(p.startpoint)], index[id(p.endpoint)]), p
        return index[id(p)], p

    for k, op in enumerate(c["ops"]):
        if op[0] == "fill":
            i = op[1] % len(locs)
            if m.r[i].camp:
                e.insertAgents(location=locs[i], number=5)
                m.r[i].n += 5
            continue
        if op[0] != "day":
            l = net["links"][op[1] % len(net["links"])]
            i, j, d = l[0], l[1], float(l[2])
            pairs = [(i, j), (j, i)] if op[2] else [(i, j)]
            nm = (locs[i].name, locs[j].name)
            if op[0] == "close":
                e.close_link(startpoint=nm[0], endpoint=nm[1], twoway=op[2])
            elif op[0] == "remove":
                e.remove_link(startpoint=nm[0], endpoint=nm[1], twoway=op[2])
            else:
                e.reopen_link(startpoint=nm[0], endpoint=nm[1], twoway=op[2])
            w, _p = spot()
            for (x, z) in pairs:
                is_open = (z, d) in m.r[x].out
                if op[0] in ("close", "remove"):
                    if is_open:
                        m.r[x].out.remove((z, d))
                        m.closed = getattr(m, "closed", set())
                        if op[0] == "close":
                            m.closed.add((x, z))
                            if w == (x, z):
                                doomed = True
                else:
                    if (x, z) in getattr(m, "closed", set()):
                        m.closed.discard((x, z))
                        m.r[x].out.append((z, d))
            continue
        w, p = spot()
        route = tuple(a.route)
        res = set()
        if isinstance(w, tuple):
            dol = float(a.distance_travelled_on_link)
            m.finish((w[0], w[1], float(p.get_distance())), dol, route, 0.0, doomed, res)
        else:
            m.r[w].n += 1
            starts = m.depart(w, route)
            m.r[w].n -= 1
            for pl, d2, r2 in starts:
                if not isinstance(pl, tuple):
                    m.r[w].n += 1
                    res.add((pl, 0.0, r2))
                    m.r[w].n -= 1
                else:
                    m.finish(pl, d2, r2, 0.0, False, res)
        before = (w, route)
        e.evolve()
        w2, p2 = spot()
        if w2 != w or not isinstance(w2, tuple):
            doomed = False
        got = (w2, float(a.distance_travelled_on_link) if isinstance(w2, tuple) else 0.0, tuple(a.route))
        if m.undecided:
            return
        expect(got in res, lambda: "day %d: from place/route %r the agent got to place %r, %r km along, remaining route %r; "
               "possible: %r" % (k, before, got[0], got[1], got[2], sorted(res, key=repr)[:10]))
        multi = multi or len(got[2]) >= 1
        if route and not got[2] and not isinstance(got[0], tuple) and got[0] == w:
            s.label("route_abandoned")
    s.nontrivial(multi)


# -------------------------------------------------------- independent choices

@st.composite
def crowd_case(draw):
    n = draw(st.integers(2, 4))
    locs = [{"n": x, "t": "town", "c": "H", "pop": 0, "f": False} for x in "AB"]
    for i in range(n):
        locs.append({"n": "XYZW"[i], "t": draw(st.sampled_from(["town", "town", "conflict_zone", "camp", "idpcamp"])),
                     "c": "H", "pop": 0, "f": draw(st.booleans()), "a": {}})
    links = [[o, 2 + i, draw(st.sampled_from([1000.0, 1500.0, 2000.0]))] for o in (0, 1) for i in range(n)]
    if draw(st.booleans()):        # a second step behind one of them
        locs.append({"n": "V", "t": "town", "c": "H", "pop": 0, "f": False})
        links.append([2, len(locs) - 1, 1000.0])
    m = {"default_movechance": draw(st.sampled_from([0.5, 1.0, 1.0])), "max_move_speed": 1.0,
         "awareness_level": draw(st.sampled_from([0, 1, 1, 2]))}
    for k, vals in (("camp_weight", [1.0, 2.0]), ("conflict_weight", [0.5, 0.25]), ("foreign_weight", [1.5])):
        if draw(st.booleans()):
            m[k] = draw(st.sampled_from(vals))
    if draw(st.booleans()):
        m["fixed_routes"] = True        # scores of 1 only: how often the score counts is not specified with fixed routes
        m["awareness_level"] = 1
        for d in locs:
            d.update(t="town", f=False)
    return {"net": {"locs": locs, "links": links}, "y": {"move_rules": m},
            "per": draw(st.lists(st.integers(3, 8), min_size=2, max_size=2)), "days": 30, "rounds": 8,
            "seed": draw(st.integers(0, 10 ** 6))}


def crowd_judge(c, s):
    fenv.fresh(c["y"], c["seed"])
    r = ref.rnet(c["net"], c["y"])
    pick, p = [], []
    for o in (0, 1):
        q = Counter()
        for k, v in (route_probs(r, o, c["y"]) or {}).items():
            q[k[0]] += v
        if not q:
            return
        best = min(sorted(q), key=lambda k: abs(q[k] - 0.5))
        pick.append(best)
        p.append(q[best])
    series = [[], []]
    for _ in range(c["rounds"]):
        e, locs = fenv.build(c["net"])
        for _d in range(c["days"]):
            for o in (0, 1):
                e.insertAgents(location=locs[o], number=c["per"][o])
            pre = [a for a in e.agents if not fenv.is_link(a.location)]
            e.evolve()
            n, took = [0, 0], [0, 0]
            for a in pre:
                if fenv.is_link(a.location):
                    o = 0 if a.location.startpoint is locs[0] else 1
                    n[o] += 1
                    took[o] += a.location.endpoint.name == pick[o]
            for o in (0, 1):
                series[o].append((took[o], n[o], p[o]))
    for o in (0, 1):
        indep.one(series[o], "agents leaving %s for %s" % ("AB"[o], pick[o]))
    indep.two(series[0], series[1], "agents leaving A for %s and B for %s" % tuple(pick))
    s.label("fixed_routes", bool(fenv.mv(c["y"], "fixed_routes")))
    s.nontrivial(all(0.02 < q < 0.98 for q in p))


def wrapped(f):
    def j(c, s):
        with workdir():
            f(c, s)
    return j


SUBS = [
    Sub("prune", lambda: prune_case(), prune_judge, quick=1500),
    Sub("normalise", lambda: st.fixed_dictionaries({
        "w": st.lists(W, min_size=1, max_size=8),
        "scale": st.sampled_from([1.0, 1.0, 1e-6, 1e-12, 1e-30, 1e12])}), norm_judge, quick=800),
    Sub("draws", lambda: select_case(), select_judge, quick=700, shards=3),
    Sub("following", lambda: follow_case(), wrapped(follow_judge), quick=3000, shards=3),
    Sub("crowds", lambda: crowd_case(), wrapped(crowd_judge), quick=200, shards=4),
]
