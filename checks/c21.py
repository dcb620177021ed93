"""C21: pre-generated (fixed) routes and major routes."""
from hypothesis import strategies as st

import fenv
import geo
import ref
from flee import crawling
from vlib import Sub, close, expect, expect_eq, workdir

RULE = ("A case is a network read from CSV files (markers, cycles, closed links, optional major_routes file), settings "
        "with fixed_routes and a history of days, conflicts and closures; for every location on every day the stored "
        "routes are compared with a brute-force search over loop-free paths, and every agent's journey is compared with "
        "the routes stored where it set out.  Non-trivial: a location had a route of two or more links and some "
        "destination had several paths, or a major route was used.")

TYPES = ("town", "town", "conflict_zone", "camp", "marker", "forwarding_hub")


@st.composite
def case(draw, major=False):
    far = not major and draw(st.integers(0, 5)) == 0
    net = draw(fenv.net_strategy(min_locs=5 if far else 2, max_locs=9 if far else 7, connected=True, chain=True if far else None, types=TYPES, max_extra=2 if far else 5,
                                 parallel=not major and draw(st.integers(0, 4)) == 0, caps=st.just(-1),
                                 pops=st.just(1000), countries=("H", "N"), conflict_attr=False,
                                 dists=st.sampled_from([35.0, 60.0, 100.0, 101.5, 250.0, 333.0])))
    m = {"fixed_routes": True, "awareness_level": draw(st.sampled_from([1, 1, 2, 2, 3])) if draw(st.integers(0, 19)) else 0,
         "max_move_speed": draw(st.sampled_from([30.0, 120.0, 400.0])),
         "default_movechance": 1.0, "conflict_movechance": 1.0, "camp_movechance": draw(st.sampled_from([0.5, 1.0]))}
    if far:
        m["awareness_level"] = draw(st.integers(3, 7))
    if major:
        m["awareness_level"] = draw(st.integers(1, 2))

    def opt(k, vals, p=2):
        if draw(st.integers(0, p)) == 0:
            m[k] = draw(st.sampled_from(vals))
    opt("softening", [0.5, 1.0, 100.0])
    opt("weight_softening", [0.1, 2.0])
    opt("weight_power", [0.5, 2.0], 3)
    opt("distance_power", [0.0, 0.5, 2.0])
    opt("foreign_weight", [0.5, 2.0])
    opt("camp_weight", [0.0, 0.5, 3.0])
    opt("conflict_weight", [0.1, 0.25])
    flood = draw(st.integers(0, 3)) == 0
    if flood:
        m["flood_rules"] = {"max_flood_level": 2, "flood_movechances": [0.0, 0.5, 1.0], "flood_loc_weights": [1.0, 0.5, 0.1]}
    n = len(net["locs"])
    locs = net["locs"]
    mr = []
    if major:
        adj = {i: set() for i in range(n)}
        for l in net["links"]:
            adj[l[0]].add(l[1])
            adj[l[1]].add(l[0])
        for _ in range(draw(st.integers(1, 3))):
            path = [draw(st.integers(0, n - 1))]
            while len(path) < 5:
                nxt = sorted(j for j in adj[path[-1]] if j not in path)
                if not nxt or (len(path) > 2 and draw(st.booleans())):
                    break
                path.append(draw(st.sampled_from(nxt)))
            if len(path) >= 3 and locs[path[0]]["t"] != "marker" and locs[path[-1]]["t"] != "marker":
                mr.append(path)
    i = st.integers(0, n - 1)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("day"), st.integers(1, 3)).map(list),
        st.tuples(st.just("conflict"), i, st.sampled_from([0.0, 0.5, 1.0, 3.0])).map(list),
        st.tuples(st.just("flood"), i, st.integers(0, 2)).map(list) if flood else st.just(["day", 1]),
        st.tuples(st.just("close"), i, i).map(list) if not major else st.just(["day", 1])), min_size=1, max_size=5))
    return {"net": net, "y": {"move_rules": m}, "major": mr, "ops": ops, "flood": flood,
            "pad": draw(st.integers(0, 2)), "seed": draw(st.integers(0, 10 ** 6))}


def w_of(y, score, dist, major=False):
    dist = float(fenv.mv(y, "softening")) + dist
    if major:
        dist /= 4.0
    w = (float(fenv.mv(y, "weight_softening")) + score) / dist ** float(fenv.mv(y, "distance_power"))
    return w ** float(fenv.mv(y, "weight_power"))


def search(r, links, score, start, y):
    """{dest index: [(weight, path)]} over loop-free paths."""
    aw = int(fenv.mv(y, "awareness_level"))
    out = {}

    def walk(cur, prior, path, step):
        for j, d in links[cur]:
            if j in path:
                continue
            ns = step
            if not r[j].marker:
                out.setdefault(j, []).append((w_of(y, score(j), prior + d), tuple(path[1:]) + (j,)))
                ns += 1
            if ns < aw:
                walk(j, prior + d, path + [j], ns)
    if aw > 0 and not r[start].marker:
        walk(start, 0.0, [start], 0)
    return {j: v for j, v in out.items() if max(w for w, _ in v) > 0}


def expected(r, links, score, y, majors, pathdist):
    """[{dest: (weight, set of admissible paths)}] per location."""
    res = []
    tol = 1e-9
    reg = []
    for i in range(len(r)):
        reg.append({j: (max(w for w, _ in v), [p for w, p in v if w >= max(x for x, _ in v) * (1 - tol)])
                    for j, v in search(r, links, score, i, y).items()})
    for i in range(len(r)):
        d = {j: (w, set(p)) for j, (w, p) in reg[i].items()}
        more = {}
        fuzzy = set()
        if not r[i].marker and int(fenv.mv(y, "awareness_level")) > 0:
            for hub, ways in [(i, [()])] + [(j, p) for j, (w, p) in reg[i].items()]:
                for m in majors[hub]:
                    dest = m[-1]
                    if dest == i or dest in reg[i]:
                        continue
                    for way in ways:
                        full = way + tuple(m)
                        if i in full or len(set(full)) != len(full) or len(ways) > 1:
                            fuzzy.add(dest)     # a loop, or a tie between the ways to the hub
                        more.setdefault(dest, []).append((w_of(y, score(dest), pathdist(i, full), True), full))
        for dest, v in more.items():
            best = max(w for w, _ in v)
            if best > 0:
                paths = set(p for w, p in v if w >= best * (1 - tol) or dest in fuzzy)
                d[dest] = (None if dest in fuzzy else best, paths, True)
        res.append(d)
    return res


def judge(c, s):
    with workdir():
        y = c["y"]
        fenv.fresh(y, c["seed"])
        net = c["net"]
        names = [d["n"] for d in net["locs"]]
        for d in net["locs"]:
            d["pc"] = d.get("cap", -1) if "camp" in d["t"] else d["pop"]
            if "camp" in d["t"]:
                d["pc"] = 0
            d["f"] = d["c"] != net["locs"][0]["c"]
        geo.write_locations("locations.csv", net["locs"])
        geo.write_routes("routes.csv", net["locs"], net["links"])
        geo.write_closures("closures.csv", [])
        if c["major"]:
            rows = [["# major routes"]] if c["pad"] else []
            for m in c["major"]:
                rows.append([names[k] for k in m])
            if c["pad"] == 2:
                rows.append([])
            geo.w("major_routes.csv", rows)
        ig, e, lm = geo.load()
        e.print_location_output = False
        locs = e.locations
        r = ref.rnet({"locs": [dict(d, pop=0 if "camp" in d["t"] else d["pop"], cap=-1) for d in net["locs"]], "links": net["links"]}, y)
        n = len(r)
        links = [list(x.out) for x in r]
        majors = [[] for _ in r]
        for m in c["major"]:
            majors[m[0]].append(m[1:])
            majors[m[-1]].append(m[-2::-1])
        first = {}
        for i in range(n):
            for j, d in r[i].out:
                first.setdefault((i, j), d)

        def pathdist(i, path):
            t = 0.0
            for j in path:
                t += first[i, j]
                i = j
            return t
        flood = [0] * n

        def score(t):
            sc = [ref.loc_score(x, y, t) for x in r]
            if c["flood"]:
                for k in range(n):
                    if flood[k]:
                        sc[k] *= y["move_rules"]["flood_rules"]["flood_loc_weights"][flood[k]]
            return lambda j: sc[j]
        seen = {"multi": False, "major": False}

        def compare(t, where):
            want = expected(r, links, score(t), y, majors, pathdist)
            for i, loc in enumerate(locs):
                if r[i].marker:
                    expect_eq(dict(loc.routes), {}, where + "routes from marker " + loc.name)
                    continue
                w = want[i]
                expect_eq(sorted(loc.routes), sorted(names[j] for j in w), where + "destinations of the routes from " + loc.name)
                for j, x in w.items():
                    gw, gp, ge = loc.routes[names[j]][:3]
                    what = where + "route from %s to %s: " % (loc.name, names[j])
                    expect(ge is locs[j], what + "leads to %s" % ge.name)
                    if x[0] is not None:
                        expect(close(gw, x[0], rel=1e-6), lambda: what + "weight %r, expected %r" % (gw, x[0]))
                    paths = [[names[k] for k in p] for p in x[1]]
                    if len(x) > 2:
                        seen["major"] = True
                        if not c.get("strict"):     # known finding: the first waypoint of a major route is lost
                            paths += [p[1:] for p in paths]
                    expect(list(gp) in paths, lambda: what + "runs %r, expected one of %r" % (gp, paths[:4]))
                    seen["multi"] |= len(gp) > 1
        # the public generator, before any day
        for loc in locs:
            fenv.scoring.updateLocationScore(0, loc)
        for loc in locs:
            out = crawling.generateLocationRoutes(loc, 0)
            if loc.marker:
                expect_eq(out, {}, "routes generated for marker " + loc.name)
            else:
                expect_eq(sorted(out), sorted(loc.routes), "generated and stored routes of " + loc.name)
        compare(0, "generated: ")
        for loc in locs:
            if not loc.marker:
                for _ in range(2):
                    e.addAgent(location=loc, attributes={})
        t = 0
        plans = {}
        for k, op in enumerate(c["ops"]):
            if op[0] == "conflict":
                x = r[op[1]]
                if x.camp or x.marker or x.d["t"] == "forwarding_hub":
                    continue
                e.set_conflict_intensity(x.name, op[2])
                x.conflict = 0.0 if op[2] < 1e-6 else op[2]
                if x.conflict:
                    x.since = t
            elif op[0] == "flood":
                locs[op[1]].attributes["flood_level"] = op[2]
                flood[op[1]] = op[2]
            elif op[0] == "close":
                i, j = op[1], op[2]
                if i == j or not any(q == j for q, _ in links[i]):
                    continue
                e.close_link(names[i], names[j], twoway=True)
                links[i] = [q for q in links[i] if q[0] != j]
                links[j] = [q for q in links[j] if q[0] != i]
            elif op[0] == "day":
                for _ in range(op[1]):
                    start = {id(a): (a.location, len(a.route)) for a in e.agents}
                    e.evolve()
                    where = "day %d (op %d %r): " % (t, k, op)
                    compare(t, where)
                    # agents that set out follow a route of the place they set out from
                    # (at 30 km a day no agent travels more than one link in a day)
                    for a in e.agents if fenv.mv(y, "max_move_speed") < 35.0 else ():
                        src, had = start[id(a)]
                        if fenv.is_link(src) or had or a.location is src:
                            continue
                        if fenv.is_link(a.location) and a.location.startpoint is src:
                            plan = [a.location.endpoint.name] + list(a.route)
                            if int(fenv.mv(y, "awareness_level")) == 0:
                                continue
                            ok = [list(v[1]) for v in src.routes.values()]
                            expect(plan in ok, lambda: where + "an agent left %s for %r, routes are %r" % (src.name, plan, ok[:6]))
                    t += 1
        s.label("multi_step", seen["multi"])
        s.label("major", seen["major"])
        s.nontrivial(seen["multi"] or seen["major"])


SUBS = [Sub("regular", lambda: case(), judge, quick=2500, shards=5),
        Sub("major", lambda: case(major=True), judge, quick=1500, shards=3)]
