"""C22: agent and link logs and camp arrival statistics tell what happened."""
import csv
import io
import os
from collections import Counter

from hypothesis import strategies as st

import fenv
import flee.Diagnostics as DG
from vlib import Sub, close, expect, expect_close, expect_eq, workdir

RULE = ("A case is a simulation with logs switched on (all levels and granularities), agents with attributes, agents added "
        "on later days, closed links and sink camps.  In 'daily' no agent finishes two links in a day, so every departure "
        "and arrival is visible in the state at the end of the days, and every row of both logs and the arrival statistics "
        "are compared with it; in 'hops' agents finish many links a day, and the logged chain of links must connect the "
        "two states and add up to the distances logged; in 'part' "
        "the logs written with a limit and an interval are the matching rows of the full ones.  Non-trivial: links were finished and two agents differ.")


@st.composite
def case(draw, hops=False):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, big=True, connected=True, coords=True, conflict_attr=False,
                                 types=("town", "town", "camp", "conflict_zone", "idpcamp", "forwarding_hub"),
                                 caps=st.just(-1),
                                 dists=st.sampled_from([100.0, 100.0, 101.0, 150.5, 199.0, 330.0]) if not hops else
                                 st.sampled_from([20.0, 33.5, 50.0, 100.0, 170.0, 400.0])))
    for d in net["locs"]:
        d["reg"] = draw(st.sampled_from(["R1", "R2"]))
        if "camp" in d["t"] and draw(st.booleans()):
            d["a"] = {"deactivation_probability": draw(st.sampled_from(["0.5", "1.0"]))}
    n = len(net["locs"])
    m = {"max_move_speed": draw(st.sampled_from([50.0, 77.5, 100.0])) if not hops else
         draw(st.sampled_from([100.0, 101.0, 200.0, 400.0])),
         "camp_movechance": draw(st.sampled_from([0.01, 0.5])), "default_movechance": draw(st.sampled_from([0.3, 1.0]))}
    if not hops:
        m["avoid_short_stints"] = draw(st.booleans())
    logs = {"agent": draw(st.sampled_from([1, 1, 2, 3])) if not hops else draw(st.sampled_from([2, 3])),
            "link": draw(st.integers(0, 2)) if not hops else draw(st.integers(1, 2)), "camp": draw(st.integers(0, 1)),
            "granularity": draw(st.sampled_from(["location", "location", "region"])) if not hops else "location"}
    if not hops and draw(st.integers(0, 5)) == 0:
        logs["agent"] = 0
    i = st.integers(0, n - 1)
    attrs = draw(st.sampled_from([[], ["age"], ["age", "sex"]]))
    agent = st.tuples(i, st.sampled_from([5, 30]), st.sampled_from(["m", "f"])).map(list)
    ops = [["add", draw(st.lists(agent, min_size=draw(st.integers(0, 9)) and 2, max_size=6))], ["day", draw(st.integers(1, 4))]]
    ops += draw(st.lists(st.one_of(
        st.tuples(st.just("day"), st.integers(1, 5)).map(list),
        st.tuples(st.just("add"), st.lists(agent, min_size=1, max_size=3)).map(list),
        st.tuples(st.just("close"), st.integers(0, 20)).map(list)), max_size=5))
    if draw(st.integers(0, 24)) == 0:
        ops.append(["day", draw(st.sampled_from([40, 105]))])
    elif draw(st.integers(0, 24)) == 0:
        ops.insert(1, ["add", [[k % n, 5 + 25 * (k % 2), "mf"[k % 3 % 2]] for k in range(draw(st.sampled_from([30, 105])))]])
    return {"net": net, "y": {"move_rules": m, "log_levels": logs, "spawn_rules": {"camps_are_sinks": draw(st.booleans())}},
            "attrs": attrs, "ops": ops, "seed": draw(st.integers(0, 10 ** 6))}


def lines(path, skip):
    try:
        with open(path, encoding="utf-8", newline="") as f:
            text = f.read()
    except FileNotFoundError:
        return None, skip
    rows = list(csv.reader(io.StringIO(text)))
    return rows[skip:], len(rows)


def start(c):
    fenv.fresh(c["y"], c["seed"])
    return fenv.build(c["net"])


def add(e, locs, c, rows):
    for i, age, sex in rows:
        a = {"age": age, "sex": sex}
        e.addAgent(location=locs[i], attributes={k: a[k] for k in c["attrs"]})


def region_or_name(place, gran):
    if gran == "region":
        return place.startpoint.region if fenv.is_link(place) else place.region
    return place.name


def state_row(t, k, a, gran, m):
    """The row of agent k, from its state and from the model m of its journey."""
    p = a.location
    x, y = (0.0, 0.0) if gran == "region" else (p.x, p.y)
    return [str(t), "0-%d" % k, a.home_location.name, region_or_name(p, gran), x, y, str(fenv.is_link(p)),
            m["dist"], m["places"], m["moved"]]


def same_row(got, want, attrs, what):
    g = list(got)
    expect(len(g) >= len(want) + len(attrs), lambda: what + "row %r has too few columns" % (got,))
    for k, (x, w) in enumerate(zip(g, want)):
        ok = close(x, w, rel=1e-9, abs_=1e-6) if isinstance(w, (int, float)) else x == w
        expect(ok, lambda: what + "column %d is %r, expected %r (row %r, expected %r)" % (k + 1, x, w, got, want))
    expect_eq(g[len(want):len(want) + len(attrs)], attrs, what + "attributes")


def alinks(e):
    return [l for loc in e.locations for l in loc.links]


def check_links(c, e, t, lrows, cum, cumattr, gran):
    want = Counter()
    for l in alinks(e):
        ends = (region_or_name(l.startpoint, gran), region_or_name(l.endpoint, gran))
        want[(str(t),) + ends + (str(cum.get(id(l), 0)), "total")] += 1
        if c["y"]["log_levels"]["link"] > 1:
            for (k, v), x in cumattr.get(id(l), {}).items():
                want[(str(t),) + ends + (str(x), "%s:%s" % (k, v))] += 1
    got = Counter(tuple(r[:5]) for r in lrows)
    if got != want:
        expect(False, "day %d: links.out has unexpected rows %r, lacks %r" % (t, sorted((got - want).elements())[:4],
                                                                             sorted((want - got).elements())[:4]))


def judge(c, s):
    with workdir():
        e, locs = start(c)
        v = float(fenv.mv(c["y"], "max_move_speed"))
        lv = c["y"]["log_levels"]
        gran = lv["granularity"]
        model = []
        cum, cumattr = {}, {}
        keep = []
        t = aoff = loff = 0
        done = 0
        for op in c["ops"]:
            if op[0] == "add":
                add(e, locs, c, op[1])
                while len(model) < len(e.agents):
                    model.append({"dist": 0.0, "places": 1, "moved": 0.0, "dol": 0.0, "age": 0})
            elif op[0] == "close":
                ls = alinks(e)
                if ls:
                    l = ls[op[1] % len(ls)]
                    e.close_link(l.startpoint.name, l.endpoint.name, twoway=True)
            else:
                for _ in range(op[1]):
                    before = [(a.location, a.location.closed if fenv.is_link(a.location) else False) for a in e.agents]
                    keep.extend(p for p, _ in before)
                    gone = [a.location is None for a in e.agents]
                    ncamp = []
                    e.evolve()
                    rows, aoff = lines("agents.out.0", aoff if t else 1)
                    lrows, loff = lines("links.out.0", loff if t else 1)
                    main = {}
                    hop = {}
                    for r in rows or ():
                        k = int(r[1].split("-")[1])
                        if k in main:
                            hop.setdefault(k, []).append(r)
                        else:
                            main[k] = r
                    for k, a in enumerate(e.agents):
                        m = model[k]
                        m["age"] += 1
                        m["moved"] = 0.0
                        if gone[k]:
                            expect(a.location is None and k not in main, "day %d: deactivated agent %d is in the log" % (t, k))
                            continue
                        p0, closed = before[k]
                        p1 = a.location
                        hops = []
                        if fenv.is_link(p0):
                            m["dol"] += v
                            m["moved"] = v
                            if p1 is not p0:
                                # finished: at the end of the link (or its start if closed), perhaps on the next one
                                d = float(p0.get_distance())
                                m["dist"] += d
                                m["places"] += 1
                                m["moved"] = v + d - m["dol"]
                                done += 1
                                if not closed:
                                    if p0.endpoint.camp:
                                        ncamp.append(m["age"] - 1)
                                    if m["moved"] < v:
                                        hops.append(p0)
                                m["dol"] = 0.0
                        here = p0 if not fenv.is_link(p0) else None
                        if p1 is not None and fenv.is_link(p1) and p1 is not p0:
                            cum[id(p1)] = cum.get(id(p1), 0) + 1
                            for x in c["attrs"]:
                                cc = cumattr.setdefault(id(p1), {})
                                cc[x, a.attributes[x]] = cc.get((x, a.attributes[x]), 0) + 1
                            m["dol"] = v
                            m["moved"] += v
                        if lv["agent"] == 0:
                            continue
                        w = "day %d, agent %d: " % (t, k)
                        expect(k in main, w + "no row in agents.out.0")
                        at = [str(a.attributes[x]) for x in c["attrs"]]
                        if p1 is None:
                            # deactivated this evening: it was in the camp
                            camp = here if here is not None else (p0.startpoint if closed else p0.endpoint)
                            expect_eq(main[k][3], region_or_name(camp, gran), w + "place of an agent deactivated later that day")
                            continue
                        same_row(main[k], state_row(t, k, a, gran, m), at, w)
                        hs = hop.get(k, [])
                        if lv["agent"] < 2:
                            expect_eq(len(hs), 0, w + "more than one row")
                            continue
                        expect_eq([r[3] for r in hs], [region_or_name(x, gran) for x in hops], w + "places passed through")
                        for h, (r, x) in enumerate(zip(hs, hops)):
                            wr = state_row(t, k, a, gran, m)
                            wr[0] = "%d-%d" % (t, h + 1) if lv["agent"] > 2 else str(t)
                            wr[3:6] = [region_or_name(x, gran)] + ([0.0, 0.0] if gran == "region" else [x.x, x.y])
                            same_row(r, wr, at, w + "place passed through: ")
                    if rows is not None:
                        expect_eq(sorted(main), sorted(k for k in range(len(gone)) if not gone[k]), "day %d: agents logged" % t)
                    expect_eq(rows is not None, lv["agent"] > 0, "whether agents.out.0 is written")
                    expect_eq(lrows is not None, lv["link"] > 0, "whether links.out.0 is written")
                    if lrows is not None:
                        check_links(c, e, t, lrows, cum, cumattr, gran)
                    if lv["camp"]:
                        expect_eq(len(e.num_arrivals), t + 1, "days of arrival statistics")
                        expect_eq(int(e.num_arrivals[-1]), len(ncamp), "day %d: arrivals in camps" % t)
                        expect_close(e.travel_durations[-1], sum(ncamp) / len(ncamp) if ncamp else 0.0,
                                     "day %d: mean travel duration (of %r)" % (t, ncamp))
                    t += 1
        s.label("region", gran == "region")
        s.label("sink", any(a.location is None for a in e.agents))
        s.nontrivial(done > 0 and len(e.agents) > 1)


def hops_judge(c, s):
    with workdir():
        e, locs = start(c)
        lv = c["y"]["log_levels"]
        t = aoff = loff = 0
        most = 0
        for op in c["ops"]:
            if op[0] == "add":
                add(e, locs, c, op[1])
            elif op[0] == "day":
                for _ in range(op[1]):
                    before = [a.location for a in e.agents]
                    prev = [(a.distance_travelled, a.places_travelled) for a in e.agents]
                    e.evolve()
                    byname = {l.name: l for l in alinks(e)}
                    rows, aoff = lines("agents.out.0", aoff if t else 1)
                    lrows, loff = lines("links.out.0", loff if t else 1)
                    per = {}
                    for r in rows or ():
                        per.setdefault(int(r[1].split("-")[1]), []).append(r)
                    used = Counter()
                    for k, a in enumerate(e.agents):
                        w = "day %d, agent %d: " % (t, k)
                        if before[k] is None:
                            expect(k not in per, w + "deactivated but logged")
                            continue
                        rs = per.get(k, [])
                        expect(rs, w + "no row in agents.out.0")
                        end = rs[0][3]
                        if a.location is not None:
                            expect_eq(end, a.location.name, w + "place")
                        dist = float(rs[0][7])
                        places = int(rs[0][8])
                        names = [r[3] for r in rs[1:]]
                        for h, r in enumerate(rs[1:]):
                            expect_eq(r[0], "%d-%d" % (t, h + 1) if lv["agent"] > 2 else str(t), w + "time of a place passed through")
                        expect(all(x in byname for x in names), lambda: w + "passed through %r, which are not all links" % names)
                        cur = before[k]
                        total = 0.0
                        for x in names:
                            l = byname[x]
                            if fenv.is_link(cur):
                                expect(cur is l, lambda: w + "on %s, but %r was finished first" % (cur.name, names))
                            else:
                                expect(l.startpoint is cur, lambda: w + "at %s, then along %s (all: %r)" % (cur.name, x, names))
                                used[x] += 1
                            total += float(l.get_distance())
                            cur = l.endpoint
                        fin = len(names)
                        # the last link finished is not listed when it used up the day
                        if end in byname:
                            expect(cur.name == end or cur is byname[end].startpoint ,
                                   lambda: w + "from %s to %s" % (cur.name, end))
                            if cur.name != end:
                                used[end] += 1
                        elif cur.name != end:
                            if fenv.is_link(cur):
                                last = [cur]
                            else:
                                last = [l for l in cur.links if l.endpoint.name == end]
                                expect(last, lambda: w + "from %s to %s, which are not linked" % (cur.name, end))
                                used[last[0].name] += 1
                            total += float(last[0].get_distance())
                            fin += 1
                        expect_eq(places - prev[k][1], fin, w + "links finished (%r), by places_travelled" % names)
                        expect_close(dist - float(prev[k][0]), total, w + "distance travelled along %r and on to %s" % (names, end),
                                     abs_=1e-6)
                        most = max(most, fin)
                    if t == 0:
                        last_cum = {l.name: 0 for l in alinks(e)}
                    for r in lrows:
                        if r[4] == "total":
                            nm = "L:%s:%s" % (r[1], r[2])
                            expect_eq(int(r[3]) - last_cum.get(nm, 0), used.get(nm, 0), "day %d: new agents on %s" % (t, nm))
                            last_cum[nm] = int(r[3])
                    expect_eq(len([r for r in lrows if r[4] == "total"]), len(byname), "day %d: links logged" % t)
                    t += 1
        s.label("hops", most >= 3)
        s.nontrivial(most >= 2)


@st.composite
def part_case(draw):
    c = draw(case())
    c["y"]["log_levels"]["agent"] = max(1, c["y"]["log_levels"]["agent"])
    c["part"] = [draw(st.integers(-1, 8)), draw(st.sampled_from([1, 1, 2, 3, 7])), draw(st.sampled_from([1, 2, 3, 7]))]
    return c


def same_lines(have, want, what):
    for k, (x, y) in enumerate(zip(have, want)):
        expect(x == y, lambda: what + "row %d is %r, expected %r" % (k + 1, x, y))
    expect(len(have) == len(want), lambda: what + "%d rows, expected %d" % (len(have), len(want)))


def part_judge(c, s):
    """write_agents and write_links called with a limit and an interval, against the full logs of every day."""
    most, every, links_every = c["part"]
    with workdir():
        e, locs = start(c)
        os.mkdir("part")
        t = 0
        for op in c["ops"]:
            if op[0] == "add":
                add(e, locs, c, op[1])
            elif op[0] == "day":
                for _ in range(op[1]):
                    e.evolve()
                    os.chdir("part")
                    DG.write_agents_par(rank=7, agents=e.agents, time=t)
                    DG.write_links_par(rank=7, locations=e.locations, time=t)
                    DG.write_agents(agents=e.agents, time=t, max_written=most, timestep_interval=every)
                    DG.write_links(locations=e.locations, time=t, timestep_interval=links_every)
                    os.chdir("..")
                    t += 1
        os.chdir("part")
        w = "at most %d agents, every %d days: " % (most, every)
        have = lines("agents.out.0", 0)[0]
        want = lines("agents.out.7", 0)[0]
        expect_eq(have[:1], want[:1], w + "header of agents.out.0")
        keep = [["%s" % r[0], "0" + r[1][1:]] + r[2:] for r in want[1:]
                if int(r[0].split("-")[0]) % every == 0 and (most < 0 or int(r[1].split("-")[1]) < most)]
        same_lines(have[1:], keep, w + "agents.out.0: ")
        have = lines("links.out.0", 0)[0]
        want = lines("links.out.7", 0)[0]
        same_lines(have, want[:1] + [r for r in want[1:] if int(r[0]) % links_every == 0],
                   "every %d days: links.out.0: " % links_every)
        s.label("limit", 0 <= most < len(e.agents))
        s.nontrivial((most >= 0 or every > 1) and t > every)


SUBS = [Sub("part", lambda: part_case(), part_judge, quick=400, shards=2),
        Sub("daily", lambda: case(), judge, quick=3000, shards=5),
        Sub("hops", lambda: case(hops=True), hops_judge, quick=2000, shards=3)]
