"""C16: agents carry the attributes that the demographics files or agents.csv give them."""
import math
import os
from collections import Counter

from hypothesis import strategies as st

import fenv
import geo
import rdata
from vlib import Sub, expect, expect_eq, workdir

RULE = ("Cases: demographics files (Default and per-location columns, zero weights, one or two attributes), with agents "
        "created by each public route; every attribute value must have a positive weight where the agent was created, "
        "and over 300 agents the frequencies lie within 6 standard deviations.  agents.csv files with comments, empty "
        "lines and unknown locations, compared agent by agent.  Non-trivial: a location with its own column that differs "
        "from Default, or at least two agents with different attributes.")

ATTRS = {"age": [5, 17, 40], "gender": ["m", "f"], "religion": ["x", "y z", "w"], "floodawareness": [0, 1, 2],
         "years": list(range(0, 90, 5))}


def norm(v):
    """Numbers may come back as floats."""
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


@st.composite
def demo_case(draw):
    locs = [{"n": "Zone", "t": "conflict_zone", "pop": 100000}, {"n": "Camp A", "t": "camp", "cap": 5000},
            {"n": "Camp AB", "t": draw(st.sampled_from(["camp", "idpcamp"])), "cap": 5000},
            {"n": "Z2", "t": "conflict_zone", "pop": draw(st.sampled_from([0, 100000]))}]
    demo = []
    for a in draw(st.lists(st.sampled_from(sorted(ATTRS)), max_size=draw(st.sampled_from([2, 2, 5])), unique=True)):
        cols = ["Default"] + draw(st.lists(st.sampled_from(["Zone", "Camp A", "Camp AB", "Z2", "Elsewhere"]), max_size=3,
                                           unique=True))
        rows = []
        for v in ATTRS[a]:
            rows.append([v] + [draw(st.sampled_from([0, 1, 25, 0.125, 0.7])) for _ in cols])
        for k in range(len(cols)):
            if not any(r[k + 1] for r in rows):
                rows[draw(st.integers(0, len(rows) - 1))][k + 1] = 3
        demo.append([a, cols, rows])
    return {"locs": locs, "demo": demo,
            "how": draw(st.sampled_from(["data", "driven", "flood", "spawn", "initial"])),
            "stat": draw(st.integers(0, 14)) == 0, "seed": draw(st.integers(0, 10 ** 6)), "evolve": draw(st.booleans())}


def demo_judge(c, s):
    with workdir():
        os.makedirs("input_csv")
        for a, cols, rows in c["demo"]:
            geo.w("input_csv/demographics_%s.csv" % a, [[a] + cols] + rows)
        n = 300 if c["stat"] else 8
        sp = {}
        how = c["how"]
        locs = c["locs"]
        if how == "driven":
            sp = {"conflict_driven_spawning": {"displaced_per_conflict_day": n}}
        elif how == "flood":
            sp = {"flood_driven_spawning": {"displaced_per_flood_day": [0, n], "spawn_mode": "constant"},
                  "take_from_population": True, "flood_zone_spawning_only": True, "conflict_zone_spawning_only": False}
        y = {"spawn_rules": sp} if sp else {}
        if how == "flood":
            y["move_rules"] = {"flood_rules": {"flood_movechances": [0.0, 0.5], "flood_loc_weights": [1.0, 1.0]}}
        fenv.fresh(y, c["seed"])
        m = n if how == "data" else 0
        init = n if how == "initial" else 3
        tables = [["total", [[0, 0], [1, 0]]], ["Camp A", [[0, init], [1, init + m], [2, init + m]]],
                  ["Camp AB", [[0, 2]]]]
        rdata.write("d", "2012-02-29", tables)
        d = rdata.table("d", "2012-02-29")
        e, ls = fenv.build({"locs": locs, "links": []})
        sp_mod = fenv.spawning
        for l in ls[1:3]:
            sp_mod.add_initial_refugees(e, d, l)
        for t in range(2):
            if how == "flood":
                ls[0].attributes["flood_level"] = t
            sp_mod.spawn_daily_displaced(e, t, d)
            if how == "spawn":
                sp_mod.refresh_spawn_weights(e)
                sp_mod.spawn_agents(e, n)
            if c["evolve"]:
                e.evolve()
        expect_eq(ls[1].numAgents, init, "agents in Camp A at the start")
        expect_eq(len(e.agents) > init + 2 or how == "initial", True, "agents were spawned")
        w = {}
        own = False
        for a, cols, rows in c["demo"]:
            for l in locs:
                col = l["n"] if l["n"] in cols else "Default"
                own |= col != "Default"
                k = cols.index(col) + 1
                w[a, l["n"]] = {norm(r[0]): r[k] / sum(x[k] for x in rows) for r in rows}
        cnt, tot = Counter(), Counter()
        for ag in e.agents:
            h = ag.home_location.name
            expect_eq(sorted(ag.attributes), sorted(a for a, _, _ in c["demo"]), "attributes of an agent from " + h)
            tot[h] += 1
            for a, _, _ in c["demo"]:
                v = norm(ag.attributes[a])
                expect(w[a, h].get(v, 0) > 0, lambda: "an agent from %s has %s=%r, weights there are %r" % (h, a, v, w[a, h]))
                cnt[a, h, v] += 1
        for (a, h), ws in w.items():
            for v, p in ws.items():
                N = tot[h]
                expect(abs(cnt[a, h, v] - N * p) <= 6 * math.sqrt(N * p * (1 - p)) + 4,
                       lambda: "%d of %d agents from %s have %s=%s; the weights say %.3f" % (cnt[a, h, v], N, h, a, v, p))
        # each attribute is drawn on its own
        both = Counter((ag.home_location.name, a, norm(ag.attributes[a]), b, norm(ag.attributes[b])) for ag in e.agents
                       for a in ag.attributes for b in ag.attributes if a < b)
        for (h, a, v, b, u), got in both.items():
            p, N = w[a, h][v] * w[b, h][u], tot[h]
            expect(abs(got - N * p) <= 6 * math.sqrt(N * p * (1 - p)) + 4,
                   lambda: "%d of %d agents from %s have %s=%s and %s=%s; the weights say %.3f" % (got, N, h, a, v, b, u, p))
        s.label(how)
        s.nontrivial(own and bool(w))


@st.composite
def csv_case(draw):
    names = draw(st.permutations(["A", "B", "AB", "Town 1", "Ä"]))[:draw(st.integers(1, 5))]
    heads = draw(st.lists(st.sampled_from(["age", "gender", "religion", "id"]), max_size=3, unique=True))
    rows = []
    for _ in range(draw(st.integers(0, 8) if draw(st.integers(0, 14)) else st.integers(20, 60))):
        k = draw(st.integers(0, 9))
        if k == 0:
            rows.append("#")
        elif k == 1:
            rows.append("")
        else:
            rows.append([draw(st.sampled_from(list(names) + ["Nowhere"]))]
                        + [draw(st.sampled_from(["30", "male", "", "a b", "Q,1", "0"])) for _ in heads])
    return {"names": names, "heads": heads, "rows": rows, "lead": draw(st.integers(0, 2)),
            "take": draw(st.booleans()), "pop": draw(st.sampled_from([0, 1, 3, 100])),
            "seed": draw(st.integers(0, 10 ** 6))}


def csv_judge(c, s):
    with workdir():
        fenv.fresh({"spawn_rules": {"take_from_population": c["take"]}}, c["seed"])
        e, ls = fenv.build({"locs": [{"n": n, "t": "town", "pop": c["pop"]} for n in c["names"]], "links": []})
        body = [["# a comment", "x"]] * c["lead"] + [["location"] + c["heads"]]
        for r in c["rows"]:
            body.append(["#" + c["names"][0]] + ["1"] * len(c["heads"]) if r == "#" else [] if r == "" else r)
        geo.w("agents.csv", body)
        ig = geo.InputGeography.InputGeography()
        ig.ReadAgentsFromCSV(e, "agents.csv")
        want = [(r[0], dict(zip(c["heads"], r[1:]))) for r in c["rows"] if isinstance(r, list) and r[0] in c["names"]]
        got = [(a.location.name, dict(a.attributes)) for a in e.agents]
        expect_eq(sorted(got, key=repr), sorted(want, key=repr), "agents (location, attributes) read from agents.csv")
        expect_eq(e.numAgents(), len(want), "agents in the simulation")
        for n, l in zip(c["names"], ls):
            k = sum(1 for w in want if w[0] == n)
            expect_eq(l.numAgents, k, "agents at " + n)
            expect_eq(l.pop, max(0, c["pop"] - k) if c["take"] else c["pop"], "population of " + n)
        for a in e.agents:
            expect(a.home_location is a.location, "an agent read from agents.csv is not at home where it starts")
        s.nontrivial(len(set(map(repr, want))) >= 2)


SUBS = [Sub("demographics", lambda: demo_case(), demo_judge, quick=500, shards=5),
        Sub("agents_csv", lambda: csv_case(), csv_judge, quick=2500, shards=3)]
