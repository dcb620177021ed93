"""C13: how many agents conflicts and floods displace each day, and where."""
import math

from hypothesis import strategies as st

import fenv
import geo
import indep
from vlib import Sub, expect, expect_eq, workdir

RULE = ("A case is a geography with changing conflict intensities or flood levels (from CSV files), a spawn mode and rate, "
        "optional population taking, over several days; each day the agents appearing at each location are compared with "
        "rate x intensity (constant), rate x population x intensity (pop_ratio), or the level's entry for floods.  In "
        "Poisson mode the totals over many days are compared with the mean at 6 standard deviations.  Non-trivial: agents "
        "appeared at two different (location, intensity) combinations.")


@st.composite
def case(draw, flood=False, poisson=False):
    days = draw(st.integers(1, 6)) if draw(st.integers(0, 14)) or poisson else draw(st.integers(10, 40))
    n = draw(st.integers(1, 5)) if draw(st.integers(0, 14)) else draw(st.integers(6, 12))
    locs = []
    for i in range(n):
        t = draw(st.sampled_from(["town", "conflict_zone", "camp", "idpcamp"] if not flood else
                                 ["town", "flood_zone", "flood_zone", "camp"]))
        locs.append({"n": "AB"[i % 2] * (i // 2 + 1), "t": t, "pc": draw(st.sampled_from([0, 1, 99, 1000, 4321])),
                     "date": 0})
    y = {"spawn_rules": {}}
    sp = y["spawn_rules"]
    mode = draw(st.sampled_from(["constant", "pop_ratio"])) if not poisson else draw(st.sampled_from(["Poisson", "poisson"]))
    if flood:
        sp["flood_zone_spawning_only"] = True
        sp["conflict_zone_spawning_only"] = False
        sp["take_from_population"] = True
        fd = {}
        if draw(st.integers(0, 3)) > 0 or poisson:
            fd["spawn_mode"] = mode
        else:
            mode = "pop_ratio"
        if draw(st.integers(0, 3)) > 0 or mode == "constant" or poisson:
            fd["displaced_per_flood_day"] = [draw(st.sampled_from([0.0, 0.01, 0.1, 0.5, 0.25])) if mode == "pop_ratio"
                                             else draw(st.sampled_from([0, 1, 5, 30, 40, 350] if poisson else [0, 1, 5, 30, 40])) for _ in range(5)]
        sp["flood_driven_spawning"] = fd or {"spawn_mode": "pop_ratio"}
        y["move_rules"] = {"flood_rules": {"max_flood_level": 4, "flood_movechances": [0.3, 0.4, 0.7, 1.0, 1.0],
                                           "flood_loc_weights": [1.0, 0.5, 0.2, 0.1, 0.1]}}
        names = [d["n"] for d in locs if draw(st.integers(0, 3)) > 0] or [locs[0]["n"]]
        vals = st.sampled_from([0, 0, 1, 2, 3, 4])
    else:
        fd = {}
        if draw(st.integers(0, 4)) > 0 or poisson:
            fd["spawn_mode"] = mode
        else:
            mode = "constant"
        if mode == "pop_ratio":
            if draw(st.integers(0, 3)) > 0:
                fd["displaced_per_conflict_day"] = draw(st.sampled_from([0.001, 0.02, 0.1, 0.0]))
        else:
            fd["displaced_per_conflict_day"] = draw(st.sampled_from([0, 1, 7, 50, 20, 2, 400, 3] if poisson else [0, 1, 7, 50, 20, 600 if draw(st.integers(0, 9)) == 0 else 5]))
        sp["conflict_driven_spawning"] = fd
        if draw(st.booleans()):
            sp["take_from_population"] = True
        names = [d["n"] for d in locs if draw(st.integers(0, 3)) > 0] or [locs[0]["n"]]
        vals = st.sampled_from([0.0, 0.0, 1.0, 0.5, 2.0, 0.3])
        for d in locs:
            if "camp" in d["t"] and d["n"] in names:
                d["t"] = "town"
            if d["t"] == "conflict_zone" and d["n"] in names:
                d["t"] = "town"
    table = [[draw(vals) for _ in names] for _ in range(days)]
    return {"locs": locs, "y": y, "mode": mode.lower(), "names": names, "table": table, "days": days, "flood": flood,
            "seed": draw(st.integers(0, 10 ** 6))}


def setup(c):
    fenv.fresh(c["y"], c["seed"])
    geo.write_locations("locations.csv", c["locs"])
    geo.write_routes("routes.csv", c["locs"], [])
    geo.write_closures("closures.csv", [])
    if c["flood"]:
        geo.write_conflicts("flood_level.csv", c["names"], c["table"])
        return geo.load(flood_file="flood_level.csv")
    geo.write_conflicts("conflicts.csv", c["names"], c["table"])
    return geo.load(conflict_file="conflicts.csv")


def level(c, d, t):
    if d["n"] in c["names"]:
        return c["table"][t][c["names"].index(d["n"])]
    if not c["flood"] and d["t"] == "conflict_zone":
        return 1.0
    return 0


def rate(c):
    sp = c["y"]["spawn_rules"]
    if c["flood"]:
        dflt = [0.0, 0.1, 0.2, 0.5, 0.9] if c["mode"] == "pop_ratio" else [0, 100, 200, 300, 500]
        return sp["flood_driven_spawning"].get("displaced_per_flood_day", dflt)
    return sp["conflict_driven_spawning"].get("displaced_per_conflict_day", 0.01 if c["mode"] == "pop_ratio" else 500)


def judge(c, s):
    with workdir():
        ig, e, lm = setup(c)
        take = bool(c["y"]["spawn_rules"].get("take_from_population"))
        pop = {d["n"]: (0 if "camp" in d["t"] else d["pc"]) for d in c["locs"]}
        seen = set()
        count = 0
        for t in range(c["days"]):
            ig.AddNewConflictZones(e, t)
            before = {k: l.numAgents for k, l in lm.items()}
            new, raw, debt = fenv.spawning.spawn_daily_displaced(e, t, None)
            tot = 0
            for d in c["locs"]:
                k = d["n"]
                v = level(c, d, t)
                want = 0
                if v > 0:
                    if c["flood"]:
                        x = rate(c)[v] * (pop[k] if c["mode"] == "pop_ratio" else 1)
                    else:
                        x = rate(c) * v * (pop[k] if c["mode"] == "pop_ratio" else 1)
                    want = int(x)
                    near = abs(x - round(x)) < 1e-6
                else:
                    near = False
                got = lm[k].numAgents - before[k]
                if not (near and abs(got - want) <= 1):
                    expect_eq(got, want, "day %d: agents displaced from %s (level %r, population %d)" % (t, k, v, pop[k]))
                if got:
                    seen.add((k, v))
                tot += got
                if take:
                    expect_eq(lm[k].pop, max(0, pop[k] - got), "day %d: population of %s after taking %d agents" % (t, k, got))
                    pop[k] = max(0, pop[k] - got)
                else:
                    expect_eq(lm[k].pop, pop[k], "day %d: population of %s" % (t, k))
            expect_eq(int(new), tot, "day %d: reported number of new agents" % t)
            count += tot
            expect_eq(len(e.agents), count, "day %d: agents in the simulation" % t)
            if c["y"]["spawn_rules"].get("conflict_driven_spawning") is not None and e.time == t:
                pass
            e.time += 1
        s.label(c["mode"])
        s.label("taken", take and count > 0)
        s.nontrivial(len(seen) >= 2)


def poisson_judge(c, s):
    with workdir():
        ig, e, lm = setup(c)
        ig.AddNewConflictZones(e, 0)
        lams = [level(c, d, 0) for d in c["locs"]]
        lams = [(rate(c)[v] if c["flood"] else rate(c) * v) if v > 0 else 0.0 for v in lams]
        # more days the rarer the events are, so that the mean is determined well
        R = 40 if not any(lams) else int(max(40, min(1500, 1500 / sum(lams))))
        if sum(lams) <= 40:
            R = max(R, 150)
        per = {d["n"]: [] for d in c["locs"]}
        for t in range(R):
            before = {k: l.numAgents for k, l in lm.items()}
            new, raw, debt = fenv.spawning.spawn_daily_displaced(e, t, None)
            for k in lm:
                per[k].append(lm[k].numAgents - before[k])
            expect_eq(int(new), sum(v[-1] for v in per.values()), "reported number of new agents")
        means = {}
        for d in c["locs"]:
            v = level(c, d, 0)
            lam = 0.0
            if v > 0:
                lam = float(int(rate(c)[v])) if c["flood"] else float(rate(c) * v)
            means[d["n"]] = lam
            tot = sum(per[d["n"]])
            expect(abs(tot - R * lam) <= 6 * math.sqrt(R * lam) + (0.5 if lam > 0 else 0),
                   lambda: "%d agents in %d days from %s; Poisson mean per day is %r" % (tot, R, d["n"], lam))
            if lam >= 5:
                expect(len(set(per[d["n"]])) > 1, "Poisson spawning never varies at %s" % d["n"])
                var = sum((x - lam) ** 2 for x in per[d["n"]]) / R
                expect(0.2 * lam <= var <= 3.5 * lam, lambda: "variance %r for Poisson mean %r" % (var, lam))
                s.nontrivial()
        names = [k for k in per if R * means[k] >= 100]
        for i, k in enumerate(names):
            for j in names[:i]:
                indep.cov(per[k], means[k], means[k], per[j], means[j], means[j], "agents displaced from %s and %s" % (k, j))
            indep.cov(per[k][1:], means[k], means[k], per[k][:-1], means[k], means[k],
                      "agents displaced from %s on successive days" % k)
            s.label("zones_compared", len(names) > 1)
        s.label("hundreds a day", any(l >= 300 for l in means.values()))


SUBS = [
    Sub("conflict", lambda: case(), judge, quick=2500, shards=3),
    Sub("flood", lambda: case(flood=True), judge, quick=2500, shards=3),
    Sub("poisson", lambda: case(poisson=True), poisson_judge, quick=300, shards=1),
    Sub("poisson_flood", lambda: case(flood=True, poisson=True), poisson_judge, quick=300, shards=1),
]
