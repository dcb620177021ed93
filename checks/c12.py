"""C12: data-driven arrivals: as many agents are created as the data says, decreases are carried as a debt."""
from hypothesis import strategies as st

import fenv
import geo
import rdata
from vlib import Sub, expect, expect_eq, workdir

RULE = ("A case is a set of data files (rising and falling), the spawning settings and a number of days; the initial camp "
        "populations, and every day the number of new agents, the reported raw count and the debt, are compared with an "
        "independent bookkeeping of the same files.  Non-trivial: a debt was carried over at least one day or agents "
        "were created on at least two days.")


@st.composite
def case(draw):
    days = draw(st.integers(1, 12))
    n = draw(st.integers(1, 3))
    if draw(st.integers(0, 14)) == 0:
        days = draw(st.integers(13, 60))
    elif draw(st.integers(0, 14)) == 0:
        n = draw(st.integers(4, 12))
    camps = ["Camp A", "Camp A2", "B", "Camp", "C", "D", "E", "F", "G", "H", "I", "J"][:n]
    tables = [[nm, draw(rdata.series(days))] for nm in ["total"] + camps]
    if draw(st.integers(0, 2)) == 0:
        # strong ups and downs
        for tb in tables:
            tb[1] = [[d, draw(st.sampled_from([0, 5, 40, 80]))] for d in range(0, days + 1)]
    many = draw(st.integers(0, 29))
    if many == 0:
        # a camp of thousands is given up, and the debt is as large
        for tb in tables[:2]:
            tb[1] = [[0, draw(st.sampled_from([9000, 30000]))], [1, 100]] + [[d, v + 100] for d, v in tb[1] if d > 1]
    sp = {}
    if draw(st.booleans()):
        sp["sum_from_camps"] = False
    if draw(st.booleans()):
        sp["insert_day0"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        sp["empty_camps_on_day0"] = True
    if draw(st.integers(0, 3)) == 0:
        sp["take_from_population"] = True
    scale = draw(st.sampled_from([1, 1, 2, 10]))
    if many == 1:
        # a big crisis, scaled down
        f = draw(st.sampled_from([300, 1000, 4321]))
        scale = draw(st.sampled_from([f, f, 100, 1000]))
        for tb in tables:
            tb[1] = [[d, v * f] for d, v in tb[1]]
    if sp.get("sum_from_camps", True) and not sp.get("insert_day0", True) and not sp.get("empty_camps_on_day0"):
        tables[0][1] = [[0, 0]] + [[d, v] for d, v in tables[0][1] if d > 0]    # known finding C17-day0-total
    zones = [{"n": "Z%d" % i, "t": draw(st.sampled_from(["conflict_zone", "conflict_zone", "town"])),
              "pop": draw(st.sampled_from([100000, 5000000]))} for i in range(draw(st.integers(1, 3)))]
    zones[0]["t"] = "conflict_zone"
    locs = zones + [{"n": c, "t": draw(st.sampled_from(["camp", "idpcamp"])), "cap": draw(st.sampled_from([-1, 40, 50, 1000]))}
                    for c in camps]
    if draw(st.integers(0, 3)) == 0:
        for d in locs[len(zones):]:
            d["a"] = {"initial_idps": draw(st.sampled_from(["0", "3", 2]))}
    return {"days": days, "tables": tables, "sp": sp, "scale": scale, "locs": locs,
            "start": draw(st.sampled_from(rdata.STARTS)), "evolve": draw(st.booleans()),
            "seed": draw(st.integers(0, 10 ** 6))}


def judge(c, s):
    with workdir():
        y = {"spawn_rules": c["sp"]} if c["sp"] else {}
        y["move_rules"] = {"camp_movechance": 0.0, "idpcamp_movechance": 0.0}
        fenv.fresh(y, c["seed"])
        sp = c["sp"]
        summed = sp.get("sum_from_camps", True)
        insert0 = sp.get("insert_day0", True)
        empty = sp.get("empty_camps_on_day0", False)
        rdata.write("d", c["start"], c["tables"], True)
        d = rdata.table("d", c["start"], c["scale"], empty)
        r = rdata.Ref(c["tables"], c["scale"], empty)
        links = []
        if c["evolve"]:
            links = [[0, i, 50.0] for i in range(1, len(c["locs"]))]
        e, locs = fenv.build({"locs": c["locs"], "links": links})
        lm = {l.name: l for l in locs}
        for x in c["locs"]:
            if "camp" in x["t"]:
                fenv.spawning.add_initial_refugees(e, d, lm[x["n"]])
                want = 0
                if not empty:
                    want = (r.field(x["n"], 0) if insert0 else 0) + int((x.get("a") or {}).get("initial_idps", 0))
                expect_eq(lm[x["n"]].numAgents, want, "initial population of %s" % x["n"])
        zones = set(x["n"] for x in c["locs"] if "conflict" in x["t"])
        total = e.numAgents()
        debt = raw = cum = 0
        days_new = days_debt = 0
        pops = {x["n"]: x.get("pop", 0) for x in c["locs"]}
        for t in range(c["days"]):
            diff = r.diff(t, summed)
            if t == 0 and insert0:
                want = 0
            else:
                want = max(0, diff - debt)
                debt = max(0, debt - diff)
            before = {k: l.numAgents for k, l in lm.items()}
            new, got_raw, got_debt = fenv.spawning.spawn_daily_displaced(e, t, d)
            raw += diff
            if t == 0 and summed and not empty and r.field("total", 0) != 0:
                raw = got_raw                                               # known finding C17-day0-total
            expect_eq(int(new), want, "day %d: number of new agents (data changes by %d, debt %d)" % (t, diff, debt))
            expect_eq(int(got_debt), debt, "day %d: debt" % t)
            expect_eq(int(got_raw), raw, "day %d: raw count" % t)
            total += want
            expect_eq(len(e.agents), total, "day %d: agents in the simulation" % t)
            gained = 0
            for k, l in lm.items():
                g = l.numAgents - before[k]
                expect(g >= 0 and (g == 0 or k in zones), lambda: "day %d: %d agents appeared at %s" % (t, g, k))
                gained += g
                if sp.get("take_from_population"):
                    pops[k] -= g
                    expect_eq(l.pop, pops[k], "day %d: population of %s" % (t, k))
            expect_eq(gained, want, "day %d: agents that appeared in conflict zones" % t)
            for a in e.agents[total - want:]:
                expect(a.location.name in zones and a.home_location is a.location,
                       "day %d: a new agent is not at home in a conflict zone" % t)
            days_new += want > 0
            days_debt += debt > 0
            if t > 0:
                cum += diff
            for x in c["locs"]:
                cap = x.get("cap", -1)
                if cap > 0 and empty and insert0:
                    cap = max(1, cap - int(r.interp(x["n"], 0)))
                    s.label("capacity used up", cap == 1)
                expect_eq(lm[x["n"]].capacity, cap, "day %d: capacity of %s" % (t, x["n"]))
            if c["evolve"]:
                e.evolve()
            else:
                fenv.spawning.refresh_spawn_weights(e)
                e.time += 1
        s.label("debt", days_debt > 0)
        s.label("empty", empty)
        s.nontrivial(days_debt > 0 or days_new >= 2)


SUBS = [Sub("bookkeeping", lambda: case(), judge, quick=4000, shards=8)]
