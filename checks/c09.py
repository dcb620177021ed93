"""C09: closures.csv takes effect on exactly the listed days, for exactly the listed places."""
from collections import Counter

from hypothesis import strategies as st

import fenv
import geo
from vlib import Sub, expect, expect_eq, workdir

RULE = ("A case is a set of location, route and closure files and a number of days; each day the usable links, the camps "
        "and the move chances are compared with a model that applies the closure rows to sets.  Non-trivial: at least "
        "one row changed something on the day it starts or ends after day 0, or two rows overlapped.")


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, big=True, connected=draw(st.integers(0, 4)) > 0, parallel=True,
                                 types=("town", "camp", "camp", "conflict_zone", "idpcamp"), caps=st.just(1000),
                                 countries=("H", "N1", "N2", "N"), conflict_attr=False))
    days = draw(st.integers(1, 9)) if draw(st.integers(0, 14)) else draw(st.sampled_from([15, 40, 110, 370]))
    locs = net["locs"]
    n = len(locs)
    cs = sorted(set(d["c"] for d in locs)) + ["Nowhere"]
    rows = []
    for _ in range(draw(st.integers(1, 5) | st.integers(1, 12))):
        k = draw(st.sampled_from(["country", "country", "location", "link", "camp", "idpcamp"]))
        i = draw(st.integers(0, n - 1))
        a, b = locs[i]["n"], locs[draw(st.integers(0, n - 1))]["n"]
        if k == "country":
            a, b = draw(st.sampled_from(cs)), draw(st.sampled_from(cs))
        elif k == "link" and net["links"] and draw(st.integers(0, 4)) > 0:
            l = net["links"][draw(st.integers(0, len(net["links"]) - 1))]
            a, b = locs[l[0]]["n"], locs[l[1]]["n"]
            if draw(st.booleans()):
                a, b = b, a
        elif k in ("camp", "idpcamp"):
            own = [d["n"] for d in locs if d["t"] == k]
            if not own:
                continue
            a, b = draw(st.sampled_from(own)), draw(st.sampled_from(["", "0"]))
        elif k == "location":
            b = draw(st.sampled_from(["", "0", b]))
        start = draw(st.integers(0, days))
        end = draw(st.sampled_from([-1, -1, start]) | st.integers(0, days + 2))
        rows.append([k, a, b, start, end])
    return {"net": net, "rows": rows, "days": days, "twoway": draw(st.integers(0, 4)) > 0,
            "agents": draw(st.booleans()), "evolve_first": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


MC = {"conflict_movechance": 0.75, "camp_movechance": 0.25, "idpcamp_movechance": 0.5, "default_movechance": 0.125}


def judge(c, s):
    with workdir():
        fenv.fresh({"move_rules": dict(MC)}, c["seed"])
        net = c["net"]
        locs = [dict(d, pc=d.get("cap", d["pop"])) for d in net["locs"]]
        geo.write_locations("locations.csv", locs)
        geo.write_routes("routes.csv", locs, net["links"])
        geo.write_closures("closures.csv", c["rows"])
        ig, e, lm = geo.load()
        expect_eq(len(e.locations), len(locs), "number of locations")
        country = {d["n"]: d["c"] for d in locs}
        camp = {d["n"]: d["t"] in ("camp", "idpcamp") for d in locs}
        chance = {d["n"]: fenv.type_movechance({"move_rules": MC}, d["t"]) for d in locs}
        model = []
        for l in net["links"]:
            a, b = locs[l[0]]["n"], locs[l[1]]["n"]
            model.append([a, b, float(l[2]), True])
            model.append([b, a, float(l[2]), True])
        if c["agents"]:
            for d in locs:
                e.insertAgents(location=lm[d["n"]], number=2)
        changes = 0
        tw = c["twoway"]

        def setlinks(pred, val):
            k = 0
            for l in model:
                if l[3] != val and pred(l[0], l[1]):
                    l[3] = val
                    k += 1
            return k
        for t in range(c["days"]):
            for (k, a, b, start, end) in c["rows"]:
                for (when, val) in ((start, False), (end, True)):
                    if when != t:
                        continue
                    if k == "country":
                        ch = setlinks(lambda x, y: (country[x], country[y]) == (a, b)
                                      or (tw and (country[x], country[y]) == (b, a)), val)
                    elif k == "location":
                        ch = setlinks(lambda x, y: y == a or (tw and x == a), val)
                    elif k == "link":
                        ch = setlinks(lambda x, y: (x, y) == (a, b) or (tw and (x, y) == (b, a)), val)
                    else:
                        ch = camp[a] != val
                        camp[a] = val
                        chance[a] = MC[k + "_movechance"] if val else MC["default_movechance"]
                        s.label("camp_" + ("open" if val else "close"), bool(ch))
                    if ch and (t > 0 or val):
                        changes += 1
                        s.label(k + ("_end" if val else "_start"))
            e.enact_border_closures(t, twoway=tw) if not tw else e.enact_border_closures(t)
            for name, loc in lm.items():
                want = Counter((l[1], l[2]) for l in model if l[3] and l[0] == name)
                got = Counter((l.endpoint.name, float(l.get_distance())) for l in loc.links)
                expect(got == want, lambda: "day %d: usable links out of %s: missing %r, extra %r"
                       % (t, name, dict(want - got), dict(got - want)))
                expect_eq(bool(loc.camp), camp[name], "day %d: %s is a camp" % (t, name))
                expect_eq(loc.movechance, chance[name], "day %d: move chance of %s" % (t, name))
            expect_eq(int(e.numIDPs()), sum(lm[d["n"]].numAgents for d in locs if d["t"] == "idpcamp" and camp[d["n"]]),
                      "day %d: agents in IDP camps" % t)
            expect_eq(sorted(e.get_camp_names()), sorted(k for k, v in camp.items() if v), "day %d: list of camps" % t)
            e.evolve()
        s.nontrivial(changes > 0)


SUBS = [Sub("schedule", lambda: case(), judge, quick=4000, shards=8)]
