"""C11: a location whose type changes behaves in every respect like a location of its new type."""
from collections import Counter

from hypothesis import strategies as st

import fenv
import geo
import ref
from vlib import Sub, close, expect, expect_close, expect_eq, workdir

RULE = ("A case is a geography with a location_changes.csv file plus direct type changes and camp openings/closures over "
        "a number of days; on every day the camp list, move chances, spawn weights, scores and IDP total are compared "
        "with the types the locations should have, and at the end the routes on offer from one location are too.  "
        "Non-trivial: at least one location had a type different from its original one.")

TYPES = ("town", "camp", "conflict_zone", "idpcamp", "forwarding_hub", "marker", "default")
MR = {"conflict_movechance": 0.75, "camp_movechance": 0.25, "idpcamp_movechance": 0.5, "default_movechance": 0.125,
      "camp_weight": 2.0, "conflict_weight": 0.25, "foreign_weight": 3.0}


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=6, big=True, connected=True, types=TYPES, caps=st.sampled_from([0, 100, 1000]),
                                 countries=("H", "N"), conflict_attr=False,
                                 dists=st.sampled_from([5.0, 50.0, 123.0, 400.0])))
    n = len(net["locs"])
    days = draw(st.integers(1, 8))
    inten = draw(st.booleans())
    if inten:
        for d in net["locs"]:
            d["a"] = {"conflict_intensity": draw(st.sampled_from([0.5, 1.0, 3.0]))}
    for d in net["locs"]:
        d["f"] = d["c"] != net["locs"][0]["c"]
    late = draw(st.lists(st.tuples(st.integers(0, days), st.sampled_from(TYPES), st.integers(0, 500)).map(list), max_size=2))
    name = st.integers(0, n + len(late) - 1).map(lambda i: net["locs"][i]["n"] if i < n else "late%d" % (i - n))
    t = st.integers(0, days)
    rows = draw(st.lists(st.tuples(name, st.sampled_from(TYPES), t).map(list), max_size=5))
    ops = draw(st.lists(st.tuples(st.sampled_from(["type", "open", "close"]), name, st.sampled_from(TYPES), t,
                                  st.booleans()).map(list), max_size=4))
    y = {"move_rules": dict(MR, awareness_level=draw(st.integers(1, 3)))}
    if draw(st.booleans()):
        y["spawn_rules"] = {"conflict_spawn_decay": draw(st.lists(st.sampled_from([1.0, 0.5, 0.25]), min_size=1,
                                                                   max_size=3)),
                            "conflict_spawn_decay_interval": draw(st.sampled_from([1, 2]))}
    return {"net": net, "inten": inten, "rows": rows, "ops": ops, "days": days, "y": y, "late": late,
            "look": draw(st.integers(0, n - 1)), "agents": draw(st.integers(0, 3)),
            "seed": draw(st.integers(0, 10 ** 6))}


def judge(c, s):
    with workdir():
        y = c["y"]
        fenv.fresh(y, c["seed"])
        net = c["net"]
        defs = net["locs"]
        geo.write_locations("locations.csv", [dict(d, pc=d.get("cap", 0) if "camp" in d["t"] else d["pop"], date=0)
                                              for d in defs], ["conflict_intensity"] if c["inten"] else [])
        geo.write_routes("routes.csv", defs, net["links"])
        geo.write_closures("closures.csv", [])
        if c["rows"] or c["seed"] % 2:
            geo.w("location_changes.csv", [["#name", "type", "day"]] + c["rows"])
        ig, e, lm = geo.load()
        r = {d["n"]: ref.RLoc(d, y) for d in defs}
        typ = {d["n"]: d["t"] for d in defs}
        for d in defs:
            x = r[d["n"]]
            x.cap = d.get("cap", 0) if "camp" in d["t"] else -1
            x.pop = 0 if "camp" in d["t"] else d["pop"]
            if c["agents"]:
                e.insertAgents(location=lm[d["n"]], number=c["agents"])
        order = [l.name for l in e.locations]
        changed = False

        def become(name, t_new, t, keep_intensity=True):
            nonlocal changed
            if name not in r:      # a place that is added later
                return
            x = r[name]
            f = fenv.type_flags(t_new)
            x.camp, x.idp, x.marker = f["camp"], f["idpcamp"], f["marker"]
            x.conflict = 0.0
            if f["conflict"]:
                x.conflict = float((x.d.get("a") or {}).get("conflict_intensity", 1.0))
                x.since = t
            x.chance = fenv.type_movechance(y, t_new)
            if t_new != typ[name]:
                changed = True
                s.label("to_" + t_new)
            typ[name] = t_new
        for t in range(c["days"]):
            for name, tt, day in c["rows"]:
                if day == t:
                    become(name, tt, t)
            for d in defs:         # conflict zones of locations.csv (re)start on their date, day 0
                if t == 0 and "conflict" in d["t"]:
                    x = r[d["n"]]
                    if x.camp or x.marker or typ[d["n"]] == "forwarding_hub":
                        return     # contradictory input: re-typed and erupting on the same day
                    x.conflict = float((d.get("a") or {}).get("conflict_intensity", 1.0))
                    x.since = 0
                    x.chance = MR["conflict_movechance"]
                    typ[d["n"]] = "conflict_zone"
            ig.AddNewConflictZones(e, t)
            for k, (day, tt, pop) in enumerate(c["late"]):       # places added during the simulation
                if day == t:
                    nn = "late%d" % k
                    cap = pop if "camp" in tt else -1
                    lm[nn] = e.addLocation(name=nn, location_type=tt, pop=0 if "camp" in tt else pop, capacity=cap)
                    r[nn] = ref.RLoc({"n": nn, "t": tt, "pop": 0 if "camp" in tt else pop, "cap": cap}, y)
                    typ[nn] = tt
                    order.append(nn)
                    s.label("place_added")
            for kind, name, tt, day, idp in c["ops"]:
                if day != t:
                    continue
                if name not in r:
                    continue
                if kind == "type":
                    e.change_location_type(name, tt)
                    become(name, tt, t)
                elif kind == "open":
                    if r[name].idp and not idp:
                        continue   # an IDP camp that is opened as a regular camp: not specified
                    e.open_camp(name, IDP=idp)
                    become(name, "idpcamp" if idp else "camp", t)
                else:
                    e.close_camp(name, IDP=idp)
                    become(name, "town", t)
            e.evolve()
            for name, loc in lm.items():
                x = r[name]
                w = "day %d, %s (now %s): " % (t, name, typ[name])
                expect_eq(float(loc.movechance), x.chance, w + "move chance")
                sw = x.pop * x.conflict * ref.decay(y, t - x.since) if x.conflict > 0 else 0.0
                expect_close(e.spawn_weights[order.index(name)], sw, w + "spawn weight")
                expect_close(loc.getScore(1), ref.loc_score(x, y, t), w + "score")
            expect_eq(sorted(e.get_camp_names()), sorted(k for k, x in r.items() if x.camp), "day %d: camps" % t)
            expect_eq(int(e.numIDPs()), sum(lm[k].numAgents for k, x in r.items() if x.idp), "day %d: IDP total" % t)
        # routes on offer after all the changes
        rl = [r[k] for k in order]
        for a in range(len(rl)):
            rl[a].n = lm[order[a]].numAgents
        idx = {k: i for i, k in enumerate(order)}
        for l in net["links"]:
            a, b = idx[defs[l[0]]["n"]], idx[defs[l[1]]["n"]]
            rl[a].out.append((b, float(l[2])))
            rl[b].out.append((a, float(l[2])))
        e.insertAgent(location=e.locations[c["look"]], attributes={})
        here = r[order[c["look"]]]
        forced = 1.0 if fenv.type_flags(typ[here.name])["town"] else here.chance
        expect_close(fenv.moving.calculateMoveChance(e.agents[-1], True, e.time), forced,
                     "chance of moving on from %s (now %s) after a short stint" % (here.name, typ[here.name]))
        rl[c["look"]].n += 1
        weights, routes = fenv.moving.selectRoute(e.agents[-1], time=e.time, return_all_routes=True)
        want = ref.options(rl, c["look"], y, lambda j: ref.loc_score(rl[j], y, c["days"] - 1), y["move_rules"]["awareness_level"])
        got_c, want_c = Counter(tuple(x) for x in routes), Counter(p for p, _ in want)
        expect(got_c == want_c, lambda: "routes on offer: unexpected %r, missing %r"
               % (sorted((got_c - want_c).elements())[:5], sorted((want_c - got_c).elements())[:5]))
        wm = dict(want)
        for p, x in zip(routes, weights):
            expect(close(x, wm[tuple(p)], rel=1e-6), lambda: "weight of route %r: got %r, expected %r"
                   % (p, x, wm[tuple(p)]))
        s.nontrivial(changed)


SUBS = [Sub("retype", lambda: case(), judge, quick=4500, shards=8)]
