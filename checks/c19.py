"""C19: the simulation is built from locations.csv, routes.csv and closures.csv exactly as written."""
from hypothesis import strategies as st

import fenv
import geo
from vlib import Sub, expect, expect_eq, workdir

RULE = ("Cases: input files with every location type and spelling, empty optional fields, custom columns, comments, "
        "blank lines, parallel links, forced redirections and a scale-down factor; the network in the simulation is "
        "compared field by field with the file.  Non-trivial: at least 3 locations and 2 links, with an empty field or "
        "a custom column.")

TYPES = ["town", "Town", "camp", "CAMP", "idpcamp", "IDPcamp", "conflict_zone", "Conflict_zone", "forwarding_hub",
         "marker", "flood_zone", "default"]


@st.composite
def case(draw):
    n = draw(st.integers(1, 7)) if draw(st.integers(0, 9)) else draw(st.integers(8, 12))
    style = fenv.NAME_STYLES[draw(st.integers(0, len(fenv.NAME_STYLES) - 1))]
    extra = draw(st.lists(st.sampled_from(["conflict_intensity", "ethnicity", "initial_idps", "note", "n2"]),
                          max_size=draw(st.sampled_from([2, 2, 5])),
                          unique=True))
    locs = []
    for i in range(n):
        a = {}
        for k in extra:
            a[k] = draw(st.sampled_from(["0.5", "2.0", "1"] if k == "conflict_intensity" else ["3", "7", "40"]))
        locs.append([style(i) + draw(st.sampled_from(["", "", "", ", East"])),
                     draw(st.sampled_from(["R1", "R2", ""])), draw(st.sampled_from(["H", "H2", "N 1", ""])),
                     draw(st.sampled_from(["", "12.5", "-3.25", "0", "101.125"])),
                     draw(st.sampled_from(["", "45.5", "-12.75", "0"])),
                     draw(st.sampled_from(TYPES)), str(draw(st.sampled_from([0, 0, 1, 12, 300]))),
                     draw(st.sampled_from(["", "0", "1", "9", "100", "12345", "2000000"]))]
                    + [a[k] for k in extra])
    lext = draw(st.lists(st.sampled_from(["max_move_speed", "walk_probability", "surface"]), max_size=2, unique=True))
    links = []
    if n > 1:
        for _ in range(draw(st.integers(0, 8) | st.integers(0, 25))):
            i = draw(st.integers(0, n - 1))
            j = draw(st.integers(0, n - 2))
            j += j >= i
            row = [locs[i][0], locs[j][0], draw(st.sampled_from(["0", "1", "12.5", "360", "1000.25"]))]
            if lext or draw(st.booleans()):
                row.append(draw(st.sampled_from(["", "0", "1", "2"])))
                row += [draw(st.sampled_from(["1.0", "0.5", "20"])) for _ in lext]
            links.append(row)
    closures = []
    if links:
        for _ in range(draw(st.integers(0, 3) | st.integers(0, 15))):
            closures.append([draw(st.sampled_from(["location", "country", "links", "camp", "idpcamp"])), locs[0][0],
                             locs[-1][0], str(draw(st.integers(0, 9))), str(draw(st.integers(-1, 20)))])
    return {"locs": locs, "extra": extra, "links": links, "lext": lext, "closures": closures,
            "hasten": draw(st.sampled_from([1, 1, 2, 10, 7])),
            "noise": draw(st.lists(st.integers(0, n), max_size=3)), "seed": draw(st.integers(0, 10 ** 6))}


def judge(c, s):
    with workdir():
        fenv.fresh({"optimisations": {"hasten": c["hasten"]}}, c["seed"])
        rows = list(c["locs"])
        lrows = list(c["links"])
        for k in sorted(c["noise"], reverse=True):
            rows.insert(k, [] if k % 2 else ["#" + c["locs"][0][0], "x"])
            if k <= len(lrows):
                lrows.insert(k, [] if k % 2 == 0 else ["#" + c["locs"][0][0], "x", "1"])
        geo.w("locations.csv", [geo.HEAD + c["extra"]] + rows)
        geo.w("routes.csv", [["#name1", "name2", "distance", "forced_redirection"] + c["lext"]] + lrows)
        geo.write_closures("closures.csv", c["closures"])
        ig, e, lm = geo.load()
        expect_eq([l.name for l in e.locations], [r[0] for r in c["locs"]], "locations")
        expect_eq(sorted(lm), sorted(r[0] for r in c["locs"]), "names of the returned location map")
        home = c["locs"][0][2] or "unknown"
        empty = False
        for r, l in zip(c["locs"], e.locations):
            name, region, country, x, y, t, date, pc = r[:8]
            empty |= "" in r[:8]
            w = "location %r: " % r
            expect(lm[name] is l, w + "not the one in the returned map")
            expect_eq(l.region, region or "unknown", w + "region")
            expect_eq(l.country, country or "unknown", w + "country")
            expect_eq(bool(l.foreign), (country or "unknown") != home, w + "foreign (home country %s)" % home)
            expect_eq(float(l.x), float(x or 0), w + "x")
            expect_eq(float(l.y), float(y or 0), w + "y")
            num = int(pc or 0) // c["hasten"]
            f = fenv.type_flags(t)
            if f["camp"]:
                expect_eq(l.capacity, num, w + "capacity")
                expect_eq(l.pop, 0, w + "population")
            else:
                expect_eq(l.pop, num, w + "population")
                expect_eq(l.capacity, -1, w + "capacity")
            if f["conflict"] and int(date) > 0:
                f = fenv.type_flags("town")
            for k in ("camp", "idpcamp", "town", "marker", "forward", "flood_zone"):
                expect_eq(bool(getattr(l, k)), f[k], w + k)
            attrs = dict(zip(c["extra"], r[8:]))
            expect_eq({k: str(v) for k, v in l.attributes.items()}, attrs, w + "attributes")
            expect_eq(float(l.conflict), float(attrs.get("conflict_intensity", 1.0)) if f["conflict"] else -1.0,
                      w + "conflict intensity")
            expect_eq(l.numAgents, 0, w + "agents")
        want = []
        for k, r in enumerate(c["links"]):
            fr = int(r[3] or 0) if len(r) > 3 else 0
            a = dict(zip(c["lext"], r[4:]))
            for p, q, forced in ((r[0], r[1], fr == 1), (r[1], r[0], fr == 2)):
                want.append((p, q, float(r[2]), forced, sorted(a.items())))
        got = []
        for l in e.locations:
            expect_eq(list(l.closed_links), [], "closed links of " + l.name)
            for k in l.links:
                expect(k.startpoint is l and lm[k.endpoint.name] is k.endpoint, "link %s has wrong endpoints" % k.name)
                expect_eq(k.numAgents, 0, "agents on " + k.name)
                got.append((l.name, k.endpoint.name, float(k.get_distance()), bool(k.forced_redirection),
                            sorted((a, str(v)) for a, v in k.attributes.items())))
        expect_eq(sorted(got), sorted(want), "links (from, to, distance, forced, attributes)")
        vs, es = e.export_graph()
        expect_eq(list(vs), [r[0] for r in c["locs"]], "exported vertices")
        expect_eq(sorted((a, b, float(d)) for a, b, d in es), sorted(x[:3] for x in want), "exported edges")
        expect_eq(list(e.get_camp_names()), [r[0] for r in c["locs"] if "camp" in r[5].lower()], "camp names")
        expect_eq(sorted(ig.getConflictLocationNames()), sorted(r[0] for r in c["locs"] if "conflict" in r[5].lower()),
                  "conflict locations")
        s.label("forced", any(x[3] for x in want))
        s.nontrivial(len(rows) >= 3 and len(want) >= 4 and (empty or bool(c["extra"]) or bool(c["lext"])))


SUBS = [Sub("files", lambda: case(), judge, quick=4000, shards=8)]
