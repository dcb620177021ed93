"""C31: distances, dates and the exported graph follow the map and the calendar."""
import contextlib
import io
import math
import os
import runpy
import sys
from collections import Counter
from datetime import date

from hypothesis import strategies as st

import fenv
import rdata
import vlib
from vlib import Sub, expect, expect_eq, workdir

from flee.datamanager import DataTable, read_period
from flee.postprocessing import analyze_graph

RULE = ("Cases: pairs and triples of coordinates over the whole globe (poles, date line, equal, nearly equal and nearly "
        "opposite points), with the distance compared with the angle between the position vectors; dates from 1800 to 2200 "
        "and step counts against a calendar counted month by month, with the date script, simulation period files and "
        "interpolation flags; and closure histories after which the exported and the printed graph are compared with a set "
        "model.  Non-trivial: distinct points; a period that crosses the end of a February; an export after a closure.")

# ------------------------------------------------------------------ distances

LON = st.sampled_from([-180.0, 180.0, 0.0, 90.0, -90.0, 179.999, -179.999]) | st.floats(-180, 180, allow_nan=False) \
    | st.floats(20, 40, allow_nan=False)
LAT = st.sampled_from([-90.0, 90.0, 0.0, 45.0, -45.0, 89.999]) | st.floats(-90, 90, allow_nan=False) \
    | st.floats(-10, 20, allow_nan=False)


@st.composite
def points(draw):
    p = [[draw(LON), draw(LAT)]]
    for _ in range(2):
        k = draw(st.integers(0, 5))
        q = p[draw(st.integers(0, len(p) - 1))]
        if k == 0:
            lon = q[0] + draw(st.sampled_from([0.0, 1e-6, 0.01, -0.5]))
            p.append([lon, min(90.0, max(-90.0, q[1] + draw(st.sampled_from([0.0, 1e-6, -0.01, 0.5]))))])
        elif k == 1:
            p.append([q[0] - 180.0 if q[0] > 0 else q[0] + 180.0, -q[1]])
        else:
            p.append([draw(LON), draw(LAT)])
    return {"p": p, "types": draw(st.lists(st.sampled_from(["town", "camp", "marker", "conflict_zone"]), min_size=3, max_size=3))}


def vec(lon, lat):
    a, b = math.radians(lon), math.radians(lat)
    return (math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b))


def arc(p, q):
    u, v = vec(*p), vec(*q)
    cr = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return 6371.0 * math.atan2(math.sqrt(sum(x * x for x in cr)), sum(x * y for x, y in zip(u, v)))


def points_judge(c, s):
    fenv.fresh({})
    e = fenv.flee.Ecosystem()
    locs = [e.addLocation(name="P%d" % i, x=float(p[0]), y=float(p[1]), location_type=t)
            for i, (p, t) in enumerate(zip(c["p"], c["types"]))]
    d = {}
    for i in range(3):
        for j in range(3):
            d[i, j] = locs[i].calculateDistance(locs[j])
            want = arc(c["p"][i], c["p"][j])
            # near opposite points the haversine formula itself is good to about a tenth of a kilometre
            expect(abs(d[i, j] - want) <= (0.5 if want > 19900 else 1e-3), lambda: "distance from %r to %r: got %r, expected %r"
                   % (c["p"][i], c["p"][j], d[i, j], want))
    for i in range(3):
        expect(abs(d[i, i]) < 1e-9, "distance to itself: %r" % d[i, i])
        for j in range(3):
            expect(abs(d[i, j] - d[j, i]) < 1e-6, "distance is not symmetric")
            for k in range(3):
                expect(d[i, k] <= d[i, j] + d[j, k] + 1.0, "the direct distance is longer than via a third place")
    s.label("far", max(d.values()) > 10000)
    s.label("near", 0 < min(v for k, v in d.items() if k[0] != k[1]) < 5)
    s.nontrivial(min(v for k, v in d.items() if k[0] != k[1]) > 0)


# ---------------------------------------------------------------------- dates

def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_len(y, m):
    return 29 if m == 2 and leap(y) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def number(y, m, d):
    """Days since 0001-01-01, counted without a calendar library."""
    n = sum(366 if leap(k) else 365 for k in range(1600, y)) if y >= 1600 else 0
    return n + sum(month_len(y, k) for k in range(1, m)) + d - 1


@st.composite
def dates(draw):
    def one():
        y = draw(st.integers(1800, 2200) | st.sampled_from([1900, 2000, 2012, 2016, 2100]))
        m = draw(st.integers(1, 12) | st.sampled_from([2, 3]))
        d = draw(st.integers(1, 28) | st.sampled_from([1, 28, 29, 30, 31]))
        return [y, m, min(d, month_len(y, m))]
    a = one()
    b = one() if draw(st.booleans()) else None
    steps = draw(st.integers(0, 800) | st.sampled_from([0, 1, 28, 29, 59, 365, 366, 730, 3653, 36525]))
    ser = draw(st.lists(st.integers(-10, 40), min_size=1, max_size=6, unique=True))
    return {"a": a, "b": b, "steps": steps, "pad": draw(st.booleans()), "series": sorted(ser),
            "length": draw(st.integers(0, 999) | st.sampled_from([1000, 4000, 36525])), "order": draw(st.booleans()), "case": draw(st.booleans())}


def script(path, args):
    buf, old = io.StringIO(), sys.argv
    sys.argv = [path] + args
    try:
        with contextlib.redirect_stdout(buf):
            runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old
    return buf.getvalue()


def dates_judge(c, s):
    with workdir():
        _dates(c, s)


def _dates(c, s):
    def text(x, pad=True):
        return ("%04d-%02d-%02d" if pad else "%d-%d-%d") % tuple(x)
    a = c["a"]
    t = DataTable.steps_to_date(c["steps"], text(a, c["pad"]))
    expect_eq(number(t.year, t.month, t.day) - number(*a), c["steps"], "days from %s to the date %d steps later (%s)"
              % (text(a), c["steps"], t))
    expect_eq(str(t), text([t.year, t.month, t.day]), "date as text")
    b = c["b"] or [t.year, t.month, t.day]
    want = number(*b) - number(*a)
    expect_eq(DataTable.subtract_dates(text(b), text(a, c["pad"])), want, "days from %s to %s" % (text(a), text(b)))
    expect_eq(DataTable.subtract_dates(text(a), text(b)), -want, "days from %s to %s" % (text(b), text(a)))
    out = script(os.path.join(vlib.REPO, "flee", "datamanager", "calc_date_difference.py"), [text(a), text(b)])
    expect_eq(out.split(), [str(want)], "output of the date script for %s %s" % (text(a), text(b)))
    rows = [("StartDate", text(a)), ("Length", str(c["length"]))]
    if c["order"]:
        rows.reverse()
    with open("sim_period.csv", "w") as f:
        f.write("".join("%s,%s\n" % ((k.lower() if c["case"] else k), v) for k, v in rows))
    expect_eq(tuple(read_period.read_sim_period("sim_period.csv")), (text(a), c["length"]), "simulation period")
    ser = [[d, 10 + k] for k, d in enumerate(c["series"])]
    start = date(*a).isoformat()
    rdata.write("d", start, [["total", ser], ["Camp A", ser]])
    tab = rdata.table("d", start)
    for d in range(-12, 45):
        expect_eq(bool(tab.is_interpolated("Camp A", d)), d not in c["series"], "whether day %d is interpolated" % d)
        if d in c["series"]:
            expect_eq(int(tab.get_field("Camp A", d)), 10 + c["series"].index(d), "value on day %d" % d)
    n0 = number(*a)
    feb = any(n0 <= number(y, 3, 1) - 1 < n0 + c["steps"] for y in range(a[0], t.year + 1))
    s.label("leap_day", any(leap(y) and n0 < number(y, 2, 29) <= n0 + c["steps"] for y in range(a[0], t.year + 1)))
    s.nontrivial(feb)


# ---------------------------------------------------------------------- graph

@st.composite
def graphs(draw):
    net = draw(fenv.net_strategy(min_locs=1, max_locs=6, connected=draw(st.booleans()), parallel=True, caps=st.just(-1),
                                 dists=st.sampled_from([0.5, 1.0, 60.0, 99.9, 100.0, 700.0])))
    n = len(net["locs"])
    i = st.integers(0, n - 1)
    op = st.one_of(st.tuples(st.sampled_from(["close_link", "reopen_link", "remove_link"]), i, i, st.booleans()).map(list),
                   st.just(["day"]))
    ops = draw(st.lists(op, max_size=6))
    for o in ops:
        if o[0] != "day" and net["links"] and draw(st.booleans()):
            l = draw(st.sampled_from(net["links"]))
            o[1], o[2] = l[0], l[1]
    return {"net": net, "ops": ops}


def graphs_judge(c, s):
    fenv.fresh({})
    e, locs = fenv.build(c["net"])
    names = [d["n"] for d in c["net"]["locs"]]
    model = []
    for l in c["net"]["links"]:
        model += [[names[l[0]], names[l[1]], float(l[2]), True], [names[l[1]], names[l[0]], float(l[2]), True]]
    changed = False
    for o in [None] + c["ops"]:
        if o == ["day"]:
            e.evolve()
        elif o:
            a, b = names[o[1]], names[o[2]]
            pairs = [(a, b)] + ([(b, a)] if o[3] else [])
            getattr(e, o[0])(startpoint=a, endpoint=b, twoway=o[3])
            for l in model:
                if (l[0], l[1]) in pairs:
                    if o[0] == "remove_link":
                        if l[3] is False:
                            return      # removing a link that is currently closed: not specified
                        l[3] = None
                    elif l[3] is not None:
                        l[3] = o[0] == "reopen_link"
                    changed = True
        v, edges = e.export_graph()
        expect_eq(list(v), names, "vertices")
        want = Counter((l[0], l[1], l[2]) for l in model if l[3])
        got = Counter((x[0], x[1], float(x[2])) for x in edges)
        expect(got == want, lambda: "edges after %r: missing %r, extra %r" % (o, dict(want - got), dict(got - want)))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            analyze_graph.print_graph(v, edges, print_dist=True)
        seen, cur = Counter(), None
        for line in buf.getvalue().splitlines():
            if line.startswith("-> "):
                to, dist = line.split("-> ", 1)[1].strip(" ").rsplit(" ", 1)
                seen[cur, to.strip(), float(dist)] += 1
            else:
                cur = line.split("Vertex name: ", 1)[1].strip()
        expect(seen == Counter({(k[0].strip(), k[1].strip(), k[2]): n for k, n in want.items()}) or any(
            x != x.strip() for x in names), lambda: "printed graph: got %r, expected %r" % (seen, want))
    s.label("links", bool(model))
    s.nontrivial(changed and bool(model))


SUBS = [Sub("points", points, points_judge, quick=2500, shards=2),
        Sub("dates", dates, dates_judge, quick=2000, shards=3),
        Sub("graph", graphs, graphs_judge, quick=2500, shards=3)]
