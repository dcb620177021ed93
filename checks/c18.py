"""C18: registration corrections, several files per camp, and the maximum of a data series."""
import math
import os
from fractions import Fraction

from hypothesis import strategies as st

import geo
import rdata
from vlib import Sub, expect, expect_eq, workdir

RULE = ("Cases: data series with a registration_corrections.csv of several corrections (dates in, before, after and "
        "between the entries), compared entry by entry with an exact rational computation; and camps whose data is "
        "spread over two to six files.  Non-trivial: a correction changed an entry, or the files have different dates.")


@st.composite
def l1_case(draw):
    days = draw(st.integers(1, 40))
    n = draw(st.integers(1, 3))
    names = ["total"] + ["Camp A", "Camp A2", "B"][:n]
    vals = st.sampled_from([1, 2, 3, 10, 50, 1000, 123456]) | st.integers(1, 90)
    tables = [[nm, draw(rdata.series(days, vals))] for nm in names]
    corr = []
    for _ in range(draw(st.integers(1, 4))):
        nm, ser = draw(st.sampled_from(tables))
        d = draw(st.sampled_from([x for x, _ in ser]) | st.integers(-20, days + 5))
        corr.append([nm, d])
    return {"days": days, "tables": tables, "corr": corr, "start": draw(st.sampled_from(rdata.STARTS)),
            "scale": draw(st.sampled_from([1, 1, 10, 7])), "file": draw(st.booleans()),
            "late": draw(st.integers(0, 3)) == 0, "maxes": draw(st.lists(st.integers(-25, days + 10), max_size=4))}


def check_near(got, x, what):
    eps = Fraction(1, 10 ** 6) * (1 + abs(x))
    lo, hi = math.floor(x - eps), math.floor(x + eps)
    expect(lo <= int(got) <= hi, lambda: "%s: got %r, expected %s" % (what, got, float(x)))


def l1_judge(c, s):
    with workdir():
        rdata.write("d", c["start"], c["tables"], True)
        d = rdata.table("d", c["start"], c["scale"])
        ref = {n: [[x, Fraction(v, c["scale"])] for x, v in ser] for n, ser in c["tables"]}
        pops = {n: 0 for n in ref}
        if c["late"]:
            # corrections read after the simulation started: the day-0 populations are accounted for
            d.get_daily_difference(0)
            r = rdata.Ref(c["tables"], c["scale"])
            pops = {n: r.field(n, 0) for n in ref}
            pops["total"] = sum(v for n, v in pops.items())
        changed = False
        todo = []
        for n, day in c["corr"]:
            if c["late"] and n == "total":
                continue
            ser = ref[n]
            k = [x for x, _ in ser].index(day) if day in [x for x, _ in ser] else None
            want = Fraction(1)
            if day >= 0 and k:
                last = ser[k - 1][1] + pops[n]
                if last < 1:
                    continue
                want = (ser[k][1] + pops[n]) / last
                for e in ser[:k]:
                    e[1] *= want
                changed |= want != 1
            todo.append((n, day, want))
        if c["file"]:
            geo.w("corr.csv", [[n, rdata.iso(c["start"], day)] for n, day, _ in todo])
            d.ReadL1Corrections("corr.csv")
            d.ReadL1Corrections("no_such_file.csv")
        else:
            for n, day, want in todo:
                f = d.correctLevel1Registrations(name=n, date=rdata.iso(c["start"], day))
                expect(abs(float(f) - float(want)) <= 1e-6 * (1 + float(want)),
                       lambda: "scaling factor for %s on day %d: got %r, expected %s" % (n, day, f, float(want)))
        for n, ser in ref.items():
            for x, v in ser:
                check_near(d.get_field(n, x, FullInterpolation=False), v, "%s on day %d after the corrections %r" % (n, x, todo))
                check_near(d.get_field(n, x), v, "%s on day %d after the corrections %r (interpolated)" % (n, x, todo))
            for (x0, v0), (x1, v1) in zip(ser, ser[1:]):
                m = (x0 + x1) // 2
                check_near(d.get_field(n, m), v0 + (v1 - v0) * Fraction(m - x0, x1 - x0),
                     "%s on day %d, between entries, after the corrections %r" % (n, m, todo))
            for t in c["maxes"]:
                end = next((k for k, (x, _) in enumerate(ser) if x >= t), len(ser) - 1)
                check_near(d.getMaxFromData(n, t), max(v for _, v in ser[:end + 1]), "maximum of %s up to day %d" % (n, t))
        s.label("late", c["late"])
        s.nontrivial(changed)


@st.composite
def agg_case(draw):
    days = draw(st.integers(1, 20))
    camps = []
    for i in range(draw(st.integers(1, 3))):
        files = []
        base = draw(rdata.series(days))
        files.append(base)
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5]))):
            k = draw(st.integers(0, 2))
            if k == 0:
                files.append([[x, draw(st.integers(0, 30))] for x, _ in base])
            elif k == 1:
                ds = draw(st.lists(st.sampled_from([x for x, _ in base]), min_size=1, unique=True))
                files.append([[x, draw(st.integers(0, 30))] for x in sorted(ds)])
            else:
                files.append(draw(rdata.series(days)))
        camps.append(files)
    return {"days": days, "camps": camps, "start": draw(st.sampled_from(rdata.STARTS)),
            "scale": draw(st.sampled_from([1, 1, 10])), "header": draw(st.booleans())}


def agg_judge(c, s):
    with workdir():
        os.makedirs("d")
        layout = [["total", "t.csv"]]
        geo.w("d/t.csv", [[rdata.iso(c["start"], 0), "0"]])
        for i, files in enumerate(c["camps"]):
            row = ["Camp%d" % i]
            for j, ser in enumerate(files):
                fn = "f%d_%d.csv" % (i, j)
                geo.w("d/" + fn, ([["Date", "n"]] if c["header"] else []) + [[rdata.iso(c["start"], x), str(v)] for x, v in ser])
                row.append(fn)
            layout.append(row)
        geo.w("d/data_layout.csv", layout)
        d = rdata.table("d", c["start"], c["scale"])
        mixed = False
        tot = {}
        for i, files in enumerate(c["camps"]):
            n = "Camp%d" % i
            maps = [dict((x, v) for x, v in ser) for ser in files]
            union = set().union(*maps)
            if len(files) > 1:
                mixed |= any(set(m) != union for m in maps)
            for t in range(-25, c["days"] + 8):
                expect_eq(bool(d.is_interpolated(n, t)), t not in union, "whether day %d is interpolated for %r" % (t, files))
            for t in union:
                got = d.get_field(n, t)
                if all(t in m for m in maps):
                    check_near(got, sum(Fraction(m[t], c["scale"]) for m in maps), "sum over the files %r on day %d" % (files, t))
                else:
                    have = sum(Fraction(m[t], c["scale"]) for m in maps if t in m)
                    most = have + sum(Fraction(max(m.values()), c["scale"]) for m in maps if t not in m)
                    if len(maps) == 2:
                        # the file without an entry on this date counts with a neighbouring value
                        m = maps[0] if t not in maps[0] else maps[1]
                        before = [v for x, v in sorted(m.items()) if x < t][-1:] or [0]
                        after = [v for x, v in sorted(m.items()) if x > t][:1] or before
                        near = [Fraction(min(before + after), c["scale"]), Fraction(max(before + after), c["scale"])]
                        most = have + near[1]
                        have += near[0]
                    expect(math.floor(have - Fraction(1, 10 ** 6)) <= got <= most + Fraction(1, 10 ** 6),
                           lambda: "sum over the files %r on day %d: got %r, outside %s..%s" % (files, t, got, have, most))
            for t in range(0, c["days"]):
                tot[t] = tot.get(t, 0) + int(d.get_field(n, t))
        for t in range(1, c["days"]):
            expect_eq(int(d.get_daily_difference(t)), tot[t] - tot[t - 1], "new arrivals on day %d" % t)
        s.label("mixed", mixed)
        s.nontrivial(any(len(f) > 1 for f in c["camps"]))


SUBS = [Sub("corrections", lambda: l1_case(), l1_judge, quick=4000, shards=4),
        Sub("several_files", lambda: agg_case(), agg_judge, quick=3000, shards=4)]
