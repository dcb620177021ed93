"""C27: the validation measures and reports state the differences between simulation and data."""
import contextlib
import io
import math
import os
import re
import runpy
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import Sub, expect, expect_close, expect_eq, quiet, workdir

with quiet():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    import flee.postprocessing.analysis as a
    import flee.postprocessing.plot_flee_output as pfo

RULE = ("'measures': the error functions on random values, against their definitions.  'report': the validation script runs "
        "on a random simulation output of 32-45 days and its printed figures are compared with the definitions applied to "
        "the same table.  'plots': the plotting code runs on a random output; the printed averages, and the values in the "
        "figures it saves, are compared with the table.  Non-trivial: the simulation differs from the data at two camps or "
        "on two days.")

# ----------------------------------------------------------------- measures

num = st.one_of(st.integers(0, 10), st.integers(0, 2000000))
pos = st.one_of(st.integers(1, 10), st.integers(1, 2000000), st.floats(0.01, 1e6))


@st.composite
def case(draw):
    n = draw(st.integers(1, 12))
    m = st.lists(num, min_size=n, max_size=n)
    p = st.lists(pos, min_size=n, max_size=n)
    return {"v": draw(num), "c": draw(st.one_of(num, st.sampled_from([0, 0.0, 1e-6, 0.00002, 0.5, 17.3]), st.floats(0.001, 1e6))),
            "f": draw(m), "a": draw(m), "nv": draw(m), "fp": draw(p), "ap": draw(p), "start": draw(st.integers(-1, n - 2))
            if n > 1 else -1}


def r4(x):
    return x


def near(got, want, what):
    """Rounded to four digits."""
    got = float(got)
    expect(abs(got - want) <= 0.5001e-4 + 1e-9 * abs(want), lambda: "%s: got %r, expected %r" % (what, got, want))
    expect(abs(got * 1e4 - round(got * 1e4)) < 1e-3 + 1e-9 * abs(got * 1e4), lambda: "%s: %r has more than four digits" % (what, got))


def judge(c, s):
    v, cv = c["v"], c["c"]
    for val in (v, np.int32(v)):
        near(a.rel_error(val, cv), abs(v / cv - 1) if cv >= 0.00001 else 0.0, "rel_error(%r, %r)" % (v, cv))
        near(a.abs_error(val, cv), abs(v - cv), "abs_error(%r, %r)" % (v, cv))
    f, x, nv = (np.array(c[k], dtype=float) for k in ("f", "a", "nv"))
    d = a.abs_diffs(f, x)
    expect_eq(len(d), len(f), "length of abs_diffs")
    for i in range(len(f)):
        near(d[i], abs(c["f"][i] - c["a"][i]), "abs_diffs, value %d" % i)
    near(a.mean_abs_diffs(f, x), sum(abs(p - q) for p, q in zip(c["f"], c["a"])) / len(f), "mean_abs_diffs(%r, %r)" % (c["f"], c["a"]))
    near(a.calculate_ln_accuracy_ratio(np.array(c["fp"], dtype=float), np.array(c["ap"], dtype=float)),
         sum(abs(math.log(p / q)) for p, q in zip(c["fp"], c["ap"])) / len(f), "ln accuracy ratio of %r, %r" % (c["fp"], c["ap"]))
    m = mase(c["f"], c["a"], c["nv"], c["start"])
    if m is not None:
        near(a.calculate_MASE(f, x, nv, c["start"]), m, "MASE of %r for %r with naive %r from %d" % (c["f"], c["a"], c["nv"], c["start"]))
    s.nontrivial(c["f"] != c["a"] and len(f) > 1)


def mase(f, x, nv, start):
    k = start + 1
    if not x[k:]:
        return None
    naive = sum(abs(p - q) for p, q in zip(x[k:], nv[k:])) / len(x[k:])
    if naive == 0:
        return None
    return sum(abs(p - q) for p, q in zip(f, x)) / len(x) / naive


# ----------------------------------------------------------------- tables

@st.composite
def table(draw, lo, hi):
    days = draw(st.integers(lo, hi))
    k = draw(st.integers(1, 4)) if draw(st.integers(0, 9)) else draw(st.integers(5, 12))
    style = draw(st.sampled_from(["K%d", "Camp_%d", "North-%d", "Camp %d", None, None]))
    names = [style % i if style else ["A", "A 2", "AB", "A 2 b", "B", "2", "B A", "C d e", "d e", "C", "e", "A b"][i] for i in range(k)]
    level = st.sampled_from([0, 3, 500, 100000])
    sim, data = [], []
    for _ in range(k):
        for side in (sim, data):
            b = draw(level)
            step = draw(st.integers(0, 40)) * max(1, b // 100)
            xs = [b + i * step for i in range(days)]
            for j, v in draw(st.lists(st.tuples(st.integers(0, days - 1), st.integers(0, 5000)), max_size=4)):
                xs[j] = v
            if draw(st.integers(0, 6)) == 0:
                xs = [0] * draw(st.integers(1, days)) + xs
            side.append(xs[:days])
    return {"names": names, "sim": sim, "data": data, "idp": draw(st.booleans()), "date": draw(st.integers(0, 3)) > 0,
            "debt": draw(st.integers(0, 3))}


def write(c, path):
    days = len(c["sim"][0])
    cols = ["Day"] + (["Date"] if c["date"] else [])
    for n in c["names"]:
        cols += [n + " sim", n + " data", n + " error"]
    cols += ["Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count",
             "refugees in camps (simulation)", "refugee_debt"] + (["total IDPs"] if c["idp"] else [])
    with open(path, "w") as f:
        f.write(",".join(cols) + "\n")
        for t in range(days):
            row = [t] + (["2020-01-%02d" % (t % 28 + 1)] if c["date"] else [])
            for s, d in zip(c["sim"], c["data"]):
                row += [s[t], d[t], a.rel_error(int(s[t]), int(d[t]))]
            sim, un = sum(s[t] for s in c["sim"]), sum(d[t] for d in c["data"])
            row += [0.25, un, sim + 5, un + 3, sim, c["debt"]] + ([7] if c["idp"] else [])
            f.write(",".join(str(x) for x in row) + "\n")


def totals(c):
    days = len(c["sim"][0])
    return ([sum(s[t] for s in c["sim"]) for t in range(days)], [sum(d[t] for d in c["data"]) for t in range(days)])


def rescaled(c):
    sim, un = totals(c)
    return [[s[t] * un[t] / sim[t] if sim[t] > 0 else 0.0 for t in range(len(sim))] for s in c["sim"]]


def avg(xs):
    xs = list(xs)
    return sum(xs) / len(xs)


def total_error(c, fc):
    sim, un = totals(c)
    return [sum(abs(f[t] - d[t]) for f, d in zip(fc, c["data"])) / max(un[t], 1) for t in range(len(sim))]


# ----------------------------------------------------------------- report

def rjudge(c, s):
    with workdir():
        os.makedirs("out")
        write(c, "out/out.csv")
        path = os.path.join(os.path.dirname(pfo.__file__), "extract-validation-results.py")
        buf = io.StringIO()
        argv = sys.argv
        sys.argv = [path, "out"]
        try:
            with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
                runpy.run_path(path, run_name="__main__")
        finally:
            sys.argv = argv
            plt.close("all")
    text = buf.getvalue()
    sections = {}
    cur = None
    for l in text.split("\n"):
        m = re.match(r"^\s*([^:]+?):\s*(.*)$", l)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if v == "":
            cur = k
        elif k != "input directory":
            sections.setdefault(cur, {})[k] = float(v)
    sim, un = totals(c)
    resc = rescaled(c)
    want = {}
    for i, n in enumerate(c["names"]):
        x = c["data"][i]
        w = {"absolute difference ave": avg(abs(p - q) for p, q in zip(c["sim"][i], x)),
             "absolute difference rescaled ave": avg(abs(p - q) for p, q in zip(resc[i], x)),
             "ratio difference ave": avg(abs(p - q) / max(u, 1) for p, q, u in zip(c["sim"][i], x, un)), "N": sum(x)}
        for k in (7, 30):
            w["mase%d" % k] = mase(resc[i], x, [x[k]] * len(x), k)
            w["mase%d-ratio" % k] = mase(resc[i], x, [u * x[k] / un[k] for u in un], k) if un[k] else None
        want[n] = w
        expect(n in sections, lambda: "no figures for camp %s in the report:\n%s" % (n, text))
        for k, v in w.items():
            if v is not None:
                expect_close(sections[n][k], v, "%s of %s" % (k, n), rel=1e-6, abs_=2e-4)
    tot = sections["totals"]
    N = sum(w["N"] for w in want.values())
    for k in ("mase7", "mase7-ratio", "mase30", "mase30-ratio"):
        if N and all(w[k] is not None for w in want.values()):
            expect_close(tot[k], sum(w[k] * w["N"] for w in want.values()) / N, "overall " + k, rel=1e-6, abs_=2e-4)
    expect_close(tot["Error (normal)"], avg(total_error(c, c["sim"])), "Error (normal)", rel=1e-6, abs_=5e-4)
    expect_close(tot["Error (rescaled)"], avg(total_error(c, resc)), "Error (rescaled)", rel=1e-6, abs_=5e-4)
    expect_eq(int(tot["Simulation Period"]), len(sim), "Simulation Period")
    s.nontrivial(sum(1 for x, y in zip(c["sim"], c["data"]) if x != y) > 1 or sum(p != q for p, q in zip(c["sim"][0], c["data"][0])) > 1)


# ----------------------------------------------------------------- plots

def pjudge(c, s):
    saved = {}
    real = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *_a, **_k):
        saved[os.path.relpath(str(fname), "res")] = [[float(y) for y in l.get_ydata()] for ax in self.axes for l in ax.lines]
    buf = io.StringIO()
    with workdir():
        os.makedirs("in")
        write(c, "in/out.csv")
        matplotlib.figure.Figure.savefig = savefig
        try:
            with contextlib.redirect_stdout(buf), np.errstate(all="ignore"):
                pfo.plot_flee_output("in", "res")
        finally:
            matplotlib.figure.Figure.savefig = real
            plt.close("all")
    sim, un = totals(c)
    camps = sorted(k for k in saved if k.startswith("camps"))
    expect_eq(camps, sorted("camps/%s.png" % n for n in c["names"]), "camp figures")
    for i, n in enumerate(c["names"]):
        got = saved["camps/%s.png" % n]
        expect(sorted(got) == sorted([[float(x) for x in c["sim"][i]], [float(x) for x in c["data"][i]]]),
               lambda: "the figure of camp %s shows %r" % (n, got))
    got = saved["numagents/numagents.png"]
    expect(sorted(got) == sorted([[float(x + 5) for x in sim], [float(x) for x in sim], [float(x + 3) for x in un],
                                  [float(c["debt"])] * len(sim)]), lambda: "numagents figure shows %r" % (got,))
    m = re.search(r"Averaged error normal:\s+(\S+)\s*,\s*rescaled:\s+(\S+)\s*,\s*len:\s+(\d+)", buf.getvalue())
    expect(m is not None, lambda: "no averaged error in the output:\n" + buf.getvalue())
    err, errs = total_error(c, c["sim"]), total_error(c, rescaled(c))
    expect_close(float(m.group(1)), avg(err), "averaged error", rel=1e-6, abs_=1e-4)
    # the rescaled numbers may be cut to whole persons
    tol = [len(c["names"]) * 1.0001 / max(u, 1) for u in un]
    expect(abs(float(m.group(2)) - avg(errs)) <= avg(tol) + 1e-4, lambda: "averaged rescaled error %s, expected %r" % (m.group(2), avg(errs)))
    expect_eq(int(m.group(3)), len(sim), "number of days")
    lines = saved["errors/error_comparison.png"]
    expect_eq(len(lines), 2, "curves in the error comparison")

    def same(l, e, t):
        return len(l) == len(e) and all(abs(x - y) <= z + 1e-4 + 1e-6 * abs(y) for x, y, z in zip(l, e, t))
    zero = [0.0] * len(sim)
    expect(any(same(lines[i], err, zero) and same(lines[1 - i], errs, tol) for i in (0, 1)),
           lambda: "the error comparison shows %r, expected %r and %r" % (lines, err, errs))
    expect(same(saved["errors/error.png"][0], errs, tol), "the error figure does not show the rescaled error")
    s.label("IDP column", c["idp"])
    s.nontrivial(sum(1 for x, y in zip(c["sim"], c["data"]) if x != y) > 1 or sum(p != q for p, q in zip(c["sim"][0], c["data"][0])) > 1)


SUBS = [Sub("measures", lambda: case(), judge, quick=2000, shards=1),
        Sub("report", lambda: table(32, 45), rjudge, quick=450, shards=3),
        Sub("plots", lambda: table(1, 12), pjudge, quick=150, shards=3)]
