"""C32: statistics and figures over several runs agree with the runs' output tables."""
import contextlib
import csv
import io
import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib import Sub, expect, expect_close, expect_eq, quiet, workdir

with quiet():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    import flee.postprocessing.plot_flee_compare as pfc
    import flee.postprocessing.plot_flee_forecast as pff

import c27

RULE = ("A case is two to five random output tables of the same scenario (same camps, days and registered numbers).  "
        "'ensemble': the forecast plotting code runs on them; the mean, standard deviation and complete tables it writes and "
        "the lines of its figures are compared with the tables.  'models': the model comparison runs on them; the errors, "
        "rescaled errors and durations it writes and the lines of its figures are compared with the tables.  Non-trivial: at "
        "least two of the runs differ.")


@st.composite
def runs(draw):
    base = draw(c27.table(1, 9 if draw(st.integers(0, 14)) else 60))
    if draw(st.integers(0, 3)) == 0:
        base["names"] = ["Camp %d x" % i for i in range(len(base["names"]))]
    out = [base["sim"]]
    n, days = len(base["names"]), len(base["sim"][0])
    for _ in range(draw(st.integers(1, 4)) if draw(st.integers(0, 14)) else draw(st.integers(5, 13))):
        k = draw(st.integers(0, 3))
        if k == 0:
            out.append(out[0])
        elif k == 1:
            d = draw(st.integers(-20, 300))
            out.append([[max(0, x + d) for x in s] for s in out[0]])
        else:
            out.append([draw(st.lists(st.integers(0, 5000), min_size=days, max_size=days)) for _ in range(n)])
    return {"base": base, "sims": out}


def tables(c):
    return [dict(c["base"], sim=s) for s in c["sims"]]


def read(path):
    with open(path) as f:
        rows = list(csv.reader(f))
    return rows[0], rows[1:]


class figures:
    """Records the lines of every figure that is saved."""

    def __enter__(self):
        self.saved = {}
        self.real = matplotlib.figure.Figure.savefig
        me = self

        def savefig(fig, fname, *_a, **_k):
            me.saved[os.path.relpath(str(fname))] = [[float(y) for y in l.get_ydata()] for ax in fig.axes for l in ax.lines]
        matplotlib.figure.Figure.savefig = savefig
        return self.saved

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig = self.real
        plt.close("all")
        return False


def same(l, want, tol=0.0):
    return len(l) == len(want) and all(abs(x - y) <= tol + 1e-6 * max(1.0, abs(y)) for x, y in zip(l, want))


def has_all(lines, wants, what):
    left = list(lines)
    for w in wants:
        hit = [l for l in left if same(l, w)]
        expect(hit, lambda: "%s: no line shows %r; lines: %r" % (what, w, lines))
        left.remove(hit[0])
    return left


def quantile(xs, q):
    xs = sorted(xs)
    p = q * (len(xs) - 1)
    k = min(int(p), len(xs) - 1)
    m = min(k + 1, len(xs) - 1)
    return xs[k] + (xs[m] - xs[k]) * (p - k)


def ensemble_judge(c, s):
    ts = tables(c)
    names, days = c["base"]["names"], len(c["base"]["sim"][0])
    with workdir():
        for k, t in enumerate(ts):
            os.makedirs("in/RUNS/run_%d" % k)
            c27.write(t, "in/RUNS/run_%d/out.csv" % k)
        with contextlib.redirect_stdout(io.StringIO()), figures() as saved, np.errstate(all="ignore"):
            pff.plot_flee_forecast("in")
        mean, std, allr = (read("in/plots/entire_runs/%s.csv" % x) for x in ("mean_df", "std_df", "all_out"))
    for kind, (head, rows) in (("mean", mean), ("std", std)):
        expect_eq([int(float(r[head.index("Day")])) for r in rows], list(range(days)), "days of the %s table" % kind)
        for i, n in enumerate(names):
            for col, vals in (("sim", c["sims"]), ("data", [c["base"]["data"]] * len(ts))):
                j = head.index("%s %s" % (n, col))
                for d in range(days):
                    x = [v[i][d] for v in vals]
                    w = sum(x) / len(x)
                    if kind == "std":
                        w = math.sqrt(sum((y - w) ** 2 for y in x) / (len(x) - 1))
                    expect_close(float(rows[d][j]), w, "%s of %s %s on day %d" % (kind, n, col, d), rel=1e-6, abs_=1e-6)
    head, rows = allr
    for i, n in enumerate(names):
        j, k = head.index("%s sim" % n), head.index("Day")
        expect_eq(sorted((int(float(r[k])), float(r[j])) for r in rows),
                  sorted((d, float(v[i][d])) for v in c["sims"] for d in range(days)), "%s in the table of all runs" % n)
        lines = saved.get("in/plots/entire_runs/camps/%s.png" % n)
        expect(lines is not None, lambda: "no figure for %s: %r" % (n, sorted(saved)))
        cols = [[v[i][d] for v in c["sims"]] for d in range(days)]
        has_all(lines, [v[i] for v in c["sims"]] + [c["base"]["data"][i]] * len(ts) + [[sum(x) / len(x) for x in cols]]
                + [[quantile(x, 0.05) for x in cols], [quantile(x, 0.9) for x in cols]], "figure of %s" % n)
    s.label("date column", c["base"]["date"])
    s.nontrivial(any(x != c["sims"][0] for x in c["sims"]))


def models_judge(c, s):
    ts = tables(c)
    names = c["base"]["names"]
    models = ["model_%d" % k for k in range(len(ts))]
    with workdir():
        os.makedirs("out")
        for m, t in zip(models, ts):
            os.makedirs("in/" + m)
            c27.write(dict(t, date=True), "in/%s/out.csv" % m)
        with contextlib.redirect_stdout(io.StringIO()), figures() as saved, np.errstate(all="ignore"):
            pfc.plot_flee_compare(*models, data_dir="in", output_dir="out")
        head, rows = read("out/comparisons.csv")
    expect_eq([r[0] for r in rows], models, "models in comparisons.csv")
    errs = []
    for r, t in zip(rows, ts):
        sim, un = c27.totals(t)
        err, errr = c27.total_error(t, t["sim"]), c27.total_error(t, c27.rescaled(t))
        errs.append(err)
        expect_close(float(r[1]), c27.avg(err), "error of " + r[0], rel=1e-6, abs_=2e-4)
        # the rescaled numbers may be cut to whole persons
        tol = c27.avg(len(names) * 1.0001 / max(u, 1) for u in un)
        expect(abs(float(r[2]) - c27.avg(errr)) <= tol + 2e-4, lambda: "rescaled error of %s: got %s, expected %r"
               % (r[0], r[2], c27.avg(errr)))
        expect_eq(int(r[3]), len(sim), "duration of " + r[0])
        s.label("rescaling_matters", abs(c27.avg(errr) - c27.avg(err)) > tol + 2e-4)
    lines = saved.get("out/error_comparison.png")
    expect(lines is not None, lambda: "no figure of the errors: %r" % sorted(saved))
    for m, e in zip(models, errs):
        expect(any(len(l) == len(e) and all(abs(x - y) < 2e-4 + 1e-6 * abs(y) for x, y in zip(l, e)) for l in lines),
               lambda: "the error figure has no line for %s (%r): %r" % (m, e, lines))
    for i, n in enumerate(names):
        lines = saved.get("out/%s.png" % n)
        expect(lines is not None, lambda: "no figure for %s: %r" % (n, sorted(saved)))
        left = has_all(lines, [v[i] for v in c["sims"]] + [c["base"]["data"][i]], "figure of %s" % n)
        expect(not left, lambda: "extra lines in the figure of %s: %r" % (n, left))
    s.label("idp column", c["base"]["idp"])
    s.nontrivial(any(x != c["sims"][0] for x in c["sims"]))


SUBS = [Sub("ensemble", runs, ensemble_judge, quick=120, shards=4),
        Sub("models", runs, models_judge, quick=120, shards=4)]
