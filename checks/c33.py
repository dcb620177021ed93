"""C33: the scenarios that come with flee run to their end, with exact books, under any settings."""
import contextlib
import csv
import io
import math
import os
import runpy
import sys
from collections import Counter
from datetime import date

import yaml
from hypothesis import strategies as st

import fenv
import rdata
import simmpi
from vlib import Sub, Violation, expect, expect_eq, quiet, workdir

RULE = ("A case is one of the scenarios in conflict_input with its validation data, random settings (movement rules, data- or "
        "conflict-driven spawning, scale-down factor), a number of days, and run.py or run_par.py on 1-3 processes of a "
        "simulated MPI.  Every day the usable links, conflict zones, counts and agents are audited inside the run, and every "
        "row of the table is recomputed from the scenario's own files.  Non-trivial: agents were on links or arrived in camps.")

REPO = os.path.dirname(os.path.dirname(os.path.abspath(fenv.flee.__file__)))
PAIRS = {"burundi": "burundi2015", "car": "car2013", "ethiopia": "ethiopia2020", "mali": "mali2012", "ssudan": "ssudan2014",
         "syria": "syria2013"}
HASTEN = [20, 50, 100, 200, 400]

with quiet():
    simmpi.copies(3)
    import flee.postprocessing.analysis  # noqa: F401


def rows(path):
    with open(path, newline="", encoding="utf-8") as f:
        return [r for r in csv.reader(f) if r and r[0] and r[0][0] != "#"]


def head(path):
    with open(path, newline="", encoding="utf-8") as f:
        return next(csv.reader(f))


def daynum(iso, start):
    return (date(*map(int, iso.split("-"))) - date(*map(int, start.split("-")))).days


_scen = {}


class Scenario:
    """What the scenario's files say."""

    def __init__(self, name):
        d = os.path.join(REPO, "conflict_input", name)
        v = os.path.join(REPO, "conflict_validation", PAIRS[name])
        self.dir, self.val = d, v
        p = {r[0]: r[1] for r in rows(d + "/sim_period.csv")}
        self.start, self.length = p["StartDate"], int(p["Length"])
        self.locs = [(r[0], r[2], r[5].lower()) for r in rows(d + "/locations.csv")]
        self.links = [(r[0], r[1], float(r[2])) for r in rows(d + "/routes.csv")]
        self.closures = [(r[0], r[1], r[2], int(r[3]), int(r[4]) if int(r[4]) > 0 else -1) for r in rows(d + "/closures.csv")]
        h = [x.strip() for x in head(d + "/conflicts.csv")]
        self.conf = [{n: float(x) for n, x in zip(h[1:], r[1:]) if n} for r in rows(d + "/conflicts.csv")]
        self.corr = [(r[0], r[1]) for r in rows(d + "/registration_corrections.csv") if len(r) > 1]
        self.series = {}
        self.order = []
        for r in rows(v + "/data_layout.csv"):
            self.order.append(r[0])
            if len([x for x in r[1:] if x]) == 1:
                ser = [(daynum(x[0], self.start), int(x[1])) for x in rows(os.path.join(v, r[1]))
                       if x[0][:4].isdigit() and x[1] != ""]
                self.series[r[0]] = ser

    def data(self, scale, empty):
        """Reader of the data files with the corrections; None if a correction cannot be applied at this scale."""
        r = rdata.Ref([(n, self.series[n]) for n in self.order if n in self.series], scale, empty)
        for n, iso in self.corr:
            day = daynum(iso, self.start)
            if day < 0:
                continue
            if n not in r.t:
                return None if n not in self.order else r      # (no corrections of camps with several files)
            ser = r.t[n]
            ds = [d for d, _ in ser]
            if day in ds and ds.index(day) > 0:
                i = ds.index(day)
                if ser[i - 1][1] < 1:
                    return None
                f = ser[i][1] / ser[i - 1][1]
                ser[:i] = [(d, x * f) for d, x in ser[:i]]
        return r


def scenario(name):
    if name not in _scen:
        _scen[name] = Scenario(name)
    return _scen[name]


@st.composite
def case(draw):
    name = draw(st.sampled_from(sorted(PAIRS)))
    m, sp, logs = {}, {}, {}

    def opt(d, key, vals, p=3):
        if draw(st.integers(0, p)) == 0:
            d[key] = draw(st.sampled_from(vals))
    opt(m, "awareness_level", [0, 1, 2], 1)
    opt(m, "max_move_speed", [50.0, 200.0, 1000.0], 1)
    opt(m, "camp_weight", [0.5, 2.0])
    opt(m, "foreign_weight", [2.0])
    opt(m, "conflict_weight", [0.25, 1.0])
    opt(m, "camp_movechance", [0.0, 0.05])
    opt(m, "idpcamp_movechance", [0.0, 1.0])
    opt(m, "conflict_movechance", [0.2])
    opt(m, "default_movechance", [0.9, 1.0])
    opt(m, "start_on_foot", [True])
    opt(m, "avoid_short_stints", [True])
    opt(m, "stay_close_to_home", [True])
    opt(m, "use_pop_for_loc_weight", [True])
    opt(m, "movechance_pop_scale_factor", [0.1])
    opt(m, "capacity_buffer", [0.5, 1.0])
    opt(m, "capacity_scaling", [0.5, 2.0])
    opt(m, "weight_softening", [0.1])
    opt(m, "softening", [0.0, 100.0])
    opt(m, "distance_power", [0.5, 2.0])
    opt(m, "pruning_threshold", [2.0, 10.0])
    opt(m, "fixed_routes", [True], 4)
    mode = draw(st.sampled_from(["data", "data", "data", "conflict"]))
    if mode == "conflict":
        sp["conflict_driven_spawning"] = {"displaced_per_conflict_day": draw(st.sampled_from([1, 2, 5]))}
    opt(sp, "conflict_spawn_decay", [[1.0, 0.5, 0.1], [0.5]])
    opt(sp, "sum_from_camps", [False])
    opt(sp, "empty_camps_on_day0", [True])
    opt(logs, "idp_totals", [1])
    opt(logs, "camp", [1])
    opt(logs, "conflict", [1])
    long = draw(st.integers(0, 5)) == 0
    days = draw(st.integers(60, 260) if long else st.integers(2, 40))
    h = draw(st.sampled_from(HASTEN[2:] if long else HASTEN[1:]))
    return {"name": name, "y": {"move_rules": m, "spawn_rules": sp, "log_levels": logs}, "mode": mode, "days": days, "hasten": h,
            "K": draw(st.sampled_from([0, 0, 0, 1, 2, 3])), "seed": draw(st.integers(0, 10 ** 6))}


class Watch:
    """Wraps evolve: audits the state before and after every day."""

    def __init__(self, sc, serial):
        self.sc = sc
        self.serial = serial
        self.country = {n: c for n, c, _ in sc.locs}
        self.model = []
        for a, b, d in sc.links:
            self.model.append([a, b, d, True])
            self.model.append([b, a, d, True])
        self.t = 0
        self.moved = 0
        self.camps = 0

    def set(self, pred, val):
        for l in self.model:
            if pred(l[0], l[1]):
                l[3] = val

    def before(self, e):
        t, sc = self.t, self.sc
        w = "%s, day %d: " % (sc.dir.rsplit("/", 1)[1], t)
        expect_eq(int(e.time), t, w + "time of the simulation")
        for k, a, b, start, end in sc.closures:
            for when, val in ((start, False), (end, True)):
                if when != t:
                    continue
                if k == "country":
                    self.set(lambda x, y: (self.country[x], self.country[y]) in ((a, b), (b, a)), val)
                elif k == "location":
                    self.set(lambda x, y: a in (x, y), val)
                elif k == "link":
                    self.set(lambda x, y: (x, y) in ((a, b), (b, a)), val)
        want = {}
        for a, b, d, up in self.model:
            if up:
                want.setdefault(a, Counter())[b, d] += 1
        conf = sc.conf[t]
        for loc in e.locations:
            got = Counter((l.endpoint.name, float(l.get_distance())) for l in loc.links)
            ref = want.get(loc.name, Counter())
            expect(got == ref, lambda: w + "usable links out of %s: missing %r, extra %r" % (loc.name, dict(ref - got), dict(got - ref)))
            c = conf.get(loc.name, 0.0)
            expect((float(loc.conflict) == c) if c > 0 else not loc.conflict > 0,
                   lambda: w + "conflict intensity of %s is %r, in the file %r" % (loc.name, loc.conflict, c))
        self.was = {id(a): a.location for a in e.agents}

    def after(self, e):
        w = "%s, day %d: " % (self.sc.dir.rsplit("/", 1)[1], self.t)
        expect_eq(int(e.time), self.t + 1, w + "time of the simulation after the day")
        n = Counter()
        for a in e.agents:
            p = a.location
            n[id(p)] += 1
            old = self.was.get(id(a))
            if p is not old:
                self.moved += 1
            if fenv.is_link(p):
                expect(0 <= a.distance_travelled_on_link <= p.get_distance(), lambda: w + "an agent has gone %r km on a link of %r km"
                       % (a.distance_travelled_on_link, p.get_distance()))
                expect(p is old or any(p is l for l in p.startpoint.links),
                       lambda: w + "an agent set out on the closed link %s-%s" % (p.startpoint.name, p.endpoint.name))
            expect_eq(bool(a.travelling), fenv.is_link(p), w + "in-transit flag")
        if self.serial:
            expect_eq(int(e.numAgents()), len(e.agents), w + "total number of agents")
            for loc in e.locations:
                expect_eq(int(loc.numAgents), n[id(loc)], w + "agents at " + loc.name)
                for l in loc.links:
                    expect_eq(int(l.numAgents), n[id(l)], w + "agents on %s-%s" % (loc.name, l.endpoint.name))
        self.t += 1

    def wrap(self, real):
        def evolve(e):
            self.before(e)
            real(e)
            self.after(e)
        return evolve


def near(got, x):
    return math.floor(x - 1e-6) <= got <= math.floor(x + 1e-6) if x >= 0 else abs(got - x) < 1 + 1e-6


def judge(c, s):
    sc = scenario(c["name"])
    sp = c["y"]["spawn_rules"]
    empty = bool(sp.get("empty_camps_on_day0"))
    i = HASTEN.index(c["hasten"])
    while sc.data(HASTEN[i], empty) is None and i > 0:
        i -= 1
    scale = HASTEN[i]
    ref = sc.data(scale, empty)
    days = min(c["days"], sc.length)
    watches = [Watch(sc, c["K"] == 0) for _ in range(max(1, c["K"]))]
    buf = io.StringIO()
    argv = sys.argv
    y = dict(c["y"], optimisations={"hasten": scale})
    with workdir():
        with open("s.yml", "w") as f:
            yaml.safe_dump(y, f)
        args = [sc.dir, sc.val, str(days), "s.yml"]
        try:
            if c["K"] == 0:
                fenv.fresh({}, c["seed"])
                sys.argv = ["run.py"] + args
                E = fenv.flee.Ecosystem
                real = E.evolve
                E.evolve = watches[0].wrap(real)
                try:
                    with contextlib.redirect_stdout(buf):
                        runpy.run_path(os.path.join(REPO, "runscripts", "run.py"), run_name="__main__")
                finally:
                    E.evolve = real
            else:
                sys.argv = ["run_par.py"] + args
                w = simmpi.World(c["K"], {}, c["seed"])

                def one(r, m):
                    E = m.pflee.Ecosystem
                    real = E.evolve
                    E.evolve = watches[r].wrap(real)
                    try:
                        runpy.run_path(os.path.join(REPO, "runscripts", "run_par.py"), run_name="__main__")
                    finally:
                        E.evolve = real
                with contextlib.redirect_stdout(buf):
                    w.run(one)
        except SystemExit as e:
            raise Violation("scenario %s exits with %r" % (c["name"], e.code))
        finally:
            sys.argv = argv
    table = [l.split(",") for l in buf.getvalue().split("\n") if l]
    expect(table and table[0][0] == "Day", lambda: "the output does not start with the header: %r" % buf.getvalue()[:200])
    hd = table[0]
    table = table[1:]
    for w in watches:
        expect_eq(w.t, days, "days simulated")
    expect_eq([r[0] for r in table], [str(t) for t in range(days)], "days in the table")
    shown = [h[:-4] for h in hd if h.endswith(" sim")]
    expect_eq(sorted(shown), sorted(n for n, _, ty in sc.locs if "camp" in ty), "camps in the table")
    summed = sp.get("sum_from_camps", True)
    rate = sp.get("conflict_driven_spawning", {}).get("displaced_per_conflict_day", 0)
    known = set(n for n, _, _ in sc.locs)
    debt = 0
    prev = None
    total = 0
    for t, r in enumerate(table):
        p = "%s, day %d: " % (c["name"], t)
        expect_eq(len(r), len(hd), p + "number of fields")
        v = dict(zip(hd, r))
        expect_eq(v["Date"], rdata.iso(sc.start, t), p + "Date")
        data = {}
        err = 0
        for n in shown:
            d = data[n] = int(float(v[n + " data"]))
            if n in sc.series:
                x = exact(ref, n, t)
                x0 = int(ref.interp(n, 0)) if empty else 0
                expect(near(d + x0, x), lambda: p + "%s data is %d, by the files %r" % (n, d, x - x0))
            sim = int(v[n + " sim"])
            e = round(abs(sim / d - 1), 4) if d >= 1e-5 else 0.0
            expect(abs(float(v[n + " error"]) - e) < 1.1e-4, lambda: p + "%s error is %s, sim %d, data %r" % (n, v[n + " error"], sim, d))
            err += abs(sim - d)
        insim = sum(int(v[n + " sim"]) for n in shown)
        expect_eq(int(v["refugees in camps (simulation)"]), insim, p + "refugees in camps (simulation)")
        raw = int(v["raw UNHCR refugee count"])
        tot = int(v["total refugees (simulation)"])
        if c["mode"] == "data":
            now = {n: data.get(n) if n in data else ref.field(n, t) for n in sc.order}
            diff = None
            if prev is not None:
                if summed:
                    diff = sum(now[n] - prev[1][n] for n in sc.order[1:])
                else:
                    n = sc.order[0]
                    diff = now[n] - prev[1][n]
                new = max(0, diff - debt)
                debt = max(0, debt - diff)
                if prev[0] > 0 and raw > 0:
                    expect_eq(raw - prev[0], diff, p + "change of the raw count")
                total += new
            else:
                total = 0 if empty else sum(data.values())
            if raw > 0:
                expect_eq(int(v["refugee_debt"]), debt, p + "refugee debt")
                expect_eq(int(v["refugees in camps (UNHCR)"]), sum(data.values()), p + "refugees in camps (UNHCR)")
                expect(abs(float(v["Total error"]) - err / raw) < 1e-6, lambda: p + "total error is %s, expected %r" % (v["Total error"], err / raw))
            prev = (raw, now)
        else:
            if t == 0:
                total = 0 if empty else sum(data.values())
            total += sum(int(rate * x) for n, x in sc.conf[t].items() if n in known and x > 0)
        expect_eq(tot, total, p + "number of agents in the simulation")
        expect(insim <= tot, p + "more people in camps than in the simulation")
        if "total IDPs" in v:
            expect_eq(int(v["total IDPs"]), sum(int(v[n + " sim"]) for n, _, ty in sc.locs if ty == "idpcamp"), p + "total IDPs")
    s.label(c["name"])
    s.label("parallel", c["K"] > 0)
    s.label(c["mode"])
    s.label("long", days > 50)
    s.nontrivial(any(w.moved > 0 for w in watches))


def exact(ref, n, day):
    ser = ref.t[n]
    if day <= ser[0][0]:
        return ser[0][1]
    for (d0, v0), (d1, v1) in zip(ser, ser[1:]):
        if d0 <= day < d1:
            return v0 + (day - d0) / (d1 - d0) * (v1 - v0)
    return ser[-1][1]


SUBS = [Sub("scenarios", lambda: case(), judge, quick=250, shards=8)]
