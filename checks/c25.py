"""C25: coupled models exchange exactly the agents at the coupled locations."""
import csv
import math
import os
import random
import sys
import threading
import time
from collections import Counter

from hypothesis import strategies as st

import fenv
import hist
import simmpi
from vlib import Sub, Violation, expect, expect_close, expect_eq, quiet, workdir

with quiet():
    import flee.coupling as coupling
    from flee.InputGeography import InputGeography
    simmpi.copies(3)

RULE = ("'exchange': 1-3 instances of a macro and of a micro model run at the same time, in threads of which a scheduler lets "
        "one run at a time and switches at random lines of the coupling code and at every wait; agents are inserted, move and "
        "are exchanged through the files every day.  'parallel': one model on 1-3 processes of a simulated MPI, the other's "
        "messages prepared.  'managers': the MUSCLE3 route with stand-ins for the message channels.  'summary': the mean of "
        "the instances' output files.  'logs': the exchange logs and figures of 1-3 instances with 0-9 coupled locations.  "
        "Non-trivial: at least two instances (or processes) and agents exchanged on two days.")

_real_sleep = time.sleep


class _Abort(BaseException):
    pass


class Scheduler:
    """Threads of which one runs at a time; deterministic for a given seed."""

    def __init__(self, n, seed, p):
        self.n, self.rng, self.p = n, random.Random(seed), p
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.err = None
        self.end = threading.Semaphore(0)
        self.cur = 0
        self.sleeps = 0
        self.file = coupling.__file__

    def pick(self, other_than=None):
        live = [i for i in range(self.n) if not self.done[i] and i != other_than]
        return self.rng.choice(live) if live else None

    def switch(self, me, must=False):
        nxt = self.pick(me if must else None)
        if nxt is None or nxt == me:
            return
        self.cur = nxt
        self.go[nxt].release()
        self.go[me].acquire()
        if self.err is not None:
            raise _Abort()

    def sleep(self, *_a):
        me = self.cur
        self.sleeps += 1
        if self.sleeps > 3000:
            raise Violation("the models wait for files that nobody writes")
        self.switch(me, must=True)

    def trace(self, frame, event, _arg):
        if frame.f_code.co_filename != self.file:
            return None
        if event == "line" and self.rng.random() < self.p:
            self.switch(self.cur)
        return self.trace

    def body(self, me, fn):
        self.go[me].acquire()
        try:
            if self.err is None:
                fn()
        except _Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            if self.err is None:
                self.err = e
        sys.settrace(None)
        self.done[me] = True
        if self.err is not None:
            for i in range(self.n):
                if not self.done[i]:
                    self.go[i].release()
        else:
            nxt = self.pick()
            if nxt is not None:
                self.cur = nxt
                self.go[nxt].release()
        if all(self.done):
            self.end.release()

    def traced(self, fn, *a):
        if self.p > 0:
            sys.settrace(self.trace)
        try:
            return fn(*a)
        finally:
            sys.settrace(None)

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        time.sleep = self.sleep
        try:
            for t in ts:
                t.start()
            self.cur = self.pick()
            self.go[self.cur].release()
            self.end.acquire()
            for t in ts:
                t.join()
        finally:
            time.sleep = _real_sleep
        if self.err is not None:
            raise self.err


class no_wait:
    """The files are there already: waiting costs nothing, and must end."""

    def __enter__(self):
        self.n = 0
        time.sleep = self.sleep

    def sleep(self, *_a):
        self.n += 1
        if self.n > 3000:
            raise Violation("waits for files that nobody writes")

    def __exit__(self, *a):
        time.sleep = _real_sleep


# ---------------------------------------------------------------- models

@st.composite
def model(draw, side, nc, ng):
    """Own places first, then the coupled ones; ghosts: conflict zones of the micro model, without links in the macro."""
    own = draw(st.integers(1, 3))
    locs = [{"n": "%s%d" % (side, i), "t": draw(st.sampled_from(["town", "camp", "conflict_zone" if side == "mac" else "town"])),
             "pop": 1000} for i in range(own)]
    locs += [{"n": ("C%d" if draw(st.integers(0, 4)) else side + "-C%d") % i, "t": draw(st.sampled_from(["town", "town", "camp"])),
              "pop": 1000} for i in range(nc)]
    ghost = [{"n": "G%d" % i, "t": "conflict_zone", "pop": 1000} for i in range(ng)]
    links = []
    k = own + nc + (ng if side == "mic" else 0)
    for i in range(1, k):
        links.append([i, draw(st.integers(0, i - 1)), float(draw(st.integers(20, 600)))])
    order = draw(st.permutations(list(range(nc))))
    return {"side": side, "locs": locs + ghost, "links": links, "own": own, "order": list(order),
            "loop": draw(st.booleans())}


@st.composite
def case(draw):
    nc = draw(st.integers(1, 3)) if draw(st.integers(0, 14)) else draw(st.integers(4, 12))
    ng = draw(st.sampled_from([0, 0, 1, 2]))
    N = draw(st.sampled_from([1, 2, 2, 3])) if draw(st.integers(0, 14)) else draw(st.integers(4, 12))
    days = draw(st.integers(2, 4)) if N > 3 or draw(st.integers(0, 14)) else draw(st.integers(11, 24))
    n = st.integers(0, 8) if draw(st.integers(0, 9)) else st.sampled_from([0, 3, 150, 400])
    return {"mac": draw(model("mac", nc, ng)), "mic": draw(model("mic", nc, ng)), "nc": nc, "ng": ng, "N": N, "days": days,
            "ins": draw(st.lists(st.tuples(st.integers(0, days - 1), st.integers(0, 2 * N - 1), st.integers(0, 7), n).map(list),
                                 min_size=1, max_size=10)),
            "every": draw(st.sampled_from([1, 1, 1, 2, 3])), "log": draw(st.booleans()),
            "oneway": draw(st.lists(st.sampled_from(["inout", "inout", "inout", "in", "out"]), min_size=nc, max_size=nc)),
            "mc": draw(st.sampled_from([0.3, 1.0])), "p": draw(st.sampled_from([0.0, 0.05, 0.3])),
            "seed": draw(st.integers(0, 10 ** 6))}


def flip(d):
    return {"in": "out", "out": "in"}.get(d, d)


def directions(c, side):
    """coupling name -> direction, for this side."""
    out = {}
    for i in c["mac" if side == "mac" else "mic"]["order"]:
        d = c["oneway"][i]
        out["C%d" % i] = d if side == "mac" else flip(d)
    for i in range(c["ng"]):
        out["G%d" % i] = "out" if side == "mac" else "in"
    return out


def rows(m):
    return [[d["n"], "r", "H", "0", "0", d["t"], "0", "1000"] for d in m["locs"]]


def couple_up(c, m, e, index, kind="file", every=1, sub=None):
    ci = coupling.CouplingInterface(e, sub or {"mac": "macro", "mic": "micro"}[m["side"]], index, c["N"], coupling_type=kind,
                                    outputdir="out", log_exchange_data=c["log"])
    # the loop of a coupled run is entered: always over files, and for every
    # use of the instance that MUSCLE3 announces (the fake announces one)
    expect(ci.reuse_coupling(), "%s: the coupling is not used" % kind)
    if kind == "muscle3":
        expect(not ci.reuse_coupling(), "muscle3: the coupling is used once more than announced")
    names = {}
    dirs = directions(c, m["side"])
    for i in m["order"]:
        loc = e.locations[m["own"] + i]
        names["C%d" % i] = loc
        ci.addCoupledLocation(loc, "C%d" % i, dirs["C%d" % i], every)
        if m["loop"]:
            ci.addCoupledLocation(loc, "C%d" % i, dirs["C%d" % i], every)
    ig = InputGeography()
    ig.locations = rows(m)
    if c["ng"] and every == 1:
        if m["side"] == "mac":
            ci.addGhostLocations(ig)
        else:
            ci.addMicroConflictLocations(ig)
        for i in range(c["ng"]):
            names["G%d" % i] = e.locations[m["own"] + c["nc"] + i]
    dirs = {k: v for k, v in dirs.items() if k in names}
    if kind == "file":
        if m["side"] == "mac":
            ci.setCouplingChannel("in", "out")
        else:
            ci.setCouplingChannel("out", "in")
    return ci, names, dirs


def at(e):
    return Counter(hist.place_key(a.location) for a in e.agents)


def mean_ok(got, vals, what):
    m = sum(vals) / len(vals)
    expect(abs(got - m) <= 0.5 + 1e-9, lambda: what + ": %d agents, the mean of what the instances sent (%r) is %g" % (got, vals, m))


def prep(c):
    if c["mac"]["side"] == "mac" and c["every"] > 1:
        c = dict(c, ng=0, mac=dict(c["mac"]), mic=dict(c["mic"]))
        for s in ("mac", "mic"):
            m = c[s]
            keep = [d for d in m["locs"] if not d["n"].startswith("G")]
            m["links"] = [l for l in m["links"] if max(l[0], l[1]) < len(keep)]
            m["locs"] = keep
    # in the macro model the only conflict zones without links are the ghosts
    m = dict(c["mac"])
    linked = set(i for l in m["links"] for i in l[:2])
    m["locs"] = [dict(d, t="town") if d["t"] == "conflict_zone" and i not in linked and not d["n"].startswith("G") else d
                 for i, d in enumerate(m["locs"])]
    return dict(c, mac=m)


def judge(c, s):
    with workdir():
        for d in ("coupled", "log_exchange_data"):
            os.makedirs(os.path.join("out", "file", d))
        _judge(prep(c), s)


def _judge(c, s):
    N, days = c["N"], c["days"]
    fenv.fresh({"move_rules": {"default_movechance": c["mc"], "conflict_movechance": 1.0}}, c["seed"])
    insts = []
    for side in ("mac", "mic"):
        for i in range(N):
            e, locs = fenv.build(c[side])
            ci, names, dirs = couple_up(c, c[side], e, i, every=c["every"])
            insts.append((side, i, e, locs, ci, names, dirs))
    sent = {}          # (day, side, name) -> {instance: count}
    logs = {k: [] for k in range(2 * N)}
    exchanged = set()
    sch = Scheduler(2 * N, c["seed"], c["p"])

    def life(k):
        side, i, e, locs, ci, names, dirs = insts[k]
        other = "mic" if side == "mac" else "mac"

        def f():
            for t in range(days):
                for day, inst, where, num in c["ins"]:
                    if day == t and inst == k:
                        e.insertAgents(locs[where % len(locs)], num)
                before = at(e)
                total = len(e.agents)
                on = t % c["every"] == 0
                w = "day %d, %s instance %d: " % (t, side, i)
                if on:
                    for nm in names:
                        if "out" in dirs[nm]:
                            sent.setdefault((t, side, nm), {})[i] = before[hist.place_key(names[nm])]
                    logs[k].append([t, total] + [before[hist.place_key(names[nm])] for nm in dirs if "out" in dirs[nm]])
                sch.traced(ci.Couple, t)
                after = at(e)
                expect_eq(e.numAgents(), len(e.agents), w + "number of agents")
                coupled = set(hist.place_key(l) for l in names.values()) if on else set()
                for key in set(before) | set(after):
                    if key not in coupled:
                        expect_eq(after[key], before[key], w + "agents at %r, which is not coupled" % (key,))
                for loc in locs:
                    expect_eq(int(loc.numAgents), after[hist.place_key(loc)], w + "count of " + loc.name)
                if on:
                    for nm, loc in names.items():
                        got = after[hist.place_key(loc)]
                        vals = sent.get((t, other, nm), {})
                        if "in" in dirs[nm]:
                            expect(len(vals) == N, lambda: w + "went on before all instances of the other model had sent their agents")
                            mean_ok(got, [vals[j] for j in sorted(vals)], w + "coupled location " + nm)
                            if got:
                                exchanged.add((t, nm))
                        else:
                            expect_eq(got, 0, w + "agents left at %s, from where agents only go out" % nm)
                e.evolve()
            if c["log"]:
                ci.saveExchangeDataToFile()
        return f
    sch.run([life(k) for k in range(2 * N)])
    if c["log"]:
        for k, (side, i, e, locs, ci, names, dirs) in enumerate(insts):
            sub = {"mac": "macro", "mic": "micro"}[side]
            d = os.path.join("out", "file", "log_exchange_data")
            with open(os.path.join(d, "logTotalAgents_%s[%d].csv" % (sub, i)), newline="") as f:
                r = list(csv.reader(f))
            expect_eq([[int(x) for x in y] for y in r[1:]], [x[:2] for x in logs[k]], "%s[%d]: log of all agents" % (sub, i))
            with open(os.path.join(d, "logLocationsNumAgents_%s[%d].csv" % (sub, i)), newline="") as f:
                r = list(csv.reader(f))
            expect_eq(r[0][1:], [nm for nm in dirs if "out" in dirs[nm]], "%s[%d]: header of the exchange log" % (sub, i))
            expect_eq([[int(x) for x in y] for y in r[1:]], [[x[0]] + x[2:] for x in logs[k]], "%s[%d]: exchange log" % (sub, i))
            if len(r[0]) > 1:
                files = ["logLocationsNumAgents_%s[%d].csv" % (sub, j) for j in range(N)]
                ds, res = ci.readCSVLogFiles(d, files, r[0][1:])
                expect_eq([int(x) for x in ds], [x[0] for x in logs[k]], "days read back")
                base = 0 if side == "mac" else N
                for col, nm in enumerate(r[0][1:]):
                    expect_eq([[int(v) for v in x] for x in res[nm]],
                              [[row[2 + col] for row in logs[base + j]] for j in range(N)] if c["mac"]["order"] else None,
                              "exchange log of %s read back" % nm)
    s.label("ghosts", c["ng"] > 0)
    s.label("interval>1", c["every"] > 1)
    s.nontrivial(N > 1 and len(set(t for t, _ in exchanged)) > 1)


# ---------------------------------------------------------------- parallel

@st.composite
def pcase(draw):
    c = draw(case())
    c["K"] = draw(st.integers(1, 3))
    c["kind"] = draw(st.sampled_from(["file", "file", "muscle3"]))
    c["side"] = draw(st.sampled_from(["mac", "mic"]))
    c["every"] = 1
    c["incoming"] = draw(st.lists(st.lists(st.integers(0, 9), min_size=c["nc"] + c["ng"], max_size=c["nc"] + c["ng"]),
                                  min_size=c["days"] * c["N"], max_size=c["days"] * c["N"]))
    c["latency"] = draw(st.sampled_from(["high_latency", "low_latency"]))
    return c


class FakeInstance:
    """A MUSCLE3 instance: messages in are prepared, messages out recorded."""

    def __init__(self, ports=None):
        self.ports = ports
        self.inbox = {}
        self.outbox = []
        self.used = 0

    def reuse_instance(self):
        self.used += 1
        return self.used == 1

    def receive(self, port, slot=None):
        q = self.inbox.get((port, slot))
        if not q:
            raise Violation("receives on %r slot %r, where no message will come" % (port, slot))
        return q.pop(0)

    def send(self, port, msg, slot=None):
        self.outbox.append((port, slot, msg))


class fake_muscle:
    def __enter__(self):
        self.old = coupling.Instance
        coupling.Instance = FakeInstance

    def __exit__(self, *a):
        coupling.Instance = self.old


def parse(text):
    out = {}
    for l in text.split("\n"):
        if l:
            k, v = l.split(",")
            expect(k not in out, "location %s is sent twice" % k)
            out[k] = int(v)
    return out


def pjudge(c, s):
    with workdir(), fake_muscle(), no_wait():
        for d in ("file", "muscle3"):
            for x in ("coupled", "log_exchange_data"):
                os.makedirs(os.path.join("out", d, x))
        _pjudge(prep(c), s)


def _pjudge(c, s):
    K, N, days, side = c["K"], c["N"], c["days"], c["side"]
    m = c[side]
    y = {"move_rules": {"default_movechance": c["mc"], "conflict_movechance": 1.0}}
    fenv.fresh(y, c["seed"])
    w = simmpi.World(K, y, c["seed"])
    ecos = w.build({"locs": m["locs"], "links": m["links"]}, "loc-par", c["latency"])
    cis = w.each(lambda e, mm, r: couple_up(c, m, e, 0, c["kind"]))
    dirs = cis[0][2]
    names = list(dirs)
    incoming_names = [k for k in names if "in" in dirs[k]]
    N = N if c["kind"] == "file" else 1
    moved = 0
    for t in range(days):
        for day, inst, where, num in c["ins"]:
            if day == t:
                w.each(lambda e, mm, r: e.insertAgents(e.locations[where % len(e.locations)], num))
        w.each(lambda e, mm, r: e.updateNumAgents(log=False))
        before = sum((at(e) for e in ecos), Counter())
        msgs = []
        for j in range(N):
            vals = c["incoming"][t * c["N"] + j]
            msgs.append({nm: vals[x] for x, nm in enumerate(incoming_names)})
        text = ["\n".join("%s,%d" % kv for kv in ms.items()) for ms in msgs]
        own, other = ("in", "out") if side == "mac" else ("out", "in")
        if c["kind"] == "file":
            for j in range(N):
                # the other model's files may carry comments and locations of no interest
                with open(os.path.join("out", "file", "coupled", "%s[%d].%d.csv" % (other, j, t)), "w") as f:
                    f.write("#name,number\n" * (c["seed"] % 2) + text[j] + "\nelsewhere,7\n" * (c["seed"] % 3 == 0))
        else:
            from libmuscle import Message
            cis[0][0].instance.inbox[("in", None)] = [Message(float(t), None, text[0])]
        w.each(lambda e, mm, r: cis[r][0].Couple(t))
        after = sum((at(e) for e in ecos), Counter())
        if c["kind"] == "file":
            files = [f for f in os.listdir(os.path.join("out", "file", "coupled")) if f.startswith(own + "[0].%d." % t)]
            expect_eq(files, [own + "[0].%d.csv" % t], "day %d: files written" % t)
            with open(os.path.join("out", "file", "coupled", files[0])) as f:
                got = parse(f.read())
        else:
            ob = [o for ci in cis for o in ci[0].instance.outbox]
            expect_eq(len(ob), t + 1, "day %d: messages sent" % t)
            expect_eq(ob[-1][0], "out", "port")
            got = parse(ob[-1][2].data["newAgents"])
        want = {nm: before[hist.place_key(cis[0][1][nm])] for nm in names if "out" in dirs[nm]}
        expect_eq(got, want, "day %d, %d processes: agents sent" % (t, K))
        for nm in names:
            n = after[hist.place_key(cis[0][1][nm])]
            if "in" in dirs[nm]:
                mean_ok(n, [ms[nm] for ms in msgs], "day %d, %d processes: %s" % (t, K, nm))
                moved += n > 0
            else:
                expect_eq(n, 0, "day %d, %d processes: agents left at %s" % (t, K, nm))
        coupled = set(hist.place_key(cis[0][1][nm]) for nm in names)
        for key in set(before) | set(after):
            if key not in coupled:
                expect_eq(after[key], before[key], "day %d: agents at %r, which is not coupled" % (t, key))
        for r, e in enumerate(ecos):
            expect_eq(int(e.numAgents()), sum(len(x.agents) for x in ecos), "day %d: number of agents on process %d" % (t, r))
            for loc in e.locations:
                expect_eq(int(loc.numAgents), after[hist.place_key(loc)], "day %d: count of %s on process %d" % (t, loc.name, r))
        w.each(lambda e, mm, r: e.evolve())
    s.label(c["kind"])
    s.nontrivial(K > 1 and moved > 1)


# ---------------------------------------------------------------- managers

@st.composite
def mcase(draw):
    c = draw(case())
    c["side"] = draw(st.sampled_from(["mac", "mic"]))
    c["every"] = 1
    nn = c["nc"] + c["ng"]
    c["counts"] = draw(st.lists(st.lists(st.lists(st.integers(0, 40), min_size=nn, max_size=nn), min_size=c["N"],
                                         max_size=c["N"]), min_size=c["days"], max_size=c["days"]))
    return c


def mjudge(c, s):
    with workdir(), fake_muscle():
        from libmuscle import Message
        c = prep(c)
        fenv.fresh({}, c["seed"])
        m = c[c["side"]]
        e, locs = fenv.build(m)
        ci, names, dirs = couple_up(c, m, e, 0, "muscle3", sub={"mac": "macro_manager", "mic": "micro_manager"}[c["side"]])
        names = [nm for nm in names if "out" in dirs[nm]]
        e.insertAgents(locs[0], 3)
        for t in range(c["days"]):
            data = []
            for j in range(c["N"]):
                d = {nm: c["counts"][t][j][x] for x, nm in enumerate(names)}
                data.append(d)
                ci.instance.inbox.setdefault(("in", j), []).append(
                    Message(float(t), None, {"newAgents": "".join("%s,%d\n" % kv for kv in d.items())}))
            ci.instance.outbox.clear()
            ci.Couple(t)
            expect_eq(sorted((o[0], o[1]) for o in ci.instance.outbox), [("out", j) for j in range(c["N"])],
                      "day %d: messages sent by the manager" % t)
            expect(not any(ci.instance.inbox.values()), "day %d: messages not received" % t)
            for o in ci.instance.outbox:
                got = parse(o[2].data)
                expect_eq(sorted(got), sorted(names), "day %d: locations in the message" % t)
                for nm in names:
                    mean_ok(got[nm], [d[nm] for d in data], "day %d: %s" % (t, nm))
            expect_eq(len(e.agents), 3, "agents of the manager")
        s.nontrivial(c["N"] > 1 and len(names) > 0)


# ---------------------------------------------------------------- summary

@st.composite
def scase(draw):
    N = draw(st.integers(1, 4))
    days = draw(st.integers(1, 5))
    camps = draw(st.integers(0, 3))
    cols = []
    for i in range(camps):
        cols += ["K%d sim" % i, "K%d data" % i, "K%d error" % i]
    cols += ["Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count",
             "refugees in camps (simulation)", "refugee_debt"]
    val = st.integers(0, 10 ** 6)
    ev = st.integers(0, 20000).map(lambda v: v / 10000.0)
    data = [[[draw(ev if "error" in h else val) for h in cols] for _ in range(days)] for _ in range(N)]
    return {"N": N, "cols": cols, "data": data, "side": draw(st.sampled_from(["macro", "micro"])),
            "day0": draw(st.sampled_from([0, 0, 7]))}


def sjudge(c, s):
    with workdir(), no_wait():
        d = os.path.join("out", "file", c["side"])
        os.makedirs(d)
        for i in range(c["N"]):
            with open(os.path.join(d, "out[%d].csv" % i), "w") as f:
                f.write("Day," + ",".join(c["cols"]) + "\n")
                for t, row in enumerate(c["data"][i]):
                    f.write(",".join(str(x) for x in [t + c["day0"]] + row) + "\n")
        ci = coupling.CouplingInterface(None, c["side"], 0, c["N"], outputdir="out")
        ci.sumOutputCSVFiles()
        with open(os.path.join(d, "out.csv"), newline="") as f:
            r = list(csv.reader(f))
        expect_eq(r[0], ["Day"] + c["cols"], "header of out.csv")
        expect_eq([int(float(x[0])) for x in r[1:]], [t + c["day0"] for t in range(len(c["data"][0]))], "days of out.csv")
        for t, row in enumerate(r[1:]):
            for k, h in enumerate(c["cols"]):
                vals = [c["data"][i][t][k] for i in range(c["N"])]
                w = "day %d, column %s, instances %r" % (t, h, vals)
                if "error" in h:
                    expect_close(float(row[k + 1]), sum(vals) / len(vals), w, rel=1e-6, abs_=1e-9)
                else:
                    mean_ok(float(row[k + 1]), vals, w)
                    expect(math.isclose(float(row[k + 1]), round(float(row[k + 1]))), w + ": %s is not a count" % row[k + 1])
        s.nontrivial(c["N"] > 1 and len(c["data"][0]) > 1)


# ---------------------------------------------------------------- exchange logs and their figures

@st.composite
def lcase(draw):
    N = draw(st.integers(1, 3))
    k = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 9]))
    dirs = draw(st.lists(st.sampled_from(["out", "inout", "inout", "in"]), min_size=k, max_size=k))
    days = draw(st.integers(1, 5))
    adds = draw(st.lists(st.lists(st.lists(st.integers(0, 6), min_size=k + 1, max_size=k + 1), min_size=days, max_size=days),
                         min_size=N, max_size=N))
    refs = draw(st.lists(st.lists(st.integers(-40, 400), min_size=days, max_size=days), min_size=N, max_size=N))
    return {"N": N, "dirs": dirs, "step": draw(st.sampled_from([1, 1, 2])), "adds": adds, "refs": refs, "plots": draw(st.booleans()),
            "kind": draw(st.sampled_from(["file", "file", "muscle3"])), "side": draw(st.sampled_from(["macro", "micro"]))}


class saved_figures:
    """The axes of every figure that is saved: (path, [(y limits, [(label, xs, ys, colour)])])."""

    def __enter__(self):
        self.real = coupling.matplotlib.figure.Figure.savefig
        saved = {}

        def savefig(fig, fname, *_a, **_k):
            saved[os.path.relpath(str(fname))] = [
                (tuple(ax.get_ylim()), [(l.get_label(), [float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()],
                                         coupling.matplotlib.colors.to_hex(l.get_color())) for l in ax.lines])
                for ax in fig.axes if ax.get_visible()]
        coupling.matplotlib.figure.Figure.savefig = savefig
        return saved

    def __exit__(self, *a):
        coupling.matplotlib.figure.Figure.savefig = self.real
        coupling.plt.close("all")


def ljudge(c, s):
    with workdir(), fake_muscle(), no_wait():
        base = os.path.join("out", c["kind"])
        for x in ("coupled", "log_exchange_data", "plot_exchange_data"):
            os.makedirs(os.path.join(base, x))
        fenv.fresh({}, 1)
        k, N, side = len(c["dirs"]), c["N"], c["side"]
        outs = [j for j in range(k) if "out" in c["dirs"][j]]
        days = [t * c["step"] for t in range(len(c["refs"][0]))]
        cis, want = [], []
        for i in range(N):
            e, locs = fenv.build({"locs": [{"n": "L%d" % j, "t": "town", "pop": 10} for j in range(k + 1)], "links": []})
            ci = coupling.CouplingInterface(e, side, i, N, coupling_type=c["kind"], outputdir="out")
            for j in range(k):
                ci.addCoupledLocation(locs[j], "C%d" % j, c["dirs"][j])
            now = [0] * (k + 1)
            w = {"total": [], "refs": c["refs"][i], "at": [[] for _ in range(k)]}
            for t, day in enumerate(days):
                for j, n in enumerate(c["adds"][i][t]):
                    e.insertAgents(locs[j], n)
                    now[j] += n
                ci.logNewAgents(day, c["refs"][i][t])
                ci.logExchangeData(day)
                w["total"].append(sum(now))
                for j in range(k):
                    w["at"][j].append(now[j])
            ci.saveExchangeDataToFile()
            cis.append(ci)
            want.append(w)
        d = os.path.join(base, "log_exchange_data")

        def table(name, i):
            with open(os.path.join(d, "%s_%s[%d].csv" % (name, side, i)), newline="") as f:
                r = list(csv.reader(f))
            return r[0], [[int(x) for x in y] for y in r[1:]]
        for i, w in enumerate(want):
            h, r = table("logNewRefugees", i)
            expect_eq((h, r), (["day", "new_refs"], [list(x) for x in zip(days, w["refs"])]), "log of new arrivals of instance %d" % i)
            h, r = table("logTotalAgents", i)
            expect_eq((h, r), (["day", "total_agents"], [list(x) for x in zip(days, w["total"])]), "log of all agents of instance %d" % i)
            h, r = table("logLocationsNumAgents", i)
            expect_eq(h, ["day"] + ["C%d" % j for j in outs], "header of the exchange log of instance %d" % i)
            expect_eq(r, [[day] + [w["at"][j][t] for j in outs] for t, day in enumerate(days)], "exchange log of instance %d" % i)
        if c["plots"]:
            with saved_figures() as saved:
                cis[0].plotExchangedData()
            p = os.path.join(base, "plot_exchange_data", "")
            expect_eq(sorted(saved), sorted(p + "%s[%s].pdf" % (x, side) for x in
                                            ("plotTotalAgents", "plotLocationsNumAgents", "plotNewRefugees")), "figures saved")
            fl = [float(x) for x in days]

            def lines(ax, xs, series, w):
                got = [(l[1], l[2]) for l in ax[1]]
                expect_eq(got, [(xs, [float(v) for v in y]) for y in series], w)
            for name, key, cut in (("plotTotalAgents", "total", 0), ("plotNewRefugees", "refs", 1)):
                axes = saved[p + "%s[%s].pdf" % (name, side)]
                expect_eq(len(axes), 1, name + ": number of diagrams")
                # the figure of new arrivals leaves out the first day
                lines(axes[0], fl[cut:], [w[key][cut:] for w in want], name + ": lines")
                expect_eq([l[0] for l in axes[0][1]], ["%s[%d]" % (side, i) for i in range(N)], name + ": legend")
            axes = saved[p + "plotLocationsNumAgents[%s].pdf" % side]
            expect_eq(len(axes), len(outs), "diagrams of coupled locations")
            for ax, j in zip(axes, outs):
                lines(ax, fl, [w["at"][j] for w in want], "diagram of C%d" % j)
                expect_eq(ax[1][0][0], "C%d" % j, "legend of the diagram of C%d" % j)
                expect(ax[0][0] <= 0 and ax[0][1] >= max(max(w["at"][j]) for w in want),
                       lambda: "the diagram of C%d cuts off values: %r" % (j, ax[0]))
        s.nontrivial(N > 1 and len(days) > 1 and len(outs) > 0)
        s.label("figures", c["plots"])


SUBS = [Sub("exchange", lambda: case(), judge, quick=600, shards=3),
        Sub("parallel", lambda: pcase(), pjudge, quick=350, shards=2),
        Sub("managers", lambda: mcase(), mjudge, quick=300, shards=1),
        Sub("summary", lambda: scase(), sjudge, quick=300, shards=2),
        Sub("logs", lambda: lcase(), ljudge, quick=250, shards=1)]
