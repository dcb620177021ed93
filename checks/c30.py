"""C30: the run scripts simulate the scenario described by the input files and print its table."""
import contextlib
import io
import os
import runpy
import sys

import yaml
from hypothesis import strategies as st

import fenv
import geo
import rdata
import simmpi
from vlib import Sub, Violation, expect, expect_eq, quiet, workdir

RULE = ("A case is a full input directory (locations, routes, closures, conflicts or floods, simulation period, settings, "
        "validation data), run by run.py and by run_par.py on 1-3 processes of a simulated MPI.  The network is such that "
        "the day on which everybody arrives in some camp follows from the distances, so the table is predicted day by day: "
        "dates, data, errors, totals, raw count, debt and the number of people in camps.  Non-trivial: agents arrived "
        "in camps on at least one day after they were created.")

with quiet():
    simmpi.copies(3)
    import flee.postprocessing.analysis  # noqa: F401

SCRIPTS = os.path.join(os.path.dirname(os.path.dirname(fenv.flee.__file__)), "runscripts")


@st.composite
def case(draw):
    days = draw(st.integers(1, 9)) if draw(st.integers(0, 19)) else draw(st.sampled_from([12, 30, 50]))
    ncamps = draw(st.integers(1, 3)) if draw(st.integers(0, 19)) else draw(st.integers(4, 9))
    nz = draw(st.integers(1, 2))
    mode = draw(st.sampled_from(["data", "data", "data", "conflict", "flood"]))
    camps = ["Camp-%s" % "XYZABCDEF"[i] for i in range(ncamps)]
    types = [draw(st.sampled_from(["camp", "camp", "idpcamp"])) for _ in camps]
    types[0] = "camp"
    sp, logs = {}, {}
    tables = [[nm, draw(rdata.series(days))] for nm in ["total"] + camps]
    if draw(st.booleans()):
        for tb in tables:
            tb[1] = [[d, draw(st.sampled_from([0, 5, 20, 40]))] for d in range(0, days + 1)]
    if draw(st.booleans()):
        sp["sum_from_camps"] = False
    if draw(st.integers(0, 3)) == 0:
        sp["insert_day0"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        sp["empty_camps_on_day0"] = True
    if draw(st.booleans()):
        sp["take_from_population"] = True
    rate = draw(st.sampled_from([0, 1, 4, 11]))
    if mode == "conflict":
        sp["conflict_driven_spawning"] = {"spawn_mode": "constant", "displaced_per_conflict_day": rate}
    m = {"camp_movechance": 0.0, "idpcamp_movechance": 0.0, "conflict_movechance": 1.0, "default_movechance": 1.0,
         "max_move_speed": draw(st.sampled_from([50.0, 120.0, 360.0]))}
    if mode == "flood":
        sp.update(flood_zone_spawning_only=True, conflict_zone_spawning_only=False, take_from_population=True,
                  flood_driven_spawning={"spawn_mode": "constant", "displaced_per_flood_day": [0, rate, 2 * rate]})
        m["flood_rules"] = {"max_flood_level": 2, "flood_movechances": [1.0, 1.0, 1.0], "flood_loc_weights": [1.0, 0.5, 0.1]}
    if draw(st.booleans()):
        logs["idp_totals"] = 1
    if draw(st.integers(0, 3)) == 0:
        m["awareness_level"] = draw(st.integers(0, 2))
    scale = draw(st.sampled_from([1, 1, 1, 2, 5])) if mode == "data" else 1
    if mode == "data" and sp.get("sum_from_camps", True) and not sp.get("empty_camps_on_day0"):
        tables[0][1] = [[0, 0]] + [[d, v] for d, v in tables[0][1] if d > 0]    # known finding C17-day0-total
    y = {"move_rules": m, "spawn_rules": sp, "log_levels": logs}
    if scale > 1:
        y["optimisations"] = {"hasten": scale}
    one = 1 if mode == "flood" else 1.0
    dist = draw(st.sampled_from([10.0, 49.9, 50.0, 100.0, 240.0, 361.0, 800.0]))
    dists = [dist] * nz
    if nz == 2 and draw(st.booleans()):
        # violence or flooding moves to the second zone, at another distance
        dists[1] = draw(st.sampled_from([10.0, 50.0, 100.0, 361.0, 500.0]))
        sw = draw(st.integers(1, 5))
        inten = [[one if (t < sw) == (z == 0) else 0 * one for z in range(nz)] for t in range(days)]
    elif mode == "flood":
        inten = [[draw(st.sampled_from([0, 1, 2])) for _ in range(nz)] for _ in range(days)]
    else:
        inten = [[draw(st.sampled_from([0.0, 1.0, 1.0])) for _ in range(nz)] for _ in range(days)]
        for r in inten:
            r[0] = 1.0
    clo = draw(st.sampled_from([None, None, "open_after", "between_camps", "border", "border", "camp"]))
    if clo == "camp" and ncamps < 2:
        clo = "border"
    corr = None
    if mode == "data" and draw(st.integers(0, 2)) == 0:
        # the first entries of one camp are overestimates, corrected at the date of a later entry
        j = draw(st.integers(1, ncamps))
        ser = tables[j][1]
        ok = [i for i in range(1, len(ser)) if ser[i][0] >= 0 and ser[i - 1][1] >= scale]
        if ok:
            corr = [j, draw(st.sampled_from(ok))]
    agents = []
    if draw(st.integers(0, 3)) == 0:
        sp["read_from_agents_csv_file"] = True
        agents = draw(st.lists(st.tuples(st.integers(0, nz - 1 + (0 if sp.get("take_from_population") else ncamps)), st.integers(1, 9)).map(list), max_size=4))
    return {"corr": corr, "agents": agents, "days": days, "camps": camps, "types": types, "nz": nz, "mode": mode, "tables": tables, "y": y, "scale": scale,
            "rate": rate, "inten": inten, "dists": dists,
            "start": draw(st.sampled_from(rdata.STARTS)), "arg": draw(st.sampled_from([0, 0, 1])),
            "length": draw(st.integers(1, 12)), "yarg": draw(st.booleans()), "lower": draw(st.booleans()),
            "closure": clo, "until": draw(st.integers(1, days)),
            "K": draw(st.sampled_from([0, 0, 1, 2, 3])), "seed": draw(st.integers(0, 10 ** 6)),
            "latency": 0, "link_cols": draw(st.booleans())}


def files(c):
    os.makedirs("in")
    zt = "flood_zone" if c["mode"] == "flood" else "town"
    locs = [{"n": "Zone%d" % i, "t": zt, "pc": 900000 * c["scale"]} for i in range(c["nz"])]
    locs += [{"n": n, "t": t, "pc": 1000000 * c["scale"], "date": None, "c": "N"} for n, t in zip(c["camps"], c["types"])]
    links = [[i, c["nz"] + j, c["dists"][i]] for i in range(c["nz"]) for j in range(len(c["camps"]))]
    geo.write_locations("in/locations.csv", locs)
    rows = [["#name1", "name2", "distance", "forced_redirection"]]
    for l in links:
        rows.append([locs[l[0]]["n"], locs[l[1]]["n"], str(l[2])] + (["0"] if c["link_cols"] else []))
    geo.w("in/routes.csv", rows)
    clos = []
    if c["closure"] == "open_after":
        clos.append(["location", c["camps"][0], "-", "400", "500"])
    elif c["closure"] == "between_camps":
        clos.append(["country", "H", "Elsewhere", "0", "500"])
    elif c["closure"] == "border":
        clos.append(["country", "H", "N", "0", str(c["until"])])
    elif c["closure"] == "camp":
        clos.append(["location", c["camps"][0], "-", "0", "500"])
    geo.write_closures("in/closures.csv", clos)
    names = ["Zone%d" % i for i in range(c["nz"])]
    if c["corr"]:
        j, i = c["corr"]
        geo.w("in/registration_corrections.csv", [[c["tables"][j][0], rdata.iso(c["start"], c["tables"][j][1][i][0])]])
    if c["y"]["spawn_rules"].get("read_from_agents_csv_file"):
        rows = [["#comment"], ["location", "age", "tag"]]
        for n, (l, k) in enumerate(c["agents"]):
            rows += [[locs[l]["n"], str(20 + n), "x"]] * k
        geo.w("in/agents.csv", rows)
    if c["mode"] == "flood":
        geo.write_conflicts("in/flood_level.csv", names, c["inten"])
    else:
        geo.write_conflicts("in/conflicts.csv", names, c["inten"])
    p = [["StartDate", c["start"]], ["Length", str(c["days"] if c["arg"] == 0 else c["length"])]]
    if c["lower"]:
        p = [[a.lower(), b] for a, b in p[::-1]]
    geo.w("in/sim_period.csv", p)
    rdata.write("val", c["start"], c["tables"])
    yml = "mine.yml" if c["yarg"] else "simsetting.yml"
    with open(yml, "w") as f:
        yaml.safe_dump(c["y"], f)
    if c["yarg"]:
        with open("simsetting.yml", "w") as f:
            yaml.safe_dump({"move_rules": {"conflict_movechance": 0.0, "default_movechance": 0.0}}, f)
    return ["in", "val", str(0 if c["arg"] == 0 else c["days"])] + ([yml] if c["yarg"] else [])


def run(c, script, args):
    path = os.path.join(SCRIPTS, script)
    buf = io.StringIO()
    argv = sys.argv
    sys.argv = [path] + args
    try:
        with contextlib.redirect_stdout(buf):
            runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        raise Violation("%s exits with %r on valid input" % (script, e.code))
    finally:
        sys.argv = argv
    return buf.getvalue()


class Model:
    def __init__(self, c):
        self.c = c
        sp = c["y"]["spawn_rules"]
        self.r = rdata.Ref(c["tables"], c["scale"], sp.get("empty_camps_on_day0", False))
        if c["corr"]:
            j, i = c["corr"]
            ser = self.r.t[c["tables"][j][0]]
            f = ser[i][1] / ser[i - 1][1]
            ser[:i] = [(d, v * f) for d, v in ser[:i]]
        self.summed = sp.get("sum_from_camps", True)
        self.insert0 = sp.get("insert_day0", True)
        self.empty = sp.get("empty_camps_on_day0", False)
        speed = c["y"]["move_rules"]["max_move_speed"]
        self.k = []
        for d in c["dists"]:
            k = 1
            while not k * speed > d:
                k += 1
            self.k.append(k)

    def days(self):
        c = self.c
        day0 = 0
        if self.insert0 and not self.empty:
            day0 = sum(self.r.field(n, 0) for n in c["camps"])
        debt = raw = 0
        arrive = [0] * (c["days"] + 100)
        total = day0
        for l, k in c["agents"]:
            total += k
            if l < c["nz"]:
                arrive[(c["until"] if c["closure"] == "border" else 0) + self.k[l] - 1] += k
            else:
                day0 += k
        skip_raw = False
        for t in range(c["days"]):
            if c["mode"] == "data":
                diff = self.r.diff(t, self.summed)
                if t == 0 and self.insert0:
                    w = 0
                else:
                    w = max(0, diff - debt)
                    debt = max(0, debt - diff)
                raw += diff
                if t == 0 and self.summed and not self.empty and self.r.field("total", 0) != 0:
                    skip_raw = True
                # zones in conflict today are alternatives at the same distance, or there is one
                z = max(range(c["nz"]), key=lambda i: c["inten"][t][i])
                per = [w if i == z else 0 for i in range(c["nz"])]
            elif c["mode"] == "conflict":
                per = [int(c["rate"] * v) for v in c["inten"][t]]
            else:
                per = [[0, c["rate"], 2 * c["rate"]][v] for v in c["inten"][t]]
            first = max(t, c["until"]) if c["closure"] == "border" else t
            for i, w in enumerate(per):
                arrive[first + self.k[i] - 1] += w
            total += sum(per)
            yield t, sum(per), total, day0 + sum(arrive[:t + 1]), raw, debt, skip_raw


def judge(c, s):
    with workdir():
        args = files(c)
        if c["K"] == 0:
            fenv.fresh({}, c["seed"])
            text = run(c, "run.py", args)
        else:
            w = simmpi.World(c["K"], {}, c["seed"])
            texts = io.StringIO()

            def one(r, m):
                runpy.run_path(os.path.join(SCRIPTS, "run_par.py"), run_name="__main__")
            argv = sys.argv
            sys.argv = ["run_par.py"] + args
            try:
                with contextlib.redirect_stdout(texts):
                    w.run(one)
            except SystemExit as e:
                raise Violation("run_par.py exits with %r on valid input" % (e.code,))
            finally:
                sys.argv = argv
            text = texts.getvalue()
    rows = [l.split(",") for l in text.split("\n") if l]
    expect(rows and rows[0][0] == "Day", lambda: "the output does not start with the header of the table: %r" % text[:200])
    head = rows[0]
    shown = [h[:-4] for h in head if h.endswith(" sim")]
    expect_eq(sorted(shown), sorted(c["camps"]), "camps in the header")
    want = ["Day", "Date"]
    for n in shown:
        want += [n + " sim", n + " data", n + " error"]
    want += ["Total error", "refugees in camps (UNHCR)", "total refugees (simulation)", "raw UNHCR refugee count",
             "refugees in camps (simulation)", "refugee_debt"]
    idp = bool(c["y"]["log_levels"].get("idp_totals"))
    if idp:
        want.append("total IDPs")
    expect_eq(head, want, "header")
    rows = rows[1:]
    expect_eq([r[0] for r in rows], [str(t) for t in range(c["days"])], "first column of the table")
    mod = Model(c)
    arrived = 0
    base = None
    for (t, new, total, incamp, raw, debt, skip), r in zip(mod.days(), rows):
        p = "%s, day %d, " % (("%d processes" % c["K"]) if c["K"] else "run.py", t)
        expect_eq(len(r), len(head), p + "number of fields")
        v = dict(zip(head, r))
        expect_eq(v["Day"], str(t), p + "Day")
        expect_eq(v["Date"], rdata.iso(c["start"], t), p + "Date")
        errs = 0.0
        for n in shown:
            d = mod.r.field(n, t)
            expect_eq(float(v[n + " data"]), float(d), p + n + " data")
            x = int(v[n + " sim"])
            e = round(abs(x / d - 1), 4) if d >= 1e-5 else 0.0
            expect(abs(float(v[n + " error"]) - e) < 1.1e-4, lambda: p + "%s error is %s, sim %d, data %r" % (n, v[n + " error"], x, d))
            errs += abs(x - d)
        sim = sum(int(v[n + " sim"]) for n in shown)
        expect_eq(int(v["refugees in camps (simulation)"]), sim, p + "refugees in camps (simulation)")
        expect_eq(int(v["total refugees (simulation)"]), total, p + "total refugees (simulation)")
        expect_eq(sim, incamp, p + "people who have reached a camp (%d new today)" % new)
        if idp:
            here = sum(int(v[n + " sim"]) for n, ty in zip(c["camps"], c["types"]) if ty == "idpcamp")
            expect_eq(int(v["total IDPs"]), here, p + "total IDPs")
        if c["closure"] == "camp":
            n = c["camps"][0]
            expect_eq(int(v[n + " sim"]), (mod.r.field(n, 0) if mod.insert0 and not mod.empty else 0)
                      + sum(k for l, k in c["agents"] if l == c["nz"]),
                      p + "people in a camp that is closed throughout")
        arrived += incamp > (base if base is not None else incamp)
        base = incamp if base is None else base
        if c["mode"] == "data":
            if skip:
                raw += int(v["raw UNHCR refugee count"]) - raw if float(v["raw UNHCR refugee count"]) else 0
            if raw > 0 or int(v["raw UNHCR refugee count"]) > 0:
                expect_eq(int(v["raw UNHCR refugee count"]), raw, p + "raw UNHCR refugee count")
                expect(abs(float(v["Total error"]) - errs / raw) < 1e-9 + 1e-4 * len(shown) / raw,
                       lambda: p + "total error is %s, expected %r" % (v["Total error"], errs / raw))
                expect_eq(int(v["refugees in camps (UNHCR)"]), int(sum(mod.r.field(n, t) for n in shown)), p + "refugees in camps (UNHCR)")
                expect_eq(int(v["refugee_debt"]), debt, p + "refugee_debt")
    s.label("corrected", bool(c["corr"]))
    s.label("agents_csv", bool(c["agents"]))
    s.label("parallel", c["K"] > 0)
    s.label(c["mode"])
    s.nontrivial(arrived > 0)


SUBS = [Sub("tables", lambda: case(), judge, quick=3000, shards=8)]
