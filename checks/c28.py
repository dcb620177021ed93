"""C28: a run depends on its input files, settings and random seed, and on nothing else."""
import contextlib
import io
import os
import pickle
import random
import runpy
import subprocess
import sys
import traceback

import numpy as np
import yaml
from hypothesis import strategies as st

HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__":
    sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
import fenv
import geo
import rdata
import simmpi
from vlib import HarnessError, Sub, Violation, drop_scratch, expect, quiet, workdir

RULE = ("A case is one or two scenarios, each a full input directory with its own network, settings, demographics, conflicts "
        "or floods, closures and validation data.  In 'again' the second is run on its own in a fresh process and after "
        "the first (and once more after itself) in another one; in 'hash' it is run in separate interpreters with different "
        "hash seeds; the printed table and all log files must be the same, byte for byte.  Non-trivial: agents moved in the "
        "second scenario and its random choices had alternatives.")

SCRIPTS = os.path.join(os.path.dirname(os.path.dirname(fenv.flee.__file__)), "runscripts")

with quiet():
    simmpi.copies(2)
    import flee.postprocessing.analysis  # noqa: F401


@st.composite
def scen(draw):
    days = draw(st.integers(2, 6))
    mode = draw(st.sampled_from(["data", "data", "conflict", "flood"]))
    net = draw(fenv.net_strategy(min_locs=2, max_locs=7, connected=True, coords=True, conflict_attr=False,
                                 types=("town", "town", "camp", "camp", "idpcamp", "marker", "forwarding_hub"),
                                 caps=st.sampled_from([-1, 5, 40, 1000]),
                                 dists=st.sampled_from([10.0, 60.0, 100.0, 250.0, 400.0])))
    n = len(net["locs"])
    for i, d in enumerate(net["locs"]):
        d["n"] = ["Abala", "Bor", "Camp-1", "D", "E x", "Fo", "Gao"][i]
        d["pc"] = d.get("cap", 1000) if "camp" in d["t"] else draw(st.sampled_from([2000, 50000]))
        d["pc"] = max(d["pc"], 0)
        d["date"] = None
        d["a"] = {"deactivation_probability": "0.5" if "camp" in d["t"] and draw(st.integers(0, 3)) == 0 else "0"}
    net["locs"][0].update(t="flood_zone" if mode == "flood" else "town", pc=90000)
    net["locs"][0]["a"] = {"deactivation_probability": "0"}
    tables = [[nm, draw(rdata.series(days, vals=st.integers(0, 12)))]
              for nm in ["total"] + [d["n"] for d in net["locs"] if "camp" in d["t"]]]
    k = draw(st.sampled_from([1, 3, 9]))
    sp = {"take_from_population": draw(st.booleans()), "camps_are_sinks": draw(st.booleans())}
    m = {"awareness_level": draw(st.integers(0, 3)), "default_movechance": draw(st.sampled_from([0.3, 0.8])),
         "camp_movechance": draw(st.sampled_from([0.01, 0.3])), "max_move_speed": draw(st.sampled_from([60.0, 300.0]))}

    def opt(d, key, vals, p=3):
        if draw(st.integers(0, p)) == 0:
            d[key] = draw(st.sampled_from(vals))
    opt(m, "fixed_routes", [True])
    opt(m, "camp_weight", [3.0])
    opt(m, "conflict_weight", [0.1])
    opt(m, "pruning_threshold", [2.0])
    opt(m, "start_on_foot", [True])
    opt(m, "avoid_short_stints", [True])
    opt(m, "use_pop_for_loc_weight", [True])
    opt(m, "stay_close_to_home", [True])
    opt(sp, "insert_day0", [False])
    opt(sp, "sum_from_camps", [False])
    opt(sp, "empty_camps_on_day0", [True])
    opt(sp, "conflict_spawn_decay", [[1.0, 0.5], [0.5]])
    names = [0] + sorted(draw(st.sets(st.integers(1, n - 1), max_size=2)))
    names = [i for i in names if "camp" not in net["locs"][i]["t"] and net["locs"][i]["t"] != "marker"]
    if mode == "flood":
        sp.update(flood_zone_spawning_only=True, conflict_zone_spawning_only=False, take_from_population=True,
                  flood_driven_spawning={"spawn_mode": draw(st.sampled_from(["constant", "poisson"])),
                                         "displaced_per_flood_day": [0, k, 2 * k]})
        m["flood_rules"] = {"max_flood_level": 2, "flood_movechances": [1.0, 0.5, 1.0], "flood_loc_weights": [1.0, 0.5, 0.1]}
        lev = st.integers(0, 2)
    else:
        lev = st.sampled_from([0.0, 0.5, 1.0])
    if mode == "conflict":
        sp["conflict_driven_spawning"] = {"spawn_mode": draw(st.sampled_from(["constant", "poisson"])),
                                          "displaced_per_conflict_day": k}
    inten = [[1 if i == 0 else draw(lev) for i in names] for _ in range(days)]
    demo = {}
    if any("camp" in d["t"] for d in net["locs"]):
        for a, vs in (("age", [5, 30, 60]), ("sex", ["m", "f"])):
            if draw(st.integers(0, 2)) == 0:
                demo[a] = [["x", "Default"] + [net["locs"][0]["n"]]] + [[v, draw(st.integers(1, 3)), draw(st.integers(1, 3))]
                                                                        for v in vs]
    logs = {"agent": draw(st.sampled_from([1, 1, 2, 3])), "link": draw(st.integers(0, 2)), "camp": 1}
    clos = draw(st.lists(st.tuples(st.sampled_from(["location", "link"]), st.integers(1, n - 1), st.integers(0, n - 1),
                                   st.integers(0, 2), st.integers(3, 6)).map(list), max_size=1))
    links = set((a, b) for a, b in ((l[0], l[1]) for l in net["links"]))
    clos = [x for x in clos if x[0] == "location" or (x[1], x[2]) in links or (x[2], x[1]) in links]
    if m.get("fixed_routes"):
        clos = []
    return {"net": net, "mode": mode, "days": days, "tables": tables, "y": {"move_rules": m, "spawn_rules": sp, "log_levels": logs},
            "names": names, "inten": inten, "demo": demo, "clos": clos, "start": draw(st.sampled_from(rdata.STARTS)),
            "K": draw(st.sampled_from([0, 0, 0, 1, 2])), "seed": draw(st.integers(0, 10 ** 6))}


def write(c):
    os.makedirs("in")
    locs = c["net"]["locs"]
    geo.write_locations("in/locations.csv", locs, ["deactivation_probability"])
    geo.write_routes("in/routes.csv", locs, c["net"]["links"])
    geo.write_closures("in/closures.csv", [[k, locs[i]["n"], locs[j]["n"] if k == "link" else "-", str(a), str(b)]
                                           for k, i, j, a, b in c["clos"]])
    geo.write_conflicts("in/flood_level.csv" if c["mode"] == "flood" else "in/conflicts.csv",
                        [locs[i]["n"] for i in c["names"]], c["inten"])
    geo.w("in/sim_period.csv", [["StartDate", c["start"]], ["Length", str(c["days"])]])
    rdata.write("val", c["start"], c["tables"])
    with open("simsetting.yml", "w") as f:
        yaml.safe_dump(c["y"], f)
    if c["demo"]:
        os.makedirs("input_csv")
        for a, rows in c["demo"].items():
            geo.w("input_csv/demographics_%s.csv" % a, [[a] + rows[0][1:]] + rows[1:])


class Reversed:
    """os.scandir of a file system that lists the files of a directory the other way round."""

    def __init__(self, real, a):
        with real(*a) as it:
            self.items = list(it)[::-1]

    def __iter__(self):
        return iter(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def reverse_listings():
    scandir, listdir = os.scandir, os.listdir
    os.scandir = lambda *a: Reversed(scandir, a)
    os.listdir = lambda *a: listdir(*a)[::-1]


def run(c):
    """One scenario, run by its script in the current process and directory.  Returns all it writes."""
    with workdir():
        write(c)
        buf = io.StringIO()
        argv = sys.argv
        script = "run_par.py" if c["K"] else "run.py"
        sys.argv = [script, "in", "val", "0"]
        random.seed(c["seed"])
        np.random.seed(c["seed"])
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                if c["K"]:
                    w = simmpi.World(c["K"], None, c["seed"], reset=False)
                    w.run(lambda r, m: runpy.run_path(os.path.join(SCRIPTS, script), run_name="__main__"))
                else:
                    runpy.run_path(os.path.join(SCRIPTS, script), run_name="__main__")
        finally:
            sys.argv = argv
        out = {"table": buf.getvalue()}
        for fn in sorted(os.listdir(".")):
            if ".out." in fn:
                with open(fn) as f:
                    out[fn] = f.read()
        return out


def in_child(todo, rev=False):
    """Runs the scenarios one after the other in a fork of this (clean) process; returns the last one's output."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                if rev:
                    reverse_listings()
                for c in todo:
                    res = run(c)
                msg = ("ok", res)
            except BaseException as e:
                msg = ("fail", "%s: %s | %s" % (type(e).__name__, e, " / ".join(
                    x.strip() for x in traceback.format_exc().split("\n")[-8:])))
            with os.fdopen(w, "wb") as f:
                pickle.dump(msg, f)
        finally:
            drop_scratch()
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("the child process died")
    kind, res = pickle.loads(data)
    if kind == "fail":
        raise Violation("a valid scenario fails: %s" % res)
    return res


def compare(a, b, what):
    expect(sorted(a) == sorted(b), lambda: "%s: output files %r instead of %r" % (what, sorted(b), sorted(a)))
    for fn in a:
        if a[fn] != b[fn]:
            la, lb = a[fn].split("\n"), b[fn].split("\n")
            i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            raise Violation("%s: %s differs at line %d: %r instead of %r" % (what, fn, i + 1, lb[i:i + 1], la[i:i + 1]))


def alive(out):
    """Agents have been on links, and different ones on different links or at different places."""
    rows = [l.split(",") for f, t in out.items() if f.startswith("agents") for l in t.split("\n")[1:] if l]
    return any(r[6] == "True" or r[8] not in ("0", "1") for r in rows if len(r) > 8) and len(set(r[3] for r in rows if len(r) > 8)) > 2


def again_judge(c, s):
    b = c["second"]
    alone = in_child([b])
    s.label("parallel", b["K"] > 0)
    s.label("demographics", bool(b["demo"]) or bool(c["first"]["demo"]))
    compare(alone, in_child([c["first"], b]), "after another scenario")
    compare(alone, in_child([b, c["first"], b]), "after itself and another scenario")
    if len(b["demo"]) > 1:
        s.label("listing order")
        compare(alone, in_child([b], rev=True), "on a file system that lists files in another order")
    s.nontrivial(alive(alone))


_servers = [None, []]
SEEDS = ("0", "1", "4242")


def servers():
    """One interpreter per hash seed, started once per worker; each forks for every scenario it is sent."""
    if _servers[0] != os.getpid() or any(p.poll() is not None for p in _servers[1]):
        _servers[:] = [os.getpid(), []]
        for h in SEEDS:
            env = dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=os.pathsep.join(x for x in sys.path if x))
            _servers[1].append(subprocess.Popen([sys.executable, os.path.join(HERE, "c28.py")], env=env, stdin=subprocess.PIPE,
                                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                                cwd=os.environ.get("VERIF_SCRATCH_BASE") or "/"))
    return _servers[1]


def hash_judge(c, s):
    outs = []
    with workdir():
        with open("case.pickle", "wb") as f:
            pickle.dump(c, f)
        here = os.getcwd()
        ps = servers()
        for p, h in zip(ps, SEEDS):
            p.stdin.write("%s/case.pickle %s/out%s.pickle\n" % (here, here, h))
            p.stdin.flush()
        for p, h in zip(ps, SEEDS):
            if p.stdout.readline().strip() != "done":
                raise HarnessError("a helper process failed")
        for h in SEEDS:
            with open("out%s.pickle" % h, "rb") as f:
                kind, o = pickle.load(f)
            if kind != "ok":
                raise Violation(o)
            outs.append(o)
    compare(outs[0], outs[1], "with another hash seed")
    compare(outs[0], outs[2], "with a third hash seed")
    compare(in_child([c]), outs[0], "in an interpreter of its own")
    s.nontrivial(alive(outs[0]))


SUBS = [
    Sub("again", lambda: st.fixed_dictionaries({"first": scen(), "second": scen()}), again_judge, quick=400, shards=6),
    Sub("hash", scen, hash_judge, quick=150, shards=2),
]


def serve():
    real = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        src, dst = line.split()
        with open(src, "rb") as f:
            case = pickle.load(f)
        try:
            msg = ("ok", in_child([case]))
        except Violation as e:
            msg = ("fail", str(e))
        with open(dst, "wb") as f:
            pickle.dump(msg, f)
        real.write("done\n")
        real.flush()
    drop_scratch()


if __name__ == "__main__":
    serve()
