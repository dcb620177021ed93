"""C10: conflicts start, change and end on the days given in conflicts.csv or locations.csv."""
from hypothesis import strategies as st

import fenv
import geo
import ref
from vlib import Sub, expect_close, expect_eq, workdir

RULE = ("A case is a geography with either a conflicts.csv table of daily intensities or conflict dates (and optional "
        "intensities) in locations.csv, with optional decay; on every day the spawn weight, score and move chance of "
        "every location are compared with a model that reads the tables directly.  Non-trivial: some conflict started, "
        "changed or ended after day 0.")

VALS = [0.0, 0.0, 0.0, 1.0, 0.5, 2.0, 10.0]


@st.composite
def base(draw, days):
    n = draw(st.integers(1, 5)) if draw(st.integers(0, 14)) else draw(st.integers(6, 12))
    style = fenv.NAME_STYLES[draw(st.integers(0, len(fenv.NAME_STYLES) - 1))]
    def name(i):            # blanks around the names in the header of conflicts.csv are not part of them
        x = style(i)
        return x if x == x.strip() else x.strip() + " x"

    locs = [{"n": name(i), "t": "town", "pc": draw(st.sampled_from([0, 1, 100, 12345])), "date": 0,
             "c": draw(st.sampled_from(["H", "N"]))} for i in range(n)]
    sp = {}
    if draw(st.booleans()):
        sp["conflict_spawn_decay"] = draw(st.lists(st.sampled_from([1.0, 0.75, 0.5, 0.25, 0.0]), min_size=1,
                                                      max_size=draw(st.sampled_from([4, 4, 12]))))
        sp["conflict_spawn_decay_interval"] = draw(st.sampled_from([1, 2, 3] if days <= 10 else [1, 4, 7, 15]))
    y = {"move_rules": {"conflict_weight": 0.25, "foreign_weight": 2.0, "conflict_movechance": 0.875,
                        "default_movechance": 0.375}}
    if sp:
        y["spawn_rules"] = sp
    return locs, y


@st.composite
def table_case(draw):
    days = draw(st.integers(1, 10))
    calm = 1
    if draw(st.integers(0, 14)) == 0:
        days = draw(st.integers(11, 70))
        calm = draw(st.sampled_from([1, 5, 20]))
    locs, y = draw(base(days))
    names = draw(st.permutations([d["n"] for d in locs]))[:draw(st.integers(1, len(locs)))]
    table = []
    for t in range(days + draw(st.integers(0, 2))):
        row = []
        for k in range(len(names)):
            if t > 0 and draw(st.integers(0, calm)):
                row.append(table[-1][k])
            else:
                row.append(draw(st.sampled_from(VALS)))
        table.append(row)
    for d in locs:
        if d["n"] not in names:
            continue
        if draw(st.integers(0, 2)) == 0:
            d["t"] = draw(st.sampled_from(["conflict_zone", "conflict", "town"]))
            # typed conflict zones are inactive until the table says so
            d["date"] = draw(st.integers(1, 20)) if table[0][list(names).index(d["n"])] < 1e-6 else draw(
                st.sampled_from([0, 3]))
    return {"locs": locs, "y": y, "names": list(names), "table": table, "days": days,
            "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def date_case(draw):
    days = draw(st.integers(1, 10)) if draw(st.integers(0, 14)) else draw(st.integers(11, 130))
    locs, y = draw(base(days))
    inten = draw(st.booleans())
    for d in locs:
        if draw(st.integers(0, 3)) > 0:
            d["t"] = draw(st.sampled_from(["conflict_zone", "conflict_zone", "conflict"]))
            d["date"] = draw(st.integers(-1, days + 1))
        if inten:
            d["a"] = {"conflict_intensity": draw(st.sampled_from([1.0, 0.5, 3.0]))}
    return {"locs": locs, "y": y, "inten": inten, "extra": draw(st.integers(0, 2)) if inten else 0,
            "days": days, "seed": draw(st.integers(0, 10 ** 6))}


def follow(c, s, intensity, since, events):
    """intensity(name, t) and since(name, t) give the specification."""
    y = c["y"]
    m = y["move_rules"]
    loads = dict(conflict_file="conflicts.csv") if "table" in c else {}
    ig, e, lm = geo.load(**loads)
    home = c["locs"][0]["c"]
    ig_names = [l.name for l in e.locations]
    for t in range(c["days"]):
        ig.AddNewConflictZones(e, t)
        for phase in ("after the conflict update", "after the day"):
            if phase == "after the day":
                e.evolve()
            else:
                fenv.spawning.refresh_spawn_weights(e)
            for d in c["locs"]:
                name = d["n"]
                w = intensity(name, t)
                loc = lm[name]
                where = "day %d, %s: " % (t, phase)
                dec = ref.decay(y, t - since(name, t)) if w > 0 else 1.0
                if w > 0:
                    want = d["pc"] * w * dec
                else:
                    want = 0.0
                expect_close(e.spawn_weights[ig_names.index(name)], want,
                             where + "spawn weight of %s (population %d, conflict %r)" % (name, d["pc"], w))
                expect_eq(float(loc.movechance), m["conflict_movechance"] if w > 0 else m["default_movechance"],
                          where + "move chance of %s (conflict %r)" % (name, w))
                if phase == "after the day":
                    sc = (2.0 if d["c"] != home else 1.0) * (0.25 ** (w * dec) if w > 0 else 1.0)
                    expect_close(loc.getScore(1), sc, where + "score of %s (conflict %r)" % (name, w))
    s.nontrivial(events > 0)


def table_judge(c, s):
    with workdir():
        fenv.fresh(c["y"], c["seed"])
        geo.write_locations("locations.csv", c["locs"])
        geo.write_routes("routes.csv", c["locs"], [])
        geo.write_closures("closures.csv", [])
        geo.write_conflicts("conflicts.csv", c["names"], c["table"])
        col = {n: i for i, n in enumerate(c["names"])}

        def val(name, t):
            return c["table"][t][col[name]] if name in col else 0.0

        def since(name, t):
            while t > 0 and val(name, t - 1) > 0:
                t -= 1
            return t
        ev = 0
        for n in c["names"]:
            for t in range(1, c["days"]):
                a, b = val(n, t - 1), val(n, t)
                if a != b:
                    ev += 1
                    s.label("start" if a == 0 else ("end" if b == 0 else "change"))
        follow(c, s, val, since, ev)


def date_judge(c, s):
    with workdir():
        fenv.fresh(c["y"], c["seed"])
        extra = []
        if c["inten"]:
            extra = [["conflict_intensity"], ["water", "conflict_intensity"], ["conflict_intensity", "water"]][c["extra"]]
        geo.write_locations("locations.csv", c["locs"], extra)
        geo.write_routes("routes.csv", c["locs"], [])
        geo.write_closures("closures.csv", [])
        dd = {d["n"]: d for d in c["locs"]}

        def start(name):
            d = dd[name]
            return None if "conflict" not in d["t"] else d["date"]

        def val(name, t):
            st_ = start(name)
            if st_ is None or (st_ > 0 and t < st_):
                return 0.0
            return float((dd[name].get("a") or {}).get("conflict_intensity", 1.0))

        def since(name, t):
            return max(-1, start(name))
        ev = sum(1 for d in c["locs"] if start(d["n"]) is not None and 0 < d["date"] < c["days"])
        s.label("late_start", ev > 0)
        follow(c, s, val, since, ev)


SUBS = [
    Sub("table", lambda: table_case(), table_judge, quick=4000, shards=4),
    Sub("dates", lambda: date_case(), date_judge, quick=3000, shards=4),
]
