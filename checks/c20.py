"""C20: the settings in force are those of the last settings file read, and the documented defaults otherwise."""
import os

import yaml
from hypothesis import strategies as st

import fenv
from flee.SimulationSettings import SimulationSettings as SS
from vlib import Sub, Violation, expect, expect_eq, workdir

RULE = ("A case is one to three settings files, each setting any subset of the options, read one after another; after "
        "each, every option is compared with the file and the table of defaults, and contradictory files must be "
        "refused.  Non-trivial: two files of which the second leaves out an option that the first sets, or a refused file.")

B = st.booleans
F = lambda *v: st.sampled_from(v)      # noqa: E731
# yaml section, yaml key, settings group, settings key, default, strategy
OPTS = [
    ("log_levels", "agent", "log_levels", "agent", 0, F(0, 1, 2, 3)),
    ("log_levels", "link", "log_levels", "link", 0, F(0, 1, 2)),
    ("log_levels", "camp", "log_levels", "camp", 0, F(0, 1)),
    ("log_levels", "init", "log_levels", "init", 0, F(0, 1)),
    ("log_levels", "conflict", "log_levels", "conflict", 0, F(0, 1)),
    ("log_levels", "idp_totals", "log_levels", "idp_totals", 0, F(0, 1)),
    ("log_levels", "granularity", "log_levels", "granularity", "location", F("location", "region")),
    ("spawn_rules", "take_from_population", "spawn_rules", "TakeFromPopulation", False, B()),
    ("spawn_rules", "insert_day0", "spawn_rules", "InsertDayZeroRefugeesInCamps", True, B()),
    ("spawn_rules", "empty_camps_on_day0", "spawn_rules", "EmptyCampsOnDay0", False, B()),
    ("spawn_rules", "conflict_zone_spawning_only", "spawn_rules", "conflict_zone_spawning_only", True, B()),
    ("spawn_rules", "flood_zone_spawning_only", "spawn_rules", "flood_zone_spawning_only", False, B()),
    ("spawn_rules", "camps_are_sinks", "spawn_rules", "camps_are_sinks", False, B()),
    ("spawn_rules", "read_from_agents_csv_file", "spawn_rules", "read_from_agents_csv_file", False, B()),
    ("spawn_rules", "sum_from_camps", "spawn_rules", "sum_from_camps", True, B()),
    ("spawn_rules", "conflict_spawn_decay", "spawn_rules", "conflict_spawn_decay", None, F([1.0, 0.5], [0.1], [1, 0.9, 0])),
    ("spawn_rules", "conflict_spawn_decay_interval", "spawn_rules", "conflict_spawn_decay_interval", 30, F(1, 7, 30)),
    ("move_rules", "max_move_speed", "move_rules", "MaxMoveSpeed", 360.0, F(1, 200, 420.5)),
    ("move_rules", "max_walk_speed", "move_rules", "MaxWalkSpeed", 35.0, F(1, 20, 42.5)),
    ("move_rules", "max_crossing_speed", "move_rules", "MaxCrossingSpeed", 20.0, F(1, 21, 42.5)),
    ("move_rules", "foreign_weight", "move_rules", "ForeignWeight", 1.0, F(0, 0.5, 2)),
    ("move_rules", "camp_weight", "move_rules", "CampWeight", 1.0, F(0, 0.5, 2)),
    ("move_rules", "conflict_weight", "move_rules", "ConflictWeight", 1.0 / 3.16227766017, F(0, 0.5, 2)),
    ("move_rules", "conflict_movechance", "move_rules", "ConflictMoveChance", 1.0, F(0, 0.5, 1)),
    ("move_rules", "camp_movechance", "move_rules", "CampMoveChance", 0.001, F(0, 0.5, 1)),
    ("move_rules", "idpcamp_movechance", "move_rules", "IDPCampMoveChance", 0.1, F(0, 0.5, 1)),
    ("move_rules", "default_movechance", "move_rules", "DefaultMoveChance", 0.3, F(0, 0.5, 1)),
    ("move_rules", "awareness_level", "move_rules", "AwarenessLevel", 1, F(-1, 0, 1, 2, 3)),
    ("move_rules", "capacity_buffer", "move_rules", "CapacityBuffer", 0.9, F(0.0, 0.5, 1.0)),
    ("move_rules", "capacity_scaling", "move_rules", "CapacityScaling", 1.0, F(0.5, 2, 100)),
    ("move_rules", "avoid_short_stints", "move_rules", "AvoidShortStints", False, B()),
    ("move_rules", "start_on_foot", "move_rules", "StartOnFoot", False, B()),
    ("move_rules", "softening", "move_rules", "DistanceSoftening", 10.0, F(0, 1, 50.5)),
    ("move_rules", "weight_softening", "move_rules", "WeightSoftening", 0.0, F(0.1, 1)),
    ("move_rules", "weight_power", "move_rules", "WeightPower", 1.0, F(0, 0.5, 2)),
    ("move_rules", "distance_power", "move_rules", "DistancePower", 1.0, F(0, 0.5, 2)),
    ("move_rules", "stay_close_to_home", "move_rules", "StayCloseToHome", False, B()),
    ("move_rules", "home_distance_power", "move_rules", "HomeDistancePower", 0.5, F(0, 1, 2)),
    ("move_rules", "use_pop_for_loc_weight", "move_rules", "UsePopForLocWeight", False, B()),
    ("move_rules", "pop_power_for_loc_weight", "move_rules", "PopPowerForLocWeight", 0.1, F(0, 0.5, 1)),
    ("move_rules", "movechance_pop_base", "move_rules", "MovechancePopBase", 10000.0, F(1, 500)),
    ("move_rules", "movechance_pop_scale_factor", "move_rules", "MovechancePopScaleFactor", 0.0, F(-1, 0.5)),
    ("move_rules", "pruning_threshold", "move_rules", "PruningThreshold", 1.0, F(0.1, 2)),
    ("move_rules", "fixed_routes", "move_rules", "FixedRoutes", False, B()),
    ("optimisations", "hasten", "optimisations", "PopulationScaleDownFactor", 1, F(1, 5, 100)),
] + [("move_rules", k, "move_rules", k, False, B()) for k in
     ("ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity")]
IDX = list(range(len(OPTS)))


@st.composite
def one_file(draw):
    y = {}
    for i in draw(st.lists(st.sampled_from(IDX), max_size=12, unique=True)):
        sec, key, _, _, _, strat = OPTS[i]
        y.setdefault(sec, {})[key] = draw(strat)
    k = draw(st.integers(0, 9))
    sp = y.setdefault("spawn_rules", {}) if k <= 4 else None
    if k <= 2:
        d = {}
        if draw(B()):
            d["spawn_mode"] = draw(F("constant", "pop_ratio", "poisson"))
        if draw(B()):
            d["displaced_per_conflict_day"] = draw(F(0.05, 0.5) if d.get("spawn_mode") == "pop_ratio" else F(1, 250))
        sp["conflict_driven_spawning"] = d
    if k in (3, 4):
        sp["flood_zone_spawning_only"] = True
        if draw(st.integers(0, 4)):
            sp["conflict_zone_spawning_only"] = False
        if draw(st.integers(0, 3)):
            sp["take_from_population"] = True
        d = {}
        if draw(B()):
            d["spawn_mode"] = draw(F("constant", "pop_ratio", "poisson"))
        if draw(B()):
            d["displaced_per_flood_day"] = draw(F([0, 1, 2], [0.0, 0.25]))
        sp["flood_driven_spawning"] = d
        if draw(B()):
            y.setdefault("move_rules", {})["flood_rules"] = {
                "max_flood_level": draw(F(1, 4)), "flood_movechances": [0.0, draw(F(0.5, 1.0))],
                "flood_loc_weights": [1.0, draw(F(0.5, 2.0))]}
    if draw(st.integers(0, 9)) == 0:
        y.setdefault("move_rules", {})["use_v1_rules"] = True
    if draw(st.integers(0, 4)) == 0:
        y["number_of_steps"] = draw(F(10, 604))
    if draw(st.integers(0, 4)) == 0:
        y["conflict_input_file"] = "c.csv"
    if draw(st.integers(0, 4)) == 0:
        y["flood_level_input_file"] = "f.csv"
    return {k: v for k, v in y.items() if v or draw(B())}


@st.composite
def case(draw):
    return {"files": draw(st.lists(one_file(), min_size=1, max_size=3))}


def sec(y, name):
    return y.get(name) or {}


def judge(c, s):
    with workdir():
        fenv.load_settings(None)
        prev = set()
        nt = False
        for i, y in enumerate(c["files"]):
            path = "s%d.yml" % i
            with open(path, "w") as f:
                if y:
                    yaml.safe_dump(y, f)
            sp, mr = sec(y, "spawn_rules"), sec(y, "move_rules")
            only_c = sp.get("conflict_zone_spawning_only", True)
            only_f = sp.get("flood_zone_spawning_only", False)
            flood = only_f and sp.get("flood_driven_spawning") is not None
            bad = (only_c and only_f) or (flood and not sp.get("take_from_population", False))
            try:
                steps = SS.ReadFromYML(path)
            except SystemExit:
                if not bad:
                    raise Violation("the valid settings %r are refused" % y)
                s.nontrivial()
                s.label("refused")
                return
            expect(not bad, "the contradictory settings %r are accepted" % y)
            expect_eq(float(steps), float(y.get("number_of_steps", -1)), "number of steps")
            expect_eq(SS.ConflictInputFile, y.get("conflict_input_file", ""), "conflict input file")
            expect_eq(SS.FloodLevelInputFile, y.get("flood_level_input_file", ""), "flood level input file")
            v1 = mr.get("use_v1_rules", False)
            seen = set()
            for section, key, grp, name, default, _ in OPTS:
                given = sec(y, section)
                want = given.get(key, default)
                if key in given:
                    seen.add((section, key))
                if v1:
                    want = {"max_move_speed": 200, "start_on_foot": False, "avoid_short_stints": False,
                            "camp_weight": 2.0, "conflict_weight": 0.25}.get(key, want)
                expect_eq(getattr(SS, grp)[name], want, "file %d %r: %s of %s" % (i + 1, y, key, section))
            nt |= bool(prev - seen)
            prev |= seen
            driven = not only_f and sp.get("conflict_driven_spawning") is not None
            expect_eq(SS.spawn_rules["conflict_driven_spawning"], driven, "file %d %r: conflict driven spawning" % (i + 1, y))
            expect_eq(SS.spawn_rules["flood_driven_spawning"], bool(flood), "file %d %r: flood driven spawning" % (i + 1, y))
            fr = mr.get("flood_rules")
            expect_eq(SS.move_rules["FloodRulesEnabled"], bool(flood or fr is not None),
                      "file %d %r: flood rules" % (i + 1, y))
            expect_eq(SS.move_rules["FloodForecaster"], False, "file %d %r: flood forecaster" % (i + 1, y))
            if driven:
                d = sp["conflict_driven_spawning"]
                mode = d.get("spawn_mode", "constant")
                expect_eq(SS.spawn_rules["conflict_spawn_mode"], mode, "conflict spawn mode")
                expect_eq(SS.spawn_rules["displaced_per_conflict_day"],
                          d.get("displaced_per_conflict_day", 0.01 if mode == "pop_ratio" else 500),
                          "%r: displaced per conflict day" % y)
            if flood:
                d = sp["flood_driven_spawning"]
                mode = d.get("spawn_mode", "pop_ratio")
                expect_eq(SS.spawn_rules["flood_spawn_mode"], mode, "flood spawn mode")
                expect_eq(SS.spawn_rules["displaced_per_flood_day"],
                          d.get("displaced_per_flood_day", [0.0, 0.1, 0.2, 0.5, 0.9] if mode == "pop_ratio"
                                else [0, 100, 200, 300, 500]), "%r: displaced per flood day" % y)
            if fr is not None:
                expect_eq(SS.spawn_rules["MaxFloodLevel"], fr["max_flood_level"], "max flood level")
                expect_eq(list(SS.move_rules["FloodMovechances"]), fr["flood_movechances"], "flood movechances")
                expect_eq(list(SS.move_rules["FloodLocWeights"]), fr["flood_loc_weights"], "flood location weights")
        s.nontrivial(nt)


SUBS = [Sub("files", lambda: case(), judge, quick=4000, shards=8)]
