"""Set-up helpers around the real (serial) flee code: settings, networks, state."""
import math
import os
import random

import numpy as np
import yaml
from hypothesis import strategies as st

from vlib import HarnessError, scratch_root  # noqa: F401

import flee.flee as flee
import flee.moving as moving
import flee.scoring as scoring
import flee.spawning as spawning
from flee.SimulationSettings import SimulationSettings

_ymlno = [0]


def load_settings(y):
    """Configure flee from a dict through a real YAML file (the public route)."""
    SimulationSettings.log_levels.clear()
    SimulationSettings.spawn_rules.clear()
    SimulationSettings.move_rules.clear()
    SimulationSettings.optimisations.clear()
    path = os.path.join(scratch_root(), "s.yml")
    with open(path, "w", encoding="utf-8") as f:
        if y:
            yaml.safe_dump(y, f, default_flow_style=False)
    try:
        return SimulationSettings.ReadFromYML(path)
    finally:
        os.unlink(path)


def reset_spawning():
    for k in list(vars(spawning)):
        if k.endswith("__refugees_raw") or k.endswith("__refugee_debt"):
            setattr(spawning, k, 0)
        elif k.endswith("__demographics"):
            getattr(spawning, k).clear()


def seed_rngs(n):
    random.seed(n)
    np.random.seed(n % (2 ** 32))


def fresh(y=None, seed=0):
    load_settings(y)
    reset_spawning()
    seed_rngs(seed)


# ---------------------------------------------------------------- networks

CAMPISH = ("camp", "idpcamp")


def build(net, eco=None, names=None):
    """net = {"locs": [loc...], "links": [[i, j, dist, attrs?]...]}"""
    e = eco if eco is not None else flee.Ecosystem()
    e.print_location_output = False
    locs = []
    for d in net["locs"]:
        kw = {}
        if d.get("t") is not None:
            kw["location_type"] = d["t"]
        if "mc" in d:
            kw["movechance"] = float(d["mc"])
        if "x" in d:
            kw["x"] = float(d["x"])
            kw["y"] = float(d["y"])
        if "reg" in d:
            kw["region"] = d["reg"]
        locs.append(e.addLocation(
            name=d["n"], capacity=int(d.get("cap", -1)), pop=int(d.get("pop", 0)),
            foreign=bool(d.get("f", False)), country=d.get("c", "unknown"),
            attributes=dict(d.get("a", {})), **kw))
    for l in net["links"]:
        e.linkUp(net["locs"][l[0]]["n"], net["locs"][l[1]]["n"], float(l[2]),
                 attributes=dict(l[3]) if len(l) > 3 else {})
    return e, locs


NAME_STYLES = [
    lambda i: "L%d" % i,
    lambda i: "A" * (i + 1),
    lambda i: ["Bamako", "Kidal", "Mentao-B", "Abala", "Timbuktu", "Fassala", "Gao", "Segou", "Mopti", "Menaka",
               "Ansongo", "Douentza"][i],
    lambda i: "town %d/x" % i,
    lambda i: ["A", "B", "AB", "BA", "a", "b", "A ", "Ä", "C", "AC", "CA", "ABC"][i],
]


@st.composite
def net_strategy(draw, min_locs=1, max_locs=7, types=("town", "camp", "conflict_zone", "idpcamp", "forwarding_hub",
                                                     "marker", "default"),
                 connected=None, countries=("H", "N1", "N2"), dists=None, pops=None, caps=None, parallel=False,
                 max_extra=6, coords=False, self_mc=False, link_attrs=False, conflict_attr=True,
                 big=False, chain=None):
    """big: now and then up to 12 locations."""
    n = draw(st.integers(min_locs, max_locs))
    if big and draw(st.integers(0, 14)) == 0:
        n = draw(st.integers(max_locs, 12))
    style = NAME_STYLES[draw(st.integers(0, len(NAME_STYLES) - 1))]
    locs = []
    for i in range(n):
        t = draw(st.sampled_from(types))
        d = {"n": style(i), "t": t,
             "pop": draw(pops if pops is not None else st.sampled_from([0, 1, 7, 100, 9999, 250000])),
             "c": draw(st.sampled_from(countries)),
             "f": draw(st.booleans())}
        if t in CAMPISH or draw(st.integers(0, 9)) == 0:
            d["cap"] = draw(caps if caps is not None else st.sampled_from([-1, 0, 1, 2, 5, 10, 1000]))
        if coords:
            d["x"] = draw(st.floats(-20, 40, allow_nan=False).map(lambda v: round(v, 3)))
            d["y"] = draw(st.floats(-30, 50, allow_nan=False).map(lambda v: round(v, 3)))
        if conflict_attr and "conflict" in t and draw(st.integers(0, 2)) == 0:
            d["a"] = {"conflict_intensity": draw(st.sampled_from([0.1, 0.5, 1.0, 2.0, 10.0]))}
        locs.append(d)
    dist = dists if dists is not None else st.sampled_from([0.0, 0.5, 1.0, 10.0, 35.0, 50.0, 100.0, 199.9, 360.0, 361.0,
                                                            500.0, 834.0, 2000.0])
    links = []
    seen = set()

    def add(i, j):
        if i == j or (not parallel and ((i, j) in seen or (j, i) in seen)):
            return
        seen.add((i, j))
        l = [i, j, draw(dist)]
        if link_attrs:
            a = {}
            k = draw(st.integers(0, 5))
            if k == 1:
                a["max_move_speed"] = draw(st.sampled_from([1.0, 20.0, 100.0, 720.0]))
            if k == 2:
                a["walk_probability"] = draw(st.sampled_from([0.0, 0.5, 1.0]))
            if a:
                l.append(a)
        links.append(l)
    conn = connected if connected is not None else draw(st.integers(0, 3)) > 0
    if conn and n > 1:
        shape = draw(st.sampled_from("tttttcs")) if chain is None else "tc"[chain]      # tree, chain or star
        for i in range(1, n):
            add(i - 1 if shape == "c" else 0 if shape == "s" else draw(st.integers(0, i - 1)), i)
    if n > 1:
        for _ in range(draw(st.integers(0, max_extra))):
            i = draw(st.integers(0, n - 1))
            j = draw(st.integers(0, n - 1))
            add(i, j)
    return {"locs": locs, "links": links}


# ------------------------------------------------------------- reference settings

DEFAULTS_MOVE = dict(
    max_move_speed=360.0, max_walk_speed=35.0, max_crossing_speed=20.0, foreign_weight=1.0, camp_weight=1.0,
    conflict_weight=1.0 / 3.16227766017, conflict_movechance=1.0, camp_movechance=0.001, idpcamp_movechance=0.1,
    default_movechance=0.3, awareness_level=1, capacity_buffer=0.9, capacity_scaling=1.0, avoid_short_stints=False,
    start_on_foot=False, softening=10.0, weight_softening=0.0, weight_power=1.0, distance_power=1.0,
    stay_close_to_home=False, home_distance_power=0.5, use_pop_for_loc_weight=False, pop_power_for_loc_weight=0.1,
    movechance_pop_base=10000.0, movechance_pop_scale_factor=0.0, pruning_threshold=1.0, fixed_routes=False,
    ChildrenAvoidHazards=False, BoysTakeRisk=False, MatchCampEthnicity=False, MatchTownEthnicity=False,
    MatchConflictEthnicity=False)


def mv(y, key):
    m = (y or {}).get("move_rules") or {}
    return m.get(key, DEFAULTS_MOVE[key])


def type_flags(t):
    """Documented meaning of a location type."""
    t = t.lower()
    f = dict(camp=False, idpcamp=False, conflict=False, forward=False, marker=False, flood_zone=False, town=False)
    if "camp" in t:
        f["camp"] = True
        if "idp" in t:
            f["idpcamp"] = True
    elif "conflict" in t:
        f["conflict"] = True
    elif "forward" in t:
        f["forward"] = True
    elif "marker" in t:
        f["marker"] = True
    elif "flood_zone" in t:
        f["flood_zone"] = True
    elif "default" in t or "town" in t:
        f["town"] = True
    else:
        raise HarnessError("unknown type " + t)
    return f


def type_movechance(y, t):
    f = type_flags(t)
    if f["idpcamp"]:
        return float(mv(y, "idpcamp_movechance"))
    if f["camp"]:
        return float(mv(y, "camp_movechance"))
    if f["conflict"]:
        return float(mv(y, "conflict_movechance"))
    if f["forward"] or f["marker"]:
        return 1.0
    return float(mv(y, "default_movechance"))


# ------------------------------------------------------------------ inspection

def all_links(e):
    for loc in e.locations:
        for l in loc.links:
            yield l
        for l in loc.closed_links:
            yield l


def actual_counts(e):
    """id(place) -> number of agents whose position is that place."""
    c = {}
    places = {}
    for a in e.agents:
        if a.location is None:
            continue
        k = id(a.location)
        places[k] = a.location
        c[k] = c.get(k, 0) + 1
    return c, places


def is_link(p):
    return hasattr(p, "startpoint") and hasattr(p, "endpoint")


def haversine(lon1, lat1, lon2, lat2, R=6371.0):
    p1, p2 = math.radians(lat1), math.radians(lat2)
    dphi = p2 - p1
    dl = math.radians(lon2) - math.radians(lon1)
    a = math.sin(dphi / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(dl / 2) ** 2
    return 2 * R * math.atan2(math.sqrt(a), math.sqrt(1 - a))


def clamp_distances(net, y, hops=40.0):
    """Keep the number of link traversals per day bounded (each hop is a recursive call in the code)."""
    v = float(mv(y, "max_move_speed"))
    for l in net["links"]:
        if len(l) > 3:
            v = max(v, float(l[3].get("max_move_speed", 0)))
    v = max(v, float(mv(y, "max_walk_speed")))
    for l in net["links"]:
        l[2] = max(l[2], v / hops)
    return net
