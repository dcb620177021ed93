"""Random operation histories over a serial Ecosystem (shared by several checks)."""
from hypothesis import strategies as st

import fenv
from vlib import HarnessError

TYPES = ("town", "camp", "conflict_zone", "idpcamp", "forwarding_hub", "marker", "default")


@st.composite
def op_strategy(draw, kinds):
    k = draw(st.sampled_from(kinds))
    i = draw(st.integers(0, 11))
    j = draw(st.integers(0, 11))
    if k == "evolve":
        return [k, draw(st.integers(1, 3))]
    if k in ("insert", "add", "insertmany"):
        return [k, i, draw(st.integers(0, 6)) if draw(st.integers(0, 39)) else draw(st.sampled_from([60, 300]))]
    if k == "clear":
        return [k, sorted(set(draw(st.lists(st.integers(0, 11), min_size=1, max_size=3))))]
    if k in ("close_link", "reopen_link", "remove_link", "close_border", "reopen_border"):
        return [k, i, j, draw(st.booleans())]
    if k in ("close_loc", "reopen_loc"):
        return [k, i, draw(st.booleans())]
    if k == "type":
        return [k, i, draw(st.sampled_from(TYPES))]
    if k == "conflict":
        return [k, i, draw(st.sampled_from([0.0, 0.1, 1.0, 2.5]))]
    if k in ("camp_open", "camp_close"):
        return [k, i, draw(st.booleans())]
    if k == "spawn":
        return [k, draw(st.integers(0, 4))]
    raise HarnessError(k)


ALL_KINDS = ("evolve",) * 8 + ( "insert", "insert", "add", "insertmany", "clear", "close_link",
             "reopen_link", "remove_link", "close_border", "reopen_border", "close_loc", "reopen_loc", "type",
             "conflict", "camp_open", "camp_close", "spawn")


def history(kinds=ALL_KINDS, min_size=1, max_size=14):
    return st.lists(op_strategy(kinds), min_size=min_size, max_size=max_size)


def names_of(net):
    return [d["n"] for d in net["locs"]]


def apply_op(e, locs, net, op, spawning=None):
    """Apply one op; returns nothing.  'evolve' is applied by the caller."""
    n = len(locs)
    k = op[0]
    nm = lambda i: locs[i % n].name  # noqa: E731
    country = lambda i: locs[i % n].country  # noqa: E731
    if k == "insert":
        for _ in range(op[2]):
            e.insertAgent(location=locs[op[1] % n], attributes={})
    elif k == "insertmany":
        e.insertAgents(location=locs[op[1] % n], number=op[2])
    elif k == "add":
        for _ in range(op[2]):
            e.addAgent(location=locs[op[1] % n], attributes={})
    elif k == "clear":
        e.clearLocationsFromAgents([nm(i) for i in op[1]])
    elif k == "close_link":
        e.close_link(startpoint=nm(op[1]), endpoint=nm(op[2]), twoway=op[3])
    elif k == "reopen_link":
        e.reopen_link(startpoint=nm(op[1]), endpoint=nm(op[2]), twoway=op[3])
    elif k == "remove_link":
        e.remove_link(startpoint=nm(op[1]), endpoint=nm(op[2]), twoway=op[3])
    elif k == "close_border":
        e.close_border(source_country=country(op[1]), dest_country=country(op[2]), twoway=op[3])
    elif k == "reopen_border":
        e.reopen_border(source_country=country(op[1]), dest_country=country(op[2]), twoway=op[3])
    elif k == "close_loc":
        e.close_location(location_name=nm(op[1]), twoway=op[2])
    elif k == "reopen_loc":
        e.reopen_location(location_name=nm(op[1]), twoway=op[2])
    elif k == "type":
        e.change_location_type(nm(op[1]), op[2])
    elif k == "conflict":
        e.set_conflict_intensity(nm(op[1]), op[2])
    elif k == "camp_open":
        e.open_camp(nm(op[1]), IDP=op[2])
    elif k == "camp_close":
        e.close_camp(nm(op[1]), IDP=op[2])
    elif k == "spawn":
        if sum(e.spawn_weights) > 0:
            fenv.spawning.spawn_agents(e, op[1])
    else:
        raise HarnessError("unknown op %r" % (op,))


@st.composite
def move_settings(draw, max_awareness=2, fixed=True, sinks=True, take_pop=False, logs=False):
    """A YAML dict with a random selection of movement settings."""
    mv = {}

    def opt(key, strat, p=3):
        if draw(st.integers(0, p)) == 0:
            mv[key] = draw(strat)
    aw = draw(st.integers(0, max_awareness))
    if aw != 1:
        mv["awareness_level"] = aw
    opt("max_move_speed", st.sampled_from([1.0, 10.0, 35.0, 100.0, 200.0, 360.0, 10000.0]))
    opt("max_walk_speed", st.sampled_from([0.5, 35.0, 50.0]))
    opt("start_on_foot", st.just(True))
    opt("avoid_short_stints", st.just(True))
    opt("default_movechance", st.sampled_from([0.0, 0.3, 1.0, 1.0, 1.0]), 1)
    opt("camp_movechance", st.sampled_from([0.0, 0.5, 1.0]))
    opt("idpcamp_movechance", st.sampled_from([0.0, 0.5, 1.0]))
    opt("conflict_movechance", st.sampled_from([0.5, 1.0]))
    opt("capacity_buffer", st.sampled_from([0.0, 0.5, 0.9, 1.0]))
    opt("pruning_threshold", st.sampled_from([1.0, 1.5, 3.0]))
    opt("weight_softening", st.sampled_from([0.0, 0.5]))
    opt("weight_power", st.sampled_from([0.0, 0.5, 2.0]), 5)
    opt("use_pop_for_loc_weight", st.just(True), 6)
    opt("stay_close_to_home", st.just(True), 6)
    opt("movechance_pop_scale_factor", st.sampled_from([0.5]), 6)
    if fixed:
        opt("fixed_routes", st.just(True), 4)
    y = {}
    if mv:
        y["move_rules"] = mv
    sp = {}
    if sinks and draw(st.integers(0, 3)) == 0:
        sp["camps_are_sinks"] = True
    if take_pop and draw(st.booleans()):
        sp["take_from_population"] = True
    if sp:
        y["spawn_rules"] = sp
    if logs:
        ll = {}
        if draw(st.booleans()):
            ll["agent"] = draw(st.integers(1, 3))
        if draw(st.booleans()):
            ll["link"] = draw(st.integers(1, 2))
        if draw(st.booleans()):
            ll["camp"] = 1
        if ll:
            y["log_levels"] = ll
    return y


def place_key(p):
    if p is None:
        return None
    if fenv.is_link(p):
        return "link:%s>%s" % (p.startpoint.name, p.endpoint.name)
    return "loc:" + p.name
