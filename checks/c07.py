"""C07: the attractiveness score of every location tracks its current status."""
from hypothesis import strategies as st

import fenv
import ref
from vlib import Sub, expect_close, workdir

RULE = ("A case is a set of locations, weights and decay settings and a history of days, conflict changes and type "
        "changes; after every simulated day each location's score is compared with the documented product.  "
        "Non-trivial: some location's status changed, or a decay factor below 1 applied, or two factors combined.")


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=1, max_locs=5, big=True, types=("town", "conflict_zone", "camp", "idpcamp", "marker",
                                                               "forwarding_hub", "default", "flood_zone")))
    m = {}
    for k, vals in (("foreign_weight", [0.5, 2.0, 0.0]), ("camp_weight", [0.25, 2.0, 5.0]),
                    ("conflict_weight", [0.1, 0.25, 0.9, 1.0])):
        if draw(st.booleans()):
            m[k] = draw(st.sampled_from(vals))
    sp = {}
    if draw(st.booleans()):
        sp["conflict_spawn_decay"] = draw(st.lists(st.sampled_from([1.0, 0.9, 0.5, 0.1, 0.0, 2.0]), max_size=draw(st.sampled_from([4, 4, 12]))))
        if draw(st.booleans()):
            sp["conflict_spawn_decay_interval"] = draw(st.sampled_from([1, 2, 3, 30]))
    y = {}
    if m:
        y["move_rules"] = m
    if sp:
        y["spawn_rules"] = sp
    n = len(net["locs"])
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("day"), st.integers(1, 3)).map(list),
        st.tuples(st.just("day"), st.integers(1, 40)).map(list),
        st.tuples(st.just("day"), st.sampled_from([1, 7, 100, 400]) if draw(st.integers(0, 9)) == 0 else st.just(2)).map(list),
        st.tuples(st.just("conflict"), st.integers(0, n - 1), st.sampled_from([0.1, 0.5, 1.0, 2.0])).map(list),
        st.tuples(st.just("end"), st.integers(0, n - 1)).map(list),
        st.tuples(st.just("type"), st.integers(0, n - 1),
                  st.sampled_from(["town", "conflict_zone", "camp", "idpcamp", "marker", "forwarding_hub", "default"])
                  ).map(list),
        st.tuples(st.just("camp"), st.integers(0, n - 1), st.booleans(), st.booleans()).map(list)),
        min_size=1, max_size=8))
    return {"net": net, "y": y, "ops": ops + [["day", 1]]}


def judge(c, s):
    with workdir():
        y = c["y"]
        fenv.fresh(y, 1)
        e, locs = fenv.build(c["net"])
        r = ref.rnet(c["net"], y)
        t = 0
        nt = False
        for k, op in enumerate(c["ops"]):
            if op[0] == "day":
                for _ in range(op[1]):
                    e.evolve()
                    for loc, x in zip(locs, r):
                        expect_close(loc.getScore(1), ref.loc_score(x, y, t),
                                     "op %d, day %d: score of %s (camp %s, conflict %r since day %d, foreign %s)"
                                     % (k, t, x.name, x.camp, x.conflict, x.since, x.foreign), rel=1e-9)
                        if x.conflict > 0 and (ref.decay(y, t - x.since) != 1.0 or x.foreign or x.camp):
                            nt = True
                            s.label("decayed", ref.decay(y, t - x.since) != 1.0)
                    t += 1
                continue
            x, loc = r[op[1]], locs[op[1]]
            nt = True
            if op[0] == "conflict":
                e.add_conflict_zone(loc.name, op[2])
                x.conflict, x.since = op[2], t
            elif op[0] == "end":
                if x.camp:
                    continue
                e.remove_conflict_zone(loc.name)
                x.conflict = 0.0
            elif op[0] == "type":
                e.change_location_type(loc.name, op[2])
                f = fenv.type_flags(op[2])
                x.camp = f["camp"]
                x.conflict = 0.0
                if f["conflict"]:
                    x.conflict = float(x.attrs.get("conflict_intensity", 1.0))
                    x.since = t
            else:
                if op[2]:
                    e.open_camp(loc.name, IDP=op[3])
                else:
                    e.close_camp(loc.name, IDP=op[3])
                x.camp = op[2]
                x.conflict = 0.0
        s.nontrivial(nt)


SUBS = [Sub("scores", lambda: case(), judge, quick=4000, shards=8)]
