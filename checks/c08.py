"""C08: closures and re-openings of links, locations and borders act as a set model."""
from collections import Counter

from hypothesis import strategies as st

import fenv
from vlib import Sub, expect, expect_eq, workdir

RULE = ("A case is a network over several countries with agents, and a history of closing, re-opening and removing "
        "links, locations and borders in one or both directions, mixed with days and places and links that are added.  After every operation the usable "
        "links of every location are compared with a set model, and after every day each agent's move is checked "
        "against it.  Non-trivial: at least one closure took effect and agents moved afterwards or a link was reopened.")

SPEED = 100.0


@st.composite
def case(draw):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=7, big=True, connected=draw(st.integers(0, 4)) > 0, parallel=True,
                                 types=("town", "town", "camp", "conflict_zone", "idpcamp", "forwarding_hub"),
                                 caps=st.just(-1), countries=("H", "N1", "N2", "N", "H "), conflict_attr=False, link_attrs=True,
                                 dists=st.sampled_from([60.0, 99.0, 100.0, 150.0, 250.0, 700.0])))
    n = len(net["locs"])
    for l in net["links"]:
        if len(l) > 3:
            l[3] = {"max_move_speed": 50.0}
    i = st.integers(0, n)          # n stands for an unknown name
    real = st.integers(0, n - 1)
    b = st.booleans()
    link = st.sampled_from(["close_link", "close_link", "reopen_link", "reopen_link", "remove_link"])
    ops = st.one_of(
        st.tuples(st.just("day"), st.integers(1, 2)).map(list),
        st.tuples(st.sampled_from(["grow", "grow", "join"]), i, i, st.sampled_from([60.0, 100.0, 180.0])).map(list),
        st.tuples(link, i, i, b).map(list),
        st.tuples(link, st.integers(0, max(0, len(net["links"]) - 1)), st.booleans(), b).map(lambda t: ["L"] + list(t)),
        st.tuples(st.sampled_from(["close_loc", "reopen_loc"]), i, b).map(list),
        st.tuples(st.sampled_from(["close_border", "reopen_border"]), real, real, b).map(list))
    lst = draw(st.lists(ops, min_size=2, max_size=12))
    out = []
    for o in lst:
        if o[0] == "L":
            if not net["links"]:
                continue
            l = net["links"][o[2]]
            o = [o[1], l[0], l[1], o[4]] if o[3] else [o[1], l[1], l[0], o[4]]
        out.append(o)
    agents = draw(st.lists(st.tuples(real, st.integers(1, 4)).map(list), min_size=1, max_size=4))
    aw = draw(st.sampled_from([0, 1, 1, 2, 3]))
    fixed = aw > 0 and draw(st.integers(0, 4)) == 0
    return {"net": net, "ops": out, "agents": agents, "aw": aw, "fixed": fixed, "seed": draw(st.integers(0, 10 ** 6))}


def usable(loc):
    return Counter((l.endpoint.name, float(l.get_distance()), tuple(sorted(l.attributes.items()))) for l in loc.links)


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    m = {"awareness_level": c["aw"], "max_move_speed": SPEED, "default_movechance": 1.0, "camp_movechance": 1.0,
         "idpcamp_movechance": 1.0, "conflict_movechance": 1.0}
    if c["fixed"]:
        m["fixed_routes"] = True
    fenv.fresh({"move_rules": m, "log_levels": {"agent": 2}}, c["seed"])
    net = c["net"]
    e, locs = fenv.build(net)
    n = len(locs)
    names = [d["n"] for d in net["locs"]]
    country = {d["n"]: d["c"] for d in net["locs"]}
    nm = lambda i: names[i] if i < len(names) else "no such place"  # noqa: E731
    model = []                      # [start, end, dist, attrs, state]
    for l in net["links"]:
        at = tuple(sorted((l[3] if len(l) > 3 else {}).items()))
        model.append([names[l[0]], names[l[1]], float(l[2]), at, "open"])
        model.append([names[l[1]], names[l[0]], float(l[2]), at, "open"])
    for i, k in c["agents"]:
        e.insertAgents(location=locs[i], number=k)
    orphan = {}
    doomed = {}                     # id(agent) -> agent on a link that was closed under it
    closed_effect = reopened = moved_after = False

    def change(pred, to):
        """Set the state of the matching links; returns whether anything changed."""
        frm = {"closed": "open", "open": "closed", "gone": "open"}[to]
        hit = [l for l in model if l[4] == frm and pred(l[0], l[1])]
        for l in hit:
            l[4] = to
        return hit

    for k, op in enumerate(c["ops"]):
        where = "after op %d %r" % (k, op)
        if op[0] == "day":
            for _ in range(op[1]):
                openp = set((l[0], l[1]) for l in model if l[4] == "open")
                has_out = set(p[0] for p in openp)
                pre = [(a.location, a.places_travelled) for a in e.agents]
                e.evolve()
                for a, (p, v) in zip(e.agents, pre):
                    cur = a.location
                    fin = [x for x in a.locations_visited if fenv.is_link(x)]
                    if not fenv.is_link(p):
                        if p.name not in has_out:
                            expect(cur is p and not fin, lambda: "%s: an agent left %s, from which no link is open"
                                   % (where, p.name))
                            s.label("stuck")
                            continue
                        expect(c["aw"] > 1 or cur is not p or fin or a.places_travelled > v, lambda: "%s: an agent with move chance 1 stayed "
                               "at %s although links are open" % (where, p.name))
                    elif id(a) in doomed:
                        if cur is p:
                            continue
                        expect(cur is p.startpoint, lambda: "%s: an agent on the link %s>%s, closed under it, ended up at %s"
                               % (where, p.startpoint.name, p.endpoint.name, getattr(cur, "name", "another link")))
                        del doomed[id(a)]
                        s.label("returned")
                        continue
                    # every link entered today must have been open, in one connected chain
                    legs = list(fin)
                    node = p
                    if fenv.is_link(p):
                        if cur is p and not legs:
                            continue
                        if legs and legs[0] is p:
                            legs.pop(0)
                        node = p.endpoint
                    if fenv.is_link(cur):
                        legs.append(cur)
                    for x in legs:
                        moved_after = moved_after or closed_effect
                        expect((x.startpoint.name, x.endpoint.name) in openp,
                               lambda: "%s: an agent took the link %s>%s, which is not open"
                               % (where, x.startpoint.name, x.endpoint.name))
                        expect(x.startpoint is node, lambda: "%s: an agent due at %s travelled from %s"
                               % (where, node.name, x.startpoint.name))
                        node = x.endpoint
                    if not fenv.is_link(cur) and cur is not node:
                        expect((node.name, cur.name) in openp,
                               lambda: "%s: an agent due at %s ended up at %s, to which no open link leads"
                               % (where, node.name, cur.name))
        elif op[0] == "grow":           # a place that is added during the simulation, with a link
            nn, to = "new%d" % k, nm(op[1] % len(names))
            locs.append(e.addLocation(name=nn, location_type="town", country=country[nm(op[2] % len(names))]))
            country[nn] = country[nm(op[2] % len(names))]
            names.append(nn)
            e.linkUp(nn, to, op[3])
            model += [[nn, to, op[3], (), "open"], [to, nn, op[3], (), "open"]]
            s.label("place_added")
        elif op[0] == "join":           # a link that is added during the simulation
            a1, b1 = nm(op[1]), nm(op[2])
            if op[1] < len(names) and op[2] < len(names) and a1 != b1:
                e.linkUp(a1, b1, op[3])
                model += [[a1, b1, op[3], (), "open"], [b1, a1, op[3], (), "open"]]
        else:
            a1, b1 = nm(op[1]), None
            both = op[-1]
            ret = want_ret = None
            before_open = set(id(l) for l in model if l[4] == "open")
            if op[0] in ("close_link", "reopen_link", "remove_link"):
                b1 = nm(op[2])
                pairs = [(a1, b1)] + ([(b1, a1)] if both else [])
                if op[0] == "remove_link" and any(l[4] == "closed" and (l[0], l[1]) in pairs for l in model):
                    continue       # removing a link that is currently closed: not specified
                to = {"close_link": "closed", "reopen_link": "open", "remove_link": "gone"}[op[0]]
                # agents on a link when it is removed are not affected by what happens to that name pair later
                removed_objects = [l for p in locs for l in p.links if (p.name, l.endpoint.name) in pairs]
                hit = change(lambda x, y: (x, y) in pairs, to)
                want_ret = bool(hit)
                ret = getattr(e, op[0])(startpoint=a1, endpoint=b1, twoway=both)
            elif op[0] in ("close_loc", "reopen_loc"):
                to = "closed" if op[0] == "close_loc" else "open"
                change(lambda x, y: y == a1 or (both and x == a1), to)
                f = e.close_location if to == "closed" else e.reopen_location
                f(location_name=a1, twoway=both)
            else:
                ca, cb = country[nm(op[1])], country[nm(op[2])]
                to = "closed" if op[0] == "close_border" else "open"
                change(lambda x, y: (country[x], country[y]) == (ca, cb)
                       or (both and (country[x], country[y]) == (cb, ca)), to)
                f = e.close_border if to == "closed" else e.reopen_border
                f(source_country=ca, dest_country=cb, twoway=both)
            if want_ret is not None:
                expect_eq(bool(ret), want_ret, where + ": reported success")
            newly = [l for l in model if id(l) in before_open and l[4] == "closed"]
            back = [l for l in model if id(l) not in before_open and l[4] == "open"]
            closed_effect = closed_effect or bool(newly)
            reopened = reopened or bool(back)
            cl = set((l[0], l[1]) for l in newly)
            if op[0] == "remove_link":
                for l in removed_objects:
                    orphan[id(l)] = l
            for a in e.agents:
                if fenv.is_link(a.location) and (a.location.startpoint.name, a.location.endpoint.name) in cl \
                        and id(a) not in doomed and id(a.location) not in orphan:
                    doomed[id(a)] = a
                    s.label("closed_under_agent")
        for loc in locs:
            want = Counter((l[1], l[2], l[3]) for l in model if l[4] == "open" and l[0] == loc.name)
            got = usable(loc)
            expect(got == want, lambda: "%s: usable links out of %s: missing %r, extra %r"
                   % (where, loc.name, dict(want - got), dict(got - want)))
            for l in loc.links:
                expect(l.startpoint is loc and not l.closed, where + ": a usable link of %s is marked closed" % loc.name)
    s.label("closed", closed_effect)
    s.label("reopened", reopened)
    s.nontrivial(closed_effect and (moved_after or reopened))


SUBS = [Sub("history", lambda: case(), judge, quick=8000, shards=8)]
