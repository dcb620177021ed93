"""C02: how far agents get each day, and when and where they arrive."""
from hypothesis import strategies as st

import fenv
import indep
from vlib import Sub, expect, expect_eq, workdir

RULE = ("A case is a network, speed and departure settings, agents placed on it and a sequence of days with link "
        "closures and re-openings between days; every day every agent must end in one of the states the reference "
        "model can reach from its state of the day before.  Non-trivial: an agent spent more than one day on a link, "
        "an agent chained several links in a day, or a link closed under an agent.  In 'walkers' "
        "groups of agents travel on two links with walk probabilities for 8 x 30 days: each covers the walking or the riding "
        "distance each day, and the numbers walking are compared with independent decisions of the given chance (mean, "
        "spread within a day, correlation between days and between links).")


@st.composite
def case(draw, hops=False):
    net = draw(fenv.net_strategy(min_locs=2, max_locs=5, connected=True, link_attrs=True, max_extra=2,
                                 types=("town", "conflict_zone", "camp", "forwarding_hub", "idpcamp", "default"),
                                 caps=st.just(-1), conflict_attr=False,
                                 dists=st.sampled_from([1.0, 5.0, 20.0, 35.0, 50.0, 99.9, 100.0, 180.0, 360.0, 361.0,
                                                        720.0, 1000.0, 2500.0])))
    m = {"default_movechance": draw(st.sampled_from([0.0, 0.3, 1.0, 1.0])),
         "camp_movechance": draw(st.sampled_from([0.0, 0.001, 0.5, 1.0])),
         "idpcamp_movechance": draw(st.sampled_from([0.0, 0.5, 1.0])),
         "conflict_movechance": draw(st.sampled_from([0.5, 1.0, 1.0])),
         "awareness_level": draw(st.sampled_from([0, 1, 1]))}
    if draw(st.booleans()):
        m["max_move_speed"] = draw(st.sampled_from([20.0, 50.0, 100.0, 180.0, 200.0, 360.0, 500.0]))
    if draw(st.booleans()):
        m["max_walk_speed"] = draw(st.sampled_from([5.0, 20.0, 35.0, 50.0]))
    if draw(st.integers(0, 2)) == 0:
        m["start_on_foot"] = True
    if draw(st.integers(0, 2)) == 0:
        m["avoid_short_stints"] = True
        m["default_movechance"] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    y = {"move_rules": m, "log_levels": {"agent": draw(st.integers(0, 2)), "camp": draw(st.integers(0, 1))}}
    fenv.clamp_distances(net, y, 5.0)
    n = len(net["locs"])
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.integers(0, 9))
        if k < 7:
            ops.append(["day"])
        else:
            ops.append([draw(st.sampled_from(["close", "close", "reopen"])),
                        draw(st.integers(0, max(0, len(net["links"]) - 1))), draw(st.booleans()),
                        draw(st.booleans())])
    ops.append(["day"])
    agents = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
    if draw(st.integers(0, 15)) == 0:      # a long journey
        ops.insert(draw(st.integers(0, len(ops))), ["day", draw(st.sampled_from([50, 120, 300, 420]))])
        agents = agents[:2]
    return {"net": net, "y": y, "ops": ops, "agents": agents, "seed": draw(st.integers(0, 10 ** 6))}


class Model:
    def __init__(self, c):
        self.y = c["y"]
        self.net = c["net"]
        self.speed = float(fenv.mv(self.y, "max_move_speed"))
        self.walk = float(fenv.mv(self.y, "max_walk_speed"))
        self.foot = fenv.mv(self.y, "start_on_foot")
        self.stints = fenv.mv(self.y, "avoid_short_stints")
        self.types = {d["n"]: d["t"] for d in self.net["locs"]}
        self.chance = {d["n"]: fenv.type_movechance(self.y, d["t"]) for d in self.net["locs"]}
        self.links = {}
        for l in self.net["links"]:
            a, b = self.net["locs"][l[0]]["n"], self.net["locs"][l[1]]["n"]
            at = l[3] if len(l) > 3 else {}
            self.links[(a, b)] = (l[2], at)
            self.links[(b, a)] = (l[2], at)
        self.open = set(self.links)
        self.town = {n: fenv.type_flags(t)["town"] for n, t in self.types.items()}
        for n, t in self.types.items():
            if self.chance[n] < 0.005:
                self.town[n] = False

    def departures(self, loc, force):
        """All possible places after one departure decision at loc."""
        p = 1.0 if (force and self.town[loc]) else self.chance[loc]
        out = [k for k in self.open if k[0] == loc]
        res = []
        if p < 1.0 or not out:
            res.append(loc)
        if p > 0.0:
            res.extend(out)
        return res

    def finish(self, place, dol, places, moved, total, recent, doomed, hops, res):
        """place: location name or (a, b) link."""
        if not isinstance(place, tuple):
            res.add((place, 0.0, places, round(moved, 6), round(total, 6), hops))
            return
        dist, at = self.links[place]
        base = float(at.get("max_move_speed", self.speed))
        if places == 1 and self.foot:
            base = self.walk
        wp = float(at.get("walk_probability", 0.0))
        speeds = set()
        if wp < 1.0:
            speeds.add(base)
        if wp > 0.0:
            speeds.add(self.walk)
        for sp in speeds:
            d2 = dol + sp
            m2 = moved + sp
            if not d2 > dist:
                res.add((place, round(d2, 6), places, round(m2, 6), round(total, 6), hops))
                continue
            m2 += dist - d2
            if doomed:
                res.add((place[0], 0.0, places + 1, round(m2, 6), round(total + dist, 6), hops + 1))
                continue
            if m2 < sp:
                force = self.stints and (recent + m2 / self.speed) / 2.0 < 0.5
                for nxt in self.departures(place[1], force):
                    self.finish(nxt, 0.0, places + 1, m2, total + dist, recent, False, hops + 1, res)
            else:
                res.add((place[1], 0.0, places + 1, round(m2, 6), round(total + dist, 6), hops + 1))

    def day(self, place, dol, places, total, recent, doomed):
        res = set()
        starts = self.departures(place, False) if not isinstance(place, tuple) else [place]
        for s in starts:
            self.finish(s, dol if s == place else 0.0, places, 0.0, total, recent, doomed, 0, res)
        return res


def where(a):
    p = a.location
    if fenv.is_link(p):
        return (p.startpoint.name, p.endpoint.name)
    return p.name


def judge(c, s):
    with workdir():
        _judge(c, s)


def _judge(c, s):
    fenv.fresh(c["y"], c["seed"])
    e, locs = fenv.build(c["net"])
    m = Model(c)
    log = c["y"]["log_levels"]["agent"] > 0
    for i in c["agents"]:
        e.insertAgent(location=locs[i], attributes={})
    doomed = [False] * len(e.agents)
    days = [0] * len(e.agents)
    recent = [0.0] * len(e.agents)
    nt = False
    for idx, op in [(i, o) for i, o in enumerate(c["ops"]) for _ in range(o[1] if o[0] == "day" and o[1:] else 1)]:
        if op[0] != "day":
            if not c["net"]["links"]:
                continue
            l = c["net"]["links"][op[1] % len(c["net"]["links"])]
            a, b = c["net"]["locs"][l[0]]["n"], c["net"]["locs"][l[1]]["n"]
            if op[3]:
                a, b = b, a
            pairs = [(a, b)] + ([(b, a)] if op[2] else [])
            if op[0] == "close":
                e.close_link(startpoint=a, endpoint=b, twoway=op[2])
                for k, ag in enumerate(e.agents):
                    if where(ag) in pairs and where(ag) in m.open:
                        doomed[k] = True
                        nt = True
                        s.label("closed_under_agent")
                m.open -= set(pairs)
            else:
                e.reopen_link(startpoint=a, endpoint=b, twoway=op[2])
                m.open |= set(pairs)
            continue
        pre = []
        for k, ag in enumerate(e.agents):
            pre.append((where(ag), ag.distance_travelled_on_link, ag.places_travelled,
                        ag.distance_travelled if log else 0.0, ag.recent_travel_distance, doomed[k]))
        e.evolve()
        for k, ag in enumerate(e.agents):
            res = m.day(*pre[k])
            w = where(ag)
            dol = round(float(ag.distance_travelled_on_link), 6) if isinstance(w, tuple) else 0.0
            moved_opts = set()
            for r in res:
                if r[0] == w and r[1] == dol and r[2] == ag.places_travelled:
                    if not log or abs(r[4] - ag.distance_travelled) < 1e-4:
                        moved_opts.add((r[3], r[5]))
            expect(moved_opts, lambda: "op %d: agent %d was at %r; after the day it is at %r (%.4f km along, %d places%s); "
                   "possible: %r" % (idx, k, pre[k], w, dol, ag.places_travelled,
                                     ", %.3f km travelled" % ag.distance_travelled if log else "",
                                     sorted(res, key=repr)[:12]))
            days[k] += 1
            expect_eq(ag.timesteps_since_departure, days[k], "op %d: days since departure of agent %d" % (idx, k))
            want = [(pre[k][4] + mo / m.speed) / 2.0 for mo, _h in moved_opts]
            expect(any(abs(x - ag.recent_travel_distance) < 1e-6 for x in want),
                   lambda: "op %d: recent travel index of agent %d: got %r, possible %r"
                   % (idx, k, ag.recent_travel_distance, want))
            if not isinstance(w, tuple) or w != pre[k][0] or dol <= pre[k][1]:
                doomed[k] = False
            if isinstance(w, tuple) and w == pre[k][0] and ag.places_travelled == pre[k][2]:
                s.label("long_link")
                nt = True
            hops = max(h for _m, h in moved_opts)
            if hops > 1:
                s.label("multi_hop")
                nt = True
    s.nontrivial(nt)


# ------------------------------------------------------------ walking links

@st.composite
def walk_case(draw):
    ride = draw(st.sampled_from([100.0, 200.0]))
    return {"y": {"move_rules": {"default_movechance": 1.0, "max_move_speed": ride, "max_walk_speed": 10.0}},
            "wp": draw(st.lists(st.sampled_from([0.05, 0.2, 0.3, 0.5, 0.5, 0.8, 0.95, 1.0, 0.0]), min_size=2, max_size=2)),
            "text": draw(st.booleans()), "own": draw(st.sampled_from([None, 60.0, 150.0])),
            "n": draw(st.lists(st.integers(3, 20), min_size=2, max_size=2)), "days": 30, "rounds": 8,
            "seed": draw(st.integers(0, 10 ** 6))}


def walk_judge(c, s):
    with workdir():
        fenv.fresh(c["y"], c["seed"])
        ride = [c["own"] or c["y"]["move_rules"]["max_move_speed"], c["y"]["move_rules"]["max_move_speed"]]
        series = [[], []]
        for _ in range(c["rounds"]):
            e = fenv.flee.Ecosystem()
            e.print_location_output = False
            for n in "ABCD":
                e.addLocation(name=n, location_type="town")
            for i in (0, 1):
                at = {"walk_probability": str(c["wp"][i]) if c["text"] else c["wp"][i]}
                if i == 0 and c["own"]:
                    at["max_move_speed"] = str(c["own"]) if c["text"] else c["own"]
                e.linkUp("AB"[i], "CD"[i], 1e5, attributes=at)
                e.insertAgents(location=e.locations[i], number=c["n"][i])
            for _d in range(c["days"]):
                pre = [a.distance_travelled_on_link if fenv.is_link(a.location) else 0.0 for a in e.agents]
                e.evolve()
                walked, n = [0, 0], [0, 0]
                for a, d in zip(e.agents, pre):
                    expect(fenv.is_link(a.location), "an agent at move chance 1 did not set out, or arrived 1e5 km away")
                    i = "AB".index(a.location.startpoint.name)
                    got = a.distance_travelled_on_link - d
                    expect(abs(got - 10.0) < 1e-6 or abs(got - ride[i]) < 1e-6,
                           lambda: "covered %r km in a day; walking makes 10, riding %r" % (got, ride[i]))
                    n[i] += 1
                    walked[i] += abs(got - 10.0) < 1e-6
                for i in (0, 1):
                    series[i].append((walked[i], n[i], c["wp"][i]))
        for i in (0, 1):
            indep.one(series[i], "agents walking on a link of walk probability %r" % c["wp"][i])
        indep.two(series[0], series[1], "agents walking on two links")
        s.nontrivial(all(0.0 < q < 1.0 for q in c["wp"]))


SUBS = [Sub("journeys", lambda: case(), judge, quick=4000, shards=8),
        Sub("walkers", lambda: walk_case(), walk_judge, quick=300, shards=4)]
