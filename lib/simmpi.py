"""Parallel flee on a simulated MPI: K ranks in one process, each with its own copy of the flee modules.

Only one rank runs at a time; control passes to the next rank at every collective operation, in an order that the case
chooses, so a run is deterministic.  Ranks have their own random number generators.
"""
import importlib
import os
import random
import sys
import threading
import types

import numpy as np
import yaml

from vlib import Violation, scratch_root


class _Abort(BaseException):
    pass


def _locked():
    k = threading.Lock()
    k.acquire()
    return k


class _Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b, *_):
        return self.f(a, b)


SUM = _Op("SUM", lambda a, b: a + b)
MAX = _Op("MAX", lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b))
MIN = _Op("MIN", lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b))
PROD = _Op("PROD", lambda a, b: a * b)
LAND = _Op("LAND", lambda a, b: np.logical_and(a, b) if isinstance(a, np.ndarray) else bool(a and b))
LOR = _Op("LOR", lambda a, b: np.logical_or(a, b) if isinstance(a, np.ndarray) else bool(a or b))


class Datatype:
    def __init__(self, name):
        self.name = name


INT, LONG, DOUBLE, FLOAT = Datatype("INT"), Datatype("LONG"), Datatype("DOUBLE"), Datatype("FLOAT")
_active = None
SIZES = {"INT": 4, "LONG": 8, "DOUBLE": 8, "FLOAT": 4}


def _buf(b):
    a = b[0] if isinstance(b, (list, tuple)) else b
    return np.asarray(a)


def _typed(b):
    """An array, checked against the declared MPI type (a mismatch would read garbage)."""
    a = _buf(b)
    if isinstance(b, (list, tuple)):
        for x in b[1:]:
            if isinstance(x, Datatype) and SIZES[x.name] != a.dtype.itemsize:
                raise ValueError("MPI type %s used for an array of %s" % (x.name, a.dtype))
    return a


class Comm:
    def Get_rank(self):
        return _active.cur if _active else 0

    def Get_size(self):
        return _active.size if _active else 1

    rank = property(Get_rank)
    size = property(Get_size)

    def _exchange(self, kind, payload):
        if _active is None:
            return [payload]
        return _active.collective(kind, payload)

    @staticmethod
    def _fold(vals, op):
        tot = vals[0]
        for v in vals[1:]:
            tot = op(tot, v)
        return tot

    def Barrier(self):
        self._exchange("Barrier", None)

    barrier = Barrier

    def allreduce(self, x, op=SUM):
        return self._fold(self._exchange("allreduce" + op.name, x), op)

    def reduce(self, x, op=SUM, root=0):
        vals = self._exchange("reduce%d%s" % (root, op.name), x)
        return self._fold(vals, op) if self.Get_rank() == root else None

    def Allreduce(self, send, recv, op=SUM):
        vals = self._exchange("Allreduce" + op.name, _typed(send).copy())
        out = _typed(recv)
        if len(set((v.size, v.dtype.itemsize) for v in vals)) != 1 or vals[0].size > out.size:
            raise ValueError("Allreduce with different sizes on the ranks: %r" % [v.size for v in vals])
        out.reshape(-1)[:vals[0].size] = self._fold([v.reshape(-1) for v in vals], op)

    def Reduce(self, send, recv, op=SUM, root=0):
        vals = self._exchange("Reduce%d%s" % (root, op.name), _typed(send).copy())
        if self.Get_rank() == root:
            _typed(recv).reshape(-1)[:vals[0].size] = self._fold([v.reshape(-1) for v in vals], op)

    def allgather(self, x):
        return list(self._exchange("allgather", x))

    def gather(self, x, root=0):
        vals = self._exchange("gather%d" % root, x)
        return list(vals) if self.Get_rank() == root else None

    def bcast(self, x, root=0):
        return self._exchange("bcast%d" % root, x if self.Get_rank() == root else None)[root]

    def Bcast(self, b, root=0):
        vals = self._exchange("Bcast%d" % root, _buf(b).copy())
        _buf(b)[...] = vals[root]

    def Allgather(self, send, recv):
        vals = self._exchange("Allgather", _typed(send).copy())
        _typed(recv).reshape(-1)[:] = np.concatenate([v.reshape(-1) for v in vals])

    def Allgatherv(self, send, recv):
        vals = self._exchange("Allgatherv", _typed(send).copy().reshape(-1))
        out = _buf(recv)
        parts = [x for x in recv[1:] if not isinstance(x, Datatype)]
        if len(parts) == 1 and isinstance(parts[0], tuple):
            parts = list(parts[0])
        counts = list(parts[0]) if parts else [v.size for v in vals]
        offs = list(parts[1]) if len(parts) > 1 else list(np.concatenate([[0], np.cumsum(counts)[:-1]]))
        for v, n, o in zip(vals, counts, offs):
            if v.size != n:
                raise ValueError("Allgatherv: a rank sends %d values, %d are expected" % (v.size, n))
            out[int(o):int(o) + int(n)] = v


def _module():
    m = types.ModuleType("mpi4py")
    M = types.ModuleType("mpi4py.MPI")
    M.SUM, M.MAX, M.MIN, M.PROD, M.LAND, M.LOR = SUM, MAX, MIN, PROD, LAND, LOR
    M.INT, M.LONG, M.DOUBLE, M.FLOAT = INT, LONG, DOUBLE, FLOAT
    M.INT32_T, M.INT64_T, M.INTEGER = INT, LONG, INT
    M.COMM_WORLD = Comm()
    M.Comm = Comm
    M.Is_initialized = lambda: True
    M.Is_finalized = lambda: False
    M.Init = M.Finalize = lambda: None
    m.MPI = M
    return m, M


MODS = ("flee", "SimulationSettings", "spawning", "moving", "scoring", "crawling", "InputGeography", "Diagnostics", "pflee",
        "coupling", "datamanager.handle_refugee_data", "datamanager.read_period", "postprocessing.analysis")
_copies = []


class Copy:
    """One rank's private copy of the flee package."""

    def __init__(self):
        stub, M = _module()
        saved = {k: v for k, v in sys.modules.items() if k == "flee" or k.startswith("flee.") or k.startswith("mpi4py")}
        for k in saved:
            del sys.modules[k]
        sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = stub, M
        try:
            for m in MODS:
                setattr(self, m.split(".")[-1], importlib.import_module("flee." + m))
            self.table = {k: v for k, v in sys.modules.items()
                          if k == "flee" or k.startswith("flee.") or k.startswith("mpi4py")}
        finally:
            for k in list(sys.modules):
                if k == "flee" or k.startswith("flee.") or k.startswith("mpi4py"):
                    del sys.modules[k]
            sys.modules.update(saved)
        self.SS = self.SimulationSettings.SimulationSettings

    def reset(self, y):
        for g in ("log_levels", "spawn_rules", "move_rules", "optimisations"):
            getattr(self.SS, g).clear()
        for k in list(vars(self.spawning)):
            if k.endswith("__refugees_raw") or k.endswith("__refugee_debt"):
                setattr(self.spawning, k, 0)
            elif k.endswith("__demographics"):
                getattr(self.spawning, k).clear()
        self.pflee.Ecosystem.scores = np.array([1.0, 1.0])
        path = os.path.join(scratch_root(), "p.yml")
        with open(path, "w", encoding="utf-8") as f:
            if y:
                yaml.safe_dump(y, f)
        self.SS.ReadFromYML(path)


def _save():
    return {k: sys.modules.get(k) for c in _copies for k in c.table}


def _restore(saved):
    for k, v in saved.items():
        if v is None:
            sys.modules.pop(k, None)
        else:
            sys.modules[k] = v


def copies(n):
    while len(_copies) < n:
        _copies.append(Copy())
    return _copies[:n]


class World:
    def __init__(self, size, y=None, seed=0, order=None, same_rng=False, reset=True):
        self.size = size
        self.copies = copies(size)
        self.cur = 0
        self.order = list(order) if order else list(range(size))
        self.collectives = 0
        self.eco = [None] * size
        self.lm = [None] * size
        self.ig = [None] * size
        self.rng = []
        keep = random.getstate(), np.random.get_state()
        for r in range(size):
            s = seed if same_rng else seed + 7919 * r
            random.seed(s)
            np.random.seed(s % (2 ** 32))
            self.rng.append((random.getstate(), np.random.get_state()))
            if reset:
                self._with(r, lambda r=r: self.copies[r].reset(y))
        random.setstate(keep[0])
        np.random.set_state(keep[1])

    def _with(self, r, f):
        saved = _save()
        sys.modules.update(self.copies[r].table)
        try:
            return f()
        finally:
            _restore(saved)

    # -- called in a rank's thread
    def collective(self, kind, payload):
        r = self.cur
        self.pend[r] = (kind, payload)
        self.back[r].release()
        self.go[r].acquire()
        if self.aborting:
            raise _Abort()
        return self.results

    def run(self, fn):
        """fn(rank, copy) on every rank; returns the list of results."""
        global _active
        n = self.size
        self.pend = [None] * n
        self.go = [_locked() for _ in range(n)]
        self.back = [_locked() for _ in range(n)]
        self.results = None
        self.aborting = False
        out = [None] * n
        exc = [None] * n
        done = [False] * n

        def body(r):
            self.go[r].acquire()
            try:
                if not self.aborting:
                    out[r] = fn(r, self.copies[r])
            except _Abort:
                pass
            except BaseException as e:  # noqa: BLE001
                exc[r] = e
            done[r] = True
            self.back[r].release()
        threads = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
        keep = random.getstate(), np.random.get_state()
        saved = _save()
        _active = self
        for t in threads:
            t.start()
        err = None
        try:
            while not all(done):
                for r in self.order:
                    if done[r]:
                        continue
                    self.cur = r
                    sys.modules.update(self.copies[r].table)
                    random.setstate(self.rng[r][0])
                    np.random.set_state(self.rng[r][1])
                    self.go[r].release()
                    self.back[r].acquire()
                    self.rng[r] = (random.getstate(), np.random.get_state())
                    if exc[r] is not None:
                        err = exc[r]
                        break
                if err is not None:
                    break
                if any(done) and not all(done):
                    err = Violation("rank(s) %r finished while rank(s) %r wait in %s: a parallel run would hang"
                                    % ([r for r in range(n) if done[r]], [r for r in range(n) if not done[r]],
                                       [self.pend[r][0] for r in range(n) if not done[r]][0]))
                    break
                if not all(done):
                    kinds = set(p[0] for p in self.pend)
                    if len(kinds) != 1:
                        err = Violation("the ranks wait in different collective operations: %r" % sorted(kinds))
                        break
                    self.results = [p[1] for p in self.pend]
                    self.collectives += 1
        finally:
            self.aborting = True
            for r in range(n):
                if not done[r]:
                    self.cur = r
                    self.go[r].release()
                    self.back[r].acquire()
            for t in threads:
                t.join()
            _active = None
            _restore(saved)
            random.setstate(keep[0])
            np.random.set_state(keep[1])
        if err is not None:
            raise err
        return out

    # -- conveniences
    def build(self, net, mode="loc-par", latency="high_latency"):
        def f(r, m):
            e = m.pflee.Ecosystem()
            e.parallel_mode, e.latency_mode = mode, latency
            e.print_location_output = False
            for d in net["locs"]:
                kw = {}
                if d.get("t") is not None:
                    kw["location_type"] = d["t"]
                if "x" in d:
                    kw["x"], kw["y"] = float(d["x"]), float(d["y"])
                if "reg" in d:
                    kw["region"] = d["reg"]
                e.addLocation(name=d["n"], capacity=int(d.get("cap", -1)), pop=int(d.get("pop", 0)),
                              foreign=bool(d.get("f", False)), country=d.get("c", "unknown"),
                              attributes=dict(d.get("a", {})), **kw)
            for l in net["links"]:
                e.linkUp(net["locs"][l[0]]["n"], net["locs"][l[1]]["n"], float(l[2]),
                         attributes=dict(l[3]) if len(l) > 3 else {})
            self.eco[r] = e
        self.run(f)
        return self.eco

    def each(self, fn):
        """fn(ecosystem, copy, rank) on every rank."""
        return self.run(lambda r, m: fn(self.eco[r], m, r))
