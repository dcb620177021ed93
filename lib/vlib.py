"""Shared harness for the flee property checks.

A check is a list of Sub objects.  Each Sub has a Hypothesis strategy that
produces JSON-able cases and a judge that runs the real code in /repo on one
case and raises Violation when the oracle disagrees.  Every random choice comes
from Hypothesis (seeded with VERIF_SEED) or from an RNG seed stored in the case,
so a case is a complete reproduction and is what the replay file contains.
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
if HYP_SITE not in sys.path:
    sys.path.append(HYP_SITE)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself cannot decide (never reported as a violation)."""


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else str(msg))


def expect_eq(got, want, what):
    if not (got == want):
        raise Violation("%s: got %r, expected %r" % (what, got, want))


def close(a, b, rel=1e-9, abs_=1e-12):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if a != a or b != b:
        return (a != a) and (b != b)
    if a == b:
        return True
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def expect_close(got, want, what, rel=1e-9, abs_=1e-12):
    if not close(got, want, rel, abs_):
        raise Violation("%s: got %r, expected %r" % (what, got, want))


class Sub:
    def __init__(self, name, strategy, judge, quick=200, thorough=None, shards=1, weight=1.0):
        self.name = name
        self.strategy = strategy      # zero-argument callable returning a strategy
        self.judge = judge            # judge(case, st)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.shards = shards


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self._nt = False

    def nontrivial(self, flag=True):
        if flag:
            self._nt = True

    def label(self, name, flag=True):
        if flag:
            self.labels[name] = self.labels.get(name, 0) + 1


class _Null:
    encoding = "utf-8"

    def write(self, *_a):
        return 0

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no fileno")


class quiet:
    """Silence flee's prints; restores the streams afterwards."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = _Null()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        return False


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = os.environ.get("VERIF_SCRATCH_BASE") or tempfile.gettempdir()
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="vflee_", dir=base))
    return _scratch[1]


def drop_scratch():
    global _scratch
    if _scratch is not None and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None


class workdir:
    """A fresh scratch directory that is the cwd for the duration of a case."""

    def __enter__(self):
        self.old = os.getcwd()
        self.path = tempfile.mkdtemp(prefix="c", dir=scratch_root())
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)
        return False


def jdump(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _repo_frame(tb):
    """True when the exception was raised from code under test."""
    frames = traceback.extract_tb(tb)
    return any(os.path.abspath(f.filename).startswith(REPO + os.sep) for f in frames)


def run_case(sub, case, st):
    """Run one case. Raises Violation / HarnessError; nothing else escapes."""
    st._nt = False
    st.evaluations += 1
    cwd = os.getcwd()
    try:
        with quiet():
            sub.judge(case, st)
    except (Violation, HarnessError):
        raise
    except MemoryError:
        raise HarnessError("out of memory")
    except (Exception, SystemExit) as exc:  # noqa: BLE001
        from hypothesis.errors import HypothesisException, UnsatisfiedAssumption
        if isinstance(exc, (HypothesisException, UnsatisfiedAssumption)):
            raise
        tail = traceback.format_exc().strip().splitlines()[-6:]
        if _repo_frame(exc.__traceback__):
            raise Violation("the code under test raised %s on a valid input: %s | %s"
                            % (type(exc).__name__, exc, " / ".join(t.strip() for t in tail)))
        if isinstance(exc, (LookupError, AttributeError, TypeError, ValueError, ArithmeticError)):
            # something the public interface always provided is missing or unusable
            raise Violation("the result could not be read: %s: %s | %s"
                            % (type(exc).__name__, exc, " / ".join(t.strip() for t in tail)))
        if isinstance(exc, FileNotFoundError) and isinstance(exc.filename, str) and not os.path.isabs(exc.filename) and not any(
                "subprocess.py" in f.filename for f in traceback.extract_tb(exc.__traceback__)):
            raise Violation("a file that the code under test writes is missing: %s" % exc.filename)
        raise HarnessError("harness raised %s: %s | %s"
                           % (type(exc).__name__, exc, " / ".join(t.strip() for t in tail)))
    finally:
        if os.getcwd() != cwd:
            os.chdir(cwd)
    if st._nt:
        h = hashlib.sha1(jdump(case).encode()).digest()[:8]
        if h not in st.hashes:
            st.hashes.add(h)
            if len(st.samples) < 3:
                text = jdump(case)
                st.samples.append({"sub": sub.name, "case": case if len(text) < 1500 else text[:1500] + "..."})


def _search(sub, n, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = Stats()
    fail = {}

    def body(case):
        try:
            run_case(sub, case, st)
        except Violation as v:
            fail["case"] = case
            fail["msg"] = str(v)
            raise
    body.__name__ = "search_" + sub.name
    test = given(sub.strategy())(body)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                    print_blob=False, suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    err = None
    try:
        with quiet():
            test()
    except Violation:
        pass
    except HarnessError as h:
        err = str(h)
    except BaseException as exc:  # noqa: BLE001
        if "case" not in fail:
            err = "%s: %s" % (type(exc).__name__, traceback.format_exc()[-1500:])
        # Flaky etc. with a recorded failing case: re-check it below
    return st, fail, err


def _task(args):
    sub, n, seed, shard = args
    t0 = time.time()
    st, fail, err = _search(sub, n, seed)
    drop_scratch()
    return dict(sub=sub.name, shard=shard, evaluations=st.evaluations, labels=st.labels,
                hashes=list(st.hashes), samples=st.samples, fail=fail, err=err,
                wall=time.time() - t0)


_SUBS = None


def _worker(idx_n_seed_shard, conn):
    idx, n, seed, shard = idx_n_seed_shard
    try:
        res = _task((_SUBS[idx], n, seed, shard))
    except BaseException as exc:  # noqa: BLE001
        res = dict(sub=_SUBS[idx].name, shard=shard, evaluations=0, labels={}, hashes=[], samples=[],
                   fail={}, err="%s: %s" % (type(exc).__name__, traceback.format_exc()[-1500:]), wall=0.0)
    conn.send(res)
    conn.close()


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                d = json.loads(line)
                if d["property"] == pid:
                    out.append(d)
    return out


def run_property(pid, subs, rule, level="exploration", assumptions=(), argv=None):
    """Entry point of every check. Returns the exit status."""
    global _SUBS
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    byname = {s.name: s for s in subs}
    if a.replay:
        with open(a.replay, encoding="utf-8") as f:
            d = json.load(f)
        st = Stats()
        try:
            run_case(byname[d["sub"]], d["case"], st)
        except Violation as v:
            print("sub=%s: %s" % (d["sub"], v))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
            drop_scratch()
            return 1
        except HarnessError as h:
            print("harness error: %s" % h)
            return 2
        finally:
            drop_scratch()
        print("replay passes: property=%s sub=%s" % (pid, d["sub"]))
        return 0

    t0 = time.time()
    if a.sub:
        subs = [s for s in subs if s.name in a.sub.split(",")]
    _SUBS = subs
    import hypothesis  # noqa: F401  (imported once before forking)

    # known findings: replay each recorded input
    known_out = []
    for kf in load_known(pid):
        if kf["sub"] not in byname:
            continue
        try:
            run_case(byname[kf["sub"]], kf["case"], Stats())
        except Violation as v:
            if kf.get("signature", "") in str(v):
                print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
                known_out.append(kf.get("id", kf["what"]))
            else:
                path = write_replay(pid, kf["sub"], kf["case"], str(v))
                print("sub=%s: %s" % (kf["sub"], v))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                drop_scratch()
                return 1
        except HarnessError as h:
            print("harness error replaying known finding: %s" % h)
            return 2
    drop_scratch()

    tasks = []
    for i, s in enumerate(subs):
        n = s.quick if tier == "quick" else s.thorough
        n = max(1, int(n * a.scale))
        sh = s.shards if tier == "quick" else max(s.shards, 8)
        for k in range(sh):
            tasks.append((i, max(1, n // sh), SEED * 1000003 + k * 7919 + 17, k))
    results = [None] * len(tasks)
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    pending = list(range(len(tasks)))
    running = {}
    sys.stdout.flush()
    from multiprocessing.connection import wait
    while pending or running:
        while pending and len(running) < a.jobs:
            ti = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(tasks[ti], w))
            p.start()
            w.close()
            running[r] = (ti, p)
        for r in wait(list(running)):
            ti, p = running.pop(r)
            try:
                results[ti] = r.recv()
            except EOFError:
                results[ti] = dict(sub=subs[tasks[ti][0]].name, shard=tasks[ti][3], evaluations=0, labels={},
                                   hashes=[], samples=[], fail={}, err="worker died", wall=0.0)
            p.join()
            r.close()

    labels, samples, hashes, ev = {}, [], set(), 0
    per_sub = {}
    errors = []
    failures = []
    for res in results:
        ev += res["evaluations"]
        d = per_sub.setdefault(res["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "wall_s": 0.0, "labels": {}})
        d["evaluations"] += res["evaluations"]
        hs = set((res["sub"], bytes(h)) for h in res["hashes"])
        d["distinct_nontrivial"] += len(hs - hashes)
        d["wall_s"] = round(d["wall_s"] + res["wall"], 2)
        hashes |= hs
        for k, v in res["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if res["shard"] == 0:
            samples.extend(res["samples"][:1])
        if res["err"]:
            errors.append((res["sub"], res["err"]))
        if res["fail"]:
            failures.append((res["sub"], res["fail"]["case"], res["fail"]["msg"]))
    viol = 0
    for sname, case, msg in failures:
        # confirm in this process, from the saved case alone
        confirmed = False
        try:
            run_case(byname[sname], case, Stats())
        except Violation as v:
            msg = str(v)
            confirmed = True
        except HarnessError as h:
            errors.append((sname, str(h)))
        drop_scratch()
        if confirmed:
            path = write_replay(pid, sname, case, msg)
            print("sub=%s: %s" % (sname, msg[:2000]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            viol += 1
        else:
            errors.append((sname, "failure did not reproduce from its saved case: " + msg[:500]))
    evd = {
        "property": pid, "tier": tier, "seed": SEED, "level": level,
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": rule,
            "samples": samples[:12] or [{"note": "no non-trivial case was generated"}],
            "per_sub": per_sub,
            "known_findings_reproduced": known_out,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 3),
        "violations": viol,
    }
    if not a.sub:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(evd, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for s, d in per_sub.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %.1fs %s"
              % (pid, s, d["evaluations"], d["distinct_nontrivial"], d["wall_s"],
                 " ".join("%s=%d" % kv for kv in sorted(d["labels"].items()))))
    if viol:
        return 1
    if errors:
        for s, e in errors:
            print("ERROR in %s/%s: %s" % (pid, s, e))
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs"
          % (pid, tier, SEED, ev, len(hashes), time.time() - t0))
    return 0


def write_replay(pid, sub, case, msg):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((sub + jdump(case)).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, sub, h))
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": pid, "sub": sub, "case": case, "message": msg,
                   "replay": "/verif/check %s --replay %s" % (pid, path)}, f, indent=1)
    return path
