#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py...   plants the bugs described in tools/seeds/*.py style specs and validates them.

A spec defines ID, PROP, EDITS=[(file, old, new)...], NEEDS, BREAKS and DEMO (python text; exits nonzero when broken).
Validated in scratch copies: removed lines are original, the stable tests pass, the demo passes without and fails with
the patch.  Then the property's check is run against the patched copy.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

BASE = "8147e9a"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME=/root MPLBACKEND=Agg
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self
unset FLEE_TYPE_CHECK
w="$(mktemp -d)" || exit 2
trap 'rm -rf "$w"' EXIT
export MPLCONFIGDIR="$w/mpl"
mkdir "$w/run" && cd "$w/run" || exit 2
/opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def tests(d):
    env = dict(HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d, MPLBACKEND="Agg",
               FLEE_TYPE_CHECK="true", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self",
               PATH="/opt/venv/bin:" + os.environ["PATH"], MPLCONFIGDIR="/tmp/mplc")
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --randomly-dont-reorganize --randomly-seed=0 "
           "--timeout=300 --continue-on-collection-errors -rA tests flee_benchmark_tests", d, env)
    ok = set(re.findall(r"^PASSED (\S+)", r.stdout, re.M))
    ok = set(x.replace("/", ".").replace(".py::", "::") for x in ok)
    return sorted(STABLE - ok)


def one(path, runcheck=True):
    s = runpy.run_path(path)
    sid, prop = s["ID"], s["PROP"]
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("cp -a /repo/. %s/" % d, "/")
        sh("git checkout -q -- . && git clean -fdq", d)
        for f, old, new in s["EDITS"]:
            p = os.path.join(d, f)
            t = open(p).read()
            k = s.get("NTH", {}).get(old, None)
            if t.count(old) != 1 and k is None:
                return "%s: pattern occurs %d times in %s: %r" % (sid, t.count(old), f, old)
            if k is None:
                t = t.replace(old, new)
            else:
                parts = t.split(old)
                t = old.join(parts[:k]) + new + old.join(parts[k:])
            open(p, "w").write(t)
        diff = sh("git diff", d).stdout
        # only lines of the original repository may go
        bad = []
        for f in set(x[0] for x in s["EDITS"]):
            bl = sh("git blame -s HEAD -- %s" % f, d).stdout.splitlines()
            hd = sh("git diff -U0 -- %s" % f, d).stdout
            nrem = 0
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hd, re.M):
                a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
                nrem += n
                bad += [x for x in bl[a - 1:a - 1 + n] if not x.startswith("^" + BASE[:7])]
            if nrem == 0:
                bad.append("no original line changed in " + f)
        if bad:
            return "%s: changes lines that are not original:\n%s" % (sid, "\n".join(bad))
        out = os.path.join(SEEDED, sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(s["DEMO"].lstrip("\n"))
        json.dump({"property": prop, "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        msg = []
        r0 = sh(["bash", os.path.join(out, "demo.sh")], "/repo", timeout=300)
        if r0.returncode != 0:
            msg.append("demo fails on the unchanged tree (%d): %s" % (r0.returncode, r0.stdout[-600:]))
        r1 = sh(["bash", os.path.join(out, "demo.sh")], d, timeout=300)
        if r1.returncode == 0:
            msg.append("demo passes with the patch")
        t = tests(d)
        if t:
            msg.append("stable tests fail: %r" % t)
        if msg:
            shutil.rmtree(out)
            return "%s: NOT KEPT: %s" % (sid, "; ".join(msg))
        res = "%s: kept (demo says: %s)" % (sid, r1.stdout.strip().splitlines()[-1][:120] if r1.stdout.strip() else "")
        if runcheck:
            c = sh([os.path.join(ROOT, "check"), prop], ROOT, {"VERIF_REPO": d, "VERIF_SEED": "1"}, 900)
            line = [x for x in c.stdout.splitlines() if x.startswith(("VIOLATION", "OK"))]
            res += "\n   %s rc=%d %s" % (prop, c.returncode, (line or c.stdout.splitlines()[-1:])[0][:200])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    nc = "--nocheck" in sys.argv
    for p in sys.argv[1:]:
        if not p.startswith("--"):
            print(one(p, not nc), flush=True)
