#!/usr/bin/env python3
"""tools/seeded_table.py   runs every planted change's check on a scratch copy and rewrites the table in DESIGN.md."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

S = "/verif/seeded"


def one(sid):
    m = json.load(open("%s/%s/meta.json" % (S, sid)))
    d = tempfile.mkdtemp(prefix="st_")
    try:
        subprocess.run("cp -a /repo/. %s/ && cd %s && git checkout -q -- . && git apply %s/%s/patch.diff" % (d, d, S, sid),
                       shell=True, check=True)
        r = subprocess.run(["/verif/check", m["property"], "--jobs", "4"], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        sub = os.path.basename(v[0].split("replay=")[1]).rsplit("-", 1)[0] if v else "NOT CAUGHT"
        return sid, m, r.returncode, sub
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    with cf.ThreadPoolExecutor(2) as ex:
        res = list(ex.map(one, sorted(os.listdir(S))))
    t = "| change | what it breaks | caught by |\n|----|----|----|\n"
    for sid, m, rc, sub in res:
        t += "| %s | %s | %s |\n" % (sid, m["what_it_breaks"], sub.replace("-", " ", 1) if rc == 1 else "**not caught** (rc %d)" % rc)
    p = "/verif/DESIGN.md"
    x = open(p).read()
    a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
    x = x[:x.index(a) + len(a)] + t + x[x.index(b):]
    open(p, "w").write(x)
    print(t)
    sys.exit(0)
