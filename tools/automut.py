#!/usr/bin/env python3
"""tools/automut.py FILE[,FILE] N SEED WORKERS OUT [LINES]   automatic mutation of /repo, judged by the checks.

Draws N mutants (comparison, arithmetic, boolean, constant, statement deletion, condition, endpoint swaps) of the given
files, keeps those with which the stable tests still pass, and runs the checks that concern the file until one reports
a violation.  Survivors are written to OUT for reading; nothing in /repo is touched (scratch copies under /tmp/am).
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

CHECKS = {
    "flee/flee.py": "C01 C02 C08 C11 C10 C07 C09 C22 C03 C05 C14 C12 C13 C16 C19 C21 C06 C29 C30 C25 C28 C24 C23 C34 C31",
    "flee/moving.py": "C04 C03 C05 C06 C02 C29 C21 C01 C24 C08",
    "flee/scoring.py": "C07 C04 C29 C10 C11 C06 C24 C21",
    "flee/spawning.py": "C14 C13 C12 C16 C10 C11 C07 C28 C30 C24 C23",
    "flee/crawling.py": "C21 C24",
    "flee/pflee.py": "C23 C24 C34 C30 C22 C28 C25",
    "flee/coupling.py": "C25",
    "flee/InputGeography.py": "C19 C33 C10 C09 C11 C16 C29 C13 C30 C31",
    "flee/SimulationSettings.py": "C20 C03 C04 C07 C30",
    "flee/Diagnostics.py": "C22 C23 C28",
    "flee/datamanager/handle_refugee_data.py": "C17 C18 C12 C30",
    "flee/datamanager/DataTable.py": "C17 C18 C12 C30 C31",
    "flee/datamanager/read_period.py": "C30 C31",
    "flee/postprocessing/analysis.py": "C27",
    "flee/postprocessing/extract-validation-results.py": "C27",
    "flee/postprocessing/plot_flee_output.py": "C27",
    "runscripts/run.py": "C33 C30 C28",
    "runscripts/run_par.py": "C33 C30 C28",
}
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def mutants(path, text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, kind, fn):
        a, b = span(n)
        line = lines[n.lineno - 1]
        if "orecast" in line or "debug" in line.lower() or "check_routes" in fn or "print" in fn:
            return
        out.append((a, b, new, kind, fn, n.lineno))
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
           ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "//"}

    def isprint(n):
        return isinstance(n, ast.Call) and (src(n.func).startswith(("print", "log", "sys.exit")))

    def walk(n, fn, depth):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + "." + n.name if fn else n.name
            depth += isinstance(n, ast.FunctionDef)
        if isprint(n) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.FunctionDef) and n.name in ("check_args_type", "wrapper"):
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in src(n.test) and not path.startswith("runscripts"):
            return
        if depth or path.startswith(("runscripts", "flee/post")):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = CMP.get(type(n.ops[0]))
                if o:
                    add(n, "%s %s %s" % (src(n.left), o, src(n.comparators[0])), "cmp", fn)
                    if isinstance(n.ops[0], (ast.Lt, ast.LtE)):
                        add(n, "%s > %s" % (src(n.left), src(n.comparators[0])), "cmp2", fn)
                    if isinstance(n.ops[0], (ast.Gt, ast.GtE)):
                        add(n, "%s < %s" % (src(n.left), src(n.comparators[0])), "cmp2", fn)
            elif isinstance(n, ast.BinOp):
                o = BIN.get(type(n.op))
                if o and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    add(n, "(%s %s %s)" % (src(n.left), o, src(n.right)), "bin", fn)
                    add(n, "(%s)" % src(n.left), "binleft", fn)
            elif isinstance(n, ast.BoolOp):
                o = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + o.join("(%s)" % src(v) for v in n.values) + ")", "bool", fn)
                for k in range(len(n.values)):
                    rest = [v for j, v in enumerate(n.values) if j != k]
                    add(n, "(" + (" and " if o == " or " else " or ").join("(%s)" % src(v) for v in rest) + ")", "drop", fn)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, "(%s)" % src(n.operand), "not", fn)
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
                if isinstance(n.value, bool):
                    add(n, str(not n.value), "const", fn)
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), "const", fn)
                    if n.value not in (0,):
                        add(n, "0", "const", fn)
                elif isinstance(n.value, float):
                    add(n, repr(n.value * 2 if n.value else 1.0), "const", fn)
                    if n.value == 1.0 or n.value == 0.0:
                        add(n, "0.5", "const", fn)
            elif isinstance(n, ast.AugAssign):
                s = src(n)
                if "+=" in s:
                    add(n, s.replace("+=", "-=", 1), "aug", fn)
                    add(n, s.replace("+=", "=", 1), "aug", fn)
                elif "-=" in s:
                    add(n, s.replace("-=", "+=", 1), "aug", fn)
                elif "*=" in s:
                    add(n, s.replace("*=", "=", 1), "aug", fn)
                add(n, "pass", "del", fn)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not isprint(n.value):
                add(n, "pass", "del", fn)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                add(n, "pass", "del", fn)
            elif isinstance(n, (ast.If, ast.While)):
                add(n.test, "(True or (%s))" % src(n.test), "iftrue", fn)
                add(n.test, "(False and (%s))" % src(n.test), "iffalse", fn)
            elif isinstance(n, ast.Break):
                add(n, "pass", "break", fn)
            elif isinstance(n, ast.Continue):
                add(n, "pass", "continue", fn)
            elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, (ast.Constant,)) is False:
                pass
            elif isinstance(n, ast.Attribute) and n.attr in ("startpoint", "endpoint"):
                s = src(n)
                o = "endpoint" if n.attr == "startpoint" else "startpoint"
                add(n, s[:-len(n.attr)] + o, "attr", fn)
            elif isinstance(n, ast.Attribute) and n.attr in ("numAgents", "numAgentsOnRank", "closed_links", "links", "capacity", "pop"):
                alt = {"numAgents": "numAgentsOnRank", "numAgentsOnRank": "numAgents", "closed_links": "links",
                       "links": "closed_links", "capacity": "pop", "pop": "capacity"}
                add(n, src(n)[:-len(n.attr)] + alt[n.attr], "attr", fn)
        for name, f in ast.iter_fields(n):
            if name in ("annotation", "returns", "decorator_list"):
                continue
            for c in (f if isinstance(f, list) else [f]):
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                if isinstance(c, ast.JoinedStr):
                    continue
                if isinstance(c, ast.AST):
                    walk(c, fn, depth)
    walk(tree, "", 0)
    return out, raw


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        return 124, o


def tests_ok(d):
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d,
               MPLBACKEND="Agg", FLEE_TYPE_CHECK="true", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_btl="self", PATH="/opt/venv/bin:" + os.environ["PATH"], MPLCONFIGDIR="/tmp/mplc")
    rc, o = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --randomly-dont-reorganize "
               "--randomly-seed=0 --timeout=60 --continue-on-collection-errors -rA tests flee_benchmark_tests", d, env, 150)
    ok = set(x.replace("/", ".").replace(".py::", "::") for x in re.findall(r"^PASSED (\S+)", o, re.M))
    return not (STABLE - ok)


def main():
    files, n, seed, workers, outp = sys.argv[1].split(","), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    rng = random.Random(seed)
    pool = []
    for f in files:
        text = open("/repo/" + f).read()
        ms, raw = mutants(f, text)
        byfn = {}
        for m in ms:
            byfn.setdefault(m[4], []).append(m)
        for fn, l in byfn.items():
            rng.shuffle(l)
        pool += [(rng.random() * (1 + i), f, m) for fn, l in byfn.items() for i, m in enumerate(l)]
    pool.sort(key=lambda x: x[0])      # spread over functions
    pool = [(f, m) for _, f, m in pool[:n]]
    verif = "/tmp/am/verif"
    if not os.path.exists(verif):
        os.makedirs(verif)
    subprocess.run("rsync -a --delete --exclude .git --exclude evidence --exclude seeded %s/ %s/" % (ROOT, verif), shell=True)
    jobs = max(1, 8 // workers)
    lock = threading.Lock()
    out = open(outp, "a")
    it = iter(pool)
    count = dict(tests=0, caught=0, survived=0, noanswer=0)

    def work(k):
        d = "/tmp/am/w%s_%d" % (os.path.basename(outp), k)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run("cp -a /repo/. %s && cd %s && git checkout -q -- ." % (d, d), shell=True)
        v = d + "_v"
        shutil.rmtree(v, ignore_errors=True)
        subprocess.run("cp -a %s %s" % (verif, v), shell=True)
        while True:
            with lock:
                x = next(it, None)
            if x is None:
                break
            f, (a, b, new, kind, fn, line) = x
            raw = open("/repo/" + f, "rb").read()
            mut = raw[:a] + new.encode() + raw[b:]
            try:
                ast.parse(mut)
            except SyntaxError:
                continue
            p = os.path.join(d, f)
            open(p, "wb").write(mut)
            desc = "%s:%d %s [%s] %r -> %r" % (f, line, fn, kind, raw[a:b].decode(), new)
            try:
                if not tests_ok(d):
                    count["tests"] += 1
                    continue
                env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
                res, bad = None, []
                todo = [c for c in CHECKS[f].split() if os.path.exists(v + "/checks/%s.py" % c.lower())]
                for c in todo:
                    rc, o = sh("%s/check %s --scale 0.4 --jobs %d" % (v, c, jobs), v, env, 400)
                    if rc == 1:
                        res = c
                        break
                    if rc != 0:
                        bad.append(c + ":%d " % rc + o.strip().splitlines()[-1][:200] if o.strip() else c)
                with lock:
                    if res:
                        count["caught"] += 1
                        out.write("caught %s %s\n" % (res, desc))
                    else:
                        count["survived"] += 1
                        out.write("SURVIVED %s %s\n" % (desc, bad or ""))
                    out.flush()
            finally:
                open(p, "wb").write(raw)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    out.write("DONE %r\n" % count)
    out.close()


if __name__ == "__main__":
    main()
