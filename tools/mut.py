#!/usr/bin/env python3
"""mut.py SPEC.py [id...]: apply each edit to a scratch copy of /repo, extract facts, run the named rules.
SPEC: M = [(id, "C09,C10" , "bad"|"ok", [(file, old, new), ...]), ...]   ok: behaviour preserved, all rules must be quiet"""
import sys, os, subprocess, shutil, runpy
sys.path.insert(0, "/verif")
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
W = int(os.environ.get("W", "4"))
spec = runpy.run_path(sys.argv[1]); ids = sys.argv[2:]
pool = Queue()
for i in range(W):
    d = f"/tmp/mut{i}"
    if not os.path.exists(d + "/cache"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", "/verif/.cache", d + "/cache"])
    pool.put(d)
def run(m):
    mid, props, exp, edits = m
    d = pool.get()
    try:
        shutil.rmtree(d + "/repo", ignore_errors=True); os.makedirs(d + "/repo")
        subprocess.run("git -C /repo ls-files -z | (cd /repo && xargs -0 tar c) | tar x -C %s/repo" % d, shell=True, check=True)
        for f, o, n in edits:
            p = f"{d}/repo/{f}"; s = open(p).read()
            if s.count(o) < 1: return f"{mid}: NOMATCH {f}: {o[:60]!r}"
            s = s.replace(o, n, 1); open(p, "w").write(s)
        env = dict(os.environ, CBG_REPO=d + "/repo", CBG_CACHE=d + "/cache")
        r = subprocess.run(["/verif/extract.sh", d + "/facts"], env=env, capture_output=True, text=True)
        if r.returncode: return f"{mid}: BUILD {r.stderr[-600:]}"
        code = ("import sys; sys.path.insert(0,'/verif')\nfrom sa.mir import *; from sa.report import *; from sa.registry import RULES\n"
                f"F=Facts('{d}/facts/cbindgen-bin.json')\nfrom check import known\n"
                f"for p in {props.split(',') if props != 'ALL' else 'sorted(RULES)'}:\n R=Report(p)\n RULES[p](F,R)\n for k,(m,w) in [x for x in R.viol.items() if x[0] not in known().get(p,{{}})][:2]: print(p,k[:90],'|',m[:200],'|',w)\n")
        r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
        out = r.stdout.strip()
        if r.returncode: return f"{mid}: CRASH {r.stderr[-160:]}"
        good = bool(out) == (exp == "bad")
        return f"{mid}: {'ok ' if good else 'WRONG'} ({exp}) {out.splitlines()[0][:230] if out else ''}" + ("" if good or exp == "bad" else "\n" + out)
    finally: pool.put(d)
with ThreadPoolExecutor(W) as ex:
    for r in ex.map(run, [m for m in spec["M"] if not ids or m[0] in ids]): print(r, flush=True)
