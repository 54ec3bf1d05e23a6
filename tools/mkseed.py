#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: turn seed specs into /verif/seeded/<id>/ after confirming them in a scratch copy.
A spec file defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], files={name: text}, demo=bash text)].
Confirms: builds, stable tests pass, demo 0 on the unchanged tree and nonzero with the change."""
import sys, os, json, subprocess, shutil, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w"
HEAD = '#!/bin/bash\nset -u\nhere=$(cd "$(dirname "$0")" && pwd)\nrepo=$PWD\ncb=$repo/target/debug/cbindgen\nd=$(mktemp -d); trap \'rm -rf "$d"\' EXIT\nfail() { echo "DEMO FAILED: $*"; exit 1; }\n'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **{"executable": "/bin/bash", **k})
def prep():
    if not os.path.exists(W): subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git checkout -q -- . && git clean -fdq src && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
def test():
    # the same tests in the copy
    r = sh(f". /opt/vp/env.inc.sh; cd {W}; export CBINDGEN_TEST_VERIFY=1; cargo test --workspace --offline --no-fail-fast -- --test-threads 8 2>&1 | grep -E '^test |test result|error' ", cwd=W)
    ok = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("ok")}
    bad = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")}
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [s for s in stable if not any(s.endswith(o) for o in ok)]
    return not bad and not miss and len(ok) > 150, sorted(bad)[:5] + miss[:3]
def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]; want = set(sys.argv[2:])
    prep()
    for s in specs:
        if want and s["id"] not in want: continue
        if not want and os.path.exists(f"{ROOT}/seeded/{s['id']}"): continue
        d = f"/tmp/seedtmp/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.sh", "w").write(HEAD + s["demo"].lstrip("\n")); os.chmod(d + "/demo.sh", 0o755)
        for n, t in s.get("files", {}).items():
            os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True); open(f"{d}/{n}", "w").write(t)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .", cwd=W)
        r = sh("source /opt/vp/env.inc.sh; cd /tmp/w; cargo build --offline", cwd=W)
        base = sh(d + "/demo.sh", cwd=W)
        if base.returncode != 0: print(s["id"], "REJECT demo fails on base:", base.stdout[-600:]); continue
        err = None
        for f, a, b in s["edits"]:
            p = f"{W}/{f}"; t = open(p).read()
            if t.count(a) != 1: err = f"{f}: {t.count(a)} matches of {a[:60]!r}"; break
            open(p, "w").write(t.replace(a, b))
        if err: print(s["id"], "REJECT", err); sh("git checkout -q -- .", cwd=W); continue
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
        r = sh("source /opt/vp/env.inc.sh; cd /tmp/w; cargo build --offline", cwd=W)
        if r.returncode: print(s["id"], "REJECT build:", r.stdout[-1500:]); sh("git checkout -q -- .", cwd=W); continue
        m = sh(d + "/demo.sh", cwd=W)
        if m.returncode == 0: print(s["id"], "REJECT demo passes with the change:", m.stdout[-300:]); sh("git checkout -q -- .", cwd=W); continue
        ok, bad = test()
        sh("git checkout -q -- .", cwd=W)
        if not ok: print(s["id"], "REJECT tests fail:", bad); continue
        dst = f"{ROOT}/seeded/{s['id']}"; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        print(s["id"], "KEPT |", m.stdout.strip()[-150:], flush=True)
main()
