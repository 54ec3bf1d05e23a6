#!/usr/bin/env python3
"""check.py <property id> <quick|thorough>: extract facts from /repo's working tree, apply the rule."""
import sys, os, json, time, subprocess, tempfile, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.mir import Facts
from sa.report import Report
from sa.registry import RULES

def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                f = l[len("known: "):].split("\t")
                pid = f[0].split("=", 1)[1]; key = f[1].split("=", 1)[1]
                out.setdefault(pid, {})[key] = f[2]
    return out

def run_rule(pid, F, rep):
    try: RULES[pid](F, rep)
    except Exception as e:      # fail closed: a construct the rule cannot read is not a pass
        traceback.print_exc()
        fr = traceback.extract_tb(e.__traceback__)[-1]
        rep.bad(f"analysis-error:{fr.name}", f"the rule could not analyse this tree ({type(e).__name__}: {e})", "")

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(os.path.join(HERE, ".cache"), exist_ok=True)
    facts = os.environ.get("CBG_FACTS")
    tmp = None
    if not facts:
        tmp = tempfile.mkdtemp(prefix="facts-", dir=os.path.join(HERE, ".cache")); facts = tmp
        r = subprocess.run([os.path.join(HERE, "extract.sh"), facts])
        if r.returncode != 0:
            print(f"extraction failed ({r.returncode})"); shutil.rmtree(tmp, ignore_errors=True); return 2
    try:
        rep = Report(pid)
        Fb = Facts(os.path.join(facts, "cbindgen-bin.json"))
        Fb.tier = tier
        Fb.libpath = os.path.join(facts, "cbindgen-lib.json")
        run_rule(pid, Fb, rep)
        crates = ["bin"]
        if tier == "thorough":
            # the library target is compiled separately: decide the same rule on its own facts
            Fl = Facts(Fb.libpath); Fl.tier = tier; Fl.libpath = Fb.libpath; Fl.is_lib = True
            if not getattr(RULES[pid], "bin_only", False):
                rl = Report(pid); run_rule(pid, Fl, rl); crates.append("lib")
                for k, (m, w) in rl.viol.items():
                    if k not in rep.viol: rep.bad(k, "[library target] " + m, w)
                for k in rl.obl: rep.obl.setdefault("lib:" + k, rl.obl[k])
                rep.fns |= {"lib:" + f for f in rl.fns}
    finally:
        if tmp: shutil.rmtree(tmp, ignore_errors=True)
    kn = known().get(pid, {})
    viol = {k: v for k, v in rep.viol.items() if k not in kn}
    ev = os.path.join(HERE, "evidence"); os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for k in rep.viol:
        if k in kn: print(f"KNOWN-FINDING: property={pid} {kn[k]} [{k}]")
    lines = []
    for i, (k, (m, w)) in enumerate(sorted(viol.items())):
        p = os.path.join(ev, "replay", f"{pid}-{i}.txt")
        with open(p, "w") as f:
            f.write(f"property: {pid}\nobligation: {k}\nwhere: {w}\nfinding: {m}\nrule:\n" + "\n".join("  " + r for r in rep.rules) + f"\nreproduce: {HERE}/check.sh {pid} {tier}\n")
        print(f"{w}: {k}: {m}")
        lines.append(f"VIOLATION property={pid} replay={p}")
    nobl = len(rep.obl); okn = sum(1 for v in rep.obl.values() if v[0])
    cov = {"explanation": "static analysis of the type-checked program (optimised-off MIR of every function of the crate, extracted from the working tree on this run); obligations are the rule instances found in it. Rules: " + " || ".join(rep.rules),
           "rule": " || ".join(rep.rules), "obligations": nobl, "discharged": okn,
           "functions_analysed": len(rep.fns), "bodies_in_crate": len(Fb.bodies), "targets": crates,
           "counts": rep.notes, "known_findings": [k for k in rep.viol if k in kn],
           "samples": [f"{k} @ {w}" for k, (o, w) in sorted(rep.obl.items())[:25]]}
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
                   "coverage": cov, "assumptions": ["facts come from nightly rustc's MIR of the same sources; macros of dependencies are expanded by rustc",
                   "std containers are modelled by name (see sa/flow.py)"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}, f, indent=1)
    print(f"{pid} [{tier}]: {okn}/{nobl} obligations discharged, {len(rep.fns)} functions analysed, {len(viol)} violations, {time.time()-t0:.1f}s")
    for l in lines: print(l)
    return 1 if viol else 0

if __name__ == "__main__":
    sys.exit(main())
