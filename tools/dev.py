#!/usr/bin/env python3
"""developer runner: python3 tools/dev.py <contract-substring> [--plan 0,1] [-v]"""
import sys, os, tempfile, time, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from zvc import runner
ap = argparse.ArgumentParser(); ap.add_argument("name"); ap.add_argument("--plan"); ap.add_argument("-v", action="store_true"); ap.add_argument("--limit", type=float, default=300); ap.add_argument("--prop"); ap.add_argument("-j", type=int, default=8)
a = ap.parse_args()
w = tempfile.mkdtemp(prefix="zvcdev"); S = runner.Setup(w)
def go(c):
    plan = [int(x) for x in a.plan.split(",")] if a.plan else []
    out = []
    while plan is not None:
        r, plan = runner.run_plan(S, c, plan, [a.prop] if a.prop else None, a.limit)
        out.append(r)
        if a.plan: break
    return out
def show(c, rs):
    bad = [(o, r) for r in rs for o in r["obls"] if o["status"] != "discharged"]; n = sum(len(r["obls"]) for r in rs)
    cov = {}
    for r in rs:
        for k, v in r["covers"].items(): cov[k] = cov.get(k, False) or v
    print("%-28s plans %3d obls %5d bad %3d err %d  %.1fs  covers-missing %s" % (c.name, len(rs), n, len(bad), sum(1 for r in rs if r["error"]), sum(r["secs"] for r in rs), [k for k, v in cov.items() if not v]))
    seen = set()
    for r in rs:
        if r["error"] and (r["error"] not in seen):
            seen.add(r["error"]); print("   ERR", r["choice"], r["plan"], r["error"]); 
            if a.v or r["error"].startswith("internal"): print(r.get("tb"))
    for o, r in bad:
        k = (o["name"])
        if k in seen and not a.v: continue
        seen.add(k); print("   BAD", r["choice"], [p for p in r["plan"]], o["kind"], o["name"], o["props"], o["status"], {x: y for x, y in (o["model"] or {}).items()} if o["model"] else ""); 
        if a.v: print("      ", o["detail"][:600])
    if a.v:
        for r in rs:
            for o in r["obls"]:
                if o["kind"] in ("inv", "term") or a.plan: print("   ", o["kind"], o["name"], o["status"], o["backend"], o["secs"], o["detail"][:1500])
cs = [c for c in runner.load_contracts() if a.name == "all" or a.name in c.name]
for c in cs: S.module(c.opts.get("module", "lib"))
import shutil
try:
    if len(cs) == 1:
        show(cs[0], go(cs[0]))
    else:
        from concurrent.futures import ProcessPoolExecutor
        global_cs = cs
        def work(i): return i, go(global_cs[i])
        with ProcessPoolExecutor(a.j) as ex:
            from concurrent.futures import as_completed
            for f in as_completed([ex.submit(work, i) for i in range(len(cs))]):
                i, rs = f.result(); show(cs[i], rs); sys.stdout.flush()
finally: shutil.rmtree(w)
