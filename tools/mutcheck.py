#!/usr/bin/env python3
"""runs every contract that reaches a function: natively, then through the verifier; prints RESULT NATIVE|PROOF|SURVIVED (for tools/mutate.py)"""
import sys, os, tempfile, shutil, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from zvc import runner, nat, build
fn = sys.argv[1]; w = tempfile.mkdtemp(prefix="zvcmut"); S = runner.Setup(w)
def calls(m):
    import re
    return {n: set(x for b in f.blocks.values() for i in b for x in re.findall(r"@(\w+)", i.text)) for n, f in m.funcs.items()}
def reach(m, c):
    g = calls(m); seen = set(); st = list(c.fns)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += g.get(x, ())
    return seen
try:
    cs = []
    for c in runner.load_contracts():
        mod = c.opts.get("module", "lib")
        try: m = S.module(mod)
        except build.BuildError: continue
        if fn in c.fns: cs.append((0, len(c.fns), c))
        elif fn in reach(m, c): cs.append((1, len(c.fns), c))
    cs.sort(key=lambda x: x[:2]); cs = [c for _, _, c in cs]
    if not cs: print("RESULT NOCONTRACT"); sys.exit()
    for secs in (1.5, 6):
        for c in cs[:12]:
            env = S.env(c.opts.get("module", "lib")); env.wanted = None
            v, n, i = nat.search(env, c, [], secs, 1, None, free_plan=True)
            if v: print("RESULT NATIVE %s %s" % (c.name, v["what"])); sys.exit()
    t0 = time.time()
    pc = [c for c in cs if not c.name.startswith('argparse')] or cs
    for c in pc[:6]:
        plan = []
        while plan is not None and time.time() - t0 < 110:
            r, plan = runner.run_plan(S, c, plan, None, 60)
            bad = [o for o in r["obls"] if o["status"] != "discharged"]
            if bad: print("RESULT PROOF %s %s %s %s" % (c.name, bad[0]["kind"], bad[0]["name"], bad[0]["status"])); sys.exit()
            if r["error"]: print("RESULT PROOF %s error %s" % (c.name, r["error"])); sys.exit()
    print("RESULT SURVIVED %s (%.0fs)" % ([c.name for c in cs], time.time() - t0))
finally: shutil.rmtree(w)
