#!/usr/bin/env python3
"""native run of the contracts: tools/natdev.py <substr|all> [--secs s]"""
import sys, os, tempfile, argparse, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from zvc import runner, nat, build
ap = argparse.ArgumentParser(); ap.add_argument("name"); ap.add_argument("--secs", type=float, default=3); ap.add_argument("--plan"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--prop"); a = ap.parse_args()
w = tempfile.mkdtemp(prefix="zvcnat"); S = runner.Setup(w)
cs = [c for c in runner.load_contracts() if a.name == "all" or a.name in c.name]
try:
    for c in cs:
        env = S.env(c.opts.get("module", "lib")); env.wanted = [a.prop] if a.prop else None
        v, n, i = nat.search(env, c, [int(x) for x in a.plan.split(",")] if a.plan else [], a.secs, a.seed, None, free_plan=True)
        print("%-28s attempts %d internal %s\n     %s" % (c.name, n, i, v)) if v or i else print("%-28s attempts %d" % (c.name, n)); sys.stdout.flush()
finally: shutil.rmtree(w)
