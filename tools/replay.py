#!/usr/bin/env python3
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from zvc import runner, nat
d = json.load(open(sys.argv[1]))
if "failing_input" not in d: print("no failing input recorded; failed obligations:"); print(json.dumps(d["failed_obligations"], indent=1)); sys.exit(1)
w = tempfile.mkdtemp(prefix="zvcrep")
try:
    S = runner.Setup(w); c = next(c for c in runner.load_contracts() if c.name == d["contract"]); f = d["failing_input"]
    env = S.env(d.get("module", "lib")); env.wanted = [d["property"]]
    v, n, i = nat.search(env, c, f.get("search_plan", f["plan"]), 60, f["seed"], f.get("fixed"), f.get("free", False), batch=1, max_attempts=1)
    print(json.dumps(v, indent=1, default=str) if v else "not reproduced"); sys.exit(1 if v else 0)
finally: shutil.rmtree(w)
