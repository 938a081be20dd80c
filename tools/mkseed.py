#!/usr/bin/env python3
"""mkseed.py SPEC.py : creates seeded/<id> from a spec file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C source); confirms it.
   mkseed.py --confirm [ID ...] : re-confirms existing seeds (applies, builds, tests pass, demo 0 / nonzero) ; --check also runs the property's check"""
import sys, os, time, subprocess, json, tempfile
V = "/verif"; BASE = "0a47ced"; R = os.environ.get("SEED_REPO", "/tmp/seedrepo")
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -w -g %s -DZYCORE_STATIC_BUILD -D_GNU_SOURCE -Iinclude -Isrc "$d/demo.c" $(find src -name '*.c') -o "$t/demo" -lpthread || exit 1
timeout 60 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh("git -C %s checkout -- ." % R)
def prepare():
    "a scratch clone of /repo's HEAD: nothing is ever applied to /repo itself"
    if not os.path.exists(R): sh("git clone -q /repo %s" % R)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R))
def stable():
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    o = R + "/_build/o.json"
    p = sh("cd %s && rm -f %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DZYCORE_BUILD_TESTS=ON -DZYCORE_BUILD_EXAMPLES=ON -DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON && ninja -C _build && python3 /opt/vp/run_gtests.py %s/_build %s/_build/r.txt; python3 /opt/vp/results.py %s lines:%s/_build/r.txt" % (R, o, R, R, o, R))
    try: return b - set(json.load(open(o))["passed"])
    except Exception: return b
def original(d):
    "every line the patch removes must stem from the original repository"
    bad = []; fn = None
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"): fn = l[6:].strip()
        elif l.startswith("@@"): n = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            w = sh("git -C %s blame -s -l -L %d,%d HEAD -- %s" % (R, n, n, fn)).stdout.split()[0].lstrip("^")
            if not BASE_FULL.startswith(w[:30]): bad.append((fn, n))
            n += 1
        elif l.startswith(" "): n += 1
    return bad
def demo(i): return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=R, timeout=300).returncode
def confirm(i, check=False):
    d = "%s/seeded/%s" % (V, i); bad = original(d)
    a = demo(i)
    p = sh("git -C %s apply %s/patch.diff" % (R, d))
    if p.returncode: print(i, "DOES NOT APPLY", p.stderr); return False
    try:
        miss = stable(); b = demo(i); out = ""
        if check:
            prop = json.load(open(d + "/meta.json"))["property"]; t0 = time.time(); c = sh("cd %s && ZVC_REPO=%s bash check.sh %s" % (V, R, prop))
            l = [x for x in c.stdout.split("\n") if x.startswith("VIOLATION")]; out = "check rc %d %.0fs %s" % (c.returncode, time.time() - t0, l[0] if l else "")
    finally: undo()
    ok = a == 0 and b != 0 and not miss and not bad
    print("%-12s %s demo clean %d patched %d, tests missing %s %s" % (i, "OK " if ok else "BAD", a, b, sorted(miss)[:2], ("not original lines %s " % bad if bad else "") + out)); sys.stdout.flush()
    return ok
if __name__ == "__main__":
    prepare(); BASE_FULL = sh("git -C %s rev-parse %s" % (R, BASE)).stdout.strip()
    if sys.argv[1] == "--confirm":
        chk = "--check" in sys.argv; ids = [x for x in sys.argv[2:] if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
        for i in ids: confirm(i, chk)
    else:
        for f in sys.argv[1:]:
            ns = {}; exec(open(f).read(), ns)
            for s in ns["SEEDS"]:
                d = "%s/seeded/%s" % (V, s["id"]); os.makedirs(d, exist_ok=True)
                for fn, old, new in s["edits"]:
                    t = open(R + "/" + fn).read(); assert t.count(old) == 1, (s["id"], fn, t.count(old)); open(R + "/" + fn, "w").write(t.replace(old, new))
                diff = sh("git -C %s diff" % R).stdout; undo()
                open(d + "/patch.diff", "w").write(diff); open(d + "/demo.c", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO_SH % s.get("cflags", ""))
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                confirm(s["id"], "--check" in sys.argv)
