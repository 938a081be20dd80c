#!/usr/bin/env python3
"""mechanical mutants of a source file: builds each in a scratch clone, keeps those the stable tests pass, runs every contract that reaches the
mutated function natively and then through the verifier.   mutate.py FILE [--fn substr] [--skip ids-file] [-j 8]   (scratch: /tmp/mut)"""
import sys, os, re, subprocess, json, argparse, multiprocessing as mp, time
V = "/verif"; ROOT = "/tmp/mut"
def sh(c, t=300):
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class X: returncode = 99; stdout = stderr = "timeout"
        return X
def functions(txt):
    L = txt.split("\n"); i = 0; out = []
    while i < len(L):
        if re.match(r"^(ZYCORE_EXPORT |static |ZYAN_INLINE |ZYAN_NORETURN )*(const )?\w+\**( |\*)\**\w+\(", L[i]) and not L[i].rstrip().endswith(";"):
            j = i
            while j < len(L) and not L[j].startswith("{") and not L[j].rstrip().endswith(";"): j += 1
            if j < len(L) and L[j].startswith("{"):
                k = j
                while not L[k].startswith("}"): k += 1
                out.append((re.search(r"(\w+)\(", L[i]).group(1), j + 1, k)); i = k
        i += 1
    return L, out
REL = [(r"(?<![<>=!\-&|])<(?![<=])", ["<=", ">"]), (r"<=", ["<", ">"]), (r"(?<![<>=!\-])>(?![>=])", [">=", "<"]), (r">=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * ", " % "]), (r" % ", [" / "]), (r"<<(?!=)", [">>"]), (r">>(?!=)", ["<<"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r"\^", ["&"]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\|=", ["&="]), (r"&=(?!=)", ["|="]), (r"~", [""]), (r"(?<=[(, =])!(?!=)", [""])]
def mutants(fn):
    txt = open("/repo/" + fn).read(); L, F = functions(txt); out = []
    for name, a, b in F:
        inc = False
        for n in range(a, b):
            l = L[n]; s = l.strip()
            if s.startswith("/*"): inc = True
            if inc:
                if "*/" in s: inc = False
                continue
            if not s or s.startswith(("//", "#", "ZYAN_ASSERT", "ZYAN_UNUSED", "{", "}", "*")) : continue
            code = l.split("//")[0]
            strs = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"|\'[^\']*\'', code)]
            ok = lambda p: not any(x <= p < y for x, y in strs)
            for r, subs in REL:
                for m in re.finditer(r, code):
                    if not ok(m.start()): continue
                    for x in subs: out.append((name, n, code[:m.start()] + x + code[m.end():]))
            for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])", code):
                if ok(m.start()):
                    v = int(m.group(1), 0)
                    for x in {v + 1, v - 1} - {-1} if v else {1}: out.append((name, n, code[:m.start()] + str(x) + code[m.end():]))
            m = re.match(r"^(\s*)return (.*);$", code)
            if m:
                for x in ("ZYAN_STATUS_SUCCESS", "ZYAN_STATUS_FALSE", "ZYAN_STATUS_INVALID_OPERATION"):
                    if m.group(2) != x and "STATUS" in m.group(2): out.append((name, n, m.group(1) + "return %s;" % x))
                if "STATUS" not in m.group(2): out.append((name, n, m.group(1) + "%s; return ZYAN_STATUS_SUCCESS;" % m.group(2)))
            elif s.endswith(";") and not re.match(r"^(const |struct )?[A-Z]\w+\**\s+\**\w+", s) and not s.startswith(("return", "break", "continue", "goto", "case", "default")) and s.count("(") == s.count(")"):
                out.append((name, n, ";"))
                m = re.match(r"^ZYAN_CHECK\((.*)\);$", s)
                if m: out.append((name, n, "(void)%s;" % m.group(1)))
            if s in ("break;", "continue;"): out.append((name, n, ";"))
            m = re.match(r"^(\s*(?:else )?if |\s*while )\((.*)\)$", code)
            if m:
                for x in ("!(%s)" % m.group(2), "0", "1"):
                    if x == "1" and "while" in m.group(1): continue
                    out.append((name, n, "%s(%s)" % (m.group(1), x)))
    seen = set(); r = []
    for x in out:
        if x[1:] not in seen: seen.add(x[1:]); r.append(x)
    return L, r
def setup(w):
    d = "%s/w%d" % (ROOT, w)
    if not os.path.exists(d): sh("git clone -q /repo %s" % d)
    sh("cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DZYCORE_BUILD_TESTS=ON -DZYCORE_BUILD_EXAMPLES=OFF -DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON && ninja -C _build" % d)
    return d
def work(w, q, res, fn, L, tl):
    d = setup(w); stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    while True:
        i, m = q.get()
        if m is None: return
        M = list(L); M[m[1]] = m[2]; open("%s/%s" % (d, fn), "w").write("\n".join(M))
        p = sh("cd %s && ninja -C _build" % d)
        if p.returncode: res.put((i, "nobuild", "")); continue
        o = d + "/_build/o.json"; sh("rm -f %s; timeout 60 python3 /opt/vp/run_gtests.py %s/_build %s/_build/r.txt; python3 /opt/vp/results.py %s lines:%s/_build/r.txt" % (o, d, d, o, d))
        try: miss = stable - set(json.load(open(o))["passed"])
        except Exception: miss = stable
        if miss: res.put((i, "tests", "")); continue
        c = sh("cd %s && ZVC_REPO=%s timeout %d python3-vt tools/mutcheck.py %s" % (V, d, tl, m[0]), tl + 30)
        out = [x for x in c.stdout.split("\n") if x.startswith("RESULT ")]
        res.put((i, out[-1][7:] if out else "ERROR rc %d %s" % (c.returncode, (c.stderr or "")[-300:]), ""))
if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("file"); ap.add_argument("--fn", default=""); ap.add_argument("-j", type=int, default=8); ap.add_argument("--every", type=int, default=1); ap.add_argument("--off", type=int, default=0); ap.add_argument("--tl", type=int, default=200); ap.add_argument("--count", action="store_true")
    a = ap.parse_args(); os.makedirs(ROOT, exist_ok=True)
    L, ms = mutants(a.file); ms = [m for m in ms if a.fn in m[0]][a.off::a.every]; print("%s: %d mutants" % (a.file, len(ms))); sys.stdout.flush()
    if a.count: sys.exit()
    q = mp.Queue(); res = mp.Queue()
    for i, m in enumerate(ms): q.put((i, m))
    for _ in range(a.j): q.put((0, None))
    ps = [mp.Process(target=work, args=(w, q, res, a.file, L, a.tl)) for w in range(a.j)]
    for p in ps: p.start()
    n = {}
    for _ in ms:
        i, r, x = res.get(); k = r.split()[0]; n[k] = n.get(k, 0) + 1
        if k not in ("nobuild", "tests", "NATIVE"):
            m = ms[i]; print("%-9s %s:%d %s\n     - %s\n     + %s\n     %s" % (k, a.file, m[1] + 1, m[0], L[m[1]].strip(), m[2].strip(), r[:300])); sys.stdout.flush()
    print("DONE", a.file, n)
