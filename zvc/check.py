"""Decides one property: discharges every obligation of every contract that carries it on /repo's current source."""
import os, sys, time, json, argparse, tempfile, shutil, traceback, multiprocessing as mp, signal
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import build, runner, nat
from .sym import SymH
from .terms import reset_fresh

class EnumStop(Exception): pass
def plans_of(setup, c):
    """all choice plans of a contract (the contract is evaluated up to its call)"""
    out = []; plan = []
    while plan is not None:
        reset_fresh()
        h = SymH(setup.module(c.opts.get("module", "lib")), setup.layout, c.name, list(plan), dict(c.opts))
        def stop(*a, **k): raise EnumStop()
        h.call = stop
        try: c.fn(h)
        except EnumStop: pass
        t = h.taken; out.append([i for _, _, i in t]); plan = runner.next_plan(t)
    return out

G = {}
def _init(): signal.signal(signal.SIGINT, signal.SIG_IGN)
def prove(task):
    ci, plan, limit, tmo = task
    c = G["contracts"][ci]; c.opts["timeout_ms"] = tmo
    try: r, _ = runner.run_plan(G["setup"], c, plan, [G["prop"]], limit)
    except Exception as e: r = {"contract": c.name, "error": "internal: " + traceback.format_exc()[-1500:], "obls": [], "covers": {}, "choice": plan, "plan": [], "label": "", "secs": 0, "called": [], "used": [], "ext": [], "stats": {}}
    r["ci"] = ci; r["choice"] = plan; return r
def prove_again(task):
    """the same case with four times the solver time and another solver seed, for proofs lost to chance or to a busy machine"""
    from .engine import Ctx
    Ctx.time_scale = 4; Ctx.lia_seed = 17
    return prove(task)
def hunt(task):
    ci, plan, secs, base, fixed, free = task
    c = G["contracts"][ci]
    try:
        env = G["setup"].env(c.opts.get("module", "lib")); env.wanted = [G["prop"]]
        v, n, i = nat.search(env, c, plan, secs, base, fixed, free)
    except Exception as e: return ci, None, 0, traceback.format_exc()[-800:]
    return ci, v, n, i
def pool_map(fn, tasks, deadline, jobs, on=None, stop=None):
    """results of fn over tasks in worker processes; tasks whose worker dies, that pass the deadline or are stopped yield None.
    on(result) true or stop() true ends the run early."""
    out = [None] * len(tasks); todo = list(range(len(tasks))); rounds = 0; ended = False
    while todo and not ended and time.time() < deadline and rounds < 3:
        rounds += 1; ex = ProcessPoolExecutor(jobs if rounds == 1 else max(1, jobs // 4), mp_context=mp.get_context("fork"), initializer=_init, max_tasks_per_child=None)
        fs = {ex.submit(fn, tasks[i]): i for i in todo}; broken = False; left = set(fs)
        while left and not ended and time.time() < deadline:
            done, left = wait(left, timeout=max(0.05, min(1.0, deadline - time.time())), return_when=FIRST_COMPLETED)
            for f in done:
                try:
                    out[fs[f]] = f.result()
                    if on and on(out[fs[f]]): ended = True
                except BrokenProcessPool: broken = True
            if stop and stop(): ended = True
        for p in list((ex._processes or {}).values()):
            try: p.kill()
            except Exception: pass
        ex.shutdown(wait=False, cancel_futures=True)
        todo = [i for i in todo if out[i] is None] if broken else []
    return out

TRUSTED = [
 "clang 18 front end and the opt passes sroa, mem2reg, early-cse, simplifycfg and loop-simplify (source to LLVM IR)",
 "zvc: LLVM-IR symbolic executor / VC generator, object memory model, bit-vector to integer translation (in /verif/zvc)",
 "z3 (Python module) and cvc5 1.1.2",
 "the layout of structures as printed by clang for this target (x86-64)",
]
ASSUME = [
 "distinct objects passed by the caller (container, buffer, allocator, out-parameters) do not overlap unless the contract says so",
 "element sizes and cell counts are at most 2^47 and buffers fit the address space (count * element size does not wrap for memory that exists)",
 "sequential execution; callbacks run to completion and do not re-enter or modify the container they are called for",
 "the machine has 64-bit two's-complement arithmetic; integer arithmetic is exact machine arithmetic (not treated as mathematical)",
]
def known(prop):
    """known findings of this property: list of dicts {contract, obligation, text}"""
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("-j", type=int, default=os.cpu_count() or 4); ap.add_argument("-v", action="store_true")
    a = ap.parse_args(); t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1")); tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    budget = 520 if tier == "quick" else 640; hunt_s = 60 if tier == "quick" else 100
    work = tempfile.mkdtemp(prefix="zvc_%s_" % a.prop)
    try: rc = run(a, work, t0, seed, tier, budget, hunt_s)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def run(a, work, t0, seed, tier, budget, hunt_s):
    P = a.prop; setup = runner.Setup(work); cs = [c for c in runner.load_contracts() if P in c.props]
    if not cs: print("no contract carries %s" % P); return 2
    G.update(setup=setup, contracts=cs, prop=P)
    missing = {}
    for c in cs:
        m = setup.module(c.opts.get("module", "lib"))
        for f in c.fns:
            if f not in m.funcs: missing.setdefault(c.name, []).append(f)
    tasks = []
    tmo = 10000 if tier == "quick" else 30000; lim = 150 if tier == "quick" else 400
    for ci, c in enumerate(cs):
        for p in plans_of(setup, c): tasks.append((ci, p, max(lim, c.opts.get("limit", 0)), tmo))
    tasks.sort(key=lambda t: -cs[t[0]].opts.get("cost", 1))
    if a.v: print("%d contracts, %d cases, start %.1fs" % (len(cs), len(tasks), time.time() - t0))
    kf = known(P); hits = set()
    def is_known(ci, o): return next((j for j, k in enumerate(kf) if k["contract"] == cs[ci].name and k["obligation"] == o["name"]), None)
    obls = []; cov = {}; used = set(); ext = set(); fns = set(); stats = {}; failed_items = []; results = [None] * len(tasks)
    nat_runs = 0; nat_err = None; violation = None; found = []; t_prove = 0; todo = list(range(len(tasks))); hunted = set(); second = []; stopped = False
    def gather(i, r):
        """takes over the result of a case"""
        ci, pl = tasks[i][:2]; c = cs[ci]; results[i] = r
        if r["error"]: failed_items.append((ci, pl, "not verified: " + r["error"], None))
        used.update(r["used"]); ext.update(r["ext"]); fns.update(r["called"])
        for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
        for k, v in r["covers"].items(): cov[(c.name, k)] = cov.get((c.name, k), False) or v
        for o in r["obls"]:
            if P not in o["props"]: continue
            o["contract"] = c.name; o["choice"] = pl; obls.append(o)
            if o["status"] != "discharged":
                j = is_known(ci, o)
                if j is not None: hits.add(j)
                else: failed_items.append((ci, pl, "%s obligation '%s' (%s)" % (o["kind"], o["name"], o["status"]), o))
    # proof; after a failure the remaining cases get a short while, then failing inputs are searched for, then the proof goes on
    while todo and not found and time.time() < t0 + budget:
        first = []; t1 = time.time(); n0 = len(failed_items)
        def on(r):
            if r and not first:
                ci = r["ci"]
                if r["error"] or any(P in o["props"] and o["status"] != "discharged" and is_known(ci, o) is None for o in r["obls"]): first.append(time.time())
            return False
        def stop(): return bool(first) and time.time() > first[0] + min(30, max(8, 0.5 * (first[0] - t1)))
        res = pool_map(prove, [tasks[i] for i in todo], t0 + budget, a.j, on, stop)
        for i, r in zip(todo, res):
            if r is not None: gather(i, r)
        stopped = bool(first); left = [i for i in todo if results[i] is None]
        if not stopped:
            for i in left: failed_items.append((tasks[i][0], tasks[i][1], "not verified: limit: no result within the time limit", None))
            # vacuity: a precondition no input satisfies, or a documented outcome no path reaches, makes the proof empty
            for (n, k), v in cov.items():
                if not v: failed_items.append((next(i for i, c in enumerate(cs) if c.name == n), [], "vacuous: '%s' does not hold on any path" % k, None))
        t_prove = time.time() - t0; todo = left if stopped else []
        fresh = failed_items[n0:]
        if fresh:
            by = {}; ht = []
            for ci, pl, d, o in fresh: by.setdefault(ci, []).append((pl, o))
            if any(ci not in hunted for ci in by): by = {ci: v for ci, v in by.items() if ci not in hunted}
            hunted |= set(by)
            # rank: functions with a definite counterexample first
            order = sorted(by, key=lambda ci: -sum(1 for _, o in by[ci] if o and o["status"] == "failed"))
            per = max(6, min(hunt_s, hunt_s * a.j / (2.0 * len(order))))
            for ci in order:
                fixed = {}; pls = []
                for pl, o in by[ci]:
                    if pl and pl not in pls: pls.append(pl)
                    if o and o.get("model") and not fixed: fixed = {k: v for k, v in o["model"].items() if isinstance(v, int)}
                ht.append((ci, [], per, seed, {}, True))
                ht.append((ci, pls[0] if pls else [], per, seed + 10**6, fixed, not pls))
                if len(pls) > 1: ht.append((ci, pls[len(pls) // 2], per, seed + 2 * 10**6, fixed, False))
            hr = pool_map(hunt, ht, min(t0 + 840, time.time() + 2.5 * hunt_s), a.j, lambda r: bool(r and r[1] and (found.append(r) or True)))
            nat_runs += sum(r[2] for r in hr if r); nat_err = nat_err or next((r[3] for r in hr if r and r[3]), None)
    again = sorted({next(i for i, t in enumerate(tasks) if t[0] == ci and t[1] == pl) for ci, pl, d, o in failed_items if any(t[0] == ci and t[1] == pl for t in tasks)}) if failed_items and not found else []
    if again and len(again) <= 2 * a.j and not todo and time.time() < t0 + 700:
        res = pool_map(prove_again, [tasks[i][:2] + (tasks[i][2] * 3, tasks[i][3]) for i in again], t0 + 800, max(1, a.j // 2))
        for i, r in zip(again, res):
            if r is None or r["error"] or any(P in o["props"] and o["status"] != "discharged" and is_known(tasks[i][0], o) is None for o in r["obls"]): continue
            ci, pl = tasks[i][:2]
            failed_items[:] = [x for x in failed_items if not (x[0] == ci and x[1] == pl)]; obls[:] = [o for o in obls if not (o["contract"] == cs[ci].name and o["choice"] == pl)]
            gather(i, r); second.append([cs[ci].name, pl])
        failed_items[:] = [x for x in failed_items if not x[2].startswith("vacuous")]
        if not any(d.startswith("not verified") for _, _, d, _ in failed_items):
            for (n, k), v in cov.items():
                if not v: failed_items.append((next(i for i, c in enumerate(cs) if c.name == n), [], "vacuous: '%s' does not hold on any path" % k, None))
    if failed_items and not found and todo: failed_items.append((tasks[todo[0]][0], [], "not verified: %d further cases, out of time" % len(todo), None))
    if not failed_items and tier == "thorough":
        # cross-check of the contracts against the running code (finds a wrong model, not needed for the proof)
        ht = [(ci, [], 10, seed + 7, {}, True) for ci in range(len(cs)) if cs[ci].opts.get("native", True)]
        hr = pool_map(hunt, ht, t0 + 860, a.j, lambda r: bool(r and r[1] and (found.append(r) or True)))
        nat_runs = sum(r[2] for r in hr if r)
    if found: violation = found[0]
    rc = 0
    dis = sum(1 for o in obls if o["status"] == "discharged")
    by_backend = {}
    for o in obls:
        if o["status"] == "discharged": by_backend[o["backend"]] = by_backend.get(o["backend"], 0) + 1
    kinds = {}
    for o in obls: kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    if violation or failed_items:
        rc = 1; os.makedirs(os.path.join(ROOT, "build", "replay"), exist_ok=True); rp = os.path.join(ROOT, "build", "replay", "%s.json" % P)
        fo = [{"contract": cs[ci].name, "case": [list(x) for x in zip([n for n in pl], [])] or pl, "what": d, "kind": o and o["kind"], "solver_model": o and o["model"], "obligation": o and o["detail"], "backend": o and o["backend"]} for ci, pl, d, o in failed_items[:40]]
        doc = {"property": P, "failed_obligations": fo, "failed_count": len(failed_items)}
        if violation:
            c = cs[violation[0]]; doc.update({"contract": c.name, "functions": c.fns, "failing_input": violation[1], "replay_cmd": "bash /verif/replay.sh %s" % rp, "module": c.opts.get("module", "lib")})
        json.dump(doc, open(rp, "w"), indent=1, default=str)
        for ci, pl, d, o in failed_items[:12]: print("FAILED %s %s: %s" % (cs[ci].name, pl, d))
        if violation:
            v = violation[1]; print("failing input: %s: '%s' violated by %s with %s" % (cs[violation[0]].name, v["what"], v.get("call"), json.dumps(v.get("values"), default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (P, rp))
        else:
            print("no failing input in %d native runs%s" % (nat_runs, " (harness: %s)" % nat_err if nat_err else ""))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (P, rp))
    for j, k in enumerate(kf):
        if j in hits: print("KNOWN-FINDING: property=%s %s" % (P, k["text"]))
    if not obls and not rc: print("no obligation was generated for %s" % P); return 2
    cov_out = {"obligations": len(obls), "discharged": dis,
      "checker_cmd": "bash /verif/check.sh %s --tier %s" % (P, tier),
      "trusted_base": TRUSTED, "functions_under_contract": sorted(fns), "functions_verified_inline": sorted(used - fns), "contracts": [c.name for c in cs], "cases": len(tasks),
      "obligations_by_kind": kinds, "discharged_by_backend": by_backend, "solver_time_s": round(stats.get("sat_time", 0), 1), "solver_queries": stats.get("sat_checks", 0),
      "paths_forked": stats.get("forks", 0), "loops_cut_by_invariant": stats.get("loops", 0), "invariant_conjuncts_proved_inductive": stats.get("inv_kept", 0),
      "satisfiability_covers": len(cov), "covers_reached": sum(1 for v in cov.values() if v), "assumed_external_functions": sorted(ext),
      "bounded_stand_ins": [c.opts["bounded"] for c in cs if c.opts.get("bounded")], "native_runs": nat_runs, "cases_proved_at_second_try": second, "proof_wall_s": round(t_prove, 1),
      "sample_obligations": [{"contract": o["contract"], "kind": o["kind"], "name": o["name"], "backend": o["backend"]} for o in obls[:: max(1, len(obls) // 8)][:8]]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump({"property": P, "tier": tier, "seed": seed, "level": "proof", "coverage": cov_out, "assumptions": ASSUME + sorted({x for c in cs for x in c.opts.get("assume", [])}),
               "wall_s": round(time.time() - t0, 1), "violations": 1 if rc else 0}, open(os.path.join(ROOT, "evidence", P + ".json"), "w"), indent=1, default=str)
    print("%s: %d of %d obligations discharged over %d cases of %d contracts, %d functions, %.1fs" % (P, dis, len(obls), len(tasks), len(cs), len(fns), time.time() - t0))
    return rc
if __name__ == "__main__":
    try: main()
    except build.BuildError as e: print("cannot build /repo: %s" % e); sys.stdout.flush(); os._exit(2)
