"""Runs contracts symbolically: every choice plan of every contract, each in a worker process."""
import os, sys, time, json, fcntl, traceback, importlib, tempfile, hashlib
from . import build, ir, registry
from .layout import Layout
from .sym import SymH
from .engine import LimitExceeded
from .ir import Unsupported
from .terms import reset_fresh

MODS = ["vector", "strings", "strings_search", "bitset", "macros", "system", "atomic", "libc", "format", "list", "argparse", "containers"]
def load_contracts():
    for m in MODS: importlib.import_module("contracts." + m)
    return registry.ALL

class Setup:
    """compiled views of the current /repo sources"""
    def __init__(self, work):
        self.work = work; self.layout = Layout(build.incs(), build.DEFS, work); self.mods = {}; self.envs = {}
    def module(self, which="lib"):
        if which not in self.mods:
            p = os.path.join(self.work, "mod_%s.ll" % which)
            if not os.path.exists(p):
                if which == "lib": txt = build.to_ir(self.work, build.sources(), name="lib")
                else:
                    f, defs = registry.HARNESS[which][:2]
                    txt = build.to_ir(self.work, [f] if isinstance(f, str) else f, defs, name=which)
                open(p, "w").write(txt)
            self.mods[which] = ir.parse_module(open(p).read())
        return self.mods[which]

    def env(self, which="lib"):
        """native build of the same sources"""
        from . import nat
        if which not in self.envs:
            so = os.path.join(self.work, "so_%s.so" % which); exts = None
            if which != "lib": exts = registry.HARNESS[which][2] if len(registry.HARNESS[which]) > 2 else None
            with open(so + ".lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                if not os.path.exists(so): self._link(which, exts)
            self.envs[which] = nat.Env(so, self.layout, nat.sigs_of(self.module(which)))
            if which != "lib": self.envs[which].exts = exts
        return self.envs[which]
    def _link(self, which, exts):
            if which == "lib": so = build.to_so(self.work, build.sources(), name="so_lib")
            else:
                f, defs = registry.HARNESS[which][:2]
                so = build.to_so(self.work, [f] if isinstance(f, str) else f, defs, name="so_" + which, extra=[build.ext_stubs(self.work, which, exts)] if exts else (), shim_default=not exts)
            return so

def next_plan(taken):
    """lexicographic successor of the choices taken, or None"""
    t = [i for _, _, i in taken]; n = [k for _, k, _ in taken]
    while t:
        if t[-1] + 1 < n[len(t) - 1]: t[-1] += 1; return t
        t.pop()
    return None

def run_plan(setup, c, plan, props, limit):
    """one choice plan of one contract -> (result dict, next plan)"""
    reset_fresh(); t0 = time.time()
    opts = dict(c.opts); opts["props"] = props; opts["deadline"] = time.time() + limit
    h = SymH(setup.module(c.opts.get("module", "lib")), setup.layout, c.name, list(plan), opts)
    h.ctx.safety_props = c.opts.get("safety", c.props); h.ctx.stop_props = set(props) if props else None
    res = {"contract": c.name, "plan": None, "error": None, "obls": [], "covers": {}}
    try: c.fn(h)
    except Unsupported as e: res["error"] = "unsupported: %s" % e; res["tb"] = traceback.format_exc()[-1500:]
    except LimitExceeded as e: res["error"] = "limit: %s" % e
    except RecursionError as e: res["error"] = "limit: recursion depth"
    except Exception as e: res["error"] = "internal: %s: %s" % (type(e).__name__, e); res["tb"] = traceback.format_exc()[-3000:]
    res["plan"] = [(n, i) for n, k, i in h.taken]; res["label"] = h._lbl()
    res["choice"] = list(h.plan[:len(h.taken)])
    for o in h.ctx.obls:
        res["obls"].append({"name": o.name, "kind": o.kind, "props": list(o.props), "status": o.status, "backend": o.backend, "secs": round(o.secs, 4),
                            "model": o.model, "detail": o.detail if o.status != "discharged" or o.kind == "inv" else ""})
    res["covers"] = h.covers; res["called"] = h.called; res["stats"] = h.ctx.stats; res["secs"] = time.time() - t0
    res["used"] = sorted(h.ctx.used_funcs); res["ext"] = sorted(h.ctx.used_externals)
    return res, next_plan(h.taken)
