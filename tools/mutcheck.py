#!/usr/bin/env python3
"""mutcheck.py PID...: the traces (not the models) of some checks against VERIF_REPO, one harness build; stops at the first violation."""
import json, os, sys, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bin"))
import vlib
from props import PROPS

CACHE = "/tmp/mut/gen"
os.makedirs(CACHE, exist_ok=True)


class C(vlib.Check):
    def gen(self, module, cfg):
        p = os.path.join(CACHE, f"{module}-{cfg}.jsonl")
        if not os.path.exists(p):
            q = super().gen(module, cfg)
            shutil.copy(q, p + f".{os.getpid()}")
            os.rename(p + f".{os.getpid()}", p)
        return p


REPS = int(os.environ.get("REPS", "2"))
base = None
try:
    for pid in sys.argv[1:]:
        cfg = PROPS[pid]
        c = C(pid, cfg)
        if base is None:
            base = c
            c.build_go()
        langs = {t.get("lang", "go") for t in cfg["traces"]} | set(cfg.get("needs", []))
        for k, b in (("ts", "tsdir"), ("cli", "cli"), ("rust", "rustbin")):
            if k in langs:
                if not hasattr(base, b):
                    getattr(base, "build_" + k)()
                setattr(c, b, getattr(base, b))
        c.gobin = base.gobin
        try:
            with cf.ThreadPoolExecutor(2) as ex:
                fs = []
                for t in cfg["traces"]:
                    a = {k: v for k, v in t.items() if k not in ("driver", "spec", "reps")}
                    for rep in range(1 if t.get("gen") else min(REPS, t.get("reps", 6))):
                        fs.append(ex.submit(c.trace_check, t["driver"], t["spec"], rep=rep, **a))
                for f in fs:
                    f.result()
        except vlib.CheckError as e:
            if not c.violations:
                print(f"ERROR {pid} {str(e)[-1200:]}")
                sys.exit(2)
        finally:
            if c is not base:
                shutil.rmtree(c.tmp, ignore_errors=True)
        if c.violations:
            why, r = c.violations[0]
            print(f"{pid} {r['spec']} {json.dumps(r['event'])[:300]}")
            sys.exit(1)
finally:
    if base:
        shutil.rmtree(base.tmp, ignore_errors=True)
