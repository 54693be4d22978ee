"""Runner of the model-based checks: builds the harness against /repo, runs TLC on the
specifications, records traces of the real code and validates them with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GONOSUMCHECK="1")
    e.setdefault("HOME", "/root")
    return e


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise CheckError(f"timeout after {timeout}s: {' '.join(map(str, cmd))[:200]}")


class Check:
    def __init__(self, pid, cfg):
        self.pid, self.cfg = pid, cfg
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.gens = {}
        self.violations = []       # (reason, replay dict)
        self.findings = []
        self.states = self.transitions = self.traces = self.events = 0
        self.ops, self.samples, self.mcinfo, self.tlc_steps = {}, [], [], 0
        self.gobin = None
        self.deadline = self.t0 + (840 if TIER == "quick" else 6 * 3600)

    # -- building ----------------------------------------------------------
    def build_go(self):
        src = os.path.join(self.tmp, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        if REPO != "/repo":
            p = os.path.join(src, "go.mod")
            s = open(p).read().replace("=> /repo", "=> " + REPO)
            open(p, "w").write(s)
        self.gobin = os.path.join(self.tmp, "vh")
        r = run(["go", "build", "-o", self.gobin, "."], 600, cwd=src, env=goenv())
        if r.returncode:
            raise CheckError("harness build failed:\n" + r.stdout[-4000:])

    def build_ts(self):
        """Bundle the client library of /repo/src together with the node drivers."""
        self.tsdir = os.path.join(self.tmp, "ts")
        os.makedirs(self.tsdir)
        es = "/opt/veriftools/node/node_modules/.bin/esbuild"
        ent = os.path.join(VERIF, "harness", "ts", "driver.ts")
        r = run([es, ent, "--bundle", "--platform=node", "--format=cjs", "--log-level=error",
                 f"--alias:@repo={REPO}/src", f"--outfile={self.tsdir}/driver.js"], 120)
        if r.returncode:
            raise CheckError("client build failed:\n" + r.stdout[-4000:])

    def build_cli(self):
        self.cli = os.path.join(self.tmp, "appendable")
        r = run(["go", "build", "-o", self.cli, "./cmd"], 600, cwd=REPO, env=goenv())
        if r.returncode:
            raise CheckError("cli build failed:\n" + r.stdout[-4000:])

    def build_rust(self):
        tgt = os.path.join(self.tmp, "cargo")
        e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt)
        r = run(["cargo", "build", "--offline", "-p", "jsonl2json"], 600, cwd=REPO, env=e)
        if r.returncode:
            raise CheckError("rust build failed:\n" + r.stdout[-4000:])
        self.rustbin = os.path.join(tgt, "debug", "jsonl2json")

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=4, heap="3g", extra=(), timeout=None):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
        r = run(cmd, timeout or max(30, self.deadline - time.time()), cwd=SPEC, env=e)
        shutil.rmtree(meta, ignore_errors=True)
        return r.stdout

    def mc(self, module, cfg, workers=4):
        out = self.tlc(module, cfg, workers=workers)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        if "No error has been found" not in out or not m:
            raise CheckError(f"model checking of {module}/{cfg} failed:\n" + out[-3000:])
        g, d, _ = (int(x.replace(",", "")) for x in m[-1])
        with self.lock:
            self.states += d
            self.transitions += g
            self.mcinfo.append({"module": module, "config": cfg, "distinct": d, "generated": g})

    def gen(self, module, cfg):
        """Model-generated tests: the transitions TLC explores, one JSON object per line (made once per run)."""
        with self.lock:
            k = self.gens.setdefault((module, cfg), {"lock": threading.Lock()})
        with k["lock"]:
            if "file" not in k:
                k["file"] = self._gen(module, cfg)
            return k["file"]

    def _gen(self, module, cfg):
        out = self.tlc(module, cfg, workers=1)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out[-4000:])
        if "No error has been found" not in out or not m:
            raise CheckError(f"generation from {module}/{cfg} failed:\n" + out[-3000:])
        p = os.path.join(self.tmp, f"gen-{module}-{cfg}.jsonl")
        n = 0
        with open(p, "w") as f:
            for line in out.splitlines():
                if line.startswith('"TR '):
                    f.write(json.loads(line)[3:] + "\n")
                    n += 1
        if n == 0:
            raise CheckError(f"generation from {module}/{cfg} produced nothing")
        with self.lock:
            self.states += int(m[-1][1].replace(",", ""))
            self.transitions += int(m[-1][0].replace(",", ""))
            self.mcinfo.append({"module": module, "config": cfg, "distinct": int(m[-1][1].replace(",", "")),
                                "generated": int(m[-1][0].replace(",", "")), "tests_generated": n})
        return p

    # -- traces --------------------------------------------------------------
    def drive(self, driver, lang="go", probe=False, script=None, name=None, seed=SEED):
        name = name or driver.replace(" ", "_")
        out = os.path.join(self.tmp, f"{name}{'-probe' if probe else ''}.ndjson")
        d = os.path.join(self.tmp, "d-" + name + ("-probe" if probe else ""))
        os.makedirs(d, exist_ok=True)
        if lang == "go":
            cmd = [self.gobin]
        else:
            cmd = ["node", os.path.join(self.tsdir, "driver.js")]
        cmd += ["-seed", str(seed), "-tier", TIER, "-out", out, "-dir", d]
        if script:
            cmd += ["-in", script]
        if probe:
            cmd += ["-probe"]
        cmd.append(driver)
        e = dict(os.environ, VH_GO=self.gobin or "", VH_CLI=getattr(self, "cli", ""), VH_RUST=getattr(self, "rustbin", ""))
        r = run(cmd, max(30, self.deadline - time.time()), env=e)
        if r.returncode:
            raise CheckError(f"driver {driver} failed ({r.returncode}):\n" + r.stdout[-4000:])
        s = json.load(open(out.replace(".ndjson", ".sum.json")))
        if not probe:
            with self.lock:
                self.traces += s["traces"]
                self.events += s["events"]
                for k, v in s["ops"].items():
                    self.ops[f"{driver}:{k}"] = self.ops.get(f"{driver}:{k}", 0) + v
                self.samples += s.get("samples", [])[:2]
        shutil.rmtree(d, ignore_errors=True)
        return out

    def validate(self, out, module, cfg=None, workers=4, heap="4g", env=None, seed=SEED):
        """Returns None when every trace is accepted, else (reason, replay)."""
        e = {"TRACE_FILE": out}
        e.update(env or {})
        o = self.tlc(module, cfg or module + ".cfg", env=e, workers=workers, heap=heap)
        if "No error has been found" in o:
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", o)
            with self.lock:
                self.tlc_steps += int(m[-1][1].replace(",", "")) if m else 0
            return None
        if "OutOfMemoryError" in o or "Java heap" in o or "StackOverflow" in o or "Parsing or semantic" in o or \
                ("Finished computing initial states" not in o and "Computed" not in o and "initial state" not in o):
            raise CheckError(f"TLC failed on {module}:\n" + o[-4000:])
        tid = [int(x) for x in re.findall(r"/\\ tid = (\d+)", o)]
        ls = [int(x) for x in re.findall(r"/\\ l = (\d+)", o)]
        err = [x for x in o.splitlines() if x.startswith("Error:")]
        if not tid or not ls:
            raise CheckError(f"TLC failed on {module}:\n" + o[-4000:])
        t, l = tid[-1], ls[-1]
        with open(out) as f:
            for i, line in enumerate(f, 1):
                if i == t:
                    tr = json.loads(line)
                    break
            else:
                raise CheckError(f"TLC failed on {module}: no trace {t}\n" + o[-4000:])
        evs = tr["ev"]
        if "Deadlock" in " ".join(err):
            k, why = l, "the specification does not allow this event"
        elif "Invariant" in " ".join(err) or "property" in " ".join(err):
            k, why = max(l - 1, 1), "; ".join(err)[:200]
        else:
            k, why = l, "the event cannot be explained: " + "; ".join(err)[:300] + " " + " ".join(re.findall(r"(?m)^(?:The exception was|: |java\.|tlc2\.|The error occurred|Attempted|The first argument|The second argument).*", o))[:400]
        ev = evs[k - 1] if 0 < k <= len(evs) else None
        state = o[o.rfind("\nState "):][:6000]
        return why, {"property": self.pid, "spec": module, "trace": tr["id"], "event_index": k, "event": ev, "why": why,
                     "seed": seed, "tier": TIER, "cfg": tr.get("cfg"), "events_up_to": evs[:k], "spec_state": state}

    def trace_check(self, driver, module, lang="go", cfg=None, workers=4, heap="4g", gen=None, env=None, rep=0):
        script = None
        if gen:
            script = self.gen(gen["module"], gen.get(TIER, gen.get("cfg")))
        seed = SEED + 7919 * rep
        out = self.drive(driver, lang=lang, script=script, name=(driver if lang == "go" else lang + "-" + driver) + ("-gen" if gen else "") + (f"-{rep}" if rep else ""), seed=seed)
        v = self.validate(out, module, cfg, workers=workers, heap=heap, env=env, seed=seed)
        if v:
            with self.lock:
                self.violations.append(v)
        if os.path.getsize(out) > 200 << 20:
            os.remove(out)

    def probe_check(self, kf, lang="go"):
        """A known finding: its probe trace is still rejected -> print the finding."""
        out = self.drive(kf["driver"], lang=lang, probe=True, name=kf["id"])
        # keep the traces of this finding only
        sel = out + ".sel"
        n = 0
        with open(out) as f, open(sel, "w") as g:
            for line in f:
                if json.loads(line)["id"] == kf["trace"]:
                    g.write(line)
                    n += 1
        if n == 0:
            raise CheckError(f"probe {kf['id']} produced no trace {kf['trace']}")
        v = self.validate(sel, kf["spec"], kf.get("cfg"), workers=1)
        if v is None:
            return
        ev = v[1]["event"] or {}
        if kf.get("event") and any(ev.get(k) != x for k, x in kf["event"].items()):
            with self.lock:
                self.violations.append(v)
            return
        with self.lock:
            self.findings.append(kf)

    # -- result --------------------------------------------------------------
    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_events": self.events,
               "trace_spec_states": self.tlc_steps, "model_checking_runs": self.mcinfo,
               "events_by_operation": self.ops, "samples": self.samples[:6] or ["none"]}
        cov.update(self.cfg.get("coverage", {}))
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.cfg.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kf in sorted(self.findings, key=lambda k: k["id"]):
            print(f"KNOWN-FINDING: property={self.pid} {kf['what']}")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for i, (why, rep) in enumerate(self.violations):
                p = os.path.join(VERIF, "replays", f"{self.pid}-{SEED}-{i}.json")
                with open(p, "w") as f:
                    json.dump(rep, f, indent=1)
                print(f"# trace {rep['trace']} event {rep['event_index']}: {json.dumps(rep['event'])[:600]}")
                print(f"# {why}")
                print(f"VIOLATION property={self.pid} replay={p}")
            return 1
        print(f"OK property={self.pid} tier={TIER} seed={SEED} states={self.states} traces={self.traces} "
              f"events={self.events} wall={time.time() - self.t0:.1f}s")
        return 0


def main(pid, props):
    if pid not in props:
        print(f"unknown property {pid}", file=sys.stderr)
        return 2
    cfg = props[pid]
    c = Check(pid, cfg)
    try:
        langs = {t.get("lang", "go") for t in cfg["traces"]} | set(cfg.get("needs", []))
        builds = [c.build_go]
        if "ts" in langs:
            builds.append(c.build_ts)
        if "cli" in langs:
            builds.append(c.build_cli)
        if "rust" in langs:
            builds.append(c.build_rust)
        with cf.ThreadPoolExecutor(4) as ex:
            futs = [ex.submit(c.mc, m["module"], m.get(TIER, m.get("cfg")), m.get("workers", 2)) for m in cfg.get("mc", [])
                    if m.get(TIER, m.get("cfg"))]
            for b in builds:
                b()
            for t in cfg["traces"]:
                a = {k: v for k, v in t.items() if k not in ("driver", "spec", "reps")}
                for rep in range(1 if t.get("gen") else t.get("reps", 6)):
                    futs.append(ex.submit(c.trace_check, t["driver"], t["spec"], rep=rep, **a))
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                kfs = json.load(f)["findings"]
            for kf in kfs:
                if kf["property"] == pid:
                    futs.append(ex.submit(c.probe_check, kf, kf.get("lang", "go")))
            for f in futs:
                f.result()
        return c.finish()
    except CheckError as e:
        if c.violations:   # what was already shown against the real code stands
            return c.finish()
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
