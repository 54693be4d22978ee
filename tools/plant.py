#!/usr/bin/env python3
"""plant.py SPEC.py: plant one bug and keep it under seeded/<id> when it is confirmed.
SPEC.py defines id, property, needs, breaks, edits=[(file, old, new)], demo (dict name -> text), run (shell line(s) of demo.sh after the setup)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# run with cwd = repository root; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d /tmp/demo-XXXXXX)
trap 'cd /; rm -rf "$T"' EXIT
gotest() { # gotest <package dir>: runs TestDemo of demo_test.go inside the package
  echo "{\\"Replace\\":{\\"$PWD/$1/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/o.json"
  TMPDIR="$T" go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run TestDemo "./$1"
}
tsrun() { # tsrun: bundles demo.ts with the client's sources (@src) and runs it
  /opt/veriftools/node/node_modules/.bin/esbuild "$D/demo.ts" --bundle --platform=node --format=esm "--alias:@src=$PWD/src" "--outfile=$T/demo.mjs" --log-level=error && timeout 120 node "$T/demo.mjs"
}
'''


def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def names(x):
    if isinstance(x, dict):
        return [n for k, v in x.items() for n in ([k] if "/Test" in k else []) + names(v)]
    if isinstance(x, list):
        return [n for v in x for n in names(v)]
    return [x] if isinstance(x, str) and "/Test" in x else []


BASE = set(names(json.load(open("/opt/vp/BASELINE.json"))))


def main(path):
    g = {}
    exec(open(path).read(), g)
    for b in g["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        T = tempfile.mkdtemp(prefix="plant-")
        R = T + "/repo"
        try:
            sh(f"git -C /repo worktree list; cp -a /repo {R}", "/")
            sh("git checkout -q -- . ; git clean -fdq", R)
            D = os.path.join(T, "seed")
            os.makedirs(D)
            for n, t in b["demo"].items():
                open(os.path.join(D, n), "w").write(t)
            open(os.path.join(D, "demo.sh"), "w").write(HEAD + b["run"].strip() + "\n")
            os.chmod(os.path.join(D, "demo.sh"), 0o755)
            r = sh(f"bash {D}/demo.sh", R)
            if r.returncode:
                print(b["id"], "DEMO FAILS ON CLEAN TREE\n", r.stdout[-2500:]); continue
            bad = False
            for f, o, n in b["edits"]:
                s = open(f"{R}/{f}").read()
                if s.count(o) != 1:
                    print(b["id"], f, "old text occurs", s.count(o), "times"); bad = True; break
                open(f"{R}/{f}", "w").write(s.replace(o, n))
            if bad:
                continue
            d = sh("git diff", R).stdout
            r = sh("go build ./... && cargo build --offline --workspace -q", R, 600) if any(f.endswith(".rs") for f, _, _ in b["edits"]) else sh("GOFLAGS=-mod=mod go build ./...", R, 600)
            if r.returncode:
                print(b["id"], "DOES NOT BUILD\n", r.stdout[-1500:]); continue
            r = sh(f"bash {D}/demo.sh", R)
            if r.returncode == 0:
                print(b["id"], "DEMO PASSES WITH THE BUG"); continue
            why = r.stdout[-300:]
            if any(f.endswith(".go") for f, _, _ in b["edits"]):
                r = sh("go test -json -vet=off -count=1 -timeout 10m ./...", R, 700)
                ok = set()
                for l in r.stdout.splitlines():
                    if l.startswith("{"):
                        x = json.loads(l)
                        if x.get("Action") == "pass" and "Test" in x:
                            ok.add(x["Package"] + "/" + x["Test"])
                bads = sorted(BASE - ok)
                if bads:
                    print(b["id"], "EXISTING TESTS FAIL", bads[:4]); continue
            out = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(D, out)
            open(out + "/patch.diff", "w").write(d)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print(b["id"], "OK", why.replace("\n", " | ")[-160:])
        finally:
            shutil.rmtree(T, ignore_errors=True)


main(sys.argv[1])
