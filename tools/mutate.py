#!/usr/bin/env python3
"""Mutation campaign: applies small changes to copies of the repository, keeps those that build and pass
the repository's own tests, and runs the traces of the checks that should notice them.

  mutate.py list.jsonl out.jsonl [-n per-file] [-j workers] [-s seed]   (list from gomut / tsmut.js)
"""
import argparse, concurrent.futures as cf, json, os, queue, random, resource, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
MAP = [
    ("pkg/pagefile", "C01 C05 C07 C09"), ("pkg/mmap", "C02"), ("pkg/bptree", "C03 C04 C05 C12 C09"), ("pkg/btree", "C06 C05"),
    ("pkg/linkedpage", "C07 C08 C05"), ("pkg/appendable", "C08 C09 C10 C11 C12 C15 C05"), ("pkg/handlers/jsonl", "C09 C10 C11 C13 C12 C05"),
    ("pkg/handlers/csv", "C14 C05"), ("pkg/ngram", "C16 C09"), ("pkg/hnsw/heap", "C17 C18"), ("pkg/hnsw", "C18 C19 C20"),
    ("pkg/vectorpage", "C20 C05"), ("pkg/encoding", "C03 C09 C24"), ("pkg/pointer", "C03 C06 C09"), ("cmd", "C15"),
    ("src/bptree", "C24 C21 C25"), ("src/util", "C24 C25"), ("src/db/database", "C21 C22 C25"), ("src/db", "C21 C22"), ("src/ngram", "C16 C22"),
    ("src/resolver", "C23 C25"), ("src/file", "C24 C25 C23"), ("src", "C25 C24"), ("scripts", "C26"),
]
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOMEMLIMIT="2GiB")


def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    os.setsid()


def run(cmd, cwd, t, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         preexec_fn=limits)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -99, "timeout"


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def one(m, wd):
    f = os.path.join(wd, m["file"])
    src = open(f, "rb").read()
    try:
        open(f, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        res = dict(m)
        if f.endswith(".go"):
            c, o = run(["go", "build", "./..."], wd, 300)
            if c:
                return dict(res, r="nobuild")
            c, o = run(["go", "test", "-vet=off", "-failfast", "-timeout", "120s", "./..."], wd, 400)
            if c:
                return dict(res, r="tests", why=[x for x in o.splitlines() if x.startswith(("--- FAIL", "FAIL", "panic"))][:2])
        elif f.endswith(".ts"):
            c, o = run(["/opt/veriftools/node/node_modules/.bin/esbuild", m["file"], "--log-level=error", "--outfile=/dev/null"], wd, 60)
            if c:
                return dict(res, r="nobuild")
        pids = next(p for k, p in MAP if m["file"].startswith(k)).split()
        if m.get("file") == "pkg/handlers/jsonl.go" and m["func"].startswith("fvToken"):
            pids = ["C09"] + pids
        c, o = run([sys.executable, os.path.join(V, "tools", "mutcheck.py"), *pids], V, 900, dict(ENV, VERIF_REPO=wd))
        lines = o.strip().splitlines()
        if c == 1:
            return dict(res, r="caught", why=lines[-2:])
        if c == 0:
            return dict(res, r="SURVIVED")
        return dict(res, r="ERROR", why=[o[-1500:]])
    finally:
        open(f, "wb").write(src)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("list"), ap.add_argument("out")
    ap.add_argument("-n", type=int, default=10)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-f", default="")
    a = ap.parse_args()
    ms = {}
    for l in open(a.list):
        m = json.loads(l)
        if m["file"].startswith(tuple(a.f.split(","))):
            ms.setdefault(m["file"], []).append(m)
    rnd = random.Random(a.s)
    done = set()
    if os.path.exists(a.out):
        done = {(x["file"], x["off"], x["new"]) for x in map(json.loads, open(a.out))}
    todo = []
    for f in sorted(ms):
        l = [m for m in ms[f]]
        rnd.shuffle(l)
        todo += [m for m in l[:a.n] if (m["file"], m["off"], m["new"]) not in done]
    rnd.shuffle(todo)
    q = queue.Queue()
    for i in range(a.j):
        wd = f"{W}/w{a.out.replace('/', '_')}{i}"
        shutil.rmtree(wd, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", wd], check=True)
        q.put(wd)

    def job(m):
        wd = q.get()
        try:
            return one(m, wd)
        except Exception as e:
            return dict(m, r="ERROR", why=[repr(e)])
        finally:
            q.put(wd)
    t0 = time.time()
    with cf.ThreadPoolExecutor(a.j) as ex, open(a.out, "a") as out:
        for i, r in enumerate(ex.map(job, todo)):
            out.write(json.dumps(r) + "\n")
            out.flush()
    print("done", len(todo), time.time() - t0)
    for i in range(a.j):
        shutil.rmtree(f"{W}/w{a.out.replace('/', '_')}{i}", ignore_errors=True)


main()
