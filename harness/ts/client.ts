import fs from "fs";
import { init } from "@repo/index";
import { IndexFile } from "@repo/file/index-file";
import { readIndexMeta } from "@repo/file/meta";
import { BPTree, ReferencedValue } from "@repo/bptree/bptree";
import { cache } from "@repo/resolver/cache";
import { CMPS, allowed, near, rows } from "./query";
import { GOOD, server, style } from "./ranges";
import { Ctx, Ev, Range, Rng, Trace, bytesOf, fileResolver, goCases, valueOf } from "./common";

type Pending = { answer: () => void; fail: () => void };

// Net holds the requests of a client until the driver answers them or lets them fail.
class Net {
  pending: Pending[] = [];
  asked = 0;
  constructor(private t: Trace) {}

  // answered by f, or failed with the error of bad
  hold<T>(f: () => T | Promise<T>, bad: () => T | Promise<T>): Promise<T> {
    this.asked++;
    this.t.ev.push({ op: "ask" });
    return new Promise<T>((res, rej) => {
      const via = (g: () => T | Promise<T>) => () => {
        try {
          res(g());
        } catch (x) {
          rej(x);
        }
      };
      this.pending.push({ answer: via(f), fail: via(bad) });
    });
  }

  resolver(b: Uint8Array) {
    const r = fileResolver(b);
    return (ranges: Range[]) => {
      const rs = ranges.map((x) => ({ ...x }));
      return this.hold(
        () => r(rs),
        () => {
          throw new Error("request failed");
        },
      );
    };
  }

  take(i: number, ok: boolean) {
    const p = this.pending.splice(i % this.pending.length, 1)[0];
    this.t.ev.push({ op: ok ? "answer" : "fail" });
    ok ? p.answer() : p.fail();
  }
}

const tick = () => new Promise<void>((r) => setImmediate(r));
async function settle(n = 3) {
  for (let i = 0; i < n; i++) {
    await tick();
  }
}

// Calls runs calls on one client and records when they begin and end.
class Calls {
  running = 0;
  n = 0;
  constructor(private t: Trace) {}

  begin(e: Ev, f: (add: (row: any) => void) => Promise<void>) {
    const c = ++this.n;
    this.running++;
    this.t.ev.push({ op: "begin", c, ...e });
    const got: any[] = [];
    const done = (res: string, msg: string) => {
      this.running--;
      this.t.ev.push({ op: "done", c, kind: e.kind, res, msg: msg.slice(0, 200), rows: got });
    };
    f((r) => got.push(r)).then(
      () => done("ok", ""),
      (x: any) => done("err", String(x?.message ?? x)),
    );
  }
}

type Start = { ev: Ev; go: (db: any) => (add: (row: any) => void) => Promise<void> };

function starts(cs: any, rng: Rng, refs: any[], byText: Map<string, number>): () => Start {
  const vals = cs.cfg.ix.map((x: any) => x.es.map((y: any) => valueOf(x.t, y[0])));
  const top: string[] = [...new Set<string>(cs.cfg.cat.map((x: any) => x[0]))];
  return () => {
    const r = rng.int(10);
    if (r === 0) {
      return {
        ev: { kind: "fields" },
        go: (db) => async (add) => add((await db.fields()).flatMap((h: any) => h.fieldTypes.map((t: any) => [h.fieldName, t]))),
      };
    }
    if (refs.length > 0 && r < 4) {
      const ref = rng.int(refs.length);
      return {
        ev: { kind: "search", ref: ref + 1 },
        go: (db) => async (add) => {
          for await (const x of db.query({ search: refs[ref].q })) {
            add([byText.get(x.data) ?? -1, Math.round(x.score * 1e6)]);
          }
        },
      };
    }
    const k = rng.int(cs.cfg.ix.length);
    const x = cs.cfg.ix[k];
    const cmp = rng.pick(CMPS);
    let v = near(rng, x.t, vals[k]);
    if (!allowed(x.t, [cmp], v, vals[k])) {
      v = 7;
    }
    const dir = rng.pick(["ASC", "DESC"]);
    const sel = rng.chance(4) ? [rng.pick(top)] : [];
    const lim = rng.chance(3) ? 1 + rng.int(3) : cs.cfg.n > 100 ? 1 + rng.int(20) : -1;
    return {
      ev: { kind: "where", n: x.n, t: x.t, conds: [{ cmp, v: bytesOf(v) }], dir, sel, lim },
      go: (db) => async (add) => {
        const q = {
          where: [{ operation: cmp, key: x.n, value: v }],
          orderBy: [{ key: x.n, direction: dir }],
          select: sel.length > 0 ? sel : undefined,
          limit: lim >= 0 ? lim : undefined,
        };
        for await (const row of db.query(q)) {
          add(rows([row])[0]);
        }
      },
    };
  };
}

const WORDS = ["the", "fox", "lazy dog", "quick br", "a", "go", "jumps over", "zz", "ab"];

// answers to searches without any trouble, from a client of their own
async function references(cs: any, data: Uint8Array, idx: Uint8Array, byText: Map<string, number>): Promise<any[]> {
  const refs: any[] = [];
  if (!cs.cfg.cat.some((x: any) => x[1] === 10)) {
    return refs;
  }
  for (const like of WORDS) {
    for (const [minGram, maxGram] of [
      [1, 2],
      [2, 3],
    ]) {
      const db: any = await init(fileResolver(data) as any, fileResolver(idx) as any);
      const q = { key: "t", like, config: { minGram, maxGram } };
      try {
        const got: any[] = [];
        for await (const x of db.query({ search: q })) {
          got.push([byText.get(x.data) ?? -1, Math.round(x.score * 1e6)]);
        }
        refs.push({ q, rows: got });
      } catch {}
    }
  }
  return refs;
}

export async function client(c: Ctx) {
  const cases = goCases(c, "tsclient");
  let scripts: string[][] = [[]];
  if (c.input) {
    const seen = new Set(fs.readFileSync(c.input, "utf8").split("\n").filter((x) => x));
    scripts = [...seen].sort().map((x) => JSON.parse(x).s);
  }
  let at = 0;
  for (const cs of cases) {
    const data = new Uint8Array(fs.readFileSync(cs.data));
    const idx = new Uint8Array(fs.readFileSync(cs.idx));
    const text = Buffer.from(data);
    const recs = cs.recs.map((r: any) => rows([JSON.parse(text.subarray(r.o, r.o + r.n).toString("utf8"))])[0]);
    const byText = new Map<string, number>();
    cs.recs.forEach((r: any, i: number) => byText.set(r.raw, i + 1));
    const refs = await references(cs, data, idx, byText);
    const cfg = { ...cs.cfg, recs, refs: refs.map((r) => ({ rows: r.rows })) };
    const rng = new Rng(c.seed * 31337 + cases.indexOf(cs));
    const make = (t: Trace, mode: string) => {
      const net = new Net(t);
      if (mode.startsWith("url")) {
        const st = style(rng);
        (globalThis as any).fetch = (url: string, opts: any) => {
          const file = url.endsWith(".idx") ? idx : data;
          const good = server(file, rng.pick(GOOD), rng, st, []);
          const bad = server(file, rng.pick(["network", "status", "trunc", "break"]), rng, st, []);
          return net.hold(
            () => good(url, opts),
            () => bad(url, opts),
          );
        };
        const conf = mode === "url-single" ? { useMultipartByteRanges: false } : undefined;
        return { net, db: init("http://localhost/d.jsonl", "http://localhost/d.jsonl.idx", conf) };
      }
      if (mode === "cached") {
        return { net, db: init(cache(net.resolver(data) as any), cache(net.resolver(idx) as any)) };
      }
      return { net, db: init(net.resolver(data) as any, net.resolver(idx) as any) };
    };
    const pick = starts(cs, rng, refs, byText);
    const play = async (id: string, mode: string, before: number, steps: string[], first?: Start) => {
      const t: Trace = { id: `${cs.id} ${mode} ${id}`, cfg, ev: [] };
      const made = make(t, mode);
      const net = made.net;
      const db = await made.db;
      const calls = new Calls(t);
      const rest = () => settle(mode.startsWith("url") ? 12 : 3);
      const start = (s: Start) => calls.begin(s.ev, s.go(db));
      const drain = async () => {
        for (let idle = 0; idle < 6; ) {
          if (net.pending.length > 0) {
            net.take(rng.chance(3) ? rng.int(net.pending.length) : 0, true);
            idle = 0;
          } else if (calls.running === 0) {
            break;
          } else {
            idle++;
          }
          await rest();
        }
      };
      if (before > 0 || first) {
        start(first ?? pick());
        await rest();
        for (let i = 0; i < before && net.pending.length > 0; i++) {
          net.take(0, true);
          await rest();
        }
      }
      for (const s of steps) {
        if (s === "s") {
          start(pick());
        } else if (net.pending.length > 0) {
          net.take(Number(s.slice(1)) - 1, s[0] === "d");
        }
        await rest();
      }
      await drain();
      // the trouble is over
      for (let i = 0; i < 3; i++) {
        start(first && i === 0 ? first : pick());
        if (i > 0) {
          await drain();
        }
      }
      await drain();
      t.ev.push({ op: "end" });
      c.out.emit(t);
      return net.asked;
    };
    // calls on one tree of the index
    const playTree = async (id: string, steps: string[], walk?: { back: boolean; failAt: number }) => {
      const x = rng.pick<any>(cs.cfg.ix);
      const t: Trace = { id: `${cs.id} tree ${id}`, cfg, ev: [] };
      const net = new Net(t);
      const file = await IndexFile.forResolver(fileResolver(idx) as any);
      const { format, entries } = await file.metadata();
      // its own requests go over the net
      const held = await IndexFile.forResolver(net.resolver(idx) as any);
      const calls = new Calls(t);
      let tree: BPTree | null = null;
      calls.begin({ kind: "open" }, async () => {
        const mps = await held.seek(x.n, x.t);
        const m = readIndexMeta(await mps[0].metadata());
        tree = new BPTree(held.getResolver(), mps[0], net.resolver(data) as any, format, m.fieldType, m.width, entries);
      });
      await settle();
      while (net.pending.length > 0) {
        net.take(0, true);
        await settle();
      }
      const at = new Map<number, number>();
      cs.recs.forEach((r: any, i: number) => at.set(r.o, i + 1));
      const start = () => {
        const lim = walk || rng.chance(2) ? -1 : 1 + rng.int(x.es.length);
        const back = walk ? walk.back : rng.chance(2);
        // a walk may make a step again that failed: it goes on where it was
        const patience = walk || rng.chance(2) ? 100 : 0;
        calls.begin({ kind: "keys", n: x.n, t: x.t, back, lim }, async (add) => {
          let tries = patience;
          const step = async () => {
            for (;;) {
              try {
                return back ? await it.prev() : await it.next();
              } catch (e) {
                if (tries-- === 0) {
                  throw e;
                }
              }
            }
          };
          const from = back ? (await tree!.last()).value : new ArrayBuffer(0);
          const it = tree!.iter(new ReferencedValue({ offset: back ? 2n ** 64n - 1n : 0n, length: 0 }, from));
          for (let n = 0; n !== lim && (await step()); n++) {
            add([[...new Uint8Array(it.getKey().value)], at.get(Number(it.getPointer().offset)) ?? -1]);
          }
        });
      };
      for (const s of steps) {
        if (s === "s") {
          start();
        } else if (net.pending.length > 0) {
          net.take(Number(s.slice(1)) - 1, s[0] === "d");
        }
        await settle();
      }
      let taken = 0;
      for (let i = 0; i < 2; i++) {
        start();
        await settle();
        while (net.pending.length > 0) {
          net.take(0, taken++ !== walk?.failAt);
          await settle();
        }
        if (walk && walk.failAt < 0) {
          return taken;
        }
      }
      t.ev.push({ op: "end" });
      c.out.emit(t);
      return taken;
    };
    const modes = ["plain", "url", "url-single", "cached"];
    if (!c.input) {
      // a failure at each request of a call
      for (const mode of modes) {
        for (let q = 0; q < (c.thorough ? 6 : 2); q++) {
          const first = pick();
          // how many requests the call makes by itself
          const probe: Trace = { id: "", cfg, ev: [] };
          const p = make(probe, mode);
          const calls = new Calls(probe);
          calls.begin(first.ev, first.go(await p.db));
          for (let i = 0; i < 2000 && (calls.running > 0 || p.net.pending.length > 0); i++) {
            await settle(mode.startsWith("url") ? 12 : 3);
            if (p.net.pending.length > 0) {
              p.net.take(0, true);
            }
          }
          const n = Math.min(p.net.asked, 40);
          const step = c.thorough ? 1 : n > 16 ? 3 : n > 8 ? 2 : 1;
          for (let k = rng.int(step); k < n; k += step) {
            await play(`fault ${q} ${k}`, mode, k, rng.chance(3) ? ["s", "f1"] : ["f1"], first);
          }
        }
      }
      for (let i = 0; i < (c.thorough ? 40 : 8); i++) {
        // one request of a walk fails and the step is made again
        if (i < 2 || c.thorough) {
          const back = i % 2 === 1;
          const n = await playTree("", [], { back, failAt: -1 });
          const step = Math.max(1, Math.floor(n / (c.thorough ? 60 : 8)));
          for (let k = rng.int(step); k < n; k += step) {
            await playTree(`fault ${i} ${k}`, [], { back, failAt: k });
          }
        }
        await playTree(String(i), Array.from({ length: 14 }, () => rng.pick(["s", "d1", "d1", "d1", "d2", "f1"])));
      }
      continue;
    }
    const n = Math.ceil(scripts.length / cases.length);
    for (let i = 0; i < n && at < scripts.length; i++, at++) {
      await play(`script ${at}`, rng.pick(modes), rng.chance(2) ? rng.int(14) : 0, scripts[(at * 7919) % scripts.length]);
    }
  }
}

// rangeCache checks the cache of byte ranges alone.
export async function rangeCache(c: Ctx) {
  const scripts: string[][] = c.input
    ? [...new Set(fs.readFileSync(c.input, "utf8").split("\n").filter((x) => x))].sort().map((x) => JSON.parse(x).s)
    : Array.from({ length: c.thorough ? 600 : 120 }, () => []);
  for (let k = 0; k < scripts.length; k++) {
    const rng = new Rng(c.seed * 65537 + k);
    const file = new Uint8Array(Array.from({ length: 1 + rng.int(90) }, () => rng.int(256)));
    const t: Trace = { id: `ranges ${k}`, cfg: { file: [...file] }, ev: [] };
    const net = new Net(t);
    const calls = new Calls(t);
    const get = cache(net.resolver(file) as any) as any;
    let old: number[][] = [];
    // some of the ranges come with the length the file has
    const sure = () => k % 3 === 0 && rng.chance(2);
    const start = () => {
      const ranges: number[][] = [];
      for (let i = 0; i < 1 + (rng.chance(2) ? rng.int(3) : 0); i++) {
        if (old.length > 0 && rng.chance(2)) {
          // within, at the edges of or around a range asked for before
          const [s, e] = rng.pick(old);
          const a = s + rng.int(e - s + 1);
          const b = a + rng.int(e - a + 1);
          ranges.push(rng.pick([[a, b], [s, e], [s, b], [a, e], [a, e + 1], [Math.max(0, s - 1), e]]));
        } else {
          const a = rng.int(file.length);
          ranges.push([a, a + rng.int(file.length + 4 - a)]);
        }
      }
      old = [...old, ...ranges];
      calls.begin({ kind: "bytes", ranges }, async (add) => {
        const r = await get(ranges.map(([start, end]) => (sure() ? { start, end, expectedLength: file.length } : { start, end })));
        for (const x of r) {
          add([[...new Uint8Array(x.data)], x.totalLength]);
        }
      });
    };
    const steps = c.input ? scripts[k] : Array.from({ length: 16 }, () => rng.pick(["s", "s", "d1", "d2", "f1", "d1"]));
    for (const s of steps) {
      if (s === "s") {
        start();
      } else if (net.pending.length > 0) {
        net.take(Number(s.slice(1)) - 1, s[0] === "d");
      }
      await settle();
    }
    for (let i = 0; i < 4; i++) {
      start();
      while (net.pending.length > 0) {
        net.take(0, true);
        await settle();
      }
      await settle();
    }
    t.ev.push({ op: "end" });
    c.out.emit(t);
  }
}
