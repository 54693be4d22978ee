import fs from "fs";
import path from "path";
import { init } from "@repo/index";
import { IndexFile } from "@repo/file/index-file";
import { Ctx, Ev, Rng, Trace, bytesOf, fileResolver, goCases, outcome, serve, valueOf } from "./common";

export const CMPS = ["<", "<=", "==", ">=", ">"];

const neg = (v: any) => typeof v === "number" && (v < 0 || Object.is(v, -0));

// near makes values at, around and between the stored ones.
export function near(rng: Rng, t: number, vs: any[]): any {
  if (t === 6) {
    return rng.chance(2);
  }
  if (t === 7) {
    return null;
  }
  const v = vs.length ? rng.pick(vs) : t === 3 ? 1 : "a";
  if (t === 3) {
    switch (rng.int(7)) {
      case 0:
        return v + 0.25;
      case 1:
        return v - 0.25;
      case 2:
        return 0;
      case 3:
        return rng.pick<any>([1e300, BigInt(1e300), 2n ** 63n, 2n ** 64n - 1n, 2n ** 64n]);
      case 4:
        return Number.isInteger(v) ? BigInt(v) : v;
      default:
        return v;
    }
  }
  switch (rng.int(8)) {
    case 0:
      return v + "\u0000";
    case 1:
      return v + "!";
    case 2:
      return [...v].slice(0, -1).join("");
    case 3:
      return rng.pick(["", "\uffff", "m", "~"]);
    default:
      return v;
  }
}

export function typeOf(v: any): number {
  return v === null ? 7 : typeof v === "string" ? 0 : typeof v === "boolean" ? 6 : typeof v === "number" || typeof v === "bigint" ? 3 : -1;
}

// numbers are compared by their bytes (a known finding): negative ones are only asked for exactly
export function allowed(t: number, cmps: string[], v: any, vs: any[]): boolean {
  if (t !== 3) {
    return true;
  }
  v = Number(v);
  if (cmps.every((c) => c === "==")) {
    return !(v === 0 && (Object.is(v, -0) || vs.some((x) => Object.is(x, -0))));
  }
  return !neg(v) && !vs.some(neg);
}

export function rows(items: any[]): any[] {
  return items.map((r) => Object.keys(r).map((k) => [k, String(JSON.stringify(r[k]))]));
}

async function run(db: any, e: Ev, conds: [string, any][], opts: { builder: boolean; dir: string; ordKey: string | null; then?: [string, string]; sel: string[]; lim: number; otherValue?: any; stop: number; rng?: Rng }) {
  const show = (q: any) => JSON.stringify(q, (_, v) => (typeof v === "bigint" ? `${v}n` : v));
  let asked: any;
  let before = "";
  e.op = "where";
  e.conds = conds.map(([cmp, v]) => ({ cmp, v: bytesOf(v) }));
  e.dir = opts.dir || "ASC";
  // a second order may only be on the same field, where it orders nothing more
  const then: [string, string][] = opts.then && opts.ordKey !== null ? [opts.then] : [];
  e.ord = opts.ordKey === null ? [] : [opts.ordKey, ...then.map(([k]) => k)];
  e.dirs = [e.dir, ...then.map(([, d]) => d)];
  e.nan = conds.some(([, v]) => Number.isNaN(v));
  e.sel = opts.sel;
  e.lim = opts.lim;
  e.rows = [];
  const items: any[] = [];
  await outcome(e, async () => {
    let gen: any;
    if (opts.builder) {
      // the parts may be given in any order (conditions in theirs); queries derived on the way are queries of their own
      const rng = opts.rng!;
      const steps: ((q: any) => any)[] = conds.map(([cmp, v]) => (q: any) => q.where(e.n, cmp, v));
      if (e.other !== "") {
        steps.push((q: any) => q.where(e.other, "==", 1));
      }
      for (const f of [
        opts.ordKey !== null ? (q: any) => then.reduce((q2: any, [k, d]) => q2.orderBy(k, d), q.orderBy(opts.ordKey, opts.dir)) : null,
        opts.sel.length > 0 ? (q: any) => q.select(opts.sel) : null,
        opts.lim >= 0 ? (q: any) => q.limit(opts.lim) : null,
      ]) {
        if (f) {
          steps.splice(1 + rng.int(steps.length), 0, f);
        }
      }
      const decoys = [
        (q: any) => q.where(e.n, "==", conds[0][1]).where(e.n, "<", conds[0][1]),
        (q: any) => q.orderBy(e.n, opts.dir === "ASC" ? "DESC" : "ASC"),
        (q: any) => q.orderBy(e.n, "DESC").orderBy("zz", "UP"),
        (q: any) => q.select(["zz"]),
        (q: any) => q.limit(0),
        (q: any) => {
          const o = q.toQuery();
          o.where.length = 0;
          o.limit = 1;
          o.orderBy?.push({ key: "zz", direction: "ASC" });
          o.select?.push("zz");
          return q;
        },
      ];
      let q: any = db;
      for (const [i, f] of steps.entries()) {
        q = f(q);
        while (rng.chance(3)) {
          const d = rng.pick(decoys)(q);
          if (rng.chance(4) && i === steps.length - 1 && d !== q) {
            // run and left alone
            try {
              await d.get().next();
            } catch {}
          }
        }
      }
      if (rng.chance(3)) {
        gen = db.query(q.toQuery());
      } else {
        gen = q.get();
        if (rng.chance(4)) {
          // the same query once more
          for await (const r of gen) {
            if (items.push(r) > 20000) {
              throw new Error("endless");
            }
          }
          const first = JSON.stringify(items);
          items.length = 0;
          gen = q.get();
          for await (const r of gen) {
            if (items.push(r) > 20000) {
              throw new Error("endless");
            }
          }
          if (JSON.stringify(items) !== first) {
            throw new Error("another answer");
          }
          if (opts.stop > 0) {
            items.length = Math.min(items.length, opts.stop);
          }
          return;
        }
      }
    } else {
      const where: any[] = conds.map(([operation, value]) => ({ operation, key: e.n, value }));
      if (e.other !== "") {
        where.push({ operation: "==", key: e.other, value: 1 });
      }
      asked = {
        where,
        orderBy: opts.ordKey !== null ? [{ key: opts.ordKey, direction: opts.dir }, ...then.map(([key, direction]) => ({ key, direction }))] : undefined,
        select: opts.sel.length > 0 ? opts.sel : undefined,
        limit: opts.lim >= 0 ? opts.lim : undefined,
      };
      before = show(asked);
      gen = db.query(asked);
    }
    for await (const r of gen) {
      items.push(r);
      // a consumer which stops early has seen the first answers
      if (opts.stop > 0 && items.length >= opts.stop) {
        break;
      }
      if (items.length > 20000) {
        throw new Error("endless");
      }
    }
  });
  if (opts.stop > 0 && (opts.lim < 0 || opts.stop < opts.lim)) {
    e.lim = opts.stop;
  }
  if (e.res === "ok") {
    e.rows = rows(items);
  }
  // the query given is not changed
  e.kept = asked === undefined || show(asked) === before;
  return e;
}

export async function query(c: Ctx) {
  const cases = goCases(c, "tsquery");
  let script: Map<string, any[]> | null = null;
  if (c.input) {
    script = new Map();
    for (const l of fs.readFileSync(c.input, "utf8").split("\n")) {
      if (l) {
        const q = JSON.parse(l);
        const k = q.d.join(",");
        script.set(k, [...(script.get(k) ?? []), q]);
      }
    }
  }
  const srv = !c.input && !c.probe && cases.length > 0 ? await serve(path.dirname(cases[0].data)) : null;
  for (const cs of cases) {
    const rng = new Rng(c.seed * 7919 + cases.indexOf(cs));
    const data = new Uint8Array(fs.readFileSync(cs.data));
    const idx = new Uint8Array(fs.readFileSync(cs.idx));
    const text = Buffer.from(data);
    const recs = cs.recs.map((r: any) => rows([JSON.parse(text.subarray(r.o, r.o + r.n).toString("utf8"))])[0]);
    const t: Trace = { id: cs.id, cfg: { ...cs.cfg, recs }, ev: [] };
    // the files as byte arrays, or behind a real server
    const http = srv && !cs.d && cs.recs.length <= 150 && rng.chance(4);
    const db: any = http
      ? await init(srv!.url + path.basename(cs.data), srv!.url + path.basename(cs.idx), rng.pick([undefined, { useMultipartByteRanges: true }, { useMultipartByteRanges: false }, {}]))
      : await init(fileResolver(data) as any, fileResolver(idx) as any);
    const open: Ev = { op: "open", entries: -1, off: -1 };
    await outcome(open, async () => {
      const m = await (await IndexFile.forResolver(fileResolver(idx) as any)).metadata();
      open.entries = m.entries;
      open.off = Number(m.readOffset);
    });
    t.ev.push(open);
    const f: Ev = { op: "fields", fields: [] };
    await outcome(f, async () => {
      f.fields = (await db.fields()).map((h: any) => [h.fieldName, h.fieldTypes]);
    });
    t.ev.push(f);
    if (cs.d) {
      await generated(c, cs, db, t, script!.get(cs.d.join(","))!, rng);
      c.out.emit(t);
      continue;
    }
    const top: string[] = [...new Set<string>(cs.cfg.cat.map((x: any) => x[0]))].filter((n) => !n.includes("."));
    const vals = cs.cfg.ix.map((x: any) => x.es.map((y: any) => valueOf(x.t, y[0])));
    const big = cs.recs.length > 150;
    const n = big ? 26 : 22;
    const plain = { builder: false, dir: "ASC", ordKey: null as string | null, sel: [] as string[], lim: -1, stop: 0 };
    if (c.probe) {
      t.ev.push(await run(db, { n: "a", t: 3, other: "" }, [["<", 1]], plain));
      c.out.emit(t);
      continue;
    }
    for (let i = 0; i < n && cs.cfg.ix.length > 0; i++) {
      const k = rng.int(cs.cfg.ix.length);
      const x = cs.cfg.ix[k];
      const conds: [string, any][] = [[CMPS[i % 5], near(rng, x.t, vals[k])]];
      while (rng.chance(5)) {
        conds.push([rng.pick(CMPS), near(rng, x.t, vals[k])]);
      }
      if (!conds.every(([, v]) => allowed(x.t, conds.map((y) => y[0]), v, vals[k]))) {
        conds.length = 1;
        conds[0] = ["==", vals[k].find((v: any) => v !== 0) ?? 7];
      }
      const dir = rng.pick(["ASC", "DESC"]);
      const sel = rng.chance(3) ? [...new Set([rng.pick(top), rng.pick(top)])] : [];
      let lim = rng.chance(3) ? rng.int(5) : -1;
      if (big && i >= 8) {
        lim = rng.int(4);
      }
      const e: Ev = { n: x.n, t: x.t, other: "" };
      t.ev.push(
        await run(db, e, conds, {
          builder: rng.chance(2),
          rng,
          dir,
          ordKey: dir === "DESC" || rng.chance(2) ? x.n : null,
          then: rng.chance(6) ? [x.n, rng.pick(["ASC", "DESC"])] : undefined,
          sel,
          lim,
          stop: rng.chance(8) ? 1 + rng.int(3) : 0,
        }),
      );
    }
    for (const h of cs.hints) {
      const a = valueOf(h.t, h.a);
      const b = valueOf(h.t, h.b);
      const vs = vals[cs.cfg.ix.findIndex((x: any) => x.n === h.n && x.t === h.t)];
      for (const v of [a, b, h.t === 3 ? (a + b) / 2 : a + "\u0000"]) {
        for (const cmp of rng.chance(2) ? CMPS : [rng.pick(CMPS)]) {
          if (allowed(h.t, [cmp], v, vs)) {
            const dir = rng.pick(["ASC", "DESC"]);
            t.ev.push(await run(db, { n: h.n, t: h.t, other: "" }, [[cmp, v]], { ...plain, dir, ordKey: h.n, lim: rng.int(4) }));
          }
        }
      }
    }
    // queries to refuse
    const names = cs.cfg.ix.map((x: any) => x.n);
    if (names.length > 0) {
      const x = rng.pick<any>(cs.cfg.ix);
      const v = valueOf(x.t, x.es[0][0]);
      const bad: [Ev, [string, any][], any][] = [
        [{ n: "no such field" }, [["==", 1]], plain],
        [{ n: x.n }, [["!=", v]], plain],
        [{ n: x.n, other: "zz" }, [["==", v]], plain],
        [{ n: x.n }, [["==", v]], { ...plain, ordKey: "zz" }],
        [{ n: x.n }, [["==", v]], { ...plain, ordKey: x.n, dir: "UP" }],
        [{ n: x.n }, [["==", v]], { ...plain, ordKey: x.n, then: ["zz", "ASC"] }],
        [{ n: x.n }, [["==", v]], { ...plain, ordKey: x.n, then: [x.n, "UP"] }],
        [{ n: x.n }, [["==", v]], { ...plain, sel: ["zz"] }],
        [{ n: x.n }, [["==", v]], { ...plain, sel: [x.n, "zz"] }],
        [{ n: x.n, t: 3 }, [[rng.pick(CMPS), NaN]], plain],
      ];
      for (const w of [1, "a", true, null]) {
        if (!cs.cfg.cat.some((y: any) => y[0] === x.n && y[1] === typeOf(w))) {
          bad.push([{ n: x.n }, [["==", w]], plain]);
        }
      }
      for (const [e, conds, o] of bad) {
        if (rng.chance(2) || bad.length < 11) {
          t.ev.push(await run(db, { t: typeOf(conds[0][1]), other: "", ...e }, conds, { ...o, builder: rng.chance(2), rng }));
        }
      }
    }
    c.out.emit(t);
  }
  srv?.stop();
}

// generated asks the queries TLC made for this file.
async function generated(c: Ctx, cs: any, db: any, t: Trace, qs: any[], rng: Rng) {
  const ft = cs.cfg.cat[0][1];
  const many = cs.scale > 1;
  for (const q of qs) {
    if (many && (q.lim < 0 ? !rng.chance(12) : !rng.chance(3))) {
      continue;
    }
    const v = ft === 0 ? String(q.v) : q.v;
    const opts = { builder: false, dir: q.dir, ordKey: q.dir === "DESC" ? "a" : null, sel: [] as string[], lim: q.lim, stop: 0 };
    t.ev.push(await run(db, { n: "a", t: ft, other: "" }, [[q.c, v]], opts));
  }
}
