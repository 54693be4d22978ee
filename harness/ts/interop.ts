import fs from "fs";
import { BPTree, ReferencedValue } from "@repo/bptree/bptree";
import { IndexFile } from "@repo/file/index-file";
import { readIndexMeta } from "@repo/file/meta";
import { decodeUvarint, encodeUvarint } from "@repo/util/uvarint";
import { Ctx, Ev, Rng, Trace, fileResolver, goCases, outcome } from "./common";

const hex = (b: any) => Buffer.from(new Uint8Array(b)).toString("hex");
const list = (b: any) => [...new Uint8Array(b)];
const buf = (b: number[]) => new Uint8Array(b).buffer;
const ptr = (p: any) => `${p.offset}:${p.length}`;
const utf8 = (s: string) => [...Buffer.from(s, "utf8")];
const low = new ReferencedValue({ offset: 0n, length: 0 }, new ArrayBuffer(0));

// requests until the one that fails (-1: none does), and whether it has
const storm = { left: -1, hit: false };
function failing(resolve: any) {
  return async (ranges: any) => {
    if (storm.left === 0) {
      storm.hit = true;
      throw new Error("unreachable");
    }
    storm.left -= storm.left > 0 ? 1 : 0;
    return await resolve(ranges);
  };
}

function treeOf(cs: any, idx: Uint8Array, data: Uint8Array, root: any, width: number, type: number): any {
  return new (BPTree as any)(failing(fileResolver(idx)), { root: async () => root }, failing(fileResolver(data)), 0, type, width, 1);
}

async function tree(c: Ctx, cs: any, rng: Rng) {
  const idx = new Uint8Array(fs.readFileSync(cs.file));
  const data = new Uint8Array(fs.readFileSync(cs.data));
  const root = { offset: BigInt(cs.root[0]), length: Number(cs.root[1]) };
  const num = new Map<string, number>();
  cs.table.forEach((k: any, i: number) => num.set(`${hex(buf(k.v))}/${k.o}:${k.n}`, i + 1));
  const numOf = (k: any) => num.get(`${hex(k.value)}/${ptr(k.dataPointer)}`) ?? -1;
  const keyOf = (i: number) => new ReferencedValue({ offset: BigInt(cs.table[i - 1].o), length: Number(cs.table[i - 1].n) }, buf(cs.table[i - 1].v));
  const t: Trace = { id: cs.id, cfg: { keys: cs.keys, seq: cs.seq }, ev: [] };
  let tr = treeOf(cs, idx, data, root, cs.width, cs.type);
  let it: any;
  let stormy = false;
  const step = async (op: string) => {
    const e: Ev = { op, b: false, k: 0, p: "", fault: false };
    storm.left = stormy && rng.chance(2) ? rng.int(5) : -1;
    storm.hit = false;
    await outcome(e, async () => {
      e.b = op === "next" ? await it.next() : await it.prev();
      if (e.b) {
        e.k = numOf(it.getKey());
        e.p = ptr(it.getPointer());
      }
    });
    storm.left = -1;
    e.fault = storm.hit;
    t.ev.push(e);
  };
  const start = async (k: number) => {
    const e: Ev = { op: "iter", k };
    await outcome(e, async () => {
      it = tr.iter(keyOf(k));
    });
    t.ev.push(e);
  };
  const n = cs.seq.length;
  for (const k of [1, cs.table.length]) {
    const [op, other] = k === 1 ? ["next", "prev"] : ["prev", "next"];
    await start(k);
    for (let j = 0; j < n + 2; j++) {
      await step(op);
    }
    for (let j = 0; j < Math.min(n + 3, 90); j++) {
      await step(other);
    }
  }
  for (let w = 0; w < 40; w++) {
    const k = 1 + rng.int(cs.table.length);
    if (rng.chance(3)) {
      const e: Ev = { op: "find", k, found: 0, p: "" };
      await outcome(e, async () => {
        const [rv, mp] = await tr.find(keyOf(k));
        e.found = mp.offset === 0n && mp.length === 0 && rv.value.byteLength === 0 && rv.dataPointer.length === 0 ? 0 : numOf(rv);
        e.p = ptr(mp);
      });
      t.ev.push(e);
      continue;
    }
    await start(k);
    // some walks are over a connection that fails now and then
    stormy = w % 3 === 0;
    let op = rng.pick(["next", "prev"]);
    for (let j = rng.int(12); j >= 0; j--) {
      await step(op);
      if (rng.chance(3)) {
        op = rng.pick(["next", "prev"]);
      }
    }
    stormy = false;
  }
  if (n > 0) {
    for (const op of ["first", "last"]) {
      const e: Ev = { op, k: 0 };
      await outcome(e, async () => {
        e.k = numOf(await tr[op]());
      });
      t.ev.push(e);
    }
  }
  c.out.emit(t);
}

async function image(c: Ctx, cs: any) {
  const idx = new Uint8Array(fs.readFileSync(cs.file));
  const data = new Uint8Array(fs.readFileSync(cs.data));
  const t: Trace = { id: cs.id, cfg: { slots: cs.slots, meta: cs.meta }, ev: [] };
  const f: any = await IndexFile.forResolver(fileResolver(idx) as any);
  const m: Ev = { op: "meta", v: -1, f: -1, off: "", n: "" };
  await outcome(m, async () => {
    const x = await f.metadata();
    Object.assign(m, { v: x.version, f: x.format, off: String(x.readOffset), n: String(x.entries) });
  });
  t.ev.push(m);
  const h: Ev = { op: "headers", fields: [] };
  await outcome(h, async () => {
    h.fields = (await f.indexHeaders()).map((x: any) => [utf8(x.fieldName), x.fieldTypes]);
  });
  t.ev.push(h);
  for (let i = 0; i < cs.slots.length; i++) {
    const s = cs.slots[i];
    const e: Ev = { op: "slot", i: i + 1, count: -1, w: -1, total: "", raw: [], fwd: [], back: [] };
    await outcome(e, async () => {
      const mps = await f.seek(Buffer.from(s.n).toString("utf8"), s.t);
      e.count = mps.length;
      const raw = await mps[0].metadata();
      e.raw = list(raw);
      const im = readIndexMeta(raw);
      e.w = im.width;
      e.total = String(im.totalFieldValueLength);
      const tr: any = new (BPTree as any)(fileResolver(idx), mps[0], fileResolver(data), 0, s.t, im.width, 1);
      const ent = (it: any) => [list(it.getKey().value), ptr(it.getKey().dataPointer), ptr(it.getPointer())];
      const it = tr.iter(low);
      while (await it.next()) {
        e.fwd.push(ent(it));
        if (e.fwd.length > s.es.length) {
          break;
        }
      }
      if (e.fwd.length > 0) {
        while (await it.prev()) {
          e.back.push(ent(it));
          if (e.back.length > s.es.length) {
            break;
          }
        }
      }
    });
    t.ev.push(e);
  }
  c.out.emit(t);
}


export async function interop(c: Ctx) {
  const rng = new Rng(c.seed * 31 + 7);
  for (const cs of goCases(c, "tsinterop")) {
    switch (cs.kind) {
      case "tree":
        await tree(c, cs, rng);
        break;
      case "image":
        await image(c, cs);
        break;
      case "varint": {
        const t: Trace = { id: cs.id, cfg: { vars: cs.vars }, ev: [] };
        for (let i = 0; i < cs.vars.length; i++) {
          const x = cs.vars[i];
          const e: Ev = { op: "varint", i: i + 1, dec: "", n: 0, enc: [] };
          await outcome(e, async () => {
            const d = decodeUvarint(buf([...x.b, 0xff, 0x01]));
            e.dec = String(d.value);
            e.n = d.bytesRead;
            e.enc = list(encodeUvarint(Number(x.v)));
          });
          t.ev.push(e);
        }
        c.out.emit(t);
      }
    }
  }
}
