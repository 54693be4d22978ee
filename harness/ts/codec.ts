import { BPTreeNode } from "@repo/bptree/node";
import { ReferencedValue, binarySearchReferencedValues } from "@repo/bptree/bptree";
import { decodeUvarint, encodeUvarint } from "@repo/util/uvarint";
import { readFileMeta, readIndexMeta } from "@repo/file/meta";
import { Ctx, Ev, Rng, Trace, goCases, outcome } from "./common";

const big = (x: number[]) => x.reduce((s, l, i) => s + (BigInt(l) << BigInt(16 * i)), 0n);
const limbs = (x: bigint) => [0, 1, 2, 3].map((i) => Number((x >> BigInt(16 * i)) & 0xffffn));
const buf = (b: number[]) => new Uint8Array(b).buffer as ArrayBuffer;
const arr = (b: ArrayBuffer) => [...new Uint8Array(b)];
const key = (k: any) => new ReferencedValue({ offset: big(k.o), length: Number(big(k.n)) }, buf(k.v));
const pair = (p: any) => ({ o: limbs(BigInt(p.offset)), n: limbs(BigInt(p.length)) });
const empty = { leaf: false, ks: [], rs: [], cs: [] };

// the harness's own: a number as a varint
function varint(x: bigint): number[] {
  const out: number[] = [];
  while (x >= 0x80n) {
    out.push(Number(x & 0x7fn) | 0x80);
    x >>= 7n;
  }
  out.push(Number(x));
  return out;
}

// byte i of the data that keys of trees of width 0 point into
const dataAt = (i: number) => (7 * i + Math.floor(i / 256)) & 255;

// The client's numbers, keys, nodes and metadata.
export async function codec(c: Ctx) {
  const cs = goCases(c, "tscodec") as any;
  const rng = new Rng(c.seed + 28);
  let n = 0;
  let t: Trace = { id: "t0", cfg: { none: 0 }, ev: [] };
  const add = async (e: Ev, f: () => Promise<void>) => {
    await outcome(e, f);
    t.ev.push(e);
    if (t.ev.length >= 80) {
      c.out.emit(t);
      t = { id: "t" + ++n, cfg: { none: 0 }, ev: [] };
    }
  };
  const decode = (b: number[]) => {
    const e: Ev = { op: "dec", b, x: [0], read: 0 };
    return add(e, async () => {
      const { value, bytesRead } = decodeUvarint(buf(b));
      e.read = bytesRead;
      e.x = limbs(BigInt(value));
    });
  };
  for (const [i, u] of (cs.nums as number[][]).entries()) {
    const x = big(u);
    if (x < 2n ** 53n) {
      const e: Ev = { op: "enc", x: u, b: [] };
      await add(e, async () => {
        e.b = arr(encodeUvarint(Number(x)));
      });
    }
    const b = varint(x);
    await decode([...b, ...Array.from({ length: rng.int(4) }, () => rng.int(256))]);
    switch (i % 5) {
      case 0: // cut short
        await decode(b.slice(0, rng.int(b.length)));
        break;
      case 1: // longer than need be
        await decode([...b.slice(0, -1), b[b.length - 1] | 0x80, ...Array(rng.int(12)).fill(0x80), rng.pick([0, 0, 1])]);
        break;
      case 2: // anything
        await decode(Array.from({ length: rng.int(13) }, () => rng.int(256) | (rng.chance(4) ? 0 : 128)));
        break;
    }
  }
  for (const p of cs.pairs) {
    const e: Ev = { op: "cmpbytes", x: p.a.v, y: p.k.v, c: 9 };
    await add(e, async () => {
      e.c = Math.sign(ReferencedValue.compareBytes(buf(p.a.v), buf(p.k.v)));
    });
    const s: Ev = { op: "search", ks: [p.a], k: p.k, at: -1, found: false };
    await add(s, async () => {
      [s.at, s.found] = binarySearchReferencedValues([key(p.a)], key(p.k));
    });
  }
  for (const q of cs.lists ?? []) {
    const s: Ev = { op: "search", ks: q.ks, k: q.k, at: -1, found: false };
    await add(s, async () => {
      [s.at, s.found] = binarySearchReferencedValues(q.ks.map(key), key(q.k));
    });
  }
  for (const q of cs.nodes) {
    const e: Ev = { op: "tnode", w: q.w, nd: q.nd, back: empty };
    await add(e, async () => {
      const page = new Uint8Array(q.page);
      const data = async (ranges: any[]) =>
        ranges.map(({ start, end }) => ({ data: buf(Array.from({ length: end - start + 1 }, (_, i) => dataAt(start + i))), totalLength: 200000 }));
      const tree = async (ranges: any[]) => ranges.map(({ start, end }) => ({ data: page.slice(start, end + 1).buffer, totalLength: page.length }));
      // values of a CSV file are their bytes
      const { node } = await BPTreeNode.fromMemoryPointer({ offset: 0n, length: 4096 }, tree as any, data as any, 1, 0, q.w);
      e.back = {
        leaf: node.leaf(),
        ks: node.keys.map((k) => ({ ...pair(k.dataPointer), v: arr(k.value) })),
        rs: node.leafPointers.map(pair),
        cs: node.internalPointers.map((x) => limbs(BigInt(x))),
      };
    });
  }
  for (const [i, m] of (cs.metas as any[]).entries()) {
    const e: Ev = { op: "tfmeta", m: m.f, back: { ver: -1, fmt: -1, off: [0], entries: [0] } };
    await add(e, async () => {
      const r = await readFileMeta(buf(m.fb));
      e.back = { ver: r.version, fmt: r.format, off: limbs(r.readOffset), entries: limbs(BigInt(r.entries)) };
    });
    const x: Ev = { op: "timeta", m: m.i, back: { t: -1, w: -1, name: [], total: [0] } };
    await add(x, async () => {
      const r = readIndexMeta(buf(m.ib));
      x.back = { t: r.fieldType, w: r.width, name: [...Buffer.from(r.fieldName, "utf8")], total: limbs(BigInt(r.totalFieldValueLength)) };
    });
    if (i % 10 === 0) {
      await add({ op: "short", what: "file" }, async () => void (await readFileMeta(buf(m.fb.slice(0, (i / 10) % 10)))));
      await add({ op: "short", what: "format" }, async () => {
        const b = [...m.fb];
        b[1] = 2 + rng.int(254);
        await readFileMeta(buf(b));
      });
      const k = m.i.name.length > 0 && i % 20 === 0 ? 6 + rng.int(m.i.name.length) : rng.int(6);
      await add({ op: "short", what: "index" }, async () => void readIndexMeta(buf(m.ib.slice(0, k))));
    }
  }
  c.out.emit(t);
}
