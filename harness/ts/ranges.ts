import fs from "fs";
import { requestRanges } from "@repo/resolver/range-request";
import parseMultipartBody from "@repo/resolver/multipart";
import path from "path";
import { Ctx, Ev, Rng, Trace, outcome, serve } from "./common";

type R = { start: number; end: number };
type P = { start: number; data: Uint8Array; total: string; head?: string };

const enc = new TextEncoder();
const cat = (xs: Uint8Array[]) => {
  const r = new Uint8Array(xs.reduce((n, x) => n + x.length, 0));
  let k = 0;
  for (const x of xs) {
    r.set(x, k);
    k += x.length;
  }
  return r;
};

// stream serves a body in chunks cut at the given places; fail: the connection breaks at the end
function stream(body: Uint8Array, cuts: number[], fail: boolean): ReadableStream {
  const at = [...new Set([...cuts.filter((x) => x > 0 && x < body.length), body.length])].sort((a, b) => a - b);
  let i = 0;
  let from = 0;
  return new ReadableStream({
    pull(ctl) {
      if (i >= at.length || body.length === 0) {
        if (fail) {
          ctl.error(new TypeError("terminated"));
        } else {
          ctl.close();
        }
        return;
      }
      ctl.enqueue(body.slice(from, at[i]));
      from = at[i++];
    },
  });
}

type Style = { boundary: string; quoted: boolean; lead: string; name: string; extra: string[]; tail: string; sep: string; pre: string; media?: string; param?: string; unit?: string; pad?: string };

export function style(rng: Rng): Style {
  return {
    boundary: rng.pick(["3d6b6a416f9b5", "THIS_STRING_SEPARATES", "a", "--x--", "0".repeat(70), "b=c", "q'()+_,./:=?"]),
    quoted: rng.chance(3),
    lead: rng.chance(3) ? "\r\n" : "",
    name: rng.pick(["Content-Range", "content-range", "Content-range", "CONTENT-RANGE"]),
    extra: [...(rng.chance(2) ? ["Content-Type: application/octet-stream"] : []), ...(rng.chance(4) ? ["X-Time: 10:20:30", "Date: Mon, 01 Jan 2024 00:00:00 GMT"] : []), ...(rng.chance(8) ? Array.from({ length: 1 + rng.int(40) }, (_, i) => `X-H${i}: ${"v".repeat(rng.int(30))}`) : [])],
    tail: rng.pick(["--", "--\r\n", "--\r\n\r\nepilogue"]),
    sep: rng.pick([": ", ":", ":  "]),
    pre: rng.pick(["; ", ";", "; charset=binary; ", " ;", "\t; "]),
    // the names of media types, of their parameters and of units have no case
    media: rng.pick(["multipart/byteranges", "multipart/byteranges", "Multipart/Byteranges", "MULTIPART/BYTERANGES"]),
    param: rng.pick(["boundary", "boundary", "Boundary", "BOUNDARY"]),
    unit: rng.pick(["bytes", "bytes", "bytes", "Bytes"]),
    pad: rng.pick(["", "", "", " ", "\t "]),
  };
}

const contentType = (s: Style) => `${s.media ?? "multipart/byteranges"}${s.pre}${s.param ?? "boundary"}=${s.quoted || /[^A-Za-z0-9_-]/.test(s.boundary) ? `"${s.boundary}"` : s.boundary}`;
const rangeOf = (p: P, unit = "bytes") => `${unit} ${p.start}-${p.start + p.data.length - 1}/${p.total}`;

function multipart(parts: P[], s: Style, rng: Rng): { body: Uint8Array; ends: number[] } {
  const xs: Uint8Array[] = [];
  const ends: number[] = [];
  let n = 0;
  const add = (x: Uint8Array) => {
    xs.push(x);
    n += x.length;
  };
  parts.forEach((p, i) => {
    const hs = [...s.extra];
    hs.splice(rng.int(hs.length + 1), 0, `${s.name}${s.sep}${p.head ?? rangeOf(p, s.unit)}`);
    add(enc.encode(`${i === 0 ? s.lead : "\r\n"}--${s.boundary}${s.pad ?? ""}\r\n${hs.join("\r\n")}\r\n\r\n`));
    add(p.data);
    ends.push(n);
  });
  add(enc.encode(`\r\n--${s.boundary}${s.tail}`));
  return { body: cat(xs), ends };
}

const cutsFor = (rng: Rng, n: number): number[] => {
  switch (rng.int(4)) {
    case 0:
      return [];
    case 1: // every byte
      return n < 3000 ? Array.from({ length: n }, (_, i) => i) : [1, 4095, 4096, 4097, 8192];
    case 2: {
      const step = rng.pick([7, 64, 1000, 4096, 4095]);
      return Array.from({ length: Math.ceil(n / step) }, (_, i) => i * step);
    }
  }
  return Array.from({ length: 1 + rng.int(6) }, () => rng.int(n + 1));
};

function parse(h: string): R[] {
  const m = /^bytes=(.*)$/.exec(h);
  if (!m) {
    throw new Error("bad Range header " + h);
  }
  return m[1].split(",").map((x) => {
    const y = /^\s*(\d+)-(\d+)\s*$/.exec(x);
    if (!y) {
      throw new Error("bad range " + x);
    }
    return { start: Number(y[1]), end: Number(y[2]) };
  });
}

// a server: what it does is chosen once per request of the client
export const GOOD = ["plain", "shuffle", "coalesce", "one", "ignore-multi", "parts"];
const BAD = ["drop", "trunc", "break", "status", "shift", "short", "notype", "nonsense", "416", "ignore", "network", "swap-some"];

export function server(file: Uint8Array, kind: string, rng: Rng, st: Style, seen: Ev[]) {
  return async (url: string, init: any): Promise<any> => {
    const hs = new Headers(init?.headers ?? {});
    const asked = parse(hs.get("Range") ?? "");
    seen.push({ n: asked.length });
    const total = file.length;
    if (kind === "network") {
      throw new TypeError("fetch failed");
    }
    if (kind === "status") {
      return new Response("no", { status: rng.pick([404, 403, 500, 503, 301]), headers: rng.chance(2) ? { "Content-Range": `bytes 0-1/${total}` } : {} });
    }
    const ok = asked.filter((r) => r.start < total && r.start <= r.end).map((r) => ({ start: r.start, end: Math.min(r.end, total - 1) }));
    if (kind === "416" || ok.length === 0) {
      return new Response("<html>no such range</html>", { status: 416, headers: { "Content-Range": `bytes */${total}` } });
    }
    if (kind === "ignore" || (kind === "ignore-multi" && asked.length > 1)) {
      return new Response(file, { status: 200 });
    }
    const part = (r: R): P => ({ start: r.start, data: file.slice(r.start, r.end + 1), total: String(total) });
    let parts = ok.map(part);
    const shuffled = () => {
      for (let i = parts.length - 1; i > 0; i--) {
        const j = rng.int(i + 1);
        [parts[i], parts[j]] = [parts[j], parts[i]];
      }
    };
    switch (kind) {
      case "shuffle":
        shuffled();
        break;
      case "coalesce":
      case "one": {
        const gap = kind === "one" ? 1 << 30 : rng.int(80);
        const merged: R[] = [];
        for (const r of [...ok].sort((a, b) => a.start - b.start)) {
          const last = merged[merged.length - 1];
          if (last && r.start <= last.end + 1 + gap) {
            last.end = Math.max(last.end, r.end);
          } else {
            merged.push({ ...r });
          }
        }
        parts = merged.map(part);
        break;
      }
      case "drop":
        parts.splice(rng.int(parts.length), 1);
        break;
      case "shift": {
        // another place of the file than was asked for, and says so
        const p = rng.pick(parts);
        const s = Math.max(0, Math.min(total - p.data.length, p.start + rng.pick([-1, 1, 5, -7])));
        Object.assign(p, part({ start: s, end: s + p.data.length - 1 }));
        break;
      }
      case "nonsense":
        rng.pick(parts).head = rng.pick(["bytes", "pages 0-1/2", "bytes a-b/c", "bytes 5-2/9", `bytes */${total}`, ""]);
        break;
      case "short": {
        const p = rng.pick(parts);
        p.head = rangeOf(p);
        p.data = p.data.slice(0, Math.max(0, p.data.length - 1 - rng.int(3)));
        break;
      }
    }
    const cut = kind === "trunc" || kind === "break";
    const single = parts.length === 1 && (kind === "one" || asked.length === 1);
    const serve = (body: Uint8Array, headers: any) => {
      let end = body.length;
      if (cut) {
        end = rng.int(body.length);
      }
      return new Response(stream(body.slice(0, end), cutsFor(rng, end), kind === "break"), { status: 206, headers });
    };
    if (single || (parts.length === 0 && kind === "drop")) {
      if (parts.length === 0) {
        return serve(multipart([], st, rng).body, { "Content-Type": contentType(st) });
      }
      return serve(parts[0].data, { "Content-Type": "application/octet-stream", "Content-Range": parts[0].head ?? rangeOf(parts[0], st.unit) });
    }
    return serve(multipart(parts, st, rng).body, kind === "notype" ? {} : { "Content-Type": contentType(st) });
  };
}

function fileOf(rng: Rng, n: number): Uint8Array {
  const b = new Uint8Array(n);
  const mode = rng.int(3);
  for (let i = 0; i < n; i++) {
    b[i] = mode === 0 ? rng.int(256) : mode === 1 ? 45 - 32 * (rng.chance(5) ? 1 : 0) : 97 + (i % 26);
  }
  return b;
}

function ranges(rng: Rng, n: number, invalid: boolean): R[] {
  const k = 1 + rng.int(rng.chance(12) ? 150 : rng.chance(3) ? 9 : 4);
  const rs: R[] = [];
  for (let i = 0; i < k; i++) {
    const start = rng.int(n);
    let end = Math.min(n - 1, start + (k > 20 ? rng.int(90) : rng.pick([0, 1, 2, 10, 60, 5000, n > 70000 && k < 4 ? 140000 : 1])));
    if (rng.chance(12)) {
      end += 1 + rng.int(5000); // beyond the end of the file
    }
    rs.push(rs.length > 0 && rng.chance(6) ? { ...rng.pick(rs) } : { start, end });
  }
  if (invalid) {
    const r = rng.pick(rs);
    if (rng.chance(2)) {
      r.end = r.start - 1;
    } else {
      r.start = n + rng.int(3);
      r.end = r.start + rng.int(9);
    }
  }
  return rs;
}

export async function rangesDriver(c: Ctx) {
  const realFetch = globalThis.fetch;
  console.log = console.warn = () => {};
  const rng = new Rng(c.seed * 65537 + 23);
  const files = c.thorough ? 1500 : 150;
  try {
    for (let i = 0; i < files; i++) {
      // some files are longer than the buffers on the way
      const n = i % 50 === 7 ? 70000 + rng.int(90000) : rng.chance(8) ? 4090 + rng.int(9000) : 1 + rng.int(200);
      const file = fileOf(rng, n);
      const t: Trace = { id: "r" + i, cfg: { file: [...file] }, ev: [] };
      for (let k = 0; k < (n > 70000 ? 5 : 8); k++) {
        const good = rng.chance(2);
        const kind = good ? rng.pick(GOOD) : rng.pick(BAD);
        const invalid = rng.chance(15);
        const rs = ranges(rng, n, invalid);
        const multi = rng.pick([true, true, undefined, false]);
        const want = rng.chance(6) ? n + rng.int(2) : 0;
        const seen: Ev[] = [];
        globalThis.fetch = server(file, kind, rng, style(rng), seen) as any;
        const e: Ev = { op: "ranges", rs: rs.map((r) => [r.start, r.end]), kind, good, len: want, chunks: [] };
        await outcome(e, async () => {
          const got = await requestRanges(
            "http://x/f",
            rs.map((r) => (want ? { ...r, expectedLength: want } : { ...r })),
            { useMultipartByteRanges: multi },
          );
          e.chunks = got.map((g: any) => [[...new Uint8Array(g.data)], Number.isInteger(g.totalLength) ? g.totalLength : -1]);
        });
        t.ev.push(e);
      }
      c.out.emit(t);
    }
    globalThis.fetch = realFetch;
    await real(c, rng);
  } finally {
    globalThis.fetch = realFetch;
  }
}

// real asks a real server over the loopback network.
async function real(c: Ctx, rng: Rng) {
  const dir = path.join(c.dir, "www");
  fs.mkdirSync(dir, { recursive: true });
  const srv = await serve(dir);
  if (!srv) {
    return;
  }
  try {
    for (let i = 0; i < (c.thorough ? 200 : 25); i++) {
      const n = rng.chance(4) ? 4090 + rng.int(30000) : 1 + rng.int(300);
      const file = fileOf(rng, n);
      fs.writeFileSync(path.join(dir, `f${i}`), file);
      const t: Trace = { id: "http" + i, cfg: { file: [...file] }, ev: [] };
      for (let k = 0; k < 6; k++) {
        const rs = ranges(rng, n, rng.chance(8));
        const multi = rng.pick([true, true, undefined, false]);
        const e: Ev = { op: "ranges", rs: rs.map((r) => [r.start, r.end]), kind: "http", good: true, len: 0, chunks: [] };
        await outcome(e, async () => {
          const got = await requestRanges(srv.url + `f${i}`, rs.map((r) => ({ ...r })), { useMultipartByteRanges: multi });
          e.chunks = got.map((g: any) => [[...new Uint8Array(g.data)], Number.isInteger(g.totalLength) ? g.totalLength : -1]);
        });
        t.ev.push(e);
      }
      c.out.emit(t);
    }
  } finally {
    srv.stop();
  }
}

// multipart: the parser alone on bodies cut anywhere; with -in, on the model's bodies and chunkings.
export async function multipartDriver(c: Ctx) {
  console.log = console.warn = () => {};
  const rng = new Rng(c.seed * 131 + 5);
  const one = async (t: Trace, st: Style, parts: P[], body: Uint8Array, ends: number[], cuts: number[], trunc: number) => {
    const e: Ev = { op: "parse", parts: parts.map((p) => [[...p.data], rangeOf(p, st.unit)]), whole: trunc >= body.length, has: ends.filter((x) => x <= trunc).length, got: [] };
    await outcome(e, async () => {
      for await (const ch of parseMultipartBody(contentType(st), stream(body.slice(0, trunc), cuts, false))) {
        e.got.push([[...new Uint8Array(ch.data)], Object.entries(ch.headers).filter(([k]) => k.toLowerCase() === "content-range")[0]?.[1] ?? ""]);
      }
    });
    t.ev.push(e);
  };
  if (c.input) {
    let t: Trace = { id: "g0", cfg: {}, ev: [] };
    const st: Style = { boundary: "xyz", quoted: false, lead: "", name: "Content-Range", extra: [], tail: "--", sep: ": ", pre: "; " };
    for (const l of fs.readFileSync(c.input, "utf8").split("\n")) {
      if (!l) {
        continue;
      }
      // sizes of the parts, units after which the stream is cut, units before its end
      const q = JSON.parse(l);
      let at = 0;
      const parts: P[] = q.sizes.map((k: number) => {
        const p = { start: at, data: enc.encode("-\r\n-".slice(0, k)), total: "99" };
        at += k;
        return p;
      });
      const lead = q.lead ? "\r\n" : "";
      const units: string[] = [];
      const ends: number[] = [];
      const size = () => units.reduce((n, x) => n + x.length, 0);
      parts.forEach((p, i) => {
        if (i > 0 || lead) {
          units.push("\r", "\n");
        }
        units.push("--x", "yz", "\r", "\n", `Content-Range: ${rangeOf(p)}`, "\r", "\n", "\r", "\n");
        units.push(...[...p.data].map((b) => String.fromCharCode(b)));
        ends.push(size());
      });
      units.push("\r", "\n", "--x", "yz", "-", "-");
      const upto = (k: number) => units.slice(0, k).reduce((n, x) => n + x.length, 0);
      if (q.n !== units.length) {
        throw new Error(`the model's body has ${q.n} units, the real one ${units.length}`);
      }
      await one(t, st, parts, enc.encode(units.join("")), ends, q.cuts.map(upto), upto(q.trunc));
      if (t.ev.length >= 40) {
        c.out.emit(t);
        t = { id: "g" + c.out.traces, cfg: {}, ev: [] };
      }
    }
    c.out.emit(t);
    return;
  }
  const n = c.thorough ? 2000 : 160;
  for (let i = 0; i < n; i++) {
    const t: Trace = { id: "m" + i, cfg: {}, ev: [] };
    const huge = i % 40 === 3;
    for (let k = 0; k < (huge ? 2 : 6); k++) {
      const big = rng.chance(10);
      const parts: P[] = [];
      for (let j = huge ? 1 + rng.int(2) : rng.chance(15) ? 20 + rng.int(200) : rng.int(5); j > 0; j--) {
        const data = fileOf(rng, huge ? 60000 + rng.int(50000) : 1 + rng.int(big && j < 5 ? 6000 : 40));
        parts.push({ start: rng.int(1000), data, total: "100000" });
      }
      const st = style(rng);
      const { body, ends } = multipart(parts, st, rng);
      const trunc = rng.chance(2) ? body.length : rng.int(body.length + 1);
      await one(t, st, parts, body, ends, cutsFor(rng, trunc), trunc);
    }
    c.out.emit(t);
  }
}
