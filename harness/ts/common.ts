import fs from "fs";
import path from "path";
import { execFileSync, spawn } from "child_process";

export type Ev = Record<string, any>;
export type Trace = { id: string; cfg: Ev; ev: Ev[] };

export type Ctx = {
  seed: number;
  thorough: boolean;
  dir: string;
  input: string;
  probe: boolean;
  out: Out;
};

export class Out {
  private fd: number;
  traces = 0;
  events = 0;
  ops: Record<string, number> = {};
  samples: string[] = [];

  constructor(private file: string, append = false) {
    this.fd = fs.openSync(file, append ? "a" : "w");
    if (append) {
      for (const x of fs.readFileSync(file, "utf8").split("\n")) {
        if (x) {
          this.count(JSON.parse(x), x);
        }
      }
    }
  }

  private count(t: Trace, s: string) {
    this.traces++;
    this.events += t.ev.length;
    for (const e of t.ev) {
      this.ops[e.op] = (this.ops[e.op] ?? 0) + 1;
    }
    if (this.samples.length < 3) {
      this.samples.push(s.length > 600 ? s.slice(0, 600) + "..." : s);
    }
  }

  emit(t: Trace) {
    const s = JSON.stringify(t);
    fs.writeSync(this.fd, s + "\n");
    this.count(t, s);
  }

  close() {
    fs.closeSync(this.fd);
    fs.writeFileSync(
      this.file.replace(/\.ndjson$/, "") + ".sum.json",
      JSON.stringify({ traces: this.traces, events: this.events, ops: this.ops, samples: this.samples }),
    );
  }
}

// a small deterministic generator of pseudo-random numbers
export class Rng {
  private s: number;
  constructor(seed: number) {
    this.s = (seed * 2654435761 + 12345) >>> 0;
  }
  next(): number {
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  }
  int(n: number): number {
    return Math.floor(this.next() * n);
  }
  pick<T>(xs: T[]): T {
    return xs[this.int(xs.length)];
  }
  chance(n: number): boolean {
    return this.int(n) === 0;
  }
}

// goCases asks the Go harness for fixtures.
export function goCases(c: Ctx, driver: string, sub = "fix"): any[] {
  const d = path.join(c.dir, sub);
  fs.mkdirSync(d, { recursive: true });
  const args = ["-seed", String(c.seed), "-tier", c.thorough ? "thorough" : "quick", "-out", path.join(c.dir, sub + ".ndjson"), "-dir", d];
  if (c.probe) {
    args.push("-probe");
  }
  if (c.input) {
    args.push("-in", c.input);
  }
  args.push(driver);
  execFileSync(process.env.VH_GO!, args, { stdio: ["ignore", "inherit", "inherit"] });
  return JSON.parse(fs.readFileSync(path.join(d, "cases.json"), "utf8"));
}

// serve starts a plain file server (Go's) over a folder: its address, or null where there is no loopback network.
export async function serve(dir: string): Promise<{ url: string; stop: () => void } | null> {
  const p = spawn(process.env.VH_GO!, ["httpd", dir], { stdio: ["pipe", "pipe", "ignore"] });
  p.on("error", () => {});
  const line = await new Promise<string>((done) => {
    let s = "";
    p.stdout!.on("data", (d) => {
      s += d;
      if (s.includes("\n")) {
        done(s.trim());
      }
    });
    p.stdout!.on("end", () => done(""));
    p.on("exit", () => done(""));
  });
  const stop = () => {
    p.stdin!.end();
    p.kill();
  };
  if (!line) {
    stop();
    return null;
  }
  return { url: `http://${line}/`, stop };
}

export type Range = { start: number; end: number; expectedLength?: number };

export function slice(b: Uint8Array, start: number, end: number): ArrayBuffer {
  const s = b.subarray(Math.min(start, b.length), Math.min(end + 1, b.length));
  const r = new ArrayBuffer(s.length);
  new Uint8Array(r).set(s);
  return r;
}

// bytes serves the ranges of a file the way the resolvers are documented to: inclusive ends.
export function fileResolver(b: Uint8Array) {
  return async (ranges: Range[]) =>
    ranges.map(({ start, end }) => ({ data: slice(b, start, end), totalLength: b.length }));
}

export function bytesOf(v: any): number[] {
  if (v === null) {
    return [];
  }
  switch (typeof v) {
    case "boolean":
      return [v ? 1 : 0];
    case "number":
    case "bigint": {
      const b = Buffer.alloc(8);
      b.writeDoubleBE(Number(v));
      return [...b];
    }
    case "string":
      return [...Buffer.from(v, "utf8")];
  }
  throw new Error("bytesOf " + typeof v);
}

export function valueOf(t: number, b: number[]): any {
  switch (t) {
    case 0:
      return Buffer.from(b).toString("utf8");
    case 3:
      return Buffer.from(b).readDoubleBE(0);
    case 6:
      return b[0] === 1;
    case 7:
      return null;
  }
  throw new Error("valueOf " + t);
}

export async function withTimeout<T>(p: Promise<T>, ms = 60000): Promise<T> {
  let h: any;
  const timeout = new Promise<T>((_, rej) => {
    h = setTimeout(() => rej(new Hang()), ms);
  });
  try {
    return await Promise.race([p, timeout]);
  } finally {
    clearTimeout(h);
  }
}

export class Hang extends Error {
  constructor() {
    super("no answer");
  }
}

let pendingFile = "";
export function setPending(f: string) {
  pendingFile = f;
}

// outcome runs one call into the code under test.
export async function outcome(e: Ev, f: () => Promise<void>, ms = 60000): Promise<Ev> {
  if (pendingFile) {
    // should the process die in this call, the parent knows which one it was
    fs.writeFileSync(pendingFile, JSON.stringify(e, (_, v) => (typeof v === "bigint" ? String(v) : v)).slice(0, 2000));
  }
  try {
    await withTimeout(f(), ms);
    e.res = "ok";
  } catch (x: any) {
    e.res = x instanceof Hang ? "hang" : "err";
    e.msg = String(x?.message ?? x).slice(0, 200);
  }
  return e;
}
