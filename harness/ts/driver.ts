import fs from "fs";
import path from "path";
import { spawnSync } from "child_process";
import { Ctx, Out, setPending } from "./common";
import { query } from "./query";
import { search } from "./search";
import { interop } from "./interop";
import { client, rangeCache } from "./client";
import { ngram } from "./ngram";
import { codec } from "./codec";
import { multipartDriver, rangesDriver } from "./ranges";

const drivers: Record<string, (c: Ctx) => Promise<void>> = { query, search, interop, ranges: rangesDriver, multipart: multipartDriver, client, rangecache: rangeCache, ngram, codec };

async function main() {
  const c: any = { seed: 1, thorough: false, dir: "", input: "", probe: false };
  let out = "";
  let name = "";
  const a = process.argv.slice(2);
  for (let i = 0; i < a.length; i++) {
    switch (a[i]) {
      case "-seed":
        c.seed = Number(a[++i]);
        break;
      case "-tier":
        c.thorough = a[++i] === "thorough";
        break;
      case "-out":
        out = a[++i];
        break;
      case "-dir":
        c.dir = a[++i];
        break;
      case "-in":
        c.input = a[++i];
        break;
      case "-child":
        break;
      case "-probe":
        c.probe = true;
        break;
      default:
        name = a[i];
    }
  }
  if (!a.includes("-child")) {
    // the code under test may take the process down with it, or never come back
    const r = spawnSync(process.execPath, ["--stack-size=4000", "--max-old-space-size=3000", process.argv[1], ...a, "-child"], {
      stdio: ["ignore", "inherit", "pipe"],
      timeout: c.thorough ? 3600_000 : 240_000,
      killSignal: "SIGKILL",
    });
    if (r.status === 0) {
      process.exit(0);
    }
    const err = String(r.stderr ?? "");
    if (r.status === 3) {
      console.error(err.slice(-3000));
      process.exit(3);
    }
    let last = "";
    try {
      last = fs.readFileSync(path.join(c.dir, "pending.json"), "utf8");
    } catch {}
    const o = new Out(out, true);
    o.emit({ id: "crash", cfg: { none: 0 }, ev: [{ op: "crash", res: r.error ? "hang" : "crash", call: last, msg: err.slice(0, 300) }] });
    o.close();
    process.exit(0);
  }
  setPending(path.join(c.dir, "pending.json"));
  // a promise nobody waits for is a line in the console of a browser
  process.on("unhandledRejection", () => {});
  console.log = () => {};
  console.warn = () => {};
  c.out = new Out(out);
  await drivers[name](c);
  c.out.close();
  process.exit(0);
}

main().catch((e) => {
  console.error(e);
  process.exit(3);
});
