import fs from "fs";
import { init } from "@repo/index";
import { Ctx, Ev, Rng, Trace, fileResolver, goCases, outcome } from "./common";

// code points of the compatibility decomposition
const cps = (s: string) => [...s.normalize("NFKD")].map((c) => c.codePointAt(0)!);

// the weight the scores are made of, in millionths: BM25 without length normalisation
function weight(n: number, nt: number, tf: number): number {
  const idf = Math.log((n - nt + 0.5) / (nt + 0.5));
  return Math.round(1e6 * idf * ((tf * 2.2) / (tf + 1.2)));
}

const QUERIES = ["the", "quick fox", "a", "aa", "ab ba", "", "!?", "lazy dog", "CAFE", "café", "ﬁne", "go", "z", "lorem ipsum", "x y", "it's", "\u{1F600}s", "no\u2028break", "ＷＩＤＴＨ", "k", "b\u00a0sp", "abcab", "42"];

export async function search(c: Ctx) {
  const cases = goCases(c, "tssearch");
  let script: Map<string, any[]> | null = null;
  if (c.input) {
    script = new Map();
    for (const l of fs.readFileSync(c.input, "utf8").split("\n")) {
      if (l) {
        const q = JSON.parse(l);
        const k = JSON.stringify(q.d);
        script.set(k, [...(script.get(k) ?? []), q]);
      }
    }
  }
  for (const cs of cases) {
    const rng = new Rng(c.seed * 104729 + cases.indexOf(cs));
    const data = new Uint8Array(fs.readFileSync(cs.data));
    const idx = new Uint8Array(fs.readFileSync(cs.idx));
    const fields = ["t", "s"];
    const docs = fields.map((f) => cs.recs.map((r: any) => (r[f] === undefined ? [] : cps(r[f]))));
    const byRaw = new Map<string, number>();
    cs.recs.forEach((r: any, i: number) => byRaw.set(r.raw, i + 1));
    const searchable = cs.cfg.cat.filter((x: any) => x[1] === 10).map((x: any) => x[0]);
    // how often a word can be in a value: no more than the value has letters
    const most = Math.max(1, ...docs.flat().map((d: any) => d.length));
    const w = cs.recs.map((_: any, i: number) => Array.from({ length: most }, (_, k) => weight(cs.recs.length, i + 1, k + 1)));
    const t: Trace = { id: cs.id, cfg: { fields, docs, searchable, w }, ev: [{ op: "open" }] };
    const db: any = await init(fileResolver(data) as any, fileResolver(idx) as any);
    const asked: any[] = script ? (script.get(cs.key) ?? []) : [];
    const texts = cs.recs.flatMap((r: any) => [r.t, r.s]).filter((x: any) => x);
    for (let i = 0; i < (script ? asked.length : 14); i++) {
      let like = rng.pick(QUERIES);
      if (texts.length > 0 && rng.chance(2)) {
        const x = [...rng.pick<string>(texts)];
        const k = rng.int(x.length);
        like = x.slice(k, k + 1 + rng.int(8)).join("");
      }
      if (texts.length > 0 && rng.chance(10)) {
        // many words, few of them twice
        like = Array.from({ length: 12 + rng.int(30) }, () => rng.pick<string>(rng.chance(2) ? texts : QUERIES).slice(0, 12)).join(" ");
      }
      // the specification's scores are whole numbers of 32 bits
      like = [...like].slice(0, Math.floor(900 / (6.6 * Math.log(2 * cs.recs.length + 1)))).join("");
      let [min, max] = rng.pick([
        [1, 2],
        [1, 2],
        [3, 3],
        [1, 3],
        [2, 2],
        [1, 1],
        [2, 3],
      ]);
      let field = "t";
      if (script) {
        like = String.fromCodePoint(...asked[i].q);
        [min, max] = [asked[i].min, asked[i].max];
      } else if (rng.chance(12)) {
        [min, max] = rng.pick([
          [0, 2],
          [1, 4],
          [3, 2],
          [4, 4],
        ]);
      } else if (rng.chance(12)) {
        field = rng.pick(["o", "zz", "u"]);
      } else if (searchable.includes("s") && rng.chance(2)) {
        field = "s";
      }
      const dflt = min === 1 && max === 2 && rng.chance(2);
      const e: Ev = { op: "search", n: field, cps: cps(like), min, max, lim: -1, hits: [] };
      if (!script && rng.chance(5)) {
        e.lim = rng.int(6);
      }
      const hits: any[] = [];
      // the object that asks, frozen or not, has to stay as it is
      let asking: any;
      let was = "";
      const ask = (q: any) => {
        asking = q;
        was = JSON.stringify(q);
        if (rng.chance(2)) {
          for (const o of [q.search.config ?? {}, q.search, q]) {
            Object.freeze(o);
          }
        }
        return db.query(q);
      };
      await outcome(e, async () => {
        const gen = e.lim >= 0
          ? ask({ search: { key: field, like, config: { minGram: min, maxGram: max } }, limit: e.lim })
          : dflt
          ? rng.chance(2)
            ? db.search(field, like)
            : ask({ search: { key: field, like } })
          : rng.chance(2)
            ? db.search(field, like, max === 2 && min !== 2 ? { minGram: min } : min === 1 ? { maxGram: max } : { minGram: min, maxGram: max })
            : ask({ search: { key: field, like, config: { minGram: min, maxGram: max } } });
        for await (const h of gen) {
          // a score that is no number is none of those a record can have
          const score = Number.isFinite(h.score) ? Math.max(-1.1e9, Math.min(1.1e9, Math.round(h.score * 1e6))) : 1.1e9;
          hits.push([byRaw.get(h.data) ?? 0, score]);
          if (hits.length > 100000) {
            throw new Error("endless");
          }
        }
      });
      if (e.res === "ok") {
        e.hits = hits;
      }
      e.kept = asking === undefined || JSON.stringify(asking) === was;
      t.ev.push(e);
    }
    c.out.emit(t);
  }
}
