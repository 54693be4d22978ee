import { NgramTokenizer } from "@repo/ngram/tokenizer";
import { Ctx, Ev, Trace, goCases, outcome } from "./common";

const cps = (s: string) => [...s].map((c) => c.codePointAt(0)!);
const toks = (ts: any[]) => ts.map((t) => ({ w: cps(t.value), b: [...new Uint8Array(t.valueBuf)], t: t.type }));

// The n-gram tokenizer of the client.
export async function ngram(c: Ctx) {
  const ranges = [
    [1, 1],
    [2, 2],
    [3, 3],
    [1, 2],
    [1, 3],
    [2, 3],
  ];
  let t: Trace = { id: "t0", cfg: { none: 0 }, ev: [] };
  const cases = goCases(c, "tsngram");
  for (let i = 0; i < cases.length; i++) {
    const s = String.fromCodePoint(...cases[i].s);
    for (const [min, max] of [ranges[i % 6], ranges[(i * 5 + 3) % 6]]) {
      const e: Ev = { op: "tokens", s: cases[i].s, cps: cases[i].cps, min, max, toks: [] };
      let ts: any[] = [];
      await outcome(e, async () => {
        ts = new NgramTokenizer(min, max).tokens(s);
        e.toks = toks(ts);
      });
      t.ev.push(e);
      if (i % 9 === 0 && e.res === "ok") {
        const x: Ev = { op: "shuffle", of: toks(ts), toks: [], of2: [] };
        await outcome(x, async () => {
          x.toks = toks(NgramTokenizer.shuffle(ts));
          x.of2 = toks(ts);
        });
        t.ev.push(x);
      }
    }
    if (t.ev.length > 60) {
      c.out.emit(t);
      t = { id: "t" + (i + 1), cfg: { none: 0 }, ev: [] };
    }
  }
  c.out.emit(t);
}
