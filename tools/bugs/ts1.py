BUGS = [
dict(id="select-drops-null", property="C21", needs="a field that is null in a record",
 breaks="fields whose value is null are left out of the answer as if the record did not have them",
 edits=[("src/db/query-lang.ts", "  let jData = JSON.parse(data);\n  if", "  let jData = JSON.parse(data, (_, v) => v ?? undefined) ?? {};\n  if")],
 demo={"demo.ts": '''import { handleSelect } from "@src/db/query-lang";
const r: any = handleSelect<any>('{"a":null,"b":0,"c":1}', ["a", "b", "d"] as any);
if (JSON.stringify(r) !== '{"a":null,"b":0}') { console.log(JSON.stringify(r)); process.exit(1); }
'''}, run="tsrun"),
dict(id="prev-last-child", property="C21", needs="a tree of three levels and a step back from the first key of an inner node's range",
 breaks="a step back into the previous inner node lands on its last child but one, so a descending query skips a page of records",
 edits=[("src/bptree/traversal.ts", "        this.records[i].index = this.records[i].node.numPointers() - 1;\n", "        this.records[i].index = this.records[i].node.keys.length - 1;\n")],
 demo={"demo.ts": '''import { BPTree, ReferencedValue } from "@src/bptree/bptree";
// eight keys in four leaves under two inner nodes under one root; one byte values
const pages: number[][] = [];
const put = (b: number[]) => { pages.push(b); return (pages.length - 1) * 4096; };
const uv = (n: number) => { const r: number[] = []; while (n >= 128) { r.push((n % 128) | 128); n = Math.floor(n / 128); } return [...r, n]; };
const i32 = (n: number) => [...new Uint8Array(new Int32Array([n]).buffer)];
put([]);
const leaf = (ks: number[]) => put([...i32(-ks.length), ...ks.flatMap((k) => [...uv(k), ...uv(1), k]), ...ks.flatMap((k) => [...uv(k), ...uv(1)])]);
const inner = (ks: number[], cs: number[]) => put([...i32(ks.length), ...ks.flatMap((k) => [...uv(k), ...uv(1), k]), ...cs.flatMap((c) => uv(c))]);
const l = [[1, 2], [3, 4], [5, 6], [7, 8]].map(leaf);
const root = inner([5], [inner([3], [l[0], l[1]]), inner([7], [l[2], l[3]])]);
const file = new Uint8Array(pages.length * 4096);
pages.forEach((p, i) => file.set(p, i * 4096));
const resolver = async (rs: any[]) => rs.map(({ start, end }) => ({ data: file.slice(start, end + 1).buffer, totalLength: file.length }));
(async () => {
  const t = new BPTree(resolver, { root: async () => ({ offset: BigInt(root), length: 4096 }) }, resolver, 0, 6, 2, 8);
  const it = t.iter(new ReferencedValue({ offset: 2n ** 64n - 1n, length: 0 }, new Uint8Array([8]).buffer));
  const got: number[] = [];
  while (await it.prev()) got.push(new Uint8Array(it.getKey().value)[0]);
  if (got.join() !== "8,7,6,5,4,3,2,1") { console.log(got); process.exit(1); }
})();
'''}, run="tsrun"),
dict(id="search-zero-score", property="C22", needs="a token held by exactly half of the records, so that its weight is zero",
 breaks="records whose score is zero are left out of the answer although they contain the token",
 edits=[("src/ngram/table.ts", "    return Array.from(this.map, ([key, score]) => ({ key, score })).sort(\n      (m, n) => n.score - m.score,\n    );\n",
  "    return Array.from(this.map, ([key, score]) => ({ key, score }))\n      .filter(({ score }) => score)\n      .sort((m, n) => n.score - m.score);\n")],
 demo={"demo.ts": '''import { PriorityTable } from "@src/ngram/table";
const t = new PriorityTable<number>();
t.insert(1, 0.5); t.insert(2, 0); t.insert(3, -0.5);
const r = t.top().map((x) => x.key).join();
if (r !== "1,2,3") { console.log(r); process.exit(1); }
'''}, run="tsrun"),
dict(id="multipart-boundary-case", property="C23", needs="a server that picks a boundary with capital letters",
 breaks="the boundary is compared in lower case, so a response whose boundary has capitals cannot be read",
 edits=[("src/resolver/multipart.ts", '  const tokens = contentType.split(";");\n', '  // media types are case-insensitive\n  const tokens = contentType.toLowerCase().split(";");\n')],
 demo={"demo.ts": '''import parse from "@src/resolver/multipart";
(async () => {
  const body = "--aB9\\r\\nContent-Type: text/plain\\r\\nContent-Range: bytes 0-2/9\\r\\n\\r\\nabc\\r\\n--aB9--\\r\\n";
  const s = new ReadableStream({ start(c) { c.enqueue(new TextEncoder().encode(body)); c.close(); } });
  let got = "";
  for await (const p of parse("multipart/byteranges; boundary=aB9", s)) got += new TextDecoder().decode(p.data);
  if (got !== "abc") process.exit(1);
})().catch((e) => { console.log(e); process.exit(1); });
'''}, run="tsrun"),
dict(id="meta-length-signed", property="C24", needs="a slot whose metadata is 128 bytes or longer (a long field name)",
 breaks="the length of a slot's metadata is read as a signed byte, so a long field name comes out cut off or not at all",
 edits=[("src/file/multi.ts", "metadataView.getUint8(0)", "metadataView.getInt8(0)")],
 demo={"demo.ts": '''import { ReadMultiBPTree } from "@src/file/multi";
(async () => {
  const file = new Uint8Array(8192);
  file.fill(255, 4096, 4104);
  file[4104] = 1;
  file[4096 + 9 + 12] = 200;
  for (let i = 0; i < 200; i++) file[4096 + 9 + 13 + i] = i;
  const p = ReadMultiBPTree(async (rs) => rs.map(({ start, end }) => ({ data: file.slice(start, end + 1).buffer, totalLength: 8192 })), 0);
  const m = new Uint8Array(await p.metadata());
  if (m.length !== 200 || m[199] !== 199) { console.log(m.length); process.exit(1); }
})().catch((e) => { console.log(e); process.exit(1); });
'''}, run="tsrun"),
dict(id="datafile-memo-race", property="C25", needs="two reads of the data file in flight at once, or a failed read asked for again",
 breaks="the data file remembers the last range it was asked for before the bytes have come, so an overlapping or repeated read gets the bytes of another range",
 edits=[("src/file/data-file.ts", "    const res = await this.resolver([{ start, end }]);\n    return new TextDecoder().decode(res[0].data);\n",
  "    // the same record is often asked for twice in a row\n    const key = `${start}-${end}`;\n    if (this.lastKey !== key) {\n      this.lastKey = key;\n      const res = await this.resolver([{ start, end }]);\n      this.lastText = new TextDecoder().decode(res[0].data);\n    }\n    return this.lastText;\n"),
  ("src/file/data-file.ts", "  private originalResolver?: RangeResolver;\n", "  private originalResolver?: RangeResolver;\n  private lastKey = \"\";\n  private lastText = \"\";\n")],
 demo={"demo.ts": '''import { DataFile } from "@src/file/data-file";
(async () => {
  const text = new TextEncoder().encode("abcdefghij");
  let fail = true;
  const d = DataFile.forResolver(async (rs) => {
    await new Promise((r) => setTimeout(r, rs[0].start === 0 ? 50 : 10));
    if (fail) { fail = false; throw new Error("lost"); }
    return rs.map(({ start, end }) => ({ data: text.slice(start, end + 1).buffer, totalLength: 10 }));
  });
  await d.get(0, 1).catch(() => {});
  const x = await d.get(0, 1);
  const [a, b] = await Promise.all([d.get(0, 2), d.get(4, 6)]);
  if (x !== "ab" || a !== "abc" || b !== "efg") { console.log(x, a, b); process.exit(1); }
})().catch((e) => { console.log(e); process.exit(1); });
'''}, run="tsrun"),
]
