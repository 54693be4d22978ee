PAGE = '''
const uv = (n: number) => { const r: number[] = []; while (n >= 128) { r.push((n % 128) | 128); n = Math.floor(n / 128); } return [...r, n]; };
const u64 = (n: bigint) => [...new Uint8Array(new BigUint64Array([n]).buffer)];
const u32 = (n: number) => [...new Uint8Array(new Uint32Array([n]).buffer)];
const u16 = (n: number) => [n & 255, n >> 8];
const resolverOf = (file: Uint8Array) => async (rs: any[]) => rs.map(({ start, end }) => ({ data: file.slice(start, end + 1).buffer, totalLength: file.length }));
'''
BUGS = [
dict(id="search-distinct-tokens", property="C22", needs="a text searched for in which an n-gram occurs more than once",
 breaks="an n-gram that occurs twice in the text counts once, so scores and the order of hits are wrong",
 edits=[("src/db/database.ts", "      const likeToks = NgramTokenizer.shuffle(tok.tokens(like));\n", "      const distinct = new Map(\n        tok.tokens(like).map((t): [string, typeof t] => [t.value, t]),\n      );\n      const likeToks = NgramTokenizer.shuffle([...distinct.values()]);\n")],
 demo={"demo.ts": '''import { Database, FieldType } from "@src/db/database";
import { DataFile } from "@src/file/data-file";
import { IndexFile } from "@src/file/index-file";
''' + PAGE + '''
// three records, of which the first has the trigram abc
const lines = ['{"a":"abc"}', '{"a":"xyz"}', '{"a":"uvw"}'];
const data = new TextEncoder().encode(lines.join("\\n") + "\\n");
const file = new Uint8Array(4096 * 4);
const slot = (i: number, root: number, meta: number[]) => file.set([...u64(BigInt(root)), ...u32(4096), meta.length, ...meta], 4096 * 2 + 9 + i * 265);
file.set([...u64(8192n), 1], 4096);
file.set([0, 0, ...u64(BigInt(data.length)), 3].reduce((a: number[], b) => [...a, b], [11]), 4096 + 9 + 12);
file.set([...u64(2n ** 64n - 1n), 3], 8192);
slot(1, 0, [...u16(FieldType.Bigram), ...u16(3), ...u16(1), 97, ...uv(2)]);
slot(2, 0, [...u16(FieldType.Unigram), ...u16(2), ...u16(1), 97, ...uv(1)]);
slot(0, 4096 * 3, [...u16(FieldType.Trigram), ...u16(4), ...u16(1), 97, ...uv(3)]);
const key = (s: string, o: number) => [...uv(o), ...uv(1), ...new TextEncoder().encode(s)];
file.set([...u32(2 ** 32 - 3), ...key("abc", 5), ...key("uvw", 29), ...key("xyz", 17), 0, 11, 24, 11, 12, 11], 4096 * 3);
(async () => {
  const db: any = Database.forDataFileAndIndexFile(DataFile.forResolver(resolverOf(data) as any), await IndexFile.forResolver(resolverOf(file) as any));
  const ask = async (like: string) => { const r = []; for await (const x of db.query({ search: { key: "a", like, config: { minGram: 3, maxGram: 3 } } })) r.push(x.score); return r; };
  const one = await ask("abc"), two = await ask("abc abc");
  if (one.length !== 1 || two.length !== 1 || Math.abs(two[0] - 2 * one[0]) > 1e-9) { console.log(one, two); process.exit(1); }
})().catch((e) => { console.log(e); process.exit(1); });
'''}, run="tsrun"),
dict(id="headers-plain-object", property="C24", needs="a field named __proto__, or fields named like numbers",
 breaks="the client's list of fields misses a field named __proto__ and brings fields named like numbers out of order",
 edits=[("src/file/meta.ts", '''  const headersMap: Map<string, number[]> = new Map();

  for (const meta of indexMetas) {
    if (!headersMap.has(meta.fieldName)) {
      headersMap.set(meta.fieldName, [meta.fieldType]);
    } else {
      const updatedTypes = headersMap.get(meta.fieldName);
      updatedTypes?.push(meta.fieldType);
      headersMap.set(meta.fieldName, updatedTypes!!);
    }
  }

  const indexHeaders: IndexHeader[] = [];
  headersMap.forEach((fieldTypes, fieldName) => {
    indexHeaders.push({ fieldName, fieldTypes });
  });

  return indexHeaders;
''', '''  const headers: Record<string, number[]> = {};

  for (const meta of indexMetas) {
    if (Object.keys(headers).includes(meta.fieldName)) {
      headers[meta.fieldName].push(meta.fieldType);
    } else {
      headers[meta.fieldName] = [meta.fieldType];
    }
  }

  return Object.entries(headers).map(([fieldName, fieldTypes]) => ({
    fieldName,
    fieldTypes,
  }));
''')],
 demo={"demo.ts": '''import { collectIndexMetas } from "@src/file/meta";
const m = (fieldName: string, fieldType: number) => ({ fieldName, fieldType, width: 0, totalFieldValueLength: 0 });
const r = JSON.stringify(collectIndexMetas([m("__proto__", 1), m("a", 0), m("__proto__", 3)] as any));
if (r !== '[{"fieldName":"__proto__","fieldTypes":[1,3]},{"fieldName":"a","fieldTypes":[0]}]') { console.log(r); process.exit(1); }
'''}, run="tsrun"),
dict(id="metadata-memo-failed", property="C25", needs="a failed request for the file record, then another call",
 breaks="the file record is asked for once: when that request failed, every later call fails too",
 edits=[("src/file/index-file.ts", '''    const tree = await this.tree();
    const buffer = await tree.metadata();

    return readFileMeta(buffer);
''', '''    if (!this._metadata) {
      this._metadata = this.tree()
        .then((tree) => tree.metadata())
        .then(readFileMeta);
    }

    return this._metadata;
'''), ("src/file/index-file.ts", "  private _tree?: LinkedMetaPage;\n", "  private _tree?: LinkedMetaPage;\n  private _metadata?: Promise<FileMeta>;\n")],
 demo={"demo.ts": '''import { IndexFile } from "@src/file/index-file";
''' + PAGE + '''
const file = new Uint8Array(4096 * 2);
file.set([...u64(2n ** 64n - 1n), 1, ...u64(0n), ...u32(0), 11, 1, 0, ...u64(7n), 3], 4096);
(async () => {
  let n = 0;
  const ok = resolverOf(file);
  const f = await IndexFile.forResolver(async (rs) => { if (n++ === 0) throw new Error("offline"); return (await ok(rs)) as any; });
  let failed = false;
  await f.metadata().catch(() => { failed = true; });
  const m = await f.metadata();
  if (!failed || m.entries !== 3) { console.log(failed, m); process.exit(1); }
})().catch((e) => { console.log(e); process.exit(1); });
'''}, run="tsrun"),
dict(id="compare-words", property="C28", needs="two keys whose first different byte is below 128 in one and above in the other, within the first four bytes of a word",
 breaks="keys are compared word by word as signed numbers, so a text that starts beyond ASCII comes before all others",
 edits=[("src/bptree/bptree.ts", '''    const len = Math.min(a.length, b.length);
    for (let idx = 0; idx < len; idx++) {
      if (a[idx] !== b[idx]) {
''', '''    const len = Math.min(a.length, b.length);
    let words = 0;
    const aView = new DataView(aBuffer);
    const bView = new DataView(bBuffer);
    // four bytes at a time
    for (; words + 4 <= len; words += 4) {
      const diff = aView.getInt32(words) - bView.getInt32(words);
      if (diff !== 0) {
        return diff < 0 ? -1 : 1;
      }
    }
    for (let idx = words; idx < len; idx++) {
      if (a[idx] !== b[idx]) {
''')],
 demo={"demo.ts": '''import { ReferencedValue } from "@src/bptree/bptree";
const b = (s: string) => new TextEncoder().encode(s).slice().buffer;
if (ReferencedValue.compareBytes(b("zebra"), b("été!")) !== -1 || ReferencedValue.compareBytes(b("été!"), b("zebra")) !== 1) process.exit(1);
'''}, run="tsrun"),
dict(id="builder-select-shared", property="C21", needs="the caller changes its list of fields after giving it to select(), before the query runs",
 breaks="placeholder", edits=[], demo={}, run="tsrun"),
dict(id="ranges-race", property="C23", needs="ranges asked for one by one whose answers arrive in another order",
 breaks="ranges asked for one by one are returned in the order in which they were answered",
 edits=[("src/resolver/range-request.ts", "  return await Promise.all(individualRangePromises);\n", "  const resolved: { data: ArrayBuffer; totalLength: number }[] = [];\n  await Promise.all(\n    individualRangePromises.map(async (p) => resolved.push(await p)),\n  );\n  return resolved;\n")],
 demo={"demo.ts": '''import { requestRanges } from "@src/resolver/range-request";
const file = new Uint8Array(100).map((_, i) => i);
let n = 0;
globalThis.fetch = (async (_: string, o: any) => {
  const [a, b] = o.headers.Range.slice(6).split("-").map(Number);
  await new Promise((r) => setTimeout(r, 30 - 10 * n++));
  return new Response(file.slice(a, b + 1), { status: 206, headers: { "Content-Range": `bytes ${a}-${b}/100`, "Content-Type": "x/y" } });
}) as any;
(async () => {
  const r = await requestRanges("http://x/", [{ start: 1, end: 2 }, { start: 50, end: 51 }], { useMultipartByteRanges: false } as any);
  if (r.map((x) => new Uint8Array(x.data)[0]).join() !== "1,50") { console.log(r); process.exit(1); }
})().catch((e) => { console.log(e); process.exit(1); });
'''}, run="tsrun"),
dict(id="root-offset-32", property="C24", needs="an index larger than four gigabytes", breaks="placeholder", edits=[], demo={}, run="tsrun"),
dict(id="node-length-16", property="C21", needs="a record or value of 64 KiB or more", breaks="placeholder", edits=[], demo={}, run="tsrun"),
]
BUGS = [b for b in BUGS if b["edits"]]
