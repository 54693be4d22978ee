exec(open("/verif/tools/bugs/ts2.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="meta-entries-short", property="C24", needs="an index file of more than 2097151 records",
 breaks="the client reads a smaller number of records than the indexer wrote",
 edits=[("src/file/meta.ts", "  const { value: entries } = decodeUvarint(buffer.slice(10));\n", "  const { value: entries } = decodeUvarint(buffer.slice(10, 13));\n")],
 demo={"demo.ts": '''import { readFileMeta } from "@src/file/meta";
(async () => {
  for (const n of [0, 1, 127, 128, 20000, 2097151, 2097152, 300000000]) {
    const v: number[] = [];
    let x = n;
    for (; x > 127; x = Math.floor(x / 128)) v.push((x % 128) + 128);
    v.push(x);
    const m = await readFileMeta(new Uint8Array([1, 0, 5, 0, 0, 0, 0, 0, 0, 0, ...v, ...Array(9 - v.length).fill(0)]).buffer);
    if (m.entries !== n) { console.log(n, m.entries); process.exit(1); }
  }
})();
'''}, run="tsrun"),
dict(id="where-bigint-64", property="C21", needs="a bigint of 2^63 or more as the value of a comparison",
 breaks="it is compared as a negative number",
 edits=[("src/db/query-lang.ts", '      case "bigint":\n      case "number":\n        valueBuf = new ArrayBuffer(8);\n        new DataView(valueBuf).setFloat64(0, Number(value));\n', '      case "bigint":\n      case "number":\n        valueBuf = new ArrayBuffer(8);\n        new DataView(valueBuf).setFloat64(\n          0,\n          Number(typeof value === "bigint" ? BigInt.asIntN(64, value) : value),\n        );\n')],
 demo={"demo.ts": '''import { processWhere } from "@src/db/query-lang";
for (const v of [0n, -5n, 2n ** 53n, 2n ** 63n, 2n ** 64n - 1n, 2n ** 70n]) {
  const x = new DataView(processWhere<any>(v as any)!.valueBuf).getFloat64(0);
  if (x !== Number(v)) { console.log(v, x); process.exit(1); }
}
'''}, run="tsrun"),
dict(id="multipart-padded-part", property="C23", needs="a multipart body that ends in the middle of its last part",
 breaks="the rest of the part is filled with zeros and returned as the bytes of the file",
 edits=[("src/resolver/multipart.ts", "    for (let i = 0; i < contentLength; i++) {\n      while (length === 0) {\n        if (await extend()) {\n          return;\n        }\n      }\n      data[i] = buf[ptr];\n", "    let more = true;\n    for (let i = 0; i < contentLength && more; i++) {\n      while (length === 0 && more) {\n        more = !(await extend());\n      }\n      if (!more) {\n        break;\n      }\n      data[i] = buf[ptr];\n")],
 demo={"demo.ts": '''import parse from "@src/resolver/multipart";
(async () => {
  const whole = "--B\\r\\nContent-Range: bytes 0-9/100\\r\\n\\r\\n0123456789\\r\\n--B\\r\\nContent-Range: bytes 20-29/100\\r\\n\\r\\nabcdefghij\\r\\n--B--";
  for (let n = 0; n <= whole.length; n++) {
    const body = new TextEncoder().encode(whole.slice(0, n));
    const stream = new ReadableStream({ start(c) { c.enqueue(body); c.close(); } });
    try {
      for await (const p of parse("multipart/byteranges; boundary=B", stream)) {
        const t = new TextDecoder().decode(p.data);
        if (t !== "0123456789" && t !== "abcdefghij") { console.log(n, JSON.stringify(t)); process.exit(1); }
      }
    } catch {}
  }
})();
'''}, run="tsrun"),
dict(id="search-idf-floor", property="C22", needs="an n-gram that more than half of the records hold",
 breaks="such n-grams no longer lower the score of the records that hold them",
 edits=[("src/db/database.ts", "        const idf = Math.log((n - nt + 0.5) / (nt + 0.5)); // inverse document frequency formula\n", "        const idf = Math.max(0, Math.log((n - nt + 0.5) / (nt + 0.5))); // inverse document frequency formula\n")],
 demo={"demo.ts": '''import { Database, FieldType } from "@src/db/database";
import { DataFile } from "@src/file/data-file";
import { IndexFile } from "@src/file/index-file";
''' + PAGE + '''
// three records that all have the trigram abc
const lines = ['{"a":"abc"}', '{"a":"abc"}', '{"a":"abc"}'];
const data = new TextEncoder().encode(lines.join("\\n") + "\\n");
const file = new Uint8Array(4096 * 4);
const slot = (i: number, root: number, meta: number[]) => file.set([...u64(BigInt(root)), ...u32(4096), meta.length, ...meta], 4096 * 2 + 9 + i * 265);
file.set([...u64(8192n), 1], 4096);
file.set([0, 0, ...u64(BigInt(data.length)), 3].reduce((a: number[], b) => [...a, b], [11]), 4096 + 9 + 12);
file.set([...u64(2n ** 64n - 1n), 3], 8192);
slot(1, 0, [...u16(FieldType.Bigram), ...u16(3), ...u16(1), 97, ...uv(2)]);
slot(2, 0, [...u16(FieldType.Unigram), ...u16(2), ...u16(1), 97, ...uv(1)]);
slot(0, 4096 * 3, [...u16(FieldType.Trigram), ...u16(4), ...u16(1), 97, ...uv(3)]);
const key = (s: string, o: number) => [...uv(o), ...uv(1), ...new TextEncoder().encode(s)];
file.set([...u32(2 ** 32 - 3), ...key("abc", 5), ...key("abc", 17), ...key("abc", 29), 0, 11, 12, 11, 24, 11], 4096 * 3);
(async () => {
  const db: any = Database.forDataFileAndIndexFile(DataFile.forResolver(resolverOf(data) as any), await IndexFile.forResolver(resolverOf(file) as any));
  const ask = async (like: string) => { const r = []; for await (const x of db.query({ search: { key: "a", like, config: { minGram: 3, maxGram: 3 } } })) r.push(x.score); return r; };
  const one = await ask("abc");
  if (one.length !== 3 || one.some((x: number) => !(x < 0))) { console.log(one); process.exit(1); }
})().catch((e) => { console.log(e); process.exit(1); });
'''}, run="tsrun"),
]
