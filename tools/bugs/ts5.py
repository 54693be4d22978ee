exec(open("/verif/tools/bugs/ts2.py").read().split("BUGS = [")[0])
BUGS = [
dict(id="search-trees-kept", property="C22", needs="searches of two fields on one database",
 breaks="the second field's search reads the first one's trees: hits and scores are those of the wrong field",
 edits=[("src/db/database.ts", "      const btreeMap = new Map<FieldType, BPTree>();\n", "      const btreeMap = this.searchTrees;\n"),
        ("src/db/database.ts", "  private async *run(query: Query<T>) {\n", "  // the trees of n-grams, with the nodes read so far\n  private searchTrees = new Map<FieldType, BPTree>();\n\n  private async *run(query: Query<T>) {\n")],
 demo={"demo.ts": '''import { Database, FieldType } from "@src/db/database";
import { DataFile } from "@src/file/data-file";
import { IndexFile } from "@src/file/index-file";
''' + PAGE + '''
// three records: the first one's a and the second one's b have the trigram abc
const lines = ['{"a":"abc","b":"uvw"}', '{"a":"xyz","b":"abc"}', '{"a":"rst","b":"xyz"}'];
const data = new TextEncoder().encode(lines.join("\\n") + "\\n");
const file = new Uint8Array(4096 * 5);
const slot = (i: number, root: number, meta: number[]) => file.set([...u64(BigInt(root)), ...u32(4096), meta.length, ...meta], 4096 * 2 + 9 + i * 265);
file.set([...u64(8192n), 1], 4096);
file.set([0, 0, ...u64(BigInt(data.length)), 3].reduce((a: number[], b) => [...a, b], [11]), 4096 + 9 + 12);
file.set([...u64(2n ** 64n - 1n), 6], 8192);
[97, 98].forEach((name, k) => {
  slot(3 * k, 4096 * (3 + k), [...u16(FieldType.Trigram), ...u16(4), ...u16(1), name, ...uv(9)]);
  slot(3 * k + 1, 0, [...u16(FieldType.Bigram), ...u16(3), ...u16(1), name, ...uv(2)]);
  slot(3 * k + 2, 0, [...u16(FieldType.Unigram), ...u16(2), ...u16(1), name, ...uv(1)]);
});
const key = (s: string, o: number) => [...uv(o), ...uv(3), ...new TextEncoder().encode(s)];
// after the keys, where each one's record is: offset and length
const ptrs = (...rs: number[]) => rs.flatMap((r) => [...uv(22 * r), ...uv(21)]);
file.set([...u32(2 ** 32 - 3), ...key("abc", 6), ...key("rst", 50), ...key("xyz", 28), ...ptrs(0, 2, 1)], 4096 * 3);
file.set([...u32(2 ** 32 - 3), ...key("abc", 38), ...key("uvw", 16), ...key("xyz", 60), ...ptrs(1, 0, 2)], 4096 * 4);
(async () => {
  const db: any = Database.forDataFileAndIndexFile(DataFile.forResolver(resolverOf(data) as any), await IndexFile.forResolver(resolverOf(file) as any));
  const ask = async (key: string, like: string) => { const r = []; for await (const x of db.query({ search: { key, like, config: { minGram: 3, maxGram: 3 } } })) r.push(x.data); return r.join(); };
  for (const [k, like, want] of [["a", "abc", 0], ["b", "abc", 1], ["a", "xyz", 1], ["b", "uvw", 0], ["b", "xyz", 2]] as any) {
    const got = await ask(k, like);
    if (got !== lines[want]) { console.log(k, like, got); process.exit(1); }
  }
})().catch((e) => { console.log(e); process.exit(1); });
'''}, run="tsrun"),
dict(id="meta-name-normal", property="C24", needs="a field name written in decomposed form",
 breaks="the client lists it (and asks for it) in composed form: another field's name than the indexer wrote",
 edits=[("src/file/meta.ts", "  return {\n    fieldName,\n    fieldType,\n    width,\n", "  return {\n    fieldName: fieldName.normalize(),\n    fieldType,\n    width,\n")],
 demo={"demo.ts": '''import { readIndexMeta } from "@src/file/meta";
''' + PAGE + '''
for (const name of ["a", "", "caf\\u00e9", "cafe\\u0301", "\\ufb01n", "\\u212b", "\\u00c5", "A\\u030a"]) {
  const b = [...new TextEncoder().encode(name)];
  const m = readIndexMeta(new Uint8Array([...u16(0), ...u16(0), ...u16(b.length), ...b, ...uv(7)]).buffer);
  if (m.fieldName !== name || m.totalFieldValueLength !== 7) { console.log(JSON.stringify(name), m); process.exit(1); }
}
'''}, run="tsrun"),
]
