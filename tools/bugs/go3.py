G = {}
exec(open("/verif/tools/bugs/go1.py").read(), G)
MEM, IDX, IMP = G["MEM"], G["IDX"], G["IMP"]
CSVIDX = MEM + '''
func sync(t *testing.T, f io.ReadWriteSeeker, data string) error {
	x, err := appendable.NewIndexFile(f, handlers.CSVHandler{}, nil)
	if err != nil { return err }
	return x.Synchronize([]byte(data))
}
func entries(t *testing.T, f io.ReadWriteSeeker, data, name string, ft appendable.FieldType) (out []string) {
	x, err := appendable.NewIndexFile(f, handlers.CSVHandler{}, nil)
	if err != nil { t.Fatal(err) }
	slot, _, err := x.FindOrCreateIndex(name, ft)
	if err != nil { t.Fatal(err) }
	tr := slot.BPTree(&bptree.BPTree{Data: []byte(data), DataParser: handlers.CSVHandler{}})
	it, err := tr.Iter(pointer.ReferencedValue{})
	if err != nil { t.Fatal(err) }
	for it.Next() { k := it.Key(); out = append(out, fmt.Sprintf("%x@%d+%d", k.Value, k.DataPointer.Offset, k.DataPointer.Length)) }
	if it.Err() != nil { t.Fatal(it.Err()) }
	return
}
'''
J2J = '''cargo build --offline -q -p jsonl2json --target-dir "$T/t" || exit 1
B="$T/t/debug/jsonl2json"
'''
BUGS = [
dict(id="csv-bool-first", property="C14", needs="a cell that is 0 or 1",
 breaks="the numbers 0 and 1 of CSV data are indexed as booleans",
 edits=[("pkg/handlers/csv.go", "	if i, err := strconv.Atoi(fieldValue); err == nil {\n", "	if b, err := strconv.ParseBool(fieldValue); err == nil {\n		return b, appendable.FieldTypeBoolean\n	}\n\n	if i, err := strconv.Atoi(fieldValue); err == nil {\n"),
        ("pkg/handlers/csv.go", "\n	if b, err := strconv.ParseBool(fieldValue); err == nil {\n		return b, appendable.FieldTypeBoolean\n	}\n\n	return fieldValue, ", "\n	return fieldValue, ")],
 demo={"demo_test.go": IMP + CSVIDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	d := "a,b\\n1,true\\n0.5,F\\n"
	if err := sync(t, f, d); err != nil { t.Fatal(err) }
	if e := entries(t, f, d, "a", appendable.FieldTypeFloat64); len(e) != 2 { t.Fatal(e) }
	if e := entries(t, f, d, "b", appendable.FieldTypeBoolean); len(e) != 2 { t.Fatal(e) }
}
'''}, run="gotest pkg/handlers"),
dict(id="csv-number-spaces", property="C14", needs="a cell that is a number with spaces around it",
 breaks="text that merely contains a number with spaces is indexed as the number",
 edits=[("pkg/handlers/csv.go", "	if i, err := strconv.Atoi(fieldValue); err == nil {\n", "	number := strings.TrimSpace(fieldValue)\n	if i, err := strconv.Atoi(number); err == nil {\n"),
        ("pkg/handlers/csv.go", "strconv.ParseFloat(fieldValue, 64)", "strconv.ParseFloat(number, 64)")],
 demo={"demo_test.go": IMP + CSVIDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	d := "a,b\\n 1,2\\n3 ,4\\n"
	if err := sync(t, f, d); err != nil { t.Fatal(err) }
	if e := entries(t, f, d, "a", appendable.FieldTypeString); len(e) != 2 { t.Fatal(e) }
	if e := entries(t, f, d, "b", appendable.FieldTypeFloat64); len(e) != 2 { t.Fatal(e) }
}
'''}, run="gotest pkg/handlers"),
dict(id="ngram-span", property="C16", needs="a character that is dropped in the middle of a word",
 breaks="an n-gram over a dropped character spans too few characters of the text",
 edits=[("pkg/ngram/tokenizer.go", "				Length: uint32(ogOffsets[wOffsets[p]] - q + 1),\n", "				Length: uint32(p - i + 1),\n")],
 demo={"demo_test.go": '''package ngram_test
import ("testing"; "github.com/kevmo314/appendable/pkg/ngram")
func TestDemo(t *testing.T) {
	g := ngram.BuildNgram("ab-cd", 3)
	if len(g) != 2 || g[0] != (ngram.Token{Word: "abc", Offset: 0, Length: 4}) || g[1] != (ngram.Token{Word: "bcd", Offset: 1, Length: 4}) { t.Fatal(g) }
}
'''}, run="gotest pkg/ngram"),
dict(id="shuffle-in-place", property="C16", needs="the list of n-grams used again after it was shuffled",
 breaks="the client's shuffle reorders the list it is given",
 edits=[("src/ngram/tokenizer.ts", "    let soup = [...tokens];\n", "    let soup = tokens;\n")],
 demo={"demo.ts": '''import { NgramTokenizer } from "@src/ngram/tokenizer";
const g = new NgramTokenizer(1, 1).tokens("abcdefghijklmnopqrstuvwxyz0123456789");
const before = g.map((x) => x.value).join("");
for (let i = 0; i < 5; i++) { const s = NgramTokenizer.shuffle(g); if (s.length !== 36) process.exit(2); }
if (g.map((x) => x.value).join("") !== before) { console.log("list changed"); process.exit(1); }
'''}, run="tsrun"),
dict(id="heap-last-grandchild", property="C17", needs="the smallest (largest) grandchild in the last of four places when an item sinks",
 breaks="an item sinking in the heap ignores the last grandchild, so a later minimum or maximum is wrong",
 edits=[("pkg/hnsw/heap.go", "		for g := lchild(l); g < n && g <= rchild(r); g++ {\n", "		for g := lchild(l); g < n && g < rchild(r); g++ {\n")],
 demo={"demo_test.go": '''package hnsw
import ("testing"; "math/rand"; "sort")
func TestDemo(t *testing.T) {
	for s := int64(0); s < 300; s++ {
		r := rand.New(rand.NewSource(s))
		h := NewDistHeap()
		var ds []float64
		for i := 0; i < 20; i++ { d := float64(r.Intn(1000)); ds = append(ds, d); h.Insert(Id(i), float32(d)) }
		sort.Float64s(ds)
		for i := 0; i < 20; i++ { x, err := h.PopMinItem(); if err != nil { t.Fatal(err) }; if float64(x.dist) != ds[i] { t.Fatal(s, i, x.dist, ds[i]) } }
	}
}
'''}, run="gotest pkg/hnsw"),
dict(id="j2j-early-create", property="C26", needs="a line that is no JSON value while an output of an earlier run exists",
 breaks="a failing conversion empties the array written before",
 edits=[("scripts/jsonl2json/src/main.rs", "    let mut array: Vec<Value> = vec![];\n", "    // fail early when the output cannot be written\n    File::create(&output_path)\n        .with_context(|| format!(\"Failed to write to file: {}\", output_path.display()))?;\n\n    let mut array: Vec<Value> = vec![];\n")],
 demo={}, run=J2J + '''printf '1\\n' > "$T/a.jsonl"; "$B" -f "$T/a.jsonl" || exit 1
cp "$T/a.json" "$T/keep"; printf '1\\n{\\n' > "$T/a.jsonl"
"$B" -f "$T/a.jsonl" 2>/dev/null && exit 1
cmp "$T/a.json" "$T/keep"
'''),
dict(id="j2j-blank-lines", property="C26", needs="a blank line between two values",
 breaks="a blank line ends the conversion: the values after it are missing, with exit status 0",
 edits=[("scripts/jsonl2json/src/main.rs", "        let json: Value = serde_json::from_str(&line)?;\n", "        if line.trim().is_empty() {\n            break; // the end of the data\n        }\n        let json: Value = serde_json::from_str(&line)?;\n")],
 demo={}, run=J2J + '''printf '1\\n2\\n' > "$T/a.jsonl"; "$B" -f "$T/a.jsonl" || exit 1
[ "$(tr -d ' \\n' < "$T/a.json")" = "[1,2]" ] || exit 1
printf '1\\n\\n2\\n' > "$T/b.jsonl"
"$B" -f "$T/b.jsonl" 2>/dev/null && exit 1
exit 0
'''),
]
