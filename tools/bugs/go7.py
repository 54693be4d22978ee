exec(open("/verif/tools/bugs/go1.py").read().split("BUGS = [")[0])
PAGER = MEM + '''
type root struct { mp pointer.MemoryPointer }
func (r *root) Root() (pointer.MemoryPointer, error) { return r.mp, nil }
func (r *root) SetRoot(mp pointer.MemoryPointer) error { r.mp = mp; return nil }
'''
J2J = '''cargo build --offline -q -p jsonl2json --target-dir "$T/t" || exit 1
B="$T/t/debug/jsonl2json"
'''
BUGS = [
dict(id="btree-id-16", property="C06", needs="an id of 65536 or more read back from a stored node",
 breaks="ids lose their high bits when a node is read: their vectors are lost or given to other ids",
 edits=[("pkg/btree/node.go", "		n.Ids[i].Value = hnsw.Id(v)\n", "		n.Ids[i].Value = hnsw.Id(uint16(v))\n")],
 demo={"demo_test.go": '''package btree_test
import ("io"; "testing"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer"; "github.com/kevmo314/appendable/pkg/btree"; "github.com/kevmo314/appendable/pkg/hnsw")
''' + PAGER + '''
func TestDemo(t *testing.T) {
	p, err := pagefile.NewPageFile(&mem{})
	if err != nil { t.Fatal(err) }
	tr := btree.NewBTree(&root{}, p, 2)
	for _, id := range []hnsw.Id{1, 65535, 65537, 1 << 20} {
		if err := tr.Insert(pointer.ReferencedId{Value: id}, hnsw.Point{float32(id), 1}); err != nil { t.Fatal(id, err) }
	}
	for _, id := range []hnsw.Id{1, 65535, 65537, 1 << 20} {
		_, v, err := tr.Find(pointer.ReferencedId{Value: id})
		if err != nil || len(v) != 2 || v[0] != float32(id) { t.Fatal(id, v, err) }
	}
}
'''}, run="gotest pkg/btree"),
dict(id="vpage-same-vector", property="C20", needs="a vector equal to the one added just before",
 breaks="its vector is not stored under its id",
 edits=[("pkg/vectorpage/manager.go", "	hnsw *hnsw.Hnsw\n}\n", "	hnsw *hnsw.Hnsw\n\n	last hnsw.Point\n}\n"),
        ("pkg/vectorpage/manager.go", "	if err := vp.btree.Insert(pointer.ReferencedId{Value: xId}, x); err != nil {\n		return err\n	}\n", "	if !slices.Equal(vp.last, x) { // the page of the last one is still right\n		if err := vp.btree.Insert(pointer.ReferencedId{Value: xId}, x); err != nil {\n			return err\n		}\n		vp.last = slices.Clone(x)\n	}\n"),
        ("pkg/vectorpage/manager.go", 'import (\n	"fmt"\n', 'import (\n	"fmt"\n	"slices"\n')],
 demo={"demo_test.go": '''package vectorpage
import ("io"; "slices"; "testing"; "github.com/kevmo314/appendable/pkg/pagefile"; "github.com/kevmo314/appendable/pkg/pointer"; "github.com/kevmo314/appendable/pkg/btree"; "github.com/kevmo314/appendable/pkg/bptree"; "github.com/kevmo314/appendable/pkg/hnsw")
''' + PAGER + '''
func TestDemo(t *testing.T) {
	p, err := pagefile.NewPageFile(&mem{})
	if err != nil { t.Fatal(err) }
	bt := btree.NewBTree(&root{}, p, 2)
	vp := NewVectorPageManager(bt, &bptree.BPTree{PageFile: p, MetaPage: &root{}, Width: 41}, hnsw.NewHnsw(2, 10, 5, hnsw.Point{0, 0}))
	for i := 1; i < 12; i++ {
		x := hnsw.Point{float32(i / 2), 1}
		if err := vp.AddNode(x); err != nil { t.Fatal(err) }
		if _, v, err := bt.Find(pointer.ReferencedId{Value: hnsw.Id(i)}); err != nil || !slices.Equal(v, x) { t.Fatal(i, v, err) }
	}
}
'''}, run="gotest pkg/vectorpage"),
dict(id="bptree-root-early", property="C12", needs="a kill between the first page of a new index being linked and written",
 breaks="an index linked to a page of zeros: the file can't be read and never synchronised again",
 edits=[("pkg/bptree/bptree.go", "		offset, err := t.PageFile.NewPage(buf)\n		if err != nil {\n			return err\n		}\n\n		return t.MetaPage.SetRoot(pointer.MemoryPointer{Offset: uint64(offset), Length: uint32(len(buf))})\n", "		offset, err := t.PageFile.NewPage(nil)\n		if err != nil {\n			return err\n		}\n		if err := t.MetaPage.SetRoot(pointer.MemoryPointer{Offset: uint64(offset), Length: uint32(len(buf))}); err != nil {\n			return err\n		}\n		if _, err := t.PageFile.Seek(offset, io.SeekStart); err != nil {\n			return err\n		}\n		_, err = t.PageFile.Write(buf)\n		return err\n")],
 demo={"demo_test.go": IMP.replace("import (", "import (\"errors\"; ") + IDX + '''
type killed struct { *mem; left int }
func (k *killed) Write(b []byte) (int, error) { if k.left == 0 { return 0, errors.New("killed") }; k.left--; return k.mem.Write(b) }
func TestDemo(t *testing.T) {
	data := `{"a":1}` + "\\n" + `{"a":2,"b":"x"}` + "\\n"
	for n := 0; n < 200; n++ {
		m := &mem{}
		f := &killed{m, n}
		func() { defer func() { recover() }(); sync(t, f, data) }()
		if err := sync(t, m, data); err != nil { t.Fatalf("killed after %d writes: %v", n, err) }
		if e := entries(t, m, data, "a", appendable.FieldTypeFloat64); len(e) != 2 { t.Fatal(n, e) }
		if e := entries(t, m, data, "b", appendable.FieldTypeString); len(e) != 1 { t.Fatal(n, e) }
		if f.left > 0 { return }
	}
}
'''}, run="gotest pkg/handlers"),
dict(id="jsonl-bracket-text", property="C09", needs="an array that holds a text that is a bracket",
 breaks="a text [ in an array counts as an inner array: fields behind it are swallowed or the record refused",
 edits=[("pkg/handlers/jsonl.go", "								switch t {\n								case json.Delim('['):\n									depth++\n								case json.Delim(']'):\n", "								switch fmt.Sprint(t) {\n								case \"[\":\n									depth++\n								case \"]\":\n")],
 demo={"demo_test.go": IMP + IDX + '''
func TestDemo(t *testing.T) {
	f := &mem{}
	data := `{"x":["a","]","["],"a":1}` + "\\n" + `{"x":["["],"a":2}` + "\\n"
	if err := sync(t, f, data); err != nil { t.Fatal(err) }
	if e := entries(t, f, data, "a", appendable.FieldTypeFloat64); len(e) != 2 { t.Fatal(e) }
}
'''}, run="gotest pkg/handlers"),
dict(id="mmap-refused-seek", property="C02", needs="a read or write after a seek that was refused",
 breaks="a refused seek moves the position all the same: the next read or write fails or goes elsewhere",
 edits=[("pkg/mmap/mmap.go", "	if abs < 0 {\n		return 0, fmt.Errorf(\"mmap: negative position\")\n	} else if abs > int64(len(m.bytes)) {\n		return 0, fmt.Errorf(\"mmap: position out of bounds\")\n	}\n	m.seek = abs\n", "	if abs < 0 {\n		return 0, fmt.Errorf(\"mmap: negative position\")\n	}\n	m.seek = min(abs, int64(len(m.bytes)))\n	if abs > m.seek {\n		return 0, fmt.Errorf(\"mmap: position out of bounds\")\n	}\n")],
 demo={"demo_test.go": '''package mmap_test
import ("os"; "path/filepath"; "testing"; "github.com/kevmo314/appendable/pkg/mmap")
func TestDemo(t *testing.T) {
	m, err := mmap.OpenFile(filepath.Join(t.TempDir(), "x"), os.O_RDWR|os.O_CREATE, 0666)
	if err != nil { t.Fatal(err) }
	defer m.Close()
	if _, err := m.Write([]byte("hello")); err != nil { t.Fatal(err) }
	if _, err := m.Seek(1, 0); err != nil { t.Fatal(err) }
	if _, err := m.Seek(100, 0); err == nil { t.Fatal("no error") }
	b := make([]byte, 4)
	if n, err := m.Read(b); err != nil || string(b[:n]) != "ello" { t.Fatal(n, err) }
}
'''}, run="gotest pkg/mmap"),
dict(id="cli-timings-swallow", property="C15", needs="a run with -t on data with a line that cannot be indexed",
 breaks="with -t the program exits with 0 although lines are not indexed",
 edits=[("cmd/main.go", "	if err := i.Synchronize(df.Bytes()); err != nil {\n		panic(err)\n	}\n\n	if showTimings {\n		readDuration := time.Since(readStart)\n", "	err = i.Synchronize(df.Bytes())\n	if err != nil && !showTimings {\n		panic(err)\n	}\n\n	if showTimings {\n		readDuration, err := time.Since(readStart), err\n		if err != nil {\n			logger.Error(\"Synchronizing failed\", slog.Any(\"error\", err))\n		}\n")],
 demo={}, run='''go build -o "$T/cli" ./cmd || exit 1
cd "$T"; printf '{"a":1}\\n{"a":}\\n' > d.jsonl; printf '{"a":1}\\n' > e.jsonl
if ./cli -t -jsonl -i d.idx d.jsonl > /dev/null 2>&1; then exit 1; fi
if ./cli -jsonl -i d2.idx d.jsonl > /dev/null 2>&1; then exit 1; fi
./cli -t -jsonl -i e.idx e.jsonl > /dev/null 2>&1'''),
dict(id="j2j-invalid-utf8", property="C26", needs="a line that is not UTF-8 behind good lines",
 breaks="the lines before it are written as the whole, with success",
 edits=[("scripts/jsonl2json/src/main.rs", "    for line in reader.lines() {\n        let line = line?;\n", "    for line in reader.lines().map_while(std::result::Result::ok) {\n")],
 demo={}, run=J2J + '''cd "$T"; printf '{"a":1}\\n{"a":"\\377"}\\n{"a":2}\\n' > d.jsonl
if "$B" -f d.jsonl > /dev/null 2>&1; then exit 1; fi
[ ! -e d.json ]'''),
]
