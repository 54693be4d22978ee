package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// Fixtures of what Go writes, for the client to read: single trees, index files
// (finished, or as a killed writer left them), hand-made catalogues, varints.
func init() { drivers["tsinterop"] = fixInterop }

type interopCase struct {
	ID    string   `json:"id"`
	Kind  string   `json:"kind"`
	File  string   `json:"file"`
	Data  string   `json:"data"`
	Root  []string `json:"root"`
	Width int      `json:"width"`
	Type  int      `json:"type"`
	Table []Ev     `json:"table"` // keys as strings, in order
	Keys  []Ev     `json:"keys"`  // the same, ranked
	Seq   [][]any  `json:"seq"`
	Slots []Ev     `json:"slots"`
	Meta  Ev       `json:"meta"`
	Vars  []Ev     `json:"vars"`
}

func bigOff(rng *rand.Rand) uint64 {
	return rng.Uint64() >> (11 + uint(rng.Intn(53)))
}

func bigLen(rng *rand.Rand) uint32 { return rng.Uint32() >> uint(rng.Intn(32)) }

func sp(p pointer.MemoryPointer) string { return fmt.Sprintf("%d:%d", p.Offset, p.Length) }

func put(c *Ctx, name string, b []byte) string {
	p := filepath.Join(c.Dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

func treeCase(c *Ctx, rng *rand.Rand, i int) *interopCase {
	x := &interopCase{ID: fmt.Sprintf("t%d", i), Kind: "tree", Type: 3}
	n := 20 + rng.Intn(400)
	val := func() []byte { return nil }
	raw := func(k int) []byte {
		b := make([]byte, k)
		for j := range b {
			b[j] = byte(rng.Intn(256))
		}
		return b
	}
	var data []byte
	var parser bptree.DataParser = rawParser{}
	off := bigOff
	switch i % 6 {
	case 0:
		x.Width = 2
		val = func() []byte { return []byte{byte(rng.Intn(3))} }
	case 1:
		x.Width = 9
		val = func() []byte { return raw(8) }
		off = func(rng *rand.Rand) uint64 { return uint64(rng.Intn(1 << 20)) }
	case 2:
		x.Width, n = 201, 60+rng.Intn(220)
		pre := raw(198)
		val = func() []byte { return append(append([]byte{}, pre...), raw(2)...) }
	case 3:
		x.Width, x.Type, n = 0, 0, 20+rng.Intn(500)
		parser = handlers.JSONLHandler{}
	case 4:
		x.Width, n = 5, rng.Intn(4)
		val = func() []byte { return raw(4) }
	case 5:
		x.Width, x.Type = 1, 7
		val = func() []byte { return []byte{} }
	}
	var ks []pointer.ReferencedValue
	if x.Width == 0 {
		var b strings.Builder
		for k := 0; k < n; k++ {
			s := texts[rng.Intn(len(texts))] + strconv.Itoa(rng.Intn(20))
			q, _ := json.Marshal(s)
			switch rng.Intn(5) {
			case 0:
				q = []byte(`"\ud800` + strconv.Itoa(rng.Intn(9)) + `"`)
			case 1:
				q = []byte(`"\u00e9\/\ud83d\ude00\t"`)
			case 2:
				q = []byte(`""`)
			}
			o := b.Len()
			b.Write(q)
			ks = append(ks, pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: uint64(o), Length: uint32(len(q))}, Value: parser.Parse(q)})
			b.WriteString(strings.Repeat(" ", 1+rng.Intn(3)))
		}
		data = []byte(b.String())
	} else {
		for k := 0; k < n; k++ {
			ks = append(ks, pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: off(rng), Length: bigLen(rng)}, Value: val()})
		}
	}
	// keys which are asked for but not stored
	nq := len(ks)
	for k := 0; k < 30; k++ {
		q := pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: off(rng), Length: bigLen(rng)}, Value: val()}
		if nq > 0 && rng.Intn(2) == 0 {
			q.Value = ks[rng.Intn(nq)].Value
			q.DataPointer.Offset = 0
		}
		if q.Value == nil {
			q.Value = []byte("zz")
		}
		ks = append(ks, q)
	}
	probe := map[string]bool{}
	for _, k := range ks[nq:] {
		probe[sp(k.DataPointer)+string(k.Value)] = true
	}
	tab := mkTable(ks)
	f := &memFile{}
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		panic(err)
	}
	mr := &memRoot{}
	tr := &bptree.BPTree{PageFile: pf, MetaPage: mr, Data: data, DataParser: parser, Width: uint16(x.Width)}
	for _, k := range rng.Perm(len(tab)) {
		if q := tab[k]; !probe[sp(q.DataPointer)+string(q.Value)] {
			if err := tr.Insert(q, pointer.MemoryPointer{Offset: bigOff(rng), Length: bigLen(rng)}); err != nil {
				panic(err)
			}
		}
	}
	x.Root = []string{strconv.FormatUint(mr.mp.Offset, 10), strconv.Itoa(int(mr.mp.Length))}
	x.Seq = [][]any{}
	if mr.mp.Length != 0 {
		d := &dDump{pages: map[uint64]bool{}, pf: pf}
		var es []dEnt
		if err := d.tree(pf, mr.mp.Offset, data, parser, uint16(x.Width), &es); err != nil {
			panic(err)
		}
		for _, e := range es {
			k := tab.num(pointer.ReferencedValue{Value: e.v, DataPointer: pointer.MemoryPointer{Offset: e.o, Length: uint32(e.n)}})
			x.Seq = append(x.Seq, []any{k, fmt.Sprintf("%d:%d", e.ro, e.rn)})
		}
	}
	x.Keys, x.Table = tab.cfg(), []Ev{}
	for _, k := range tab {
		x.Table = append(x.Table, Ev{"v": ints(k.Value), "o": strconv.FormatUint(k.DataPointer.Offset, 10), "n": strconv.Itoa(int(k.DataPointer.Length))})
	}
	x.File, x.Data = put(c, x.ID+".bin", f.b), put(c, x.ID+".data", data)
	return x
}

// imageCase is what an index file holds, as Go reads it.
func imageCase(c *Ctx, id string, f *memFile, data []byte) *interopCase {
	x := &interopCase{ID: id, Kind: "image", Slots: []Ev{}}
	d, err := dumpIndex(f.clone(), data, handlers.JSONLHandler{})
	if err != nil { // not something Go can read: nothing to compare with
		return nil
	}
	for _, s := range d.idx {
		es := [][]any{}
		for _, e := range s.ents {
			es = append(es, []any{ints(e.v), fmt.Sprintf("%d:%d", e.o, e.n), fmt.Sprintf("%d:%d", e.ro, e.rn)})
		}
		raw, err := s.slot.Metadata()
		if err != nil {
			return nil
		}
		x.Slots = append(x.Slots, Ev{"n": ints([]byte(s.name)), "t": s.t, "w": s.w, "total": strconv.FormatUint(s.total, 10), "es": es, "raw": ints(raw)})
	}
	x.Meta = fileMetaOf(f)
	x.File, x.Data = put(c, id+".idx", f.b), put(c, id+".data", data)
	return x
}

func fileMetaOf(f *memFile) Ev {
	no := Ev{"has": false, "v": 0, "f": 0, "off": "0", "n": "0"}
	pf, err := pagefile.NewPageFile(f.clone())
	if err != nil {
		return no
	}
	lp, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return no
	}
	if lp, err = lp.Next(); err != nil {
		return no
	}
	b, err := lp.Metadata()
	m := &appendable.FileMeta{}
	if err != nil || len(b) == 0 || m.UnmarshalBinary(b) != nil {
		return no
	}
	return Ev{"has": true, "v": int(m.Version), "f": int(m.Format), "off": strconv.FormatUint(m.ReadOffset, 10), "n": strconv.FormatUint(m.Entries, 10)}
}

var exotic = []string{"\ufeffid", "é", "日本", "", "__proto__", "constructor", "a b", "\u0000", "x\ny", "😀", "0", "\"q\""}

func syncedCase(c *Ctx, rng *rand.Rand, i int) *interopCase {
	g := newJGen(rng)
	g.longs = false
	nl := 1 + rng.Intn(14)
	switch i % 4 {
	case 0:
		plainKeys(g)
		g.keys, g.depth = exotic, 0
	case 1:
		plainKeys(g)
		g.keys = nil
		for k := 0; k < 40; k++ {
			g.keys = append(g.keys, fmt.Sprintf("%s%d", strings.Repeat("n", rng.Intn(180)), k))
		}
	case 2:
		g.keys, g.search, nl = g.keys[:2], map[string]bool{}, 100+rng.Intn(200)
	}
	ls, data := genLines(g, nl, 6)
	f := &memFile{}
	cuts := []int{len(data)}
	if rng.Intn(2) == 0 {
		cuts = []int{ls[rng.Intn(len(ls))].o, len(data)}
	}
	for _, v := range cuts {
		if res, _ := syncOnce(f, handlers.JSONLHandler{}, g.searchList(), data[:v:v]); res != "ok" {
			return nil
		}
	}
	if rng.Intn(3) == 0 {
		thin(f, data, rng)
	}
	return imageCase(c, fmt.Sprintf("f%d", i), f, data)
}

// metaCase is a catalogue of made-up slots.
func metaCase(c *Ctx, rng *rand.Rand, i int) *interopCase {
	f := &memFile{}
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		panic(err)
	}
	lp, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		panic(err)
	}
	at, err := lp.AddNext()
	if err != nil {
		panic(err)
	}
	fm := &appendable.FileMeta{Version: 1, Format: appendable.Format(rng.Intn(2)), ReadOffset: rng.Uint64() >> uint(rng.Intn(64)), Entries: bigOff(rng)}
	if err := at.MarshalMetadata(fm); err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	for k := rng.Intn(60); k > 0; k-- {
		if at, err = at.AddNext(); err != nil {
			panic(err)
		}
		im := &appendable.IndexMeta{FieldName: fmt.Sprintf("%s%d", exotic[rng.Intn(len(exotic))], rng.Intn(30)), FieldType: appendable.FieldType(rng.Intn(11)), Width: uint16(rng.Intn(1 << 16)), TotalFieldValueLength: bigOff(rng)}
		if key := fmt.Sprint(im.FieldType, im.FieldName); seen[key] || rng.Intn(12) == 0 {
			continue // a slot without a name
		} else {
			seen[key] = true
		}
		if err := at.MarshalMetadata(im); err != nil {
			panic(err)
		}
	}
	return imageCase(c, fmt.Sprintf("m%d", i), f, nil)
}

func fixInterop(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 2400))
	cs := []*interopCase{}
	n := 1
	if c.Thorough {
		n = 12
	}
	for i := 0; i < 24*n; i++ {
		cs = append(cs, treeCase(c, rng, i))
	}
	for i := 0; i < 16*n; i++ {
		if x := syncedCase(c, rng, i); x != nil {
			cs = append(cs, x)
		}
	}
	for i := 0; i < 12*n; i++ {
		cs = append(cs, metaCase(c, rng, i))
	}
	for i := 0; i < 8*n; i++ { // files a killed writer left behind
		g, ls, data, nold := crashFile(rng, i)
		base := &memFile{}
		if nold > 0 {
			oend := ls[nold-1].o + ls[nold-1].n + 1
			if res, _ := syncOnce(base, handlers.JSONLHandler{}, g.searchList(), data[:oend:oend]); res != "ok" {
				continue
			}
		}
		ws, _, _ := logged(base.clone(), g.searchList(), data)
		for k := 0; k < 8 && len(ws) > 0; k++ {
			f := base.clone()
			apply(f, ws[:rng.Intn(len(ws)+1)])
			if len(f.b) < 8192 {
				continue
			}
			if x := imageCase(c, fmt.Sprintf("c%d-%d", i, k), f, data); x != nil {
				cs = append(cs, x)
			}
		}
	}
	v := &interopCase{ID: "v", Kind: "varint", Vars: []Ev{}}
	add := func(u uint64) {
		b := binary.AppendUvarint(nil, u)
		v.Vars = append(v.Vars, Ev{"v": strconv.FormatUint(u, 10), "b": ints(b)})
	}
	for s := 0; s < 53; s++ {
		add(1 << s)
		add(1<<s - 1)
		add(rng.Uint64() >> (11 + uint(s)))
	}
	add(1<<53 - 1)
	cs = append(cs, v)
	if err := os.WriteFile(filepath.Join(c.Dir, "cases.json"), []byte(mustJSON(cs)), 0o644); err != nil {
		panic(err)
	}
	c.Out.Emit(&Trace{ID: "fixtures", Ev: []Ev{{"op": "cases", "n": len(cs)}}})
}
