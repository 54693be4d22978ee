package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func init() { drivers["format"] = drvFormat }

// bytePages is a file page by page, each without the zeros at its end. A file that is not
// whole pages has one page too many.
func bytePages(b []byte) [][]int {
	out := [][]int{}
	for i := 0; i < len(b); i += pgSize {
		p := b[i:min(i+pgSize, len(b))]
		out = append(out, ints(bytes.TrimRight(p, "\x00")))
	}
	if len(b)%pgSize != 0 {
		out = append(out, []int{})
	}
	return out
}

func nameTable(ls []jLine) []any {
	seen := map[string]bool{}
	out := []any{}
	var rec func(fs []jField, prefix string)
	rec = func(fs []jField, prefix string) {
		for _, f := range fs {
			n := prefix + f.key
			if !seen[n] {
				seen[n] = true
				out = append(out, []any{n, ints([]byte(n))})
			}
			if f.t == 4 {
				rec(f.m, n+".")
			}
		}
	}
	for _, l := range ls {
		rec(l.f, "")
	}
	return out
}

func drvFormat(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 31))
	if c.In != "" {
		givenFiles(c, rng)
		return
	}
	n := 48
	if c.Thorough {
		n = 500
	}
	for i := 0; i < n; i++ {
		g, ls, data := formatFile(rng, i)
		search := g.searchList()
		t := &Trace{ID: fmt.Sprintf("f%d", i), Cfg: Ev{"lines": lineEvs(ls), "search": search, "names": nameTable(ls)}}
		mf := &memFile{}
		vis := []int{len(data)}
		if rng.Intn(2) == 0 && len(ls) > 0 {
			vis = []int{ls[rng.Intn(len(ls))].o, len(data)}
		}
		for _, v := range vis {
			e := Ev{"op": "sync", "vis": v}
			e["res"], e["msg"] = syncOnce(mf, handlers.JSONLHandler{}, search, data[:v:v])
			e["pages"] = bytePages(mf.b)
			t.add(e)
			if e["res"] != "ok" {
				break
			}
		}
		c.Out.Emit(t)
	}
	for i := 0; i < n/2; i++ {
		vecFile(c, rng, i)
	}
}

// formatFile is data with every kind of index and trees of up to three levels.
func formatFile(rng *rand.Rand, i int) (*jGen, []jLine, []byte) {
	g := newJGen(rng)
	g.ws = false
	var ls []jLine
	var b strings.Builder
	add := func(k, only int) {
		l := g.line(b.Len(), k, only)
		ls = append(ls, l)
		b.WriteString(l.raw + "\n")
	}
	switch i % 6 {
	case 0: // one tree of several pages
		g.search = map[string]bool{}
		g.keys = g.keys[:1]
		g.longs = false
		only := []int{0, 3, 6, 8}[i/6%4]
		for j := 0; j < 8; j++ {
			add(60, only)
		}
	case 1: // several pages of slots
		g.keys = nil
		for k := 0; k < 40; k++ {
			g.keys = append(g.keys, fmt.Sprintf("k%d", k)+strings.Repeat("x", rng.Intn(60)))
		}
		for j := 0; j < 6; j++ {
			add(1+rng.Intn(8), -1)
		}
	case 2: // numbers that need more bytes
		n := []int{100, 16300, 70000, 2200000}[rng.Intn(4)]
		raw := "{\"pad\":[" + strings.Repeat("0,", n/2) + "0]}"
		ls = append(ls, jLine{o: 0, n: len(raw), raw: raw, f: []jField{{key: "pad", t: 5, o: 7, n: len(raw) - 8}}})
		b.WriteString(raw + "\n")
		for j := 0; j < 6; j++ {
			add(1+rng.Intn(5), -1)
		}
	default:
		for j := rng.Intn(14); j > 0; j-- {
			add(rng.Intn(6), -1)
		}
	}
	return g, ls, []byte(b.String())
}

// vecFile is a file with one vector tree.
func vecFile(c *Ctx, rng *rand.Rand, i int) {
	dim := []int{1, 2, 3, 17, 64, 200}[i%6]
	n := rng.Intn(40)
	if dim < 4 {
		n = rng.Intn(400)
	}
	t := &Trace{ID: fmt.Sprintf("v%d", i), Cfg: Ev{"lines": []Ev{}, "search": []string{}, "names": []any{}}}
	mf := &memFile{}
	e := Ev{"op": "vec"}
	type ent struct {
		id uint64
		p  pointer.MemoryPointer
		v  hnsw.Point
	}
	var es []ent
	seen := map[uint64]bool{}
	e["res"], e["msg"] = guard(func() error {
		pf, err := pagefile.NewPageFile(mf)
		if err != nil {
			return err
		}
		lp, err := linkedpage.NewMultiBPTree(pf, 0)
		if err != nil {
			return err
		}
		slot, err := lp.AddNext()
		if err != nil {
			return err
		}
		tree := btree.NewBTree(slot, pf, uint64(dim))
		for k := 0; k < n; k++ {
			x := ent{id: uint64(rng.Intn(1 << uint(3+rng.Intn(25)))), p: pointer.MemoryPointer{Offset: uint64(rng.Intn(1 << uint(1+rng.Intn(25)))), Length: uint32(rng.Intn(1 << uint(1+rng.Intn(20))))}}
			if seen[x.id] {
				continue
			}
			seen[x.id] = true
			for d := 0; d < dim; d++ {
				x.v = append(x.v, math.Float32frombits(rng.Uint32()))
			}
			if err := tree.Insert(pointer.ReferencedId{Value: hnsw.Id(x.id), DataPointer: x.p}, append(hnsw.Point(nil), x.v...)); err != nil {
				return err
			}
			es = append(es, x)
		}
		return nil
	})
	sort.Slice(es, func(a, b int) bool { return es[a].id < es[b].id })
	vs := []Ev{}
	for _, x := range es {
		var w []byte
		for _, f := range x.v {
			w = binary.LittleEndian.AppendUint32(w, math.Float32bits(f))
		}
		vs = append(vs, Ev{"id": int(x.id), "ro": int(x.p.Offset), "rn": int(x.p.Length), "v": ints(w)})
	}
	e["pages"], e["vecs"] = bytePages(mf.b), vs
	t.add(e)
	c.Out.Emit(t)
}

// the records of FormatGen.tla
var givenKinds = []string{"", `{"a":1}`, `{"a":2}`, `{"s":"x"}`, `{"a":1,"s":"y"}`, `{"n":null,"b":true}`, `{"o":{"s":"x"},"l":[1]}`, ""}

func givenLine(kind, base int) jLine {
	num := func(f float64) []byte { return binary.BigEndian.AppendUint64(nil, math.Float64bits(f)) }
	fs := map[int][]jField{
		1: {{key: "a", t: 3, v: num(1), o: 5, n: 1}},
		2: {{key: "a", t: 3, v: num(2), o: 5, n: 1}},
		3: {{key: "s", t: 0, v: []byte("x"), o: 5, n: 3, c: []int{'x'}}},
		4: {{key: "a", t: 3, v: num(1), o: 5, n: 1}, {key: "s", t: 0, v: []byte("y"), o: 11, n: 3, c: []int{'y'}}},
		5: {{key: "n", t: 7, o: 5, n: 4}, {key: "b", t: 6, v: []byte{1}, o: 14, n: 4}},
		6: {{key: "o", t: 4, o: 5, n: 9, m: []jField{{key: "s", t: 0, v: []byte("x"), o: 10, n: 3, c: []int{'x'}}}}, {key: "l", t: 5, o: 19, n: 3}},
	}[kind]
	raw := givenKinds[kind]
	if kind == 7 {
		for j := 0; j < 17; j++ {
			k := fmt.Sprintf("k%02d", j+1)
			raw += fmt.Sprintf(`,"%s":null`, k)
			fs = append(fs, jField{key: k, t: 7, o: 7 + 11*j, n: 4})
		}
		raw = "{" + raw[1:] + "}"
	}
	var shift func(fs []jField) []jField
	shift = func(fs []jField) []jField {
		out := []jField{}
		for _, f := range fs {
			f.o += base
			f.m = shift(f.m)
			out = append(out, f)
		}
		return out
	}
	return jLine{o: base, n: len(raw), raw: raw, f: shift(fs)}
}

// givenFiles writes the files TLC made, has the indexer read them and go on from them.
func givenFiles(c *Ctx, rng *rand.Rand) {
	for i, l := range readLines(c.In) {
		var q struct {
			Recs   []int    `json:"recs"`
			Search []string `json:"search"`
			Pages  [][]int  `json:"pages"`
		}
		if err := json.Unmarshal([]byte(l), &q); err != nil {
			panic(err)
		}
		kinds := append([]int(nil), q.Recs...)
		for k := 1 + rng.Intn(3); k > 0; k-- {
			kinds = append(kinds, 1+rng.Intn(7))
		}
		var ls []jLine
		var data []byte
		end := 0
		for k, kind := range kinds {
			x := givenLine(kind, len(data))
			ls = append(ls, x)
			data = append(data, x.raw+"\n"...)
			if k < len(q.Recs) {
				end = len(data)
			}
		}
		b := make([]byte, pgSize*len(q.Pages))
		for p, x := range q.Pages {
			for k, y := range x {
				b[p*pgSize+k] = byte(y)
			}
		}
		if q.Search == nil {
			q.Search = []string{}
		}
		t := &Trace{ID: fmt.Sprintf("g%d", i), Cfg: Ev{"lines": lineEvs(ls), "search": q.Search, "names": nameTable(ls)}}
		mf := &memFile{b: b}
		e := Ev{"op": "given", "m": len(q.Recs), "res": "ok", "pages": bytePages(b)}
		e["idx"] = dumpEv(e, mf, data[:end:end]).ev()
		t.add(e)
		e = Ev{"op": "sync", "vis": len(data)}
		e["res"], e["msg"] = syncOnce(mf, handlers.JSONLHandler{}, q.Search, data)
		e["pages"] = bytePages(mf.b)
		t.add(e)
		c.Out.Emit(t)
	}
}

func readLines(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return strings.Split(strings.TrimSpace(string(b)), "\n")
}
