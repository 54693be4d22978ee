package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// Fixtures for the client: data files and the index files the Go indexer makes of them,
// with what the generator knows about them (not read back from the index).

func init() {
	drivers["tsquery"] = fixQuery
	drivers["tssearch"] = fixSearch
	drivers["tsclient"] = fixClient
}

type tsCase struct {
	ID   string `json:"id"`
	Data string `json:"data"`
	Idx  string `json:"idx"`
	Cfg  Ev     `json:"cfg"`
	Recs []Ev   `json:"recs"`
	Kind string `json:"kind"`
	// where leaves of the stored trees meet: places worth asking about
	Hints []Ev   `json:"hints"`
	D     []int  `json:"d"`
	Scale int    `json:"scale"`
	Key   string `json:"key"`
}

type occ struct {
	v []byte
	r int // record, from 1
}

func flatOcc(fs []jField, prefix string, r int, cat *[][]any, ix map[string]*[]occ, search map[string]bool) {
	for _, f := range fs {
		name := prefix + f.key
		ts := []int{f.t}
		if f.t == 0 && search[name] {
			ts = []int{0, 10, 9, 8}
		}
		for _, t := range ts {
			k := fmt.Sprintf("%d/%s", t, name)
			if ix[k] == nil {
				ix[k] = &[]occ{}
				*cat = append(*cat, []any{name, t})
			}
			if t < 8 {
				*ix[k] = append(*ix[k], occ{f.v, r})
			}
		}
		if f.t == 4 {
			flatOcc(f.m, name+".", r, cat, ix, search)
		}
	}
}

func f64of(v []byte) float64 {
	var b uint64
	for _, x := range v {
		b = b<<8 | uint64(x)
	}
	return math.Float64frombits(b)
}

// catalogue makes what a client should see: the fields and, for each, its values in order.
func caseCfg(ls []jLine, search map[string]bool) Ev {
	cat := [][]any{}
	ix := map[string]*[]occ{}
	off := 0
	for i, l := range ls {
		flatOcc(l.f, "", i+1, &cat, ix, search)
		off = l.o + l.n + 1
	}
	out := []Ev{}
	for _, c := range cat {
		t := c[1].(int)
		if t != 0 && t != 3 && t != 6 && t != 7 {
			continue
		}
		es := *ix[fmt.Sprintf("%d/%s", t, c[0])]
		sort.SliceStable(es, func(i, j int) bool {
			if t == 3 {
				return f64of(es[i].v) < f64of(es[j].v)
			}
			return string(es[i].v) < string(es[j].v)
		})
		l := [][]any{}
		for _, e := range es {
			l = append(l, []any{ints(e.v), e.r})
		}
		out = append(out, Ev{"n": c[0], "t": t, "es": l})
	}
	return Ev{"cat": cat, "ix": out, "n": len(ls), "off": off}
}

func writeCase(c *Ctx, cs *[]tsCase, kind string, ls []jLine, data []byte, g *jGen, cuts []int) {
	id := fmt.Sprintf("%s%d", kind, len(*cs))
	d := filepath.Join(c.Dir, id+".jsonl")
	x := filepath.Join(c.Dir, id+".idx")
	mf := &memFile{}
	for _, v := range append(cuts, len(data)) {
		if res, msg := syncOnce(mf, handlers.JSONLHandler{}, g.searchList(), data[:v:v]); res != "ok" {
			panic("fixture " + id + ": " + msg)
		}
	}
	if g.rng.Intn(2) == 0 {
		thin(mf, data, g.rng)
	}
	if err := os.WriteFile(d, data, 0o644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(x, mf.b, 0o644); err != nil {
		panic(err)
	}
	recs := []Ev{}
	for _, l := range ls {
		recs = append(recs, Ev{"o": l.o, "n": l.n})
	}
	*cs = append(*cs, tsCase{ID: id, Data: d, Idx: x, Cfg: caseCfg(ls, g.search), Recs: recs, Kind: kind, Hints: hints(mf, data, g.rng)})
}

// hints finds the leaf boundaries; a hint is never part of what is expected.
func hints(mf *memFile, data []byte, rng *rand.Rand) []Ev {
	out := []Ev{}
	d, err := dumpIndex(mf, data, handlers.JSONLHandler{})
	if err != nil {
		return out
	}
	for _, x := range d.idx {
		if x.t > 3 {
			continue
		}
		var at []int
		root, err := x.slot.Root()
		if err != nil || root.Length == 0 {
			continue
		}
		var walk func(off uint64, depth int)
		walk = func(off uint64, depth int) {
			n, err := readBPNode(d.pf, off, data, handlers.JSONLHandler{}, uint16(x.w))
			if err != nil || depth > 8 {
				return
			}
			if n.Leaf() {
				k := len(n.Keys)
				if len(at) > 0 {
					k += at[len(at)-1]
				}
				at = append(at, k)
				return
			}
			for _, p := range n.InternalPointers {
				walk(p, depth+1)
			}
		}
		walk(root.Offset, 0)
		for _, k := range at {
			if k > 0 && k < len(x.ents) {
				out = append(out, Ev{"n": x.name, "t": x.t, "a": ints(x.ents[k-1].v), "b": ints(x.ents[k].v)})
			}
		}
	}
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out[:min(len(out), 14)]
}

func doneCases(c *Ctx, cs []tsCase) {
	if err := os.WriteFile(filepath.Join(c.Dir, "cases.json"), []byte(mustJSON(cs)), 0o644); err != nil {
		panic(err)
	}
	c.Out.Emit(&Trace{ID: "fixtures", Ev: []Ev{{"op": "cases", "n": len(cs)}}})
}

func plainKeys(g *jGen) {
	g.uniq = true
	g.search = map[string]bool{}
	var ks []string
	for _, k := range g.keys {
		if !strings.Contains(k, ".") {
			ks = append(ks, k)
		}
	}
	g.keys = ks
}

func fixQuery(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 2100))
	var cs []tsCase
	n := 96
	if c.Thorough {
		n = 420
	}
	if c.In != "" {
		genCases(c, rng, &cs)
		doneCases(c, cs)
		return
	}
	if c.Probe {
		n = 0
		g := newJGen(rng)
		plainKeys(g)
		g.keys, g.ws, g.uni, g.depth = []string{"a"}, false, false, 0
		vs := []string{"-5", "-1.5", "0.25", "3", "12"}
		i := 0
		g.val = func(string) (int, string) { i++; return 3, vs[i-1] }
		ls, data := genLines(g, len(vs), 1)
		writeCase(c, &cs, "neg", ls, data, g, nil)
	}
	for i := 0; i < n; i++ {
		g := newJGen(rng)
		plainKeys(g)
		g.nonneg = i%6 != 5
		kind, nl, nf := "mix", rng.Intn(12), 6
		switch i % 12 {
		case 0: // numbers: many leaves
			kind, g.keys, nl, nf, g.ws = "num", []string{"a"}, 250+rng.Intn(700), 1, false
			m := []int{3, 40, 1 << 20}[rng.Intn(3)]
			g.val = func(string) (int, string) {
				s := strconv.Itoa(rng.Intn(m))
				if rng.Intn(3) == 0 {
					s += "." + strconv.Itoa(rng.Intn(10))
				}
				return 3, s
			}
		case 1: // strings: many leaves
			kind, g.keys, nl, nf, g.ws, g.uni = "str", []string{"a"}, 500+rng.Intn(1000), 1, false, false
			m := []int{2, 30, 1 << 20}[rng.Intn(3)]
			g.val = func(string) (int, string) { return 0, strconv.FormatInt(int64(rng.Intn(m)), 36) }
		case 2: // booleans and nulls: many leaves of equal keys
			kind, g.keys, nl, nf, g.ws = "bool", []string{"a", "b"}, 200+rng.Intn(900), 1+rng.Intn(2), false
			g.val = func(string) (int, string) { return []int{6, 6, 8}[rng.Intn(3)], "" }
		case 3: // more indexes than fit a page
			kind, nl, nf = "wide", 6+rng.Intn(10), 12
			g.keys = nil
			for k := 0; k < 50; k++ {
				g.keys = append(g.keys, fmt.Sprintf("k%d", k))
			}
		case 4: // one field, every type in turn
			kind, g.keys, nl, nf = "poly", []string{"a", "b"}, 20+rng.Intn(60), 2
		case 5: // few distinct values
			kind, g.keys, nl, nf = "few", []string{"a", "b", "c"}, 10+rng.Intn(40), 3
			g.val = func(string) (int, string) {
				return []int{0, 3}[rng.Intn(2)], strconv.Itoa(rng.Intn(4))
			}
		case 6: // names every object has a meaning for
			kind, nl, nf = "names", 3+rng.Intn(10), 4
			g.keys = []string{"constructor", "toString", "__proto__", "hasOwnProperty", "length", "7", "2", "a", "valueOf", "then"}
		case 7:
			kind, nl = "empty", rng.Intn(2)
			nf = nl
		case 8: // records longer than any buffer
			if i%24 != 8 {
				break
			}
			kind, g.keys, nl, nf, g.ws = "fat", []string{"a", "pad"}, 3+rng.Intn(5), 2, false
			g.val = func(name string) (int, string) {
				if name == "pad" {
					return 9, "[" + strings.Repeat("0,", []int{0, 4000, 8200, 35000}[rng.Intn(4)]+rng.Intn(60)) + "1]"
				}
				return []int{0, 3}[rng.Intn(2)], strconv.Itoa(rng.Intn(4))
			}
		}
		ls, data := genLines(g, nl, nf)
		var cuts []int
		if len(ls) > 1 && rng.Intn(2) == 0 {
			for k := 0; k < 1+rng.Intn(3); k++ {
				cuts = append(cuts, ls[rng.Intn(len(ls))].o)
			}
			sort.Ints(cuts)
		}
		writeCase(c, &cs, kind, ls, data, g, cuts)
	}
	doneCases(c, cs)
}

func genLines(g *jGen, n, nf int) ([]jLine, []byte) {
	var ls []jLine
	var b strings.Builder
	for i := 0; i < n; i++ {
		k := nf
		if g.val == nil && nf > 1 {
			k = g.rng.Intn(nf + 1)
		}
		l := g.line(b.Len(), k, -1)
		ls = append(ls, l)
		b.WriteString(l.raw)
		b.WriteByte('\n')
	}
	return ls, []byte(b.String())
}

var texts = []string{"The quick brown fox", "jumps over the lazy dog", "a b c", "aa aaa aaaa", "Hello, World!", "it's 42 o'clock", "x", "", "  ", "e-mail me@home.org", "naïve café", "日本 go 語", "ＦＵＬＬ width", "ﬁne oﬃce", "tab\tsep\nline", "no\u2028break", "nb\u00a0sp", "ÀÉÎ õ", "Kelvin \u212a", "the the the", "foo-bar_baz", "AbCaBc", "\U0001F600 smile \U0001F600s", "q", "ab"}

func fixSearch(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 2200))
	var cs []tsCase
	if c.In != "" {
		genDocs(c, rng, &cs)
		doneCases(c, cs)
		return
	}
	n := 40
	if c.Thorough {
		n = 400
	}
	for i := 0; i < n; i++ {
		g := newJGen(rng)
		g.uniq, g.ws = true, rng.Intn(2) == 0
		g.search, g.keys, g.depth = map[string]bool{"t": true}, []string{"t", "o", "u"}, 0
		if i%5 != 2 && rng.Intn(2) == 0 { // another field to search
			g.search["s"], g.keys = true, append(g.keys, "s")
		}
		nl := 1 + rng.Intn(14)
		kind := "s"
		alpha := texts
		switch i % 5 {
		case 0: // few letters, many equal n-grams: trees of many leaves
			kind, nl = "many", 30+rng.Intn(40)
			alpha = []string{"abab baba", "aabbaabb abab", "ab", "b", "abc cab bca", "aaaaaaaaaaaaaaaa", "c c c c"}
		case 1: // no value long enough for the longer n-grams
			kind, alpha = "short", []string{"a", "b", "ab", "", "a b", "é"}
		case 2:
			kind, nl = "long", 3+rng.Intn(4)
			alpha = []string{strings.Repeat("lorem ipsum dolor sit amet ", 12), strings.Repeat("the quick brown fox ", 9), "lazy"}
		case 3: // more records than a page of a list of answers would have
			if i%10 == 3 {
				kind, nl = "crowd", 110+rng.Intn(60)
				alpha = []string{"ab", "abc", "b ab", "cab", "a", "ca b"}
			}
		}
		id := 0
		g.val = func(name string) (int, string) {
			switch name {
			case "u": // makes every record different
				id++
				return 3, strconv.Itoa(id)
			case "o":
				if i%7 == 3 && rng.Intn(3) == 0 { // a record longer than any buffer
					return 9, "[" + strings.Repeat("0,", []int{1000, 2200, 8200, 35000}[rng.Intn(4)]+rng.Intn(60)) + "1]"
				}
				return []int{0, 3, 6, 8}[rng.Intn(4)], "77"
			}
			if rng.Intn(8) == 0 {
				return []int{3, 6, 8}[rng.Intn(3)], "5"
			}
			s := alpha[rng.Intn(len(alpha))]
			if name == "s" {
				return 0, s
			}
			for kind != "short" && rng.Intn(3) == 0 {
				s += []string{" ", "", "-"}[rng.Intn(3)] + alpha[rng.Intn(len(alpha))]
			}
			return 0, s
		}
		var ls []jLine
		var b strings.Builder
		for k := 0; k < nl; k++ {
			l := g.line(b.Len(), len(g.keys), -1)
			ls = append(ls, l)
			b.WriteString(l.raw + "\n")
		}
		data := []byte(b.String())
		var cuts []int
		if nl > 1 && rng.Intn(2) == 0 {
			cuts = []int{ls[rng.Intn(nl)].o}
		}
		writeCase(c, &cs, kind, ls, data, g, cuts)
		withTexts(&cs[len(cs)-1], ls)
	}
	doneCases(c, cs)
}

func withTexts(x *tsCase, ls []jLine) {
	x.Hints = []Ev{}
	for k, l := range ls {
		x.Recs[k]["raw"] = l.raw
		for _, f := range l.f {
			if (f.key == "t" || f.key == "s") && f.t == 0 {
				x.Recs[k][f.key] = string(f.v)
			}
		}
	}
}

// genDocs makes a file for each set of records of the model's searches.
func genDocs(c *Ctx, rng *rand.Rand, cs *[]tsCase) {
	b, err := os.ReadFile(c.In)
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	for _, line := range strings.Split(string(b), "\n") {
		var q struct {
			D [][]rune `json:"d"`
		}
		if line == "" {
			continue
		}
		if err := json.Unmarshal([]byte(line), &q); err != nil {
			panic(err)
		}
		k := mustJSON(q.D)
		if seen[k] {
			continue
		}
		seen[k] = true
		g := newJGen(rng)
		g.search, g.keys, g.ws, g.uni, g.depth, g.uniq = map[string]bool{"t": true}, []string{"t", "u"}, false, false, 0, true
		at, id := 0, 0
		g.val = func(name string) (int, string) {
			if name == "u" {
				id++
				return 3, strconv.Itoa(id)
			}
			at++
			return 0, string(q.D[at-1])
		}
		var ls []jLine
		var w strings.Builder
		for range q.D {
			n := at
			l := g.line(w.Len(), 2, -1)
			if at == n { // the generator leaves fields out at times
				panic("genDocs")
			}
			ls = append(ls, l)
			w.WriteString(l.raw + "\n")
		}
		writeCase(c, cs, "g", ls, []byte(w.String()), g, nil)
		x := &(*cs)[len(*cs)-1]
		x.Key = k
		withTexts(x, ls)
	}
}

// genCases makes a file for each sequence of values in the model's queries; some of them
// with every value many times over, so that their trees have several leaves.
func genCases(c *Ctx, rng *rand.Rand, cs *[]tsCase) {
	b, err := os.ReadFile(c.In)
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	for _, line := range strings.Split(string(b), "\n") {
		var q struct {
			D []int `json:"d"`
		}
		if line == "" {
			continue
		}
		if err := json.Unmarshal([]byte(line), &q); err != nil {
			panic(err)
		}
		k := fmt.Sprint(q.D)
		if seen[k] {
			continue
		}
		seen[k] = true
		scale := 1
		if len(q.D) > 2 && rng.Intn(14) == 0 {
			scale = 110 + rng.Intn(150)
		}
		g := newJGen(rng)
		g.search, g.keys, g.ws, g.uni, g.depth = map[string]bool{}, []string{"a"}, false, false, 0
		at, t := 0, []int{0, 3}[rng.Intn(2)]
		g.val = func(string) (int, string) { at++; return t, strconv.Itoa(q.D[(at-1)/scale]) }
		ls, data := genLines(g, len(q.D)*scale, 1)
		writeCase(c, cs, "g", ls, data, g, nil)
		x := &(*cs)[len(*cs)-1]
		x.D, x.Scale, x.Hints = q.D, scale, nil
	}
}

// fixClient makes few files, each with something a call needs many requests for.
func fixClient(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 2500))
	var cs []tsCase
	n := 6
	if c.Thorough {
		n = 24
	}
	for i := 0; i < n; i++ {
		g := newJGen(rng)
		plainKeys(g)
		g.nonneg, g.ws, g.uni, g.depth = true, false, false, 0
		kind, nl, nf := "", 0, 1
		switch i % 3 {
		case 0: // a tree of several leaves
			kind, g.keys, nl = "num", []string{"a"}, 320+rng.Intn(300)
			m := []int{40, 1 << 20}[rng.Intn(2)]
			g.val = func(string) (int, string) { return 3, strconv.Itoa(rng.Intn(m)) }
		case 1: // an index list of several pages
			kind, nl, nf = "wide", 4+rng.Intn(5), 14
			g.keys = nil
			for k := 0; k < 40; k++ {
				g.keys = append(g.keys, fmt.Sprintf("k%d", k))
			}
		case 2: // text and numbers; strings have several leaves
			kind, g.keys, nl, nf = "text", []string{"t", "u"}, 24+rng.Intn(30), 2
			g.search = map[string]bool{"t": true}
			id := 0
			g.val = func(name string) (int, string) {
				if name == "u" {
					id++
					return 3, strconv.Itoa(id)
				}
				return 0, texts[rng.Intn(len(texts))] + []string{"", " the fox", " lazy dog and the quick brown fox jumps"}[rng.Intn(3)]
			}
		}
		var ls []jLine
		var b strings.Builder
		for k := 0; k < nl; k++ {
			x := nf
			if kind == "wide" {
				x = 8 + rng.Intn(7)
			}
			l := g.line(b.Len(), x, -1)
			ls = append(ls, l)
			b.WriteString(l.raw + "\n")
		}
		var cuts []int
		if rng.Intn(2) == 0 {
			cuts = []int{ls[rng.Intn(nl)].o}
		}
		writeCase(c, &cs, kind, ls, []byte(b.String()), g, cuts)
		withTexts(&cs[len(cs)-1], ls)
	}
	doneCases(c, cs)
}

// thin rebuilds the trees of an index with few keys to a node, the way Go writes nodes: deep
// trees of few records. A reader must make no difference.
func thin(f *memFile, data []byte, rng *rand.Rand) {
	parser := handlers.JSONLHandler{}
	d, err := dumpIndex(f, data, parser)
	if err != nil {
		panic(err)
	}
	for _, x := range d.idx {
		if len(x.ents) == 0 {
			continue
		}
		page := func(n *bptree.BPTreeNode) uint64 {
			n.Data, n.DataParser, n.Width = data, parser, uint16(x.w)
			b, err := n.MarshalBinary()
			if err != nil {
				panic(err)
			}
			at, err := d.pf.NewPage(b)
			if err != nil {
				panic(err)
			}
			return uint64(at)
		}
		var firsts []pointer.ReferencedValue
		var at []uint64
		wide := 1 + rng.Intn(4)
		for i := 0; i < len(x.ents); {
			n := &bptree.BPTreeNode{}
			for k := 1 + rng.Intn(wide); k > 0 && i < len(x.ents); k-- {
				e := x.ents[i]
				n.Keys = append(n.Keys, pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: e.o, Length: uint32(e.n)}, Value: e.v})
				n.LeafPointers = append(n.LeafPointers, pointer.MemoryPointer{Offset: e.ro, Length: uint32(e.rn)})
				i++
			}
			firsts, at = append(firsts, n.Keys[0]), append(at, page(n))
		}
		for len(at) > 1 {
			var f2 []pointer.ReferencedValue
			var a2 []uint64
			for i := 0; i < len(at); {
				k := min(2+rng.Intn(3), len(at)-i)
				if len(at)-i-k == 1 { // no node with a single child
					k++
				}
				n := &bptree.BPTreeNode{Keys: firsts[i+1 : i+k], InternalPointers: at[i : i+k]}
				f2, a2 = append(f2, firsts[i]), append(a2, page(n))
				i += k
			}
			firsts, at = f2, a2
		}
		if err := x.slot.SetRoot(pointer.MemoryPointer{Offset: at[0], Length: uint32(d.pf.PageSize())}); err != nil {
			panic(err)
		}
	}
}
