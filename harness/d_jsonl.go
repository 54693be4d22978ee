package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"golang.org/x/text/unicode/norm"
)

func init() {
	drivers["jsonl"] = drvJSONL
	drivers["loc"] = drvLoc
}

func syncOnce(f io.ReadWriteSeeker, h appendable.DataHandler, search []string, data []byte) (string, string) {
	return guard(func() error {
		x, err := appendable.NewIndexFile(f, h, search)
		if err != nil {
			return err
		}
		return x.Synchronize(data)
	})
}

// dumpEv adds what the index holds to an event.
func dumpEv(e Ev, f io.ReadWriteSeeker, data []byte) *dDump {
	var d *dDump
	res, msg := guard(func() (err error) { d, err = dumpIndex(f, data, handlers.JSONLHandler{}); return })
	if res != "ok" {
		e["res"], e["msg"] = "unreadable:"+res, msg
		d = &dDump{}
	}
	e["off"], e["entries"] = int(d.off), int(d.entries)
	return d
}

func jsonlFile(rng *rand.Rand, i int) (*jGen, []jLine, []byte) {
	g := newJGen(rng)
	switch i % 8 {
	case 0: // enough entries of one index to split its tree
		g.search = map[string]bool{}
		g.keys = g.keys[:1]
		g.longs = false
		var ls []jLine
		var b strings.Builder
		only := []int{0, 3, 6, 8}[rng.Intn(4)]
		for j := 0; j < 8; j++ {
			l := g.line(b.Len(), 60, only)
			ls = append(ls, l)
			b.WriteString(l.raw + "\n")
		}
		return g, ls, []byte(b.String())
	case 1: // addresses which need longer encodings
		var ls []jLine
		var b strings.Builder
		n := []int{100, 16300, 70000}[rng.Intn(3)]
		raw := "{\"pad\":[" + strings.Repeat("0,", n/2) + "0]}"
		ls = append(ls, jLine{o: 0, n: len(raw), raw: raw, f: []jField{{key: "pad", t: 5, o: 7, n: len(raw) - 8}}})
		b.WriteString(raw + "\n")
		for j := 0; j < 6; j++ {
			l := g.line(b.Len(), 1+rng.Intn(5), -1)
			ls = append(ls, l)
			b.WriteString(l.raw + "\n")
		}
		return g, ls, []byte(b.String())
	case 2: // more than one page of indexes
		g.keys = nil
		for k := 0; k < 40; k++ {
			g.keys = append(g.keys, fmt.Sprintf("k%d", k))
		}
	}
	n := rng.Intn(12)
	ls, data := g.file(n, nil)
	return g, ls, data
}

func drvJSONL(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 9))
	if c.Probe {
		probeGrams(c)
		return
	}
	n := 110
	if c.Thorough {
		n = 1600
	}
	for i := 0; i < n; i++ {
		g, ls, data := jsonlFile(rng, i)
		search := g.searchList()
		t := &Trace{ID: fmt.Sprintf("j%d", i), Cfg: Ev{"lines": lineEvs(ls), "search": search}}
		mf := &memFile{}
		vis := []int{len(data)}
		if rng.Intn(3) == 0 && len(ls) > 0 {
			vis = []int{ls[rng.Intn(len(ls))].o, len(data)}
		}
		dead := false
		for _, v := range vis {
			e := Ev{"op": "sync", "vis": v}
			e["res"], e["msg"] = syncOnce(mf, handlers.JSONLHandler{}, search, data[:v:v])
			d := dumpEv(e, mf, data)
			e["idx"] = d.ev()
			t.add(e)
			if e["res"] != "ok" {
				dead = true
				break
			}
			if v != len(data) {
				continue
			}
			// look some values up
			of := []Ev{}
			for _, x := range d.idx {
				qs := []Ev{}
				for k := 0; k < 3; k++ {
					val := []byte("\x00zz")
					if len(x.ents) > 0 && k > 0 {
						val = x.ents[rng.Intn(len(x.ents))].v
					}
					q := Ev{"v": ints(val)}
					recs := [][]int{}
					q["res"], q["msg"] = guard(func() error {
						ps, err := lookup(x.slot, data, handlers.JSONLHandler{}, x.w, val)
						for _, p := range ps {
							recs = append(recs, []int{int(p.Offset), int(p.Length)})
						}
						return err
					})
					q["recs"] = recs
					qs = append(qs, q)
				}
				of = append(of, Ev{"n": x.name, "t": x.t, "qs": qs})
			}
			if len(of) > 0 {
				t.add(Ev{"op": "look", "of": of})
			}
		}
		_ = dead
		c.Out.Emit(t)
	}
}

// Known finding ngram-collide: in two records of this text an n-gram of the first has the
// place of the same n-gram of the second.
func probeGrams(c *Ctx) {
	var ls []jLine
	var data []byte
	for i := 0; i < 2; i++ {
		v := strings.Repeat("\u33af", 5)
		raw := `{"a":"` + v + `"}`
		o := len(data)
		ls = append(ls, jLine{o: o, n: len(raw), raw: raw, f: []jField{{key: "a", t: 0, o: o + 5, n: len(raw) - 6, v: []byte(v), c: codes(norm.NFKD.String(v))}}})
		data = append(data, raw+"\n"...)
	}
	t := &Trace{ID: "collide", Cfg: Ev{"lines": lineEvs(ls), "search": []string{"a"}}}
	mf := &memFile{}
	e := Ev{"op": "sync", "vis": len(data)}
	e["res"], e["msg"] = syncOnce(mf, handlers.JSONLHandler{}, []string{"a"}, data)
	e["idx"] = dumpEv(e, mf, data).ev()
	t.add(e)
	c.Out.Emit(t)
}

// decoded is what a JSON value is indexed as, worked out with the standard decoder.
func decoded(raw []byte) (v []byte, ok bool) {
	var x any
	dec := json.NewDecoder(bytes.NewReader(raw))
	if err := dec.Decode(&x); err != nil {
		return nil, false
	}
	if rest := bytes.TrimSpace(raw[dec.InputOffset():]); len(rest) != 0 {
		return nil, false
	}
	switch x := x.(type) {
	case string:
		return []byte(x), true
	case float64:
		return fbytes(fmt.Sprintf("%v", json.Number(string(bytes.TrimSpace(raw))))), true
	case bool:
		return []byte{byte(btoi(x))}, true
	case nil:
		return []byte{}, true
	}
	return nil, false
}

func drvLoc(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 13))
	n := 120
	if c.Thorough {
		n = 1600
	}
	for i := 0; i < n; i++ {
		g, ls, data := jsonlFile(rng, i)
		search := g.searchList()
		t := &Trace{ID: fmt.Sprintf("l%d", i), Cfg: Ev{"lines": lineEvs(ls), "search": search}}
		mf := &memFile{}
		e := Ev{"op": "sync"}
		e["res"], e["msg"] = syncOnce(mf, handlers.JSONLHandler{}, search, data)
		d := dumpEv(e, mf, data)
		out := []Ev{}
		for _, x := range d.idx {
			es := []Ev{}
			for _, k := range x.ents {
				y := Ev{"v": ints(k.v), "ro": int(k.ro), "o": int(k.o), "n": int(k.n), "in": false, "dec": []int{-1}, "par": []int{-1}, "to": 0, "tn": 0}
				if k.o+k.n <= uint64(len(data)) && k.o >= k.ro {
					y["in"] = k.o+k.n <= k.ro+k.rn
					raw := data[k.o : k.o+k.n]
					l := len(raw) - len(bytes.TrimLeft(raw, " \t\r"))
					y["to"], y["tn"] = int(k.o)+l, len(bytes.TrimSpace(raw))
					if v, ok := decoded(raw); ok {
						y["dec"] = ints(v)
					}
					guard(func() error { y["par"] = ints(handlers.JSONLHandler{}.Parse(raw)); return nil })
				}
				es = append(es, y)
			}
			out = append(out, Ev{"n": x.name, "t": x.t, "es": es})
		}
		e["idx"] = out
		t.add(e)
		c.Out.Emit(t)
	}
}
