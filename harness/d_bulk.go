package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
)

// Large data files, made of a pattern of lines repeated.
func init() {
	drivers["bulkjsonl"] = func(c *Ctx) { drvBulk(c, false, false) }
	drivers["bulkloc"] = func(c *Ctx) { drvBulk(c, false, true) }
	drivers["bulkcsv"] = func(c *Ctx) { drvBulk(c, true, true) }
	drivers["bulkkill"] = func(c *Ctx) {
		drvBulkKill(c, false)
		drvBulkKill(c, true)
	}
}

type bulkUse struct {
	name string
	t    int
	o, n int
	v    []byte
	tot  int
}

type bulkLine struct {
	raw string
	us  []bulkUse
}

type bulkFile struct {
	csv   bool
	head  string
	pat   []bulkLine
	total int
	bad   int // 1-based line that is malformed in version 1
}

func (f *bulkFile) data(ver int) []byte {
	var b bytes.Buffer
	b.WriteString(f.head)
	for i := 0; i < f.total; i++ {
		raw := f.pat[i%len(f.pat)].raw
		if ver == 1 && i+1 == f.bad {
			if f.csv {
				raw = `"` + raw[1:]
			} else {
				raw = raw[:len(raw)-1] + "x"
			}
		}
		b.WriteString(raw)
		b.WriteByte('\n')
	}
	return b.Bytes()
}

func (f *bulkFile) end(m int) int {
	n := len(f.head)
	per := 0
	for _, p := range f.pat {
		per += len(p.raw) + 1
	}
	n += m / len(f.pat) * per
	for i := 0; i < m%len(f.pat); i++ {
		n += len(f.pat[i].raw) + 1
	}
	return n
}

func short(v []byte) []int { return ints(v[:min(len(v), 24)]) }

// bulkValue is a value as it is written, its type, what it is indexed as and its share of the total.
func bulkValue(rng *rand.Rand, csv bool, kind, size int) (raw string, t int, v []byte, tot int) {
	switch kind {
	case 0: // text
		s := strings.Repeat(string(rune('a'+rng.Intn(26))), size) + strconv.Itoa(rng.Intn(1000)) + "z"
		if csv {
			return s, 0, []byte(s), 0
		}
		return `"` + s + `"`, 0, []byte(s), len(s) + 2
	case 1: // quoted text
		s := strings.Repeat("x", size) + `"` + strconv.Itoa(rng.Intn(1000))
		if csv {
			return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`, 0, []byte(s), 0
		}
		r := strconv.Quote(s)
		return r, 0, []byte(s), len(r)
	case 2: // a number
		x := strconv.Itoa(rng.Intn(100000)) + "." + strings.Repeat("0", size) + "5"
		if csv {
			return x, 3, fbytes(x), 0
		}
		return x, 3, fbytes(x), len(x)
	case 3:
		b := rng.Intn(2)
		if csv {
			return []string{"false", "true"}[b], 6, []byte{byte(b)}, 0
		}
		return []string{"false", "true"}[b], 6, []byte{byte(b)}, 1
	}
	if csv {
		return "", 7, []byte{}, 0
	}
	return "null", 7, []byte{}, 0
}

// line makes a line with the given (kind, size) values.
func (f *bulkFile) line(rng *rand.Rand, vals ...[2]int) bulkLine {
	var b strings.Builder
	l := bulkLine{}
	if !f.csv {
		b.WriteByte('{')
	}
	for i, k := range vals {
		raw, t, v, tot := bulkValue(rng, f.csv, k[0], k[1])
		name := fmt.Sprintf("c%d", i)
		if i > 0 {
			b.WriteByte(',')
		}
		if !f.csv {
			b.WriteString(`"` + name + `":`)
		}
		l.us = append(l.us, bulkUse{name: name, t: t, o: b.Len(), n: len(raw), v: v, tot: tot})
		b.WriteString(raw)
	}
	if !f.csv {
		b.WriteByte('}')
	}
	l.raw = b.String()
	return l
}

func drvBulk(c *Ctx, csv, loc bool) {
	rng := rand.New(rand.NewSource(c.Seed + 4200))
	runs := 1
	if c.Thorough {
		runs = 8
	}
	for i := 0; i < runs; i++ {
		var fs []*bulkFile
		head := ""
		if csv {
			head = "c0,c1,c2\n"
		}
		// many records, most of them small
		f := &bulkFile{csv: csv, head: head, total: 66000 + rng.Intn(6000)}
		f.pat = append(f.pat, f.line(rng, [2]int{3, 0}))
		for k := 5; k > 0; k-- {
			if csv {
				f.pat = append(f.pat, f.line(rng, [2]int{3, 0}))
			} else {
				f.pat = append(f.pat, bulkLine{raw: "{}"})
			}
		}
		fs = append(fs, f)
		// long values
		f = &bulkFile{csv: csv, head: head, total: 14}
		for _, n := range []int{10, 5000, 66000 + rng.Intn(5000), 300} {
			f.pat = append(f.pat, f.line(rng, [2]int{0, 1}, [2]int{rng.Intn(3), n}, [2]int{rng.Intn(3), n / 2}))
		}
		fs = append(fs, f)
		// all kinds of values
		f = &bulkFile{csv: csv, head: head, total: 2500 + rng.Intn(1000)}
		for k := 0; k < 7; k++ {
			f.pat = append(f.pat, f.line(rng, [2]int{[]int{0, 2}[rng.Intn(2)], rng.Intn(30)}, [2]int{rng.Intn(5), rng.Intn(10)}, [2]int{3 + rng.Intn(2), 0}))
		}
		fs = append(fs, f)
		for k, f := range fs {
			bulkRun(c, rng, fmt.Sprintf("b%d-%d", i, k), f, loc)
		}
	}
}

func bulkRun(c *Ctx, rng *rand.Rand, id string, f *bulkFile, loc bool) {
	var h appendable.DataHandler = handlers.JSONLHandler{}
	if f.csv {
		h = handlers.CSVHandler{}
	}
	for f.bad == 0 || len(f.pat[(f.bad-1)%len(f.pat)].raw) < 2 || strings.HasPrefix(f.pat[(f.bad-1)%len(f.pat)].raw, `"`) {
		f.bad = 1 + f.total/2 + rng.Intn(f.total/2)
	}
	t := f.trace(id, loc)
	mf := &memFile{}
	size := f.end(f.total)
	at := f.end(f.bad - 1)
	type step struct{ ver, vis int }
	steps := []step{{1, rng.Intn(at)}, {1, at - rng.Intn(at/2)}, {1, size}, {2, rng.Intn(at)}, {2, at}, {2, at + rng.Intn(size-at)}, {2, size}, {2, size - 1 - rng.Intn(1+size/3)}, {2, size}}
	starts := f.starts()
	datas := [][]byte{f.data(1), f.data(2)}
	for _, s := range steps {
		e := Ev{"op": "sync", "ver": s.ver, "vis": s.vis}
		data := datas[s.ver-1]
		e["res"], e["msg"] = syncOnce(mf, h, nil, data[:s.vis:s.vis])
		f.look(e, mf, h, datas[1], starts, loc)
		t.add(e)
	}
	c.Out.Emit(t)
}

func (f *bulkFile) trace(id string, loc bool) *Trace {
	pat := []Ev{}
	for _, p := range f.pat {
		us := []Ev{}
		for _, u := range p.us {
			e := Ev{"n": u.name, "t": u.t, "o": u.o, "len": u.n, "v": short(u.v), "vn": len(u.v), "tot": u.tot}
			if !loc {
				e["o"], e["len"] = 0, 0
			}
			us = append(us, e)
		}
		pat = append(pat, Ev{"len": len(p.raw) + 1, "us": us})
	}
	return &Trace{ID: id, Cfg: Ev{"head": len(f.head), "pat": pat, "total": f.total, "bad": f.bad, "tots": !f.csv}}
}

func (f *bulkFile) starts() map[uint64]int {
	starts := map[uint64]int{} // where lines start: the line, from 1
	for i, o := 0, len(f.head); i < f.total; i++ {
		starts[uint64(o)] = i + 1
		o += len(f.pat[i%len(f.pat)].raw) + 1
	}
	return starts
}

// look reads the index and counts its entries by shape.
func (f *bulkFile) look(e Ev, mf *memFile, h appendable.DataHandler, data []byte, starts map[uint64]int, loc bool) {
	var d *dDump
	res, msg := guard(func() (err error) { d, err = dumpIndex(mf, data, h); return })
	if res != "ok" {
		e["res"], e["msg"] = "unreadable:"+res, msg
		d = &dDump{}
	}
	e["off"], e["entries"] = int(d.off), int(d.entries)
	idx := []Ev{}
	for _, x := range d.idx {
		type key struct {
			r, o, n int
			v       string
		}
		gs := map[key]int{}
		ds := map[key]map[int]bool{}
		for _, y := range x.ents {
			k := key{r: 0, o: int(y.o) - int(y.ro), n: int(y.n), v: string(y.v)}
			ln := starts[y.ro]
			if ln > 0 && int(y.rn) == len(f.pat[(ln-1)%len(f.pat)].raw) {
				k.r = 1 + (ln-1)%len(f.pat)
			}
			if !loc {
				k.o, k.n = 0, 0
			}
			gs[k]++
			if ds[k] == nil {
				ds[k] = map[int]bool{}
			}
			ds[k][ln] = true
		}
		var ks []key
		for k := range gs {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return gs[ks[i]] > gs[ks[j]] })
		out := []Ev{}
		for _, k := range ks[:min(len(ks), 60)] {
			out = append(out, Ev{"r": k.r, "o": k.o, "len": k.n, "v": short([]byte(k.v)), "vn": len(k.v), "c": gs[k], "d": len(ds[k])})
		}
		idx = append(idx, Ev{"n": x.name, "t": x.t, "total": int(x.total), "gs": out})
	}
	e["idx"] = idx
}

// drvBulkKill synchronises large files and is killed on the way.
func drvBulkKill(c *Ctx, csv bool) {
	rng := rand.New(rand.NewSource(c.Seed + 4300))
	var h appendable.DataHandler = handlers.JSONLHandler{}
	head := ""
	if csv {
		h, head = handlers.CSVHandler{}, "c0,c1,c2\n"
	}
	runs := 3
	if c.Thorough {
		runs = 20
	}
	for i := 0; i < runs; i++ {
		f := &bulkFile{csv: csv, head: head, total: 1200 + rng.Intn(1500)}
		switch i % 3 {
		case 0: // many fields and records
			for k := 0; k < 5; k++ {
				f.pat = append(f.pat, f.line(rng, [2]int{[]int{0, 2}[rng.Intn(2)], rng.Intn(30)}, [2]int{rng.Intn(5), rng.Intn(10)}, [2]int{3 + rng.Intn(2), 0}))
			}
		case 1: // many records
			f.total = 9000 + rng.Intn(2000)
			f.pat = []bulkLine{f.line(rng, [2]int{3, 0}), f.line(rng, [2]int{4, 0}, [2]int{3, 0}), f.line(rng, [2]int{3, 0})}
		case 2: // long ones
			f.total = 60 + rng.Intn(30)
			for _, n := range []int{10, 5000, 300} {
				f.pat = append(f.pat, f.line(rng, [2]int{0, 1}, [2]int{rng.Intn(3), n}, [2]int{rng.Intn(3), n / 2}))
			}
		}
		data, starts, size := f.data(2), f.starts(), f.end(f.total)
		t := f.trace(fmt.Sprintf("k%v%d", csv, i), false)
		mf := &memFile{}
		// to some place, killed on the way to the next, and from there again: a file that
		// only grows (what was killed has entries of lines of which the index says nothing)
		to := []int{rng.Intn(size), rng.Intn(size), size}
		slices.Sort(to)
		for n, vis := range to {
			e := Ev{"op": "sync", "ver": 2, "vis": vis}
			e["res"], e["msg"] = syncOnce(mf, h, nil, data[:vis:vis])
			f.look(e, mf, h, data, starts, false)
			t.add(e)
			if n == 2 {
				break
			}
			next := to[n+1]
			for k := 1 + rng.Intn(3); k > 0; k-- {
				var ws []wr
				x := mf.clone()
				x.onWrite = func(off int64, p []byte) error {
					ws = append(ws, wr{off, append([]byte(nil), p...)})
					return nil
				}
				syncOnce(x, h, nil, data[:next:next])
				if len(ws) == 0 {
					break
				}
				at := rng.Intn(len(ws))
				if rng.Intn(4) == 0 {
					at = len(ws) - rng.Intn(3) // all but the last
				} else if rng.Intn(2) == 0 { // next to a change of the list of free pages
					for j := 0; j < len(ws) && !(ws[at].off == 0 && len(ws[at].p) == 4096); j++ {
						at = (at + 1) % len(ws)
					}
					at = min(at+rng.Intn(2), len(ws))
				}
				apply(mf, ws[:max(at, 0)])
				e := Ev{"op": "kill", "ver": 2, "vis": next, "at": at, "of": len(ws)}
				e["res"], e["msg"] = "ok", ""
				f.look(e, mf, h, data, starts, false)
				t.add(e)
			}
		}
		c.Out.Emit(t)
	}
}
