package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/mmap"
)

func init() {
	drivers["incr"] = drvIncr
	drivers["reject"] = drvReject
	drivers["crash"] = drvCrash
}

// batches indexes every prefix of the records on its own, from nothing.
func batches(ls []jLine, data []byte, search []string) []string {
	out := []string{}
	for m := 0; m <= len(ls); m++ {
		if m > 0 && ls[m-1].bad != "" {
			break
		}
		end := 0
		if m > 0 {
			end = ls[m-1].o + ls[m-1].n + 1
		}
		mf := &memFile{}
		res, _ := syncOnce(mf, handlers.JSONLHandler{}, search, data[:end:end])
		d, err := dumpIndex(mf, data, handlers.JSONLHandler{})
		if res != "ok" || err != nil {
			out = append(out, fmt.Sprintf("batch of %d failed", m))
			continue
		}
		out = append(out, d.digest())
	}
	return out
}

func ends(ls []jLine) []int {
	out := []int{}
	for _, l := range ls {
		out = append(out, l.o+l.n+1)
	}
	return out
}

func digEv(e Ev, f io.ReadWriteSeeker, data []byte) {
	d := dumpEv(e, f, data)
	e["dig"] = d.digest()
}

func drvIncr(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 10))
	n := 90
	if c.Thorough {
		n = 1500
	}
	for i := 0; i < n; i++ {
		g, ls, data := jsonlFile(rng, i)
		search := g.searchList()
		t := &Trace{ID: fmt.Sprintf("i%d", i), Cfg: Ev{"ends": ends(ls), "batch": batches(ls, data, search)}}
		// where the synchronisations see the data end: whole lines, torn ones, nothing new
		var cuts []int
		for at := 0; at < len(data); {
			switch rng.Intn(6) {
			case 0: // again
			case 1:
				at += 1 + rng.Intn(8)
			case 2:
				at += rng.Intn(200)
			default: // whole lines
				k := rng.Intn(3)
				for _, l := range ls {
					if l.o+l.n+1 > at && k >= 0 {
						at = l.o + l.n + 1
						k--
						if rng.Intn(5) == 0 {
							at-- // all but the newline
							break
						}
					}
				}
			}
			if at > len(data) {
				at = len(data)
			}
			cuts = append(cuts, at)
			if len(cuts) > 40 {
				cuts = append(cuts, len(data))
				break
			}
		}
		cuts = append(cuts, len(data), len(data))
		if i%5 == 4 {
			incrMmap(c, t, cuts, data, search)
		} else {
			mf := &memFile{}
			var x *appendable.IndexFile
			for _, v := range cuts {
				before := string(mf.b)
				e := Ev{"op": "sync", "vis": v, "how": "reopen"}
				if x != nil && rng.Intn(3) == 0 { // the same open index once more
					e["how"] = "same"
					e["res"], e["msg"] = guard(func() error { return x.Synchronize(data[:v:v]) })
				} else {
					e["res"], e["msg"] = guard(func() (err error) {
						x, err = appendable.NewIndexFile(mf, handlers.JSONLHandler{}, search)
						if err != nil {
							return err
						}
						return x.Synchronize(append([]byte(nil), data[:v]...))
					})
				}
				e["same"] = before == string(mf.b)
				digEv(e, mf, data)
				t.add(e)
			}
		}
		c.Out.Emit(t)
	}
}

// incrMmap does what the command does: both files memory mapped.
func incrMmap(c *Ctx, t *Trace, cuts []int, data []byte, search []string) {
	dp, ip := filepath.Join(c.Dir, t.ID+".jsonl"), filepath.Join(c.Dir, t.ID+".idx")
	defer os.Remove(dp)
	defer os.Remove(ip)
	for _, v := range cuts {
		if err := os.WriteFile(dp, data[:v], 0o644); err != nil {
			panic(err)
		}
		before, _ := os.ReadFile(ip)
		e := Ev{"op": "sync", "vis": v, "how": "mmap"}
		e["res"], e["msg"] = guard(func() error {
			df, err := mmap.OpenFile(dp, os.O_RDONLY, 0)
			if err != nil {
				return err
			}
			defer df.Close()
			f, err := mmap.OpenFile(ip, os.O_RDWR|os.O_CREATE, 0o666)
			if err != nil {
				return err
			}
			x, err := appendable.NewIndexFile(f, handlers.JSONLHandler{}, search)
			if err != nil {
				return err
			}
			if err := x.Synchronize(df.Bytes()); err != nil {
				return err
			}
			return f.Close()
		})
		b, _ := os.ReadFile(ip)
		e["same"] = string(before) == string(b)
		digEv(e, &memFile{b: b}, data)
		t.add(e)
	}
}

// lay writes lines one after another.
func lay(ls []jLine) ([]jLine, []byte) {
	var b strings.Builder
	out := []jLine{}
	for _, l := range ls {
		l.o = b.Len()
		out = append(out, l)
		b.WriteString(l.raw + "\n")
	}
	return out, []byte(b.String())
}

func verEv(ls []jLine, data []byte, search []string) Ev {
	bad := []bool{}
	kinds := []string{}
	for _, l := range ls {
		bad = append(bad, l.bad != "")
		if l.bad != "" {
			kinds = append(kinds, l.bad)
		}
	}
	return Ev{"ends": ends(ls), "bad": bad, "kinds": kinds, "batch": batches(ls, data, search)}
}

func drvReject(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 11))
	n := 120
	if c.Thorough {
		n = 1800
	}
	for i := 0; i < n; i++ {
		g := newJGen(rng)
		search := g.searchList()
		nl := 1 + rng.Intn(7)
		var ls []jLine
		for j := 0; j < nl; j++ {
			if rng.Intn(3) == 0 || j == i%nl {
				ls = append(ls, g.badLine(0))
			} else {
				ls = append(ls, g.line(0, rng.Intn(7), -1))
			}
		}
		ls, data := lay(ls)
		vers := []Ev{verEv(ls, data, search)}
		t := &Trace{ID: fmt.Sprintf("r%d", i)}
		mf := &memFile{}
		wm := 0
		for step := 0; step < 30; step++ {
			v := len(data)
			if rng.Intn(4) == 0 && len(data) > 0 {
				v = rng.Intn(len(data) + 1)
			}
			e := Ev{"op": "sync", "ver": len(vers), "vis": v}
			e["res"], e["msg"] = syncOnce(mf, handlers.JSONLHandler{}, search, data[:v:v])
			digEv(e, mf, data)
			t.add(e)
			wm = e["off"].(int)
			if e["res"] == "ok" && v == len(data) {
				break
			}
			// the first bad line is repaired (sometimes: into another bad one)
			k := -1
			for j, l := range ls {
				if l.bad != "" {
					k = j
					break
				}
			}
			if k < 0 || rng.Intn(3) == 0 || ls[k].o < wm {
				continue
			}
			if rng.Intn(4) == 0 {
				ls[k] = g.badLine(0)
			} else {
				ls[k] = g.line(0, rng.Intn(7), -1)
			}
			ls, data = lay(ls)
			vers = append(vers, verEv(ls, data, search))
		}
		t.Cfg = Ev{"vers": vers}
		c.Out.Emit(t)
	}
}

// observe compares what a killed index holds with what it should: the keys of the first
// records (old), of all records (all).
func observe(e Ev, f *memFile, data []byte, old, all map[string]bool) {
	var d *dDump
	e["res"], e["msg"] = guard(func() (err error) { d, err = dumpIndex(f, data, handlers.JSONLHandler{}); return })
	if e["res"] != "ok" {
		d = &dDump{}
	}
	e["off"], e["entries"] = int(d.off), int(d.entries)
	// the list of field names: those of the indexes, each once, in the order of the indexes
	var fields []string
	e["names"], _ = guard(func() error {
		x, err := appendable.NewIndexFile(f.clone(), handlers.JSONLHandler{}, nil)
		if err != nil {
			return err
		}
		fields, err = x.IndexFieldNames()
		return err
	})
	want := []string{}
	for _, x := range d.idx {
		if !slices.Contains(want, x.name) {
			want = append(want, x.name)
		}
	}
	if e["names"] == "ok" && !slices.Equal(fields, want) {
		e["names"] = fmt.Sprintf("%q, not %q", fields, want)
	}
	have := d.keys()
	listed := 0
	names := map[string]bool{}
	dupidx := 0
	for _, x := range d.idx {
		listed += len(x.ents)
		k := fmt.Sprintf("%q/%d", x.name, x.t)
		if names[k] {
			dupidx++
		}
		names[k] = true
	}
	missOld, missNew, extra := 0, 0, 0
	for k := range all {
		if have[k] {
			continue
		}
		if !old[k] {
			missNew++
			continue
		}
		missOld++
	}
	for k := range have {
		if !all[k] {
			extra++
		}
	}
	e["missOld"], e["missNew"], e["extra"], e["dup"], e["dupidx"] = missOld, missNew, extra, listed-len(have), dupidx
}

type wr struct {
	off int64
	p   []byte
}

// logged runs a synchronisation and returns its writes.
func logged(f *memFile, search []string, data []byte) ([]wr, string, string) {
	var ws []wr
	f.onWrite = func(off int64, p []byte) error {
		ws = append(ws, wr{off, append([]byte(nil), p...)})
		return nil
	}
	res, msg := syncOnce(f, handlers.JSONLHandler{}, search, data)
	f.onWrite = nil
	return ws, res, msg
}

func apply(f *memFile, ws []wr) {
	for _, w := range ws {
		f.Seek(w.off, io.SeekStart)
		f.Write(w.p)
	}
	f.pos = 0
}

func keysOf(search []string, data []byte) map[string]bool {
	f := &memFile{}
	syncOnce(f, handlers.JSONLHandler{}, search, data)
	d, err := dumpIndex(f, data, handlers.JSONLHandler{})
	if err != nil {
		return map[string]bool{}
	}
	return d.keys()
}

func crashFile(rng *rand.Rand, i int) (*jGen, []jLine, []byte, int) {
	g := newJGen(rng)
	g.depth = 1
	g.longs = false
	var ls []jLine
	var b strings.Builder
	add := func(nf, only int) {
		l := g.line(b.Len(), nf, only)
		ls = append(ls, l)
		b.WriteString(l.raw + "\n")
	}
	old := rng.Intn(3)
	switch i % 6 {
	case 0: // the new records split a tree
		g.keys, g.search = g.keys[:1], map[string]bool{}
		only := []int{3, 6, 8}[rng.Intn(3)]
		pages := []int{1, 5, 4, 7}[i/6%4] // pages in use once the tree split: its root's split, or that of a leaf
		for k := 0; k < 90; k++ {
			add(12+rng.Intn(30), only)
			f := &memFile{}
			syncOnce(f, handlers.JSONLHandler{}, nil, []byte(b.String()))
			if len(f.b) >= (3+pages)*4096 {
				break
			}
		}
		old = len(ls) - 1 - rng.Intn(2)
		if old < 1 {
			old = 1
		}
	case 1: // many indexes: another page of slots
		g.keys = nil
		for k := 0; k < 20; k++ {
			g.keys = append(g.keys, fmt.Sprintf("k%d", k))
		}
		for k := 0; k < 4; k++ {
			add(7, -1)
		}
	default:
		for k := 0; k < 2+rng.Intn(3); k++ {
			add(rng.Intn(5), -1)
		}
	}
	if old > len(ls) {
		old = len(ls)
	}
	return g, ls, []byte(b.String()), old
}

func drvCrash(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 12))
	n, cap := 30, 60
	if c.Thorough {
		n, cap = 240, 400
	}
	for i := 0; i < n; i++ {
		g, ls, data, nold := crashFile(rng, i)
		search := g.searchList()
		oend := 0
		if nold > 0 {
			oend = ls[nold-1].o + ls[nold-1].n + 1
		}
		old, all := keysOf(search, data[:oend:oend]), keysOf(search, data)
		if nold == 0 {
			old = map[string]bool{}
		}
		t := &Trace{ID: fmt.Sprintf("c%d", i), Cfg: Ev{"old": nold, "all": len(ls), "ends": ends(ls)}}
		base := &memFile{}
		e := Ev{"op": "base"}
		e["res"], e["msg"] = "ok", ""
		if nold > 0 {
			e["res"], e["msg"] = syncOnce(base, handlers.JSONLHandler{}, search, data[:oend:oend])
		}
		t.add(e)
		ws, res, msg := logged(base.clone(), search, data)
		t.add(Ev{"op": "full", "res": res, "msg": msg})
		pts := rng.Perm(len(ws))
		if len(pts) > cap {
			pts = pts[:cap]
		}
		// always: the last writes and the first
		pts = append(pts, 0, len(ws)-1, len(ws))
		if i%6 == 0 { // and around the allocation of pages
			for k, w := range ws {
				if len(w.p) == 4096 && k+4 <= len(ws) && (c.Thorough || len(pts) < cap+40) {
					pts = append(pts, k+1, k+2, k+3)
				}
			}
		}
		for _, k := range pts {
			if k < 0 {
				continue
			}
			f := base.clone()
			apply(f, ws[:k])
			t.add(Ev{"op": "start"})
			e := Ev{"op": "kill", "at": k, "of": len(ws)}
			observe(e, f, data, old, all)
			t.add(e)
			for rng.Intn(4) == 0 { // killed again while catching up
				w2, _, _ := logged(f.clone(), search, data)
				if len(w2) == 0 {
					break
				}
				apply(f, w2[:rng.Intn(len(w2))])
				e := Ev{"op": "kill", "at": k, "of": len(w2)}
				observe(e, f, data, old, all)
				t.add(e)
			}
			r := Ev{"op": "resync"}
			sres, smsg := syncOnce(f, handlers.JSONLHandler{}, search, data)
			observe(r, f, data, old, all)
			r["sres"], r["smsg"] = sres, smsg
			t.add(r)
		}
		c.Out.Emit(t)
	}
}
