package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/pagefile"
)

func init() { drivers["pagefile"] = drvPageFile }

const pgSize = 4096

type backing interface {
	io.ReadWriteSeeker
	Bytes() []byte
}

// pfRun drives one page file and records what it does.
type pfRun struct {
	t     *Trace
	b     backing
	path  string
	mm    *mmap.MemoryMappedFile
	pf    *pagefile.PageFile
	toks  map[string]string
	prev  []string // page tokens at the last snapshot
	prevB []byte   // the file at the last snapshot
	live  []int
	freed []int
	next  int
	probe bool
}

func (r *pfRun) tok(pg []byte) string {
	h := sha1.Sum(pg)
	k := hex.EncodeToString(h[:8])
	if t, ok := r.toks[k]; ok {
		return t
	}
	return "?" + k
}

// mk makes a fresh buffer of n bytes and registers the page it should become.
func (r *pfRun) mk(n int) ([]byte, string) {
	if n == 0 {
		return []byte{}, "zero"
	}
	r.next++
	buf := make([]byte, n)
	rng := rand.New(rand.NewSource(int64(r.next)*7919 + int64(n)))
	rng.Read(buf)
	buf[n-1] |= 1
	if n > pgSize {
		return buf, "big"
	}
	pg := make([]byte, pgSize)
	copy(pg, buf)
	h := sha1.Sum(pg)
	if t, ok := r.toks[hex.EncodeToString(h[:8])]; ok {
		return buf, t
	}
	t := fmt.Sprintf("c%d", r.next)
	r.toks[hex.EncodeToString(h[:8])] = t
	return buf, t
}

func (r *pfRun) snap(e Ev) {
	b := r.b.Bytes()
	n := len(b) / pgSize
	if len(b)%pgSize != 0 {
		e["n"] = -len(b)
	} else {
		e["n"] = n
	}
	chg := [][]any{}
	for p := 1; p < n; p++ {
		pg := b[p*pgSize : (p+1)*pgSize]
		if p < len(r.prev) && (p+1)*pgSize <= len(r.prevB) && bytes.Equal(pg, r.prevB[p*pgSize:(p+1)*pgSize]) {
			continue
		}
		t := r.tok(pg)
		if p < len(r.prev) {
			if r.prev[p] != t {
				chg = append(chg, []any{p, t})
			}
			r.prev[p] = t
		} else {
			for len(r.prev) < p {
				r.prev = append(r.prev, "")
			}
			r.prev = append(r.prev, t)
			chg = append(chg, []any{p, t})
		}
	}
	r.prevB = append(r.prevB[:0], b...)
	e["chg"] = chg
	if r.pf != nil {
		e["cnt"] = int(r.pf.PageCount())
	} else {
		e["cnt"] = -1
	}
	e["disk"] = []int{-1}
	if r.probe {
		e["disk"] = r.diskFree()
	}
}

// diskFree is the set of free pages a fresh process would see: it opens a copy of
// the file and allocates until the file grows.
func (r *pfRun) diskFree() []int {
	c := &memFile{b: append([]byte(nil), r.b.Bytes()...)}
	out := []int{}
	res, _ := guard(func() error {
		pf, err := pagefile.NewPageFile(c)
		if err != nil {
			return err
		}
		for i := 0; i < 2000; i++ {
			before := len(c.b)
			off, err := pf.NewPage(nil)
			if err != nil {
				return err
			}
			if len(c.b) != before {
				return nil
			}
			out = append(out, int(off/pgSize))
		}
		return nil
	})
	if res != "ok" {
		return []int{-2}
	}
	sort.Ints(out)
	return out
}

func (r *pfRun) open(op string) {
	e := Ev{"op": op, "p": -1, "c": ""}
	if op == "reopen" && r.mm != nil {
		guard(func() error { return r.mm.Close() })
		m, err := mmap.OpenFile(r.path, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		r.mm, r.b = m, m
	}
	res, msg := guard(func() error {
		pf, err := pagefile.NewPageFile(r.b)
		r.pf = pf
		return err
	})
	e["res"], e["msg"] = res, msg
	r.snap(e)
	r.t.add(e)
}

func (r *pfRun) alloc(n int) {
	var buf []byte
	c := "zero"
	if n >= 0 {
		buf, c = r.mk(n)
	}
	e := Ev{"op": "alloc", "c": c, "p": -1}
	var off int64
	res, msg := guard(func() (err error) { off, err = r.pf.NewPage(buf); return })
	e["res"], e["msg"] = res, msg
	if res == "ok" {
		p := int(off / pgSize)
		if off%pgSize != 0 || off > 1<<40 || off < 0 {
			p = -3
		}
		e["p"] = p
		r.live = append(r.live, p)
		for i, f := range r.freed {
			if f == p {
				r.freed = append(r.freed[:i:i], r.freed[i+1:]...)
				break
			}
		}
	}
	r.snap(e)
	r.t.add(e)
}

// allocs lets the file grow by k empty pages.
func (r *pfRun) allocs(k int) {
	e := Ev{"op": "allocs", "c": "zero", "p": -1}
	ps := []int{}
	res, msg := guard(func() error {
		for ; k > 0; k-- {
			off, err := r.pf.NewPage(nil)
			if err != nil {
				return err
			}
			p := int(off / pgSize)
			if off%pgSize != 0 || off > 1<<40 || off < 0 {
				p = -3
			}
			ps = append(ps, p)
			r.live = append(r.live, p)
		}
		return nil
	})
	e["res"], e["msg"], e["ps"] = res, msg, ps
	r.snap(e)
	r.t.add(e)
}

// free calls FreePage on page p plus extra bytes (extra # 0: misaligned).
func (r *pfRun) free(p int, extra int64) {
	op := "free"
	if extra != 0 {
		op = "freebad"
	}
	e := Ev{"op": op, "p": p, "c": ""}
	res, msg := guard(func() error { return r.pf.FreePage(int64(p)*pgSize + extra) })
	e["res"], e["msg"] = res, msg
	if res == "ok" && extra == 0 {
		for i, f := range r.live {
			if f == p {
				r.live = append(r.live[:i:i], r.live[i+1:]...)
				break
			}
		}
		r.freed = append(r.freed, p)
	}
	r.snap(e)
	r.t.add(e)
}

// pop takes a page off the free list.
func (r *pfRun) pop() {
	e := Ev{"op": "pop", "p": -1, "c": ""}
	var off int64
	res, msg := guard(func() (err error) { off, err = r.pf.FreePageIndex(); return })
	e["res"], e["msg"] = res, msg
	if res == "ok" && off != -1 {
		p := int(off / pgSize)
		if off%pgSize != 0 || off > 1<<40 || off < 0 {
			p = -3
		}
		e["p"] = p
		for i, f := range r.freed {
			if f == p {
				r.freed = append(r.freed[:i:i], r.freed[i+1:]...)
				r.live = append(r.live, p)
				break
			}
		}
	}
	r.snap(e)
	r.t.add(e)
}

// write is what a client does with a page it owns.
func (r *pfRun) write(p int) {
	buf, c := r.mk(pgSize)
	e := Ev{"op": "write", "p": p, "c": c}
	res, msg := guard(func() error {
		if _, err := r.pf.Seek(int64(p)*pgSize, io.SeekStart); err != nil {
			return err
		}
		_, err := r.pf.Write(buf)
		return err
	})
	e["res"], e["msg"] = res, msg
	r.snap(e)
	r.t.add(e)
}

// opentorn opens a copy of the file cut to size bytes, which is not whole pages.
func (r *pfRun) opentorn(size int) {
	var b backing
	before := append([]byte(nil), r.b.Bytes()...)
	for len(before) < size {
		before = append(before, byte(len(before)%251+1))
	}
	before = before[:size]
	e := Ev{"op": "opentorn", "p": -1, "c": ""}
	var mm *mmap.MemoryMappedFile
	if r.path != "" {
		p := r.path + ".torn"
		if err := os.WriteFile(p, before, 0o644); err != nil {
			panic(err)
		}
		m, err := mmap.OpenFile(p, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		mm, b = m, m
	} else {
		b = &memFile{b: append([]byte(nil), before...)}
	}
	res, msg := guard(func() error { _, err := pagefile.NewPageFile(b); return err })
	e["res"], e["msg"] = res, msg
	e["c"] = "kept"
	if string(b.Bytes()) != string(before) {
		e["c"] = "altered"
	}
	if mm != nil {
		mm.Close()
		os.Remove(r.path + ".torn")
	}
	r.snap(e)
	r.t.add(e)
}

func newPfRun(c *Ctx, id string, file, probe bool) *pfRun {
	r := &pfRun{t: &Trace{ID: id}, toks: map[string]string{}, probe: probe}
	h := sha1.Sum(make([]byte, pgSize))
	r.toks[hex.EncodeToString(h[:8])] = "zero"
	if file {
		r.path = filepath.Join(c.Dir, "pf-"+id)
		os.Remove(r.path)
		m, err := mmap.OpenFile(r.path, os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			panic(err)
		}
		r.mm, r.b = m, m
	} else {
		r.b = &memFile{}
	}
	r.open("open")
	return r
}

func (r *pfRun) done(c *Ctx) {
	if r.mm != nil {
		guard(func() error { return r.mm.Close() })
		os.Remove(r.path)
	}
	c.Out.Emit(r.t)
}

func (r *pfRun) failed() bool { // stop a run once the code under test has broken down
	l := r.t.Ev[len(r.t.Ev)-1]["res"]
	return l == "panic" || l == "hang" || r.pf == nil
}

// sym runs one symbol of a script. Symbols are chosen by the specification's
// generator (or by the enumeration below) and resolved against what is live.
func (r *pfRun) sym(s string, rng *rand.Rand) {
	switch s {
	case "a": // allocate with short content
		r.alloc(1 + rng.Intn(pgSize-1))
	case "z":
		r.alloc(-1)
	case "A":
		r.alloc(pgSize)
	case "B": // too large
		r.alloc(pgSize + 1 + rng.Intn(3))
	case "f": // free the oldest
		if len(r.live) > 0 {
			r.free(r.live[0], 0)
		}
	case "l": // free the newest
		if len(r.live) > 0 {
			r.free(r.live[len(r.live)-1], 0)
		}
	case "m":
		if len(r.live) > 0 {
			r.free(r.live[rng.Intn(len(r.live))], 0)
		}
	case "d": // double free
		if len(r.freed) > 0 {
			r.free(r.freed[rng.Intn(len(r.freed))], 0)
		}
	case "0": // directory page
		r.free(0, 0)
	case "o": // a whole page's offset, but outside of the file
		n := len(r.b.Bytes()) / pgSize
		r.free([]int{n, n + 1, n + 1 + rng.Intn(1<<20), -1, -1 - rng.Intn(1<<20)}[rng.Intn(5)], 0)
	case "p": // take a free page without content
		r.pop()
	case "u": // misaligned
		if len(r.live) > 0 {
			r.free(r.live[rng.Intn(len(r.live))], int64(1+rng.Intn(pgSize-1)))
		}
	case "w":
		if len(r.live) > 0 {
			r.write(r.live[rng.Intn(len(r.live))])
		}
	case "r":
		r.open("reopen")
	case "t":
		n := len(r.b.Bytes())
		sz := []int{1, 100, pgSize - 1, pgSize + 1, n - 1, n + 1, n + 4095}[rng.Intn(7)]
		if sz > 0 && sz%pgSize != 0 {
			r.opentorn(sz)
		}
	}
}

func drvPageFile(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed))
	// 1. every script over a small alphabet
	alpha := []string{"a", "z", "f", "l", "d", "w", "r"}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(alpha)
	}
	for k := 0; k < n; k++ {
		r := newPfRun(c, fmt.Sprintf("x%d", k), k%17 == 0, true)
		r.sym("a", rng)
		r.sym("a", rng)
		for i, v := 0, k; i < depth; i++ {
			r.sym(alpha[v%len(alpha)], rng)
			v /= len(alpha)
			if r.failed() {
				break
			}
		}
		r.done(c)
	}
	// 2. random scripts over the full alphabet
	full := []string{"a", "a", "z", "A", "B", "f", "l", "m", "m", "d", "0", "u", "o", "p", "w", "r", "t"}
	nr, ln := 60, 40
	if c.Thorough {
		nr, ln = 400, 80
	}
	for k := 0; k < nr; k++ {
		r := newPfRun(c, fmt.Sprintf("r%d", k), k%3 == 0, true)
		for i := 0; i < ln && !r.failed(); i++ {
			r.sym(full[rng.Intn(len(full))], rng)
		}
		r.done(c)
	}
	// 3. around the capacity of the free list (512 entries), with wrap-around
	big := 3
	if c.Thorough {
		big = 12
	}
	for k := 0; k < big; k++ {
		r := newPfRun(c, fmt.Sprintf("cap%d", k), k%2 == 1, false)
		total := 520 + rng.Intn(40)
		for i := 0; i < total && !r.failed(); i++ {
			r.alloc(1 + rng.Intn(64))
		}
		fill := 512
		if k%3 == 1 {
			fill = 505 + rng.Intn(7)
		}
		for i := 0; i < fill && !r.failed(); i++ {
			r.sym([]string{"f", "l", "m"}[rng.Intn(3)], rng)
		}
		burst := func() {
			for i := 0; i < 6 && !r.failed(); i++ {
				r.sym([]string{"f", "d", "0", "o"}[rng.Intn(4)], rng)
			}
		}
		burst()
		r.probe = true
		for j := 0; j < 14 && !r.failed(); j++ {
			na, nf := rng.Intn(12), rng.Intn(14)
			for i := 0; i < na && !r.failed(); i++ {
				r.alloc(1 + rng.Intn(64))
			}
			for i := 0; i < nf && !r.failed(); i++ {
				r.sym("m", rng)
			}
			if rng.Intn(3) == 0 && !r.failed() {
				r.open("reopen")
			}
		}
		if !r.failed() {
			r.open("reopen")
		}
		r.probe = false
		for i := 0; i < 530 && !r.failed(); i++ { // drain, then grow
			r.alloc(1 + rng.Intn(64))
		}
		r.done(c)
	}
	// 4. many pages
	for k := 0; k < big-1; k++ {
		r := newPfRun(c, fmt.Sprintf("many%d", k), k%2 == 1, false)
		r.sym("a", rng)
		r.allocs(1100 + rng.Intn(4000))
		for i := 0; i < 50 && !r.failed(); i++ {
			r.sym([]string{"a", "z", "A", "f", "l", "l", "m", "d", "o", "p", "w", "r", "u"}[rng.Intn(13)], rng)
			if i == 25 && !r.failed() {
				r.allocs(len(r.freed) + 300)
			}
		}
		r.done(c)
	}
}
