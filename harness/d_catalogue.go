package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/pkg/pagefile"
)

func init() { drivers["catalogue"] = drvCatalogue }

var fmtHandlers = map[string]appendable.DataHandler{"jsonl": handlers.JSONLHandler{}, "csv": handlers.CSVHandler{}}

type catEnv struct {
	c    *Ctx
	t    *Trace
	rng  *rand.Rand
	mf   *memFile
	mm   *mmap.MemoryMappedFile
	path string
	f    *appendable.IndexFile
	h    map[string]bool
	dead bool
	n    int // indexes
}

func (r *catEnv) rws() io.ReadWriteSeeker {
	if r.mm != nil {
		return r.mm
	}
	return r.mf
}

func (r *catEnv) bytes() []byte {
	if r.mm != nil {
		return r.mm.Bytes()
	}
	return r.mf.b
}

// slots walks the slots of the file independently of the index file object.
func (r *catEnv) slots() ([]*linkedpage.LinkedPage, error) {
	pf, err := pagefile.NewPageFile(r.rws())
	if err != nil {
		return nil, err
	}
	lp, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return nil, err
	}
	return lp.Collect()
}

func (r *catEnv) finish(e Ev) {
	cat := []Ev{}
	fm := Ev{"fmt": "none", "ver": 0, "off": "0", "ent": "0"}
	res, msg := guard(func() error {
		all, err := r.slots()
		if err != nil || len(all) == 0 {
			return err
		}
		for i, s := range all {
			b, err := s.Metadata()
			if err != nil {
				return err
			}
			if i == 0 {
				m := &appendable.FileMeta{}
				if err := m.UnmarshalBinary(b); err != nil {
					return err
				}
				fm = Ev{"fmt": []string{"jsonl", "csv"}[m.Format], "ver": int(m.Version), "off": fmt.Sprint(m.ReadOffset), "ent": fmt.Sprint(m.Entries)}
				continue
			}
			m := &appendable.IndexMeta{}
			if err := m.UnmarshalBinary(b); err != nil {
				return err
			}
			root, err := s.Root()
			if err != nil {
				return err
			}
			cat = append(cat, Ev{"n": nameTok(m.FieldName), "t": int(m.FieldType), "w": int(m.Width), "total": fmt.Sprint(m.TotalFieldValueLength), "root": ptok(root)})
		}
		return nil
	})
	if res != "ok" {
		e["res"], e["msg"] = "unreadable:"+res, msg
	}
	if e["res"] == "panic" || e["res"] == "hang" || res != "ok" {
		r.dead = true
	}
	e["cat"], e["fm"] = cat, fm
	r.t.add(e)
}

func nameTok(s string) string {
	if len(s) < 20 {
		return fmt.Sprintf("%q", s)
	}
	return mdTok([]byte(s))
}

func (r *catEnv) open(f string) bool {
	e := Ev{"op": "open", "f": f}
	before := append([]byte(nil), r.bytes()...)
	var x *appendable.IndexFile
	e["res"], e["msg"] = guard(func() (err error) {
		x, err = appendable.NewIndexFile(r.rws(), fmtHandlers[f], nil)
		return
	})
	e["same"] = bytes.Equal(before, r.bytes())
	r.finish(e)
	r.f = x
	return e["res"] == "ok"
}

func (r *catEnv) remap() {
	if r.mm != nil {
		guard(func() error { return r.mm.Close() })
		r.mm = nil
		guard(func() (err error) { r.mm, err = mmap.OpenFile(r.path, os.O_RDWR, 0); return })
	}
}

func (r *catEnv) index(name string, ft int) {
	e := Ev{"op": "index", "n": nameTok(name), "t": ft, "len": len(name), "w": 0, "at": 0, "total": "", "gn": "", "gt": -1}
	var lp *linkedpage.LinkedPage
	var m *appendable.IndexMeta
	e["res"], e["msg"] = guard(func() (err error) {
		lp, m, err = r.f.FindOrCreateIndex(name, appendable.FieldType(ft))
		return
	})
	if e["res"] == "ok" {
		e["w"], e["total"], e["gn"], e["gt"] = int(m.Width), fmt.Sprint(m.TotalFieldValueLength), nameTok(m.FieldName), int(m.FieldType)
		// the slot handed out is the one of that place: mark it and find the mark
		guard(func() error {
			old, err := lp.Root()
			if err != nil {
				return err
			}
			mark := rptr(r.rng)
			mark.Length |= 1 << 20
			if err := lp.SetRoot(mark); err != nil {
				return err
			}
			all, err := r.slots()
			if err != nil {
				return err
			}
			for i, s := range all {
				if g, err := s.Root(); err == nil && g == mark {
					e["at"] = i
				}
			}
			return lp.SetRoot(old)
		})
	}
	r.finish(e)
	if e["res"] == "ok" {
		if at := e["at"].(int); at > r.n {
			r.n = at
		}
	}
}

func (r *catEnv) slot(i int) *linkedpage.LinkedPage {
	var lp *linkedpage.LinkedPage
	guard(func() error {
		all, err := r.slots()
		if err == nil && i < len(all) {
			lp = all[i]
		}
		return err
	})
	return lp
}

func (r *catEnv) setTotal(i int, v uint64) {
	lp := r.slot(i)
	if lp == nil {
		return
	}
	e := Ev{"op": "total", "at": i, "v": fmt.Sprint(v)}
	e["res"], e["msg"] = guard(func() error {
		m := &appendable.IndexMeta{}
		if err := lp.UnmarshalMetadata(m); err != nil {
			return err
		}
		m.TotalFieldValueLength = v
		return lp.MarshalMetadata(m)
	})
	r.finish(e)
}

func (r *catEnv) setRoot(i int) {
	lp := r.slot(i)
	if lp == nil {
		return
	}
	mp := rptr(r.rng)
	e := Ev{"op": "root", "at": i, "v": ptok(mp)}
	e["res"], e["msg"] = guard(func() error { return lp.SetRoot(mp) })
	r.finish(e)
}

func (r *catEnv) setFile(ver int, off, ent uint64) {
	e := Ev{"op": "file", "ver": ver, "off": fmt.Sprint(off), "ent": fmt.Sprint(ent)}
	e["res"], e["msg"] = guard(func() error {
		m, err := r.f.Metadata()
		if err != nil {
			return err
		}
		m.Version, m.ReadOffset, m.Entries = appendable.Version(ver), off, ent
		return r.f.SetMetadata(m)
	})
	r.finish(e)
}

func (r *catEnv) queries() {
	e := Ev{"op": "names"}
	names := []string{}
	e["res"], e["msg"] = guard(func() error {
		ns, err := r.f.IndexFieldNames()
		for _, n := range ns {
			names = append(names, nameTok(n))
		}
		return err
	})
	e["names"] = names
	r.finish(e)
	e = Ev{"op": "empty"}
	var b bool
	e["res"], e["msg"] = guard(func() (err error) { b, err = r.f.IsEmpty(); return })
	e["b"] = b
	r.finish(e)
}

// short decodes records cut at every length which loses part of them.
func (r *catEnv) short() {
	m := &appendable.IndexMeta{FieldName: strings.Repeat("n", r.rng.Intn(9)), FieldType: 3, Width: 9, TotalFieldValueLength: 5}
	f := &appendable.FileMeta{Version: 1, ReadOffset: 77, Entries: 3}
	mb, _ := m.MarshalBinary()
	fb, _ := f.MarshalBinary()
	e := Ev{"op": "short"}
	e["res"], e["msg"] = guard(func() error {
		for i := 0; i < 6+len(m.FieldName); i++ {
			if err := new(appendable.IndexMeta).UnmarshalBinary(mb[:i]); err == nil {
				return nil
			}
		}
		for i := 0; i < 10; i++ {
			if err := new(appendable.FileMeta).UnmarshalBinary(fb[:i]); err == nil {
				return nil
			}
		}
		fb[1] = byte(2 + r.rng.Intn(254))
		if err := new(appendable.FileMeta).UnmarshalBinary(fb); err == nil {
			return nil
		}
		return errors.New("all refused")
	})
	r.finish(e)
}

func drvCatalogue(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 8))
	n := 50
	if c.Thorough {
		n = 600
	}
	for i := 0; i < n; i++ {
		r := &catEnv{c: c, rng: rng, t: &Trace{ID: fmt.Sprintf("c%d", i)}, mf: &memFile{}}
		if i%3 == 2 {
			r.path = filepath.Join(c.Dir, "cat-"+r.t.ID)
			os.Remove(r.path)
			guard(func() (err error) { r.mm, err = mmap.OpenFile(r.path, os.O_RDWR|os.O_CREATE, 0o644); return })
			if r.mm == nil {
				continue
			}
		}
		fm := []string{"jsonl", "csv"}[rng.Intn(2)]
		ot := map[string]string{"jsonl": "csv", "csv": "jsonl"}[fm]
		if !r.open(fm) {
			c.Out.Emit(r.t)
			continue
		}
		ver := 1
		names := []string{"", "a", "b", "a.b", "é", "a\x00", "A", " ", "\"q\""}
		max := []int{4, 13, 14, 15, 16, 30, 33}[rng.Intn(7)]
		steps := max * 3
		if i%25 == 7 { // several list pages
			max = 50 + rng.Intn(30)
			for j := 0; j < max && !r.dead; j++ {
				r.index(fmt.Sprintf("g%d", j), rng.Intn(11))
			}
			steps = 60
		}
		for j := 0; j < steps && !r.dead; j++ {
			switch x := rng.Intn(16); {
			case x < 9:
				nm := names[rng.Intn(len(names))]
				switch rng.Intn(6) {
				case 0:
					nm = strings.Repeat("x", []int{100, 127, 128, 200, 230, 235, 236, 237, 240, 246, 247, 250, 255, 256, 300, 70000}[rng.Intn(16)])
				case 1:
					nm = fmt.Sprintf("f%d", rng.Intn(40))
				}
				if r.n >= max && rng.Intn(3) > 0 {
					continue
				}
				r.index(nm, rng.Intn(11))
			case x < 11 && r.n > 0:
				r.setTotal(1+rng.Intn(r.n), bOff[rng.Intn(len(bOff))])
			case x == 11 && r.n > 0:
				r.setRoot(1 + rng.Intn(r.n))
			case x == 12:
				if rng.Intn(4) == 0 {
					ver = 0 + rng.Intn(3)
				}
				r.setFile(ver, bOff[rng.Intn(len(bOff))], bOff[rng.Intn(len(bOff))])
			case x == 13:
				r.queries()
			case x == 14:
				r.short()
			default:
				r.remap()
				if rng.Intn(3) == 0 {
					r.open(ot)
				}
				if ver != 1 {
					r.open(fm)
					// put the version back by hand to go on
					if lp := r.slot(0); lp != nil && !r.dead {
						e := Ev{"op": "file", "ver": 1}
						e["res"], e["msg"] = guard(func() error {
							m := &appendable.FileMeta{}
							if err := lp.UnmarshalMetadata(m); err != nil {
								return err
							}
							m.Version = 1
							e["off"], e["ent"] = fmt.Sprint(m.ReadOffset), fmt.Sprint(m.Entries)
							return lp.MarshalMetadata(m)
						})
						r.finish(e)
						ver = 1
					}
				}
				if r.dead || !r.open(fm) {
					r.dead = true
				}
			}
		}
		if r.mm != nil {
			guard(func() error { return r.mm.Close() })
			os.Remove(r.path)
		}
		c.Out.Emit(r.t)
	}
}
