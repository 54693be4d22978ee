package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"slices"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
)

// Histories made by the model (SyncGen), of a JSON Lines or a CSV file.
func init() {
	drivers["hist"] = func(c *Ctx) { drvHist(c, false) }
	drivers["histcsv"] = func(c *Ctx) { drvHist(c, true) }
}

type hist struct {
	rng    *rand.Rand
	g      *jGen
	csv    bool
	wide   int // fields of a record, if many; of the type only
	only   int
	cols   int
	h      appendable.DataHandler
	search []string
	head   string
	lines  []jLine
	torn   string
	next   jLine
	mf     *memFile
	open   *appendable.IndexFile
	known  []map[string]int // keys of each record before the first bad one, numbered
	t      *Trace
}

func (h *hist) newLine(good bool) jLine {
	if !h.csv {
		if good {
			if h.wide > 0 {
				return h.g.line(0, h.wide+h.rng.Intn(20), h.only)
			}
			return h.g.line(0, h.rng.Intn(5), -1)
		}
		return h.g.badLine(0)
	}
	cell := func() string {
		if h.wide > 0 {
			return csvCell(h.rng, []string{"a", "b", "true", "2", "3", ""}[h.rng.Intn(6)])
		}
		return csvCell(h.rng, csvTexts[h.rng.Intn(len(csvTexts))])
	}
	var cs []string
	for k := 1 + h.rng.Intn(h.cols); k > 0; k-- {
		cs = append(cs, cell())
	}
	l := jLine{raw: strings.Join(cs, ",")}
	if l.raw == "" {
		l.raw = `""`
	}
	if !good {
		l.bad = "bad"
		l.raw = []string{"", "\r", "a\"b", "\"a", "\"a\"b", l.raw + strings.Repeat(",z", h.cols), "\"\"\""}[h.rng.Intn(7)]
	}
	return l
}

// lay lays the file out: header, lines, a torn piece.
func (h *hist) lay() (ls []jLine, data []byte) {
	var b bytes.Buffer
	b.WriteString(h.head)
	for _, l := range h.lines {
		l.o, l.n = b.Len(), len(l.raw)
		ls = append(ls, l)
		b.WriteString(l.raw + "\n")
	}
	b.WriteString(h.torn)
	return ls, b.Bytes()
}

func (h *hist) parser() interface{ Parse([]byte) []byte } {
	if h.csv {
		return handlers.CSVHandler{}
	}
	return handlers.JSONLHandler{}
}

// learn numbers the keys of the records up to the first bad one.
func (h *hist) learn() []int {
	ls, data := h.lay()
	out := []int{}
	for i, l := range ls {
		if l.bad != "" {
			h.known = h.known[:i]
			break
		}
		if i < len(h.known) {
			continue
		}
		f := &memFile{}
		end := l.o + l.n + 1
		if res, msg := syncOnce(f, h.h, h.search, data[:end:end]); res != "ok" {
			panic(fmt.Sprintf("%s: %s %s", h.t.ID, res, msg))
		}
		d, err := dumpIndex(f, data, h.parser())
		if err != nil {
			panic(err)
		}
		ks := []string{}
		for k := range d.keys() {
			old := false
			for _, m := range h.known {
				_, is := m[k]
				old = old || is
			}
			if !old {
				ks = append(ks, k)
			}
		}
		m := map[string]int{}
		for j, k := range sorted(ks) {
			m[k] = j + 1
		}
		h.known = append(h.known, m)
	}
	for i := range ls {
		if i < len(h.known) {
			out = append(out, len(h.known[i]))
		} else {
			out = append(out, 0)
		}
	}
	return out
}

func (h *hist) state(op string) Ev {
	e := Ev{"op": op, "res": "ok", "msg": ""}
	h.look(e)
	return e
}

// look adds what the index holds, as the model's keys.
func (h *hist) look(e Ev) {
	ls, data := h.lay()
	var d *dDump
	res, msg := guard(func() (err error) { d, err = dumpIndex(h.mf.clone(), data, h.parser()); return })
	if res != "ok" {
		e["res"], e["msg"] = "unreadable:"+res, msg
		d = &dDump{}
	}
	wm := -1
	if d.off == 0 || int(d.off) == len(h.head) {
		wm = 0
	}
	for i, l := range ls {
		if int(d.off) == l.o+l.n+1 {
			wm = i + 1
		}
	}
	keys := make([][]int, len(ls))
	for i := range keys {
		keys[i] = []int{}
	}
	extra, listed := 0, 0
	have := d.keys()
	for k := range have {
		found := false
		for i, m := range h.known {
			if f, is := m[k]; is {
				keys[i] = append(keys[i], f)
				found = true
			}
		}
		if !found {
			extra++
		}
	}
	names := map[string]bool{}
	dup := 0
	for _, x := range d.idx {
		listed += len(x.ents)
		k := fmt.Sprintf("%q/%d", x.name, x.t)
		if names[k] {
			dup++
		}
		names[k] = true
	}
	for i := range keys {
		slices.Sort(keys[i])
	}
	e["wm"], e["ent"], e["keys"], e["extra"], e["dup"] = wm, int(d.entries), keys, extra, dup+listed-len(have)
}

func (h *hist) sync(data []byte) (string, string) {
	if h.open != nil && h.rng.Intn(3) == 0 { // the index is still open
		return guard(func() error { return h.open.Synchronize(data) })
	}
	return guard(func() (err error) {
		h.open = nil
		x, err := appendable.NewIndexFile(h.mf, h.h, h.search)
		if err != nil {
			return err
		}
		h.open = x
		return x.Synchronize(data)
	})
}

func (h *hist) append(good bool) {
	l := h.newLine(good)
	if good && h.torn != "" { // the torn piece was the beginning of this line
		l = h.next
	}
	h.lines, h.torn = append(h.lines, l), ""
	h.changed("append")
}

// changed tells what the data is now.
func (h *hist) changed(op string) {
	nk := h.learn()
	rs := []Ev{}
	for i, l := range h.lines {
		rs = append(rs, Ev{"good": l.bad == "", "nf": nk[i], "okf": 0})
	}
	h.t.add(Ev{"op": op, "data": rs, "torn": h.torn != "", "res": "ok"})
}

func (h *hist) step(x string) {
	switch x {
	case "good", "bad":
		h.append(x == "good")
	case "tear":
		h.next = h.newLine(true)
		h.torn = h.next.raw[:h.rng.Intn(len(h.next.raw)+1)]
		if h.torn == "" {
			h.torn = h.next.raw
		}
		h.changed("tear")
	case "repair":
		for i, l := range h.lines {
			if l.bad != "" {
				h.lines[i] = h.newLine(true)
				break
			}
		}
		h.changed("repair")
	case "sync":
		_, data := h.lay()
		before := string(h.mf.b)
		res, msg := h.sync(data[:len(data):len(data)])
		e := h.state("sync")
		if e["res"] == "ok" {
			e["res"], e["msg"] = res, msg
		}
		e["same"] = before == string(h.mf.b)
		h.t.add(e)
	case "cut":
		ls, data := h.lay()
		d, err := dumpIndex(h.mf.clone(), data, h.parser())
		if err != nil || d.off == 0 {
			return
		}
		at := h.rng.Intn(int(d.off))
		if h.rng.Intn(2) == 0 && len(ls) > 0 && ls[0].o < int(d.off) { // at the end of a line
			at = ls[h.rng.Intn(len(ls))].o
			if at >= int(d.off) {
				at = int(d.off) - 1
			}
		}
		before := string(h.mf.b)
		res, msg := h.sync(data[:at:at])
		e := h.state("cut")
		if e["res"] == "ok" {
			e["res"], e["msg"] = res, msg
		}
		e["same"] = before == string(h.mf.b)
		h.t.add(e)
	case "k1", "k2", "k3":
		_, data := h.lay()
		var ws []wr
		f := h.mf.clone()
		f.onWrite = func(off int64, p []byte) error {
			ws = append(ws, wr{off, append([]byte(nil), p...)})
			return nil
		}
		syncOnce(f, h.h, h.search, data[:len(data):len(data)])
		h.open = nil // the process is gone
		at := 0
		if n := len(ws); n > 0 {
			third := (n + 2) / 3
			at = int(x[1]-'1')*third + h.rng.Intn(third)
			if x == "k3" && h.rng.Intn(2) == 0 {
				at = n - 1 - h.rng.Intn(2)
			}
			at = max(0, min(at, n))
		}
		apply(h.mf, ws[:at])
		e := h.state("kill")
		e["at"], e["of"] = at, len(ws)
		h.t.add(e)
	}
}

func drvHist(c *Ctx, isCSV bool) {
	b, err := os.ReadFile(c.In)
	if err != nil {
		panic(err)
	}
	rng := rand.New(rand.NewSource(c.Seed + 1900))
	hs := strings.Split(strings.TrimSpace(string(b)), "\n")
	hs = append(hs, hs...) // each with two kinds of records
	for i, line := range hs {
		var q struct {
			H []string `json:"h"`
		}
		if err := json.Unmarshal([]byte(line), &q); err != nil {
			panic(err)
		}
		h := &hist{rng: rng, csv: isCSV, mf: &memFile{}, t: &Trace{ID: fmt.Sprintf("h%d", i), Cfg: Ev{"h": strings.Join(q.H, " ")}}}
		if isCSV {
			h.h, h.cols = handlers.CSVHandler{}, 1+rng.Intn(4)
			if i%5 == 0 {
				h.wide, h.cols = 1, 20+rng.Intn(100)
			}
			var hs []string // the header
			for k := 0; k < h.cols; k++ {
				hs = append(hs, []string{"a", "b", fmt.Sprintf("c%d", k), ""}[rng.Intn(4)])
			}
			if h.wide > 0 && rng.Intn(2) == 0 { // one index with many entries
				hs = slices.Repeat([]string{"x"}, h.cols)
			}
			h.head = strings.Join(hs, ",") + "\n"
			if h.head == "\n" {
				h.head = "a\n"
			}
		} else {
			h.h = handlers.JSONLHandler{}
			h.g = newJGen(rng)
			h.g.longs = false
			h.g.depth = min(h.g.depth, 2)
			if i%5 == 0 { // many keys of a kind: trees split
				h.g.keys, h.g.search = h.g.keys[:1], map[string]bool{}
				h.wide, h.only = 60+rng.Intn(100), []int{3, 6, 8}[rng.Intn(3)]
			}
			h.search = h.g.searchList()
		}
		for _, x := range q.H {
			h.step(x)
		}
		// in the end everything is repaired and indexed
		h.step("sync")
		for k := 0; k < 4; k++ {
			for _, l := range h.lines {
				if l.bad != "" {
					h.step("repair")
					h.step("sync")
					break
				}
			}
		}
		c.Out.Emit(h.t)
	}
}
