package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/kevmo314/appendable/pkg/handlers"
)

// Synchronisations of CSV data.
func init() { drivers["csv"] = drvCSV }

var numRun = regexp.MustCompile(`[0-9A-Za-z+\-._]+`)

// nums are the numbers the lines may hold, with what they are indexed as.
func csvNums(vers [][]string) []Ev {
	out := []Ev{{"x": []int{-1}, "v": []int{}}}
	seen := map[string]bool{}
	for _, ls := range vers {
		for _, l := range ls {
			for _, x := range numRun.FindAllString(l, -1) {
				if seen[x] {
					continue
				}
				seen[x] = true
				if _, err := strconv.ParseFloat(x, 64); err == nil {
					out = append(out, Ev{"x": ints([]byte(x)), "v": ints(fbytes(x))})
				} else if errors.Is(err, strconv.ErrRange) {
					out = append(out, Ev{"x": ints([]byte(x)), "v": []int{}})
				}
			}
		}
	}
	return out
}

func csvLines(ls []string) []Ev {
	out := []Ev{}
	o := 0
	for _, l := range ls {
		out = append(out, Ev{"o": o, "s": ints([]byte(l))})
		o += len(l) + 1
	}
	return out
}

type csvRun struct {
	t    *Trace
	mf   *memFile
	vers [][]string
	prog func(data []byte) (res, msg string) // the program instead of the library
}

func newCSVRun(id string, vers ...[]string) *csvRun {
	vs := [][]Ev{}
	for _, v := range vers {
		vs = append(vs, csvLines(v))
	}
	return &csvRun{t: &Trace{ID: id, Cfg: Ev{"vers": vs, "nums": csvNums(vers)}}, mf: &memFile{}, vers: vers}
}

func (r *csvRun) data(ver int) []byte {
	var b strings.Builder
	for _, l := range r.vers[ver-1] {
		b.WriteString(l + "\n")
	}
	return []byte(b.String())
}

func (r *csvRun) sync(ver, vis int) (Ev, *dDump) {
	data := r.data(ver)
	e := Ev{"op": "sync", "ver": ver, "vis": vis}
	if r.prog != nil {
		e["res"], e["msg"] = r.prog(data[:vis:vis])
	} else {
		e["res"], e["msg"] = syncOnce(r.mf, handlers.CSVHandler{}, nil, data[:vis:vis])
	}
	var d *dDump
	res, msg := guard(func() (err error) { d, err = dumpIndex(r.mf, data, handlers.CSVHandler{}); return })
	if res != "ok" {
		e["res"], e["msg"] = "unreadable:"+res, msg
		d = &dDump{}
	}
	e["off"], e["entries"] = int(d.off), int(d.entries)
	idx := []Ev{}
	for i, x := range d.ev() {
		x["n"] = ints([]byte(d.idx[i].name))
		idx = append(idx, x)
	}
	e["idx"] = idx
	r.t.add(e)
	return e, d
}

func (r *csvRun) look(rng *rand.Rand, d *dDump, data []byte) {
	for _, x := range d.idx {
		for k := 0; k < 2; k++ {
			val := []byte("\x00zz")
			if len(x.ents) > 0 && k > 0 {
				val = x.ents[rng.Intn(len(x.ents))].v
			}
			q := Ev{"op": "look", "n": ints([]byte(x.name)), "t": x.t, "v": ints(val)}
			recs := [][]int{}
			q["res"], q["msg"] = guard(func() error {
				ps, err := lookup(x.slot, data, handlers.CSVHandler{}, 0, val)
				for _, p := range ps {
					recs = append(recs, []int{int(p.Offset), int(p.Length)})
				}
				return err
			})
			q["recs"] = recs
			r.t.add(q)
		}
	}
}

var csvTexts = []string{"", "", "a", "b", "ab", "x y", "true", "T", "FALSE", "f", "True", "tRue", "1", "0", "1", "2", "-1.5", "007", "1e3", "+4", ".5", "5.", "-", "1.2.3", "1-2", "e3", "12345678901234567890", "9007199254740993", "caf\u00e9", "\u65e5\u672c", "a'b", "#", "# a", "#1", ";", "\t", " a", "1 ", "null", "\\n", "a\rb", "\x00", "{\"k\":1}", "he said \"no\"", "x,y", ",", "\"", "\"\"", "a\"\"b", "1,5", "\"1\"",
	"inf", "-Inf", "+INFINITY", "infi", "nan", "NaN", "-nan", "0x1p4", "0X1.8P-2", "0x1", "0x.p1", "1e999", "-1e400", "1e-999", "0x1p1025", "1_000", "2024_01", "_1", "1__0", "1_", "0x_1p2", "1e1_0", "-0.0", "true1"}

// numberLike is a text that is nearly or wholly a number.
func numberLike(rng *rand.Rand) string {
	for {
		x := ""
		for k := 1 + rng.Intn(7); k > 0; k-- {
			x += []string{"1", "0", "7", "23", ".", "e", "E", "-", "+", "_", "0x", "p", "f", "inf", "nan", "x"}[rng.Intn(16)]
			if rng.Intn(4) == 0 {
				x += "5"
			}
		}
		if i, err := strconv.Atoi(x); err != nil || i != 0 || x[0] != '-' { // the integer -0 may be 0
			return x
		}
	}
}

func csvCell(rng *rand.Rand, x string) string {
	if strings.ContainsAny(x, ",\"") || rng.Intn(4) == 0 {
		return `"` + strings.ReplaceAll(x, `"`, `""`) + `"`
	}
	return x
}

// csvFile makes a data file, in versions in which bad lines are repaired one after the other.
func csvFile(rng *rand.Rand, i int, thorough bool) ([][]string, int) {
	texts := csvTexts
	switch rng.Intn(4) {
	case 0: // few values, many records of each
		texts = texts[2 : 4+rng.Intn(10)]
	case 1: // one column of one type, deep trees
		texts = [][]string{{"1", "2", "3.5", "1e1"}, {"a", "b", "c\"", "d,e"}, {"true", "f"}, {""}}[rng.Intn(4)]
	}
	like := rng.Intn(4) == 0
	cols := 1 + rng.Intn(5)
	if i%17 == 3 {
		cols = 40
	}
	var hdr []string
	for k := 0; k < cols; k++ {
		nm := fmt.Sprintf("c%d", k)
		switch rng.Intn(12) {
		case 0:
			nm = "c0"
		case 1:
			nm = csvTexts[rng.Intn(len(csvTexts))]
		case 2:
			if rng.Intn(4) == 0 {
				nm = strings.Repeat("n", []int{236, 237, 300}[rng.Intn(3)])
			}
		}
		hdr = append(hdr, csvCell(rng, nm))
	}
	eol := ""
	if rng.Intn(3) == 0 {
		eol = "\r"
	}
	line := func() string {
		m := cols
		if rng.Intn(5) == 0 {
			m = 1 + rng.Intn(cols)
		}
		var cs []string
		for k := 0; k < m; k++ {
			x := texts[rng.Intn(len(texts))]
			if like && rng.Intn(2) == 0 {
				x = numberLike(rng)
			}
			cs = append(cs, csvCell(rng, x))
		}
		l := strings.Join(cs, ",")
		if l == "" {
			l = `""`
		}
		return l + eol
	}
	bad := func() string {
		return []string{"", "\r", "a\"b", "\"a", "\"a\"b", "\"a\"\r\r", line() + strings.Repeat(",z", cols), `"` + strings.Repeat(",", 3), "\"\"\""}[rng.Intn(9)]
	}
	ls := []string{strings.Join(hdr, ",") + eol}
	if ls[0] == eol {
		ls[0] = "h" + eol
	}
	if rng.Intn(25) == 0 {
		ls[0] = bad()
	}
	total := rng.Intn(14)
	if cols == 1 && rng.Intn(2) == 0 {
		total = 60
	}
	if i%23 == 0 {
		total = 700
		if !thorough {
			total = 320
		}
		cols, ls[0] = 1, "c"
	}
	for k := 0; k < total; k++ {
		ls = append(ls, line())
	}
	vers := [][]string{ls}
	if rng.Intn(3) == 0 && total > 0 { // bad lines, repaired one after the other
		cur := append([]string{}, ls...)
		for k := 1 + rng.Intn(3); k > 0; k-- {
			cur = append([]string{}, cur...)
			cur[1+rng.Intn(total)] = bad()
			vers = append([][]string{cur}, vers...)
		}
	}
	return vers, total
}

func drvCSV(c *Ctx) {
	if c.In != "" {
		replayCSV(c)
		return
	}
	rng := rand.New(rand.NewSource(c.Seed + 1400))
	n := 120
	if c.Thorough {
		n = 1500
	}
	for i := 0; i < n; i++ {
		vers, total := csvFile(rng, i, c.Thorough)
		r := newCSVRun(fmt.Sprintf("c%d", i), vers...)
		for v := 1; v <= len(vers); v++ {
			data := r.data(v)
			var steps []int
			at := 0
			if v > 1 {
				at = len(data)
			}
			for k := rng.Intn(4); k > 0; k-- {
				at = min(len(data), at+rng.Intn(1+len(data)/2))
				steps = append(steps, at)
				if rng.Intn(12) == 0 { // data cut short
					steps = append(steps, rng.Intn(at+1), at)
				}
			}
			if rng.Intn(4) == 0 {
				steps = append([]int{len(vers[v-1][0]) + rng.Intn(2)}, steps...)
				steps[0] = min(steps[0], len(data))
			}
			steps = append(steps, len(data))
			if total > 100 {
				steps = []int{len(data) / 2, len(data)}
			}
			for si, vis := range steps {
				if rng.Intn(4) == 0 { // storage that fails part way, then works again
					k := 1 + rng.Intn(30)
					r.mf.onWrite = func(int64, []byte) error {
						if k--; k <= 0 {
							return errInjected
						}
						return nil
					}
					e := Ev{"op": "fail", "ver": v, "vis": vis}
					e["res"], e["msg"] = syncOnce(r.mf, handlers.CSVHandler{}, nil, data[:vis:vis])
					r.t.add(e)
					r.mf.onWrite = nil
				}
				_, d := r.sync(v, vis)
				if v == len(vers) && si == len(steps)-1 {
					r.look(rng, d, data)
				}
			}
		}
		c.Out.Emit(r.t)
	}
}

// replayCSV indexes each line of the model, as a record and as a header.
func replayCSV(c *Ctx) {
	b, err := os.ReadFile(c.In)
	if err != nil {
		panic(err)
	}
	for i, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var q struct {
			Line []byte `json:"-"`
			L    []int  `json:"line"`
		}
		if err := json.Unmarshal([]byte(line), &q); err != nil {
			panic(err)
		}
		for _, x := range q.L {
			q.Line = append(q.Line, byte(x))
		}
		s := string(q.Line)
		cs := strings.Repeat(",k", 4)
		for k, ls := range [][]string{{"c0,c1,c2,c3,c4", "7" + cs, s, "8" + cs}, {s, "7", "9"}} {
			r := newCSVRun(fmt.Sprintf("g%d-%d", i, k), ls)
			r.sync(1, len(r.data(1)))
			c.Out.Emit(r.t)
		}
	}
}
