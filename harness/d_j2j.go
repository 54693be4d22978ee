package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io/fs"
	"math"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The converter of JSON lines to a JSON array (scripts/jsonl2json), run as a process of its
// own on files in a scratch folder.
func init() { drivers["j2j"] = drvJ2J }

type jjPath struct {
	dir   string
	parts []string
}

func (p jjPath) ev() []any { return []any{p.dir, p.parts} }
func (p jjPath) file(root string) string {
	d := root
	if p.dir != "" {
		d = filepath.Join(root, p.dir+".jsonl")
	}
	return filepath.Join(d, strings.Join(p.parts, ""))
}

// jjPathOf finds the path of a file again.
func jjPathOf(root, file string) []any {
	rel, _ := filepath.Rel(root, file)
	d, name := filepath.Split(rel)
	d = strings.TrimSuffix(strings.TrimSuffix(d, "/"), ".jsonl")
	parts := []string{}
	for rest := name; rest != ""; {
		i := strings.Index(rest[1:], ".") + 1
		if i == 0 {
			i = len(rest)
		}
		parts = append(parts, rest[:i])
		rest = rest[i:]
	}
	return []any{d, parts}
}

func num(text string, expect bool) Ev {
	if i, ok := new(big.Int).SetString(text, 10); ok && !strings.ContainsAny(text, "+") && text != "-0" {
		if i.IsInt64() || i.IsUint64() {
			return Ev{"k": 2, "d": i.String()}
		}
	}
	f, err := strconv.ParseFloat(text, 64)
	if err != nil && expect {
		panic(err)
	}
	hex := func(f float64) string { return fmt.Sprintf("%016x", math.Float64bits(f)) }
	if expect {
		near := []string{hex(f)}
		for _, g := range []float64{math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1))} {
			if f != 0 {
				near = append(near, hex(g))
			}
		}
		return Ev{"k": 3, "near": near}
	}
	return Ev{"k": 3, "bits": hex(f)}
}

// longCodes are the characters of a text; of a very long one the first, their number and a hash.
func longCodes(s string) []int {
	c := codes(s)
	if len(c) > 3000 {
		h := fnv.New32a()
		h.Write([]byte(s))
		return append(c[:60:60], -len(c), -int(h.Sum32()>>2)-1)
	}
	return c
}

// large writes a value of an unusual size.
func (g *jjGen) large() {
	switch g.rng.Intn(5) {
	case 0: // a long text
		n := []int{5000, 9000, 66000, 80000, 140000}[g.rng.Intn(5)]
		g.b.WriteString(`"` + strings.Repeat([]string{"x", "\\n", "\u00e9", "\U0001f600"}[g.rng.Intn(4)], n) + `"`)
	case 1: // a long array
		g.b.WriteString("[0")
		for n := 300 + g.rng.Intn(3000); n > 0; n-- {
			fmt.Fprintf(&g.b, ",%d", g.rng.Intn(1000000))
		}
		g.b.WriteByte(']')
	case 2: // many members
		g.b.WriteString(`{"a":0`)
		for n := 40 + g.rng.Intn(80); n > 0; n-- {
			fmt.Fprintf(&g.b, `,"m%d":%d`, g.rng.Intn(500), n)
		}
		g.b.WriteByte('}')
	case 3: // deep
		n := 20 + g.rng.Intn(36)
		g.b.WriteString(strings.Repeat(`[`, n) + "7" + strings.Repeat(`]`, n))
	default: // a number of many digits
		g.b.WriteString("1" + strings.Repeat("0", g.rng.Intn(200)) + "." + strings.Repeat("3", 1+g.rng.Intn(900)))
	}
}

// tree reads a JSON value into the form of the specification.
func tree(d *json.Decoder, expect bool, depth int) (Ev, error) {
	if depth > 60 {
		return nil, errors.New("too deep")
	}
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case nil:
		return Ev{"k": 0}, nil
	case bool:
		return Ev{"k": 1, "b": t}, nil
	case json.Number:
		return num(string(t), expect), nil
	case string:
		return Ev{"k": 4, "c": longCodes(t)}, nil
	case json.Delim:
		if t == '[' {
			a := []Ev{}
			for d.More() {
				x, err := tree(d, expect, depth+1)
				if err != nil {
					return nil, err
				}
				a = append(a, x)
			}
			_, err := d.Token()
			return Ev{"k": 5, "a": a}, err
		}
		m := []Ev{}
		for d.More() {
			n, err := d.Token()
			if err != nil {
				return nil, err
			}
			x, err := tree(d, expect, depth+1)
			if err != nil {
				return nil, err
			}
			m = append(m, Ev{"n": codes(n.(string)), "v": x})
		}
		_, err := d.Token()
		return Ev{"k": 6, "m": m}, err
	}
	return nil, fmt.Errorf("token %v", t)
}

func treeOf(b []byte, expect bool) Ev {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	e, err := tree(d, expect, 0)
	if err != nil || len(bytes.TrimSpace(b[d.InputOffset():])) > 0 {
		return Ev{"k": 9}
	}
	return e
}

var jjBad = []string{"", " ", "{", "nul", "{\"a\":}", "01", "1 2", "\"\\ud800\"", "\"\xff\"", "[1,]", "'a'", "1e999", "NaN", "\"\x01\"", strings.Repeat("[", 300) + strings.Repeat("]", 300), "{\"a\" 1}", "+1", ".5", "1.", "{} {}", "tru", "\"\\x\"", "[1"}

type jjGen struct {
	rng *rand.Rand
	b   strings.Builder
}

func (g *jjGen) ws() {
	for g.rng.Intn(5) == 0 {
		g.b.WriteByte(" \t\r"[g.rng.Intn(3)])
	}
}

func (g *jjGen) str() {
	g.b.WriteByte('"')
	for n := g.rng.Intn(6); n > 0; n-- {
		g.b.WriteString([]string{"a", "b", "\\n", "\\\"", "\\\\", "\\/", "\\u0000", "\\u00e9", "\u00e9", "\\ud83d\\ude00", "\U0001f600", "\u2028", "\x7f", "\\u001f", "]", ",", "{"}[g.rng.Intn(17)])
	}
	g.b.WriteByte('"')
}

func (g *jjGen) value(depth int) {
	g.ws()
	k := g.rng.Intn(7)
	if depth <= 0 {
		k = g.rng.Intn(5)
	}
	switch k {
	case 0:
		g.b.WriteString([]string{"null", "true", "false"}[g.rng.Intn(3)])
	case 1, 2:
		g.b.WriteString([]string{"0", "-0", "1", "-1", "42", "9007199254740993", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "0.1", "1.0", "-2.5e-3", "1E+3", "5e-324", "1.7976931348623157e308", "0.30000000000000004", "123456789.123456789", "1e-400", "1e22"}[g.rng.Intn(20)])
		if g.rng.Intn(3) == 0 {
			fmt.Fprintf(&g.b, "%d", g.rng.Intn(10))
			s := g.b.String()
			last := s[strings.LastIndexAny(s, " \t\r[{:,")+1:]
			if _, err := strconv.ParseFloat(last, 64); err != nil || !json.Valid([]byte(last)) {
				g.b.Reset()
				g.b.WriteString(s[:len(s)-1])
			}
		}
	case 3, 4:
		g.str()
	case 5:
		g.b.WriteByte('[')
		for n, i := g.rng.Intn(4), 0; i < n; i++ {
			if i > 0 {
				g.b.WriteByte(',')
			}
			g.value(depth - 1)
		}
		g.ws()
		g.b.WriteByte(']')
	default:
		g.b.WriteByte('{')
		for n, i := g.rng.Intn(5), 0; i < n; i++ {
			if i > 0 {
				g.b.WriteByte(',')
			}
			g.ws()
			if g.rng.Intn(3) == 0 {
				g.str()
			} else {
				fmt.Fprintf(&g.b, "%q", []string{"a", "b", "zz", "A"}[g.rng.Intn(4)])
			}
			g.ws()
			g.b.WriteByte(':')
			g.value(depth - 1)
		}
		g.ws()
		g.b.WriteByte('}')
	}
	g.ws()
}

type jjRun struct {
	t    *Trace
	root string
	was  map[string]string
}

func newJJ(c *Ctx, id string) *jjRun {
	root, err := os.MkdirTemp(c.Dir, "jj")
	if err != nil {
		panic(err)
	}
	for _, d := range []string{"d.jsonl", "d.json"} {
		if err := os.Mkdir(filepath.Join(root, d), 0o755); err != nil {
			panic(err)
		}
	}
	return &jjRun{t: &Trace{ID: id}, root: root, was: map[string]string{}}
}

func (r *jjRun) put(p jjPath, content string, lines []Ev) {
	f := p.file(r.root)
	if err := os.WriteFile(f, []byte(content), 0o644); err != nil {
		panic(err)
	}
	r.was[f] = content
	r.t.add(Ev{"op": "put", "p": p.ev(), "c": lines})
}

func (r *jjRun) run(p jjPath) {
	cmd := exec.Command(os.Getenv("VH_RUST"), "-f", p.file(r.root))
	cmd.Env = append(os.Environ(), "RUST_BACKTRACE=0")
	cmd.Dir = r.root
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	t := time.AfterFunc(60*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err := cmd.Run()
	e := Ev{"op": "run", "p": p.ev(), "res": "fail", "msg": out.String()[:min(out.Len(), 120)]}
	switch {
	case !t.Stop():
		e["res"] = "hang"
	case err == nil:
		e["res"] = "0"
	case cmd.ProcessState == nil || !cmd.ProcessState.Exited() || cmd.ProcessState.ExitCode() == 101:
		e["res"] = "crash"
	}
	snap := []Ev{}
	now := map[string]string{}
	filepath.WalkDir(r.root, func(f string, d fs.DirEntry, err error) error {
		if err != nil {
			panic(err)
		}
		if d.IsDir() {
			return nil
		}
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		now[f] = string(b)
		was, ok := r.was[f]
		x := Ev{"p": jjPathOf(r.root, f), "same": ok && was == string(b), "arr": Ev{"k": 9}}
		if x["same"] == false || strings.HasSuffix(f, ".json") || strings.HasSuffix(f, ".bak") {
			x["arr"] = treeOf(b, false)
		}
		snap = append(snap, x)
		return nil
	})
	r.was = now
	e["snap"] = snap
	r.t.add(e)
}

func (r *jjRun) done(c *Ctx) {
	c.Out.Emit(r.t)
	os.RemoveAll(r.root)
}

func drvJ2J(c *Ctx) {
	var wg sync.WaitGroup
	sem := make(chan int, 6)
	do := func(f func()) {
		wg.Add(1)
		sem <- 1
		go func() {
			defer func() { <-sem; wg.Done() }()
			f()
		}()
	}
	defer wg.Wait()
	if c.In != "" {
		b, err := os.ReadFile(c.In)
		if err != nil {
			panic(err)
		}
		for i, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var q struct {
				Files []struct {
					P []any    `json:"p"`
					C []string `json:"c"`
				} `json:"files"`
				Runs [][]any `json:"runs"`
			}
			if err := json.Unmarshal([]byte(line), &q); err != nil {
				panic(err)
			}
			path := func(a []any) jjPath {
				p := jjPath{dir: a[0].(string)}
				for _, x := range a[1].([]any) {
					p.parts = append(p.parts, x.(string))
				}
				return p
			}
			do(func() {
				r := newJJ(c, fmt.Sprintf("g%d", i))
				for _, f := range q.Files {
					s, ls := "", []Ev{}
					for k, v := range f.C {
						if v == "bad" {
							v = jjBad[(i+k)%len(jjBad)]
							if v == "" {
								v = " "
							}
						}
						if jjIsBad(v) {
							ls = append(ls, Ev{"k": 9})
						} else {
							ls = append(ls, treeOf([]byte(v), true))
						}
						s += v + "\n"
					}
					r.put(path(f.P), s, ls)
				}
				for _, p := range q.Runs {
					r.run(path(p))
				}
				r.done(c)
			})
		}
		return
	}
	n := 250
	if c.Thorough {
		n = 6000
	}
	for i := 0; i < n; i++ {
		do(func() {
			rng := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
			r := newJJ(c, fmt.Sprintf("r%d", i))
			ps := []jjPath{{"", []string{"a", ".jsonl"}}, {"", []string{"a", ".json"}}, {"d", []string{"b", ".jsonl"}}, {"", []string{"c", ".jsonl", ".bak"}}, {"d", []string{"plain"}}}
			puts := 1 + rng.Intn(4)
			if i%50 == 11 {
				puts = 1
			}
			for k := puts; k > 0; k-- {
				large := 2
				g := &jjGen{rng: rng}
				var content strings.Builder
				ls := []Ev{}
				bad := -1
				m := rng.Intn(8)
				if rng.Intn(20) == 0 {
					m = 600
				}
				if i%50 == 11 {
					m = 1000 + rng.Intn(2500)
				}
				if rng.Intn(4) == 0 && m > 0 {
					bad = rng.Intn(m)
				}
				eol := []string{"\n", "\n", "\r\n"}[rng.Intn(3)]
				for j := 0; j < m; j++ {
					g.b.Reset()
					if i%12 == 7 && large > 0 && rng.Intn(3) == 0 {
						large--
						g.large()
					} else if m > 900 {
						g.value(0)
					} else {
						g.value(3)
					}
					v := g.b.String()
					x := treeOf([]byte(v), true)
					if j == bad {
						v = jjBad[rng.Intn(len(jjBad))]
						x = Ev{"k": 9}
					}
					content.WriteString(v)
					if j < m-1 || rng.Intn(3) > 0 || v == "" {
						content.WriteString(eol)
					}
					ls = append(ls, x)
				}
				p := ps[rng.Intn(len(ps))]
				r.put(p, content.String(), ls)
				for q := rng.Intn(3) * 900 / max(m, 900); q >= 0; q-- {
					if rng.Intn(3) > 0 {
						r.run(p)
					} else {
						r.run(ps[rng.Intn(len(ps))])
					}
				}
			}
			r.done(c)
		})
	}
}

func jjIsBad(v string) bool {
	for _, b := range jjBad {
		if v == b {
			return true
		}
	}
	return false
}
