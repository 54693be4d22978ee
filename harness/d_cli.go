package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"time"
)

// The indexing program itself (cmd/), run as a process of its own in a scratch folder.

func init() {
	drivers["cli"] = drvCli
	drivers["clifull"] = drvCliFull
	drivers["clicsv"] = drvCliCSV
}

type cliEnv struct {
	dir  string
	n    int
	exts map[string]bool // files a run may write
}

func (c *cliEnv) path(s string) string { return filepath.Join(c.dir, s) }

func (c *cliEnv) snapshot() map[string]string {
	m := map[string]string{}
	es, err := os.ReadDir(c.dir)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		b, err := os.ReadFile(c.path(e.Name()))
		if err != nil {
			panic(err)
		}
		fi, err := e.Info()
		if err != nil {
			panic(err)
		}
		m[e.Name()] = fmt.Sprintf("%v %s", fi.Mode(), b)
	}
	return m
}

// run runs the program; limit: blocks of 1 kB its files may have.
func (c *cliEnv) run(limit int, during func(), args ...string) (exit, msg string) {
	cmd := exec.Command(os.Getenv("VH_CLI"), args...)
	if limit > 0 {
		cmd = exec.Command("bash", append([]string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", limit), os.Getenv("VH_CLI")}, args...)...)
	}
	cmd.Dir = c.dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	if during != nil {
		during()
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	late := !t.Stop()
	msg = out.String()
	if len(msg) > 200 {
		msg = msg[:200]
	}
	switch {
	case late:
		return "hang", msg
	case err == nil:
		return "0", msg
	case cmd.ProcessState.Exited():
		return "fail", msg
	}
	return "signal", msg
}

func (c *cliEnv) index(name string) *memFile {
	b, err := os.ReadFile(c.path(name))
	if err != nil {
		return &memFile{}
	}
	return &memFile{b: b}
}

func write(p string, b []byte) {
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
}

var oddNames = []string{"a,b", "-s", "-", "x=y", " a", "a b,c ", "*", "$HOME", "a;b", "--", "'q'", "s=a"}

func drvCli(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 15))
	n := 36
	if c.Thorough {
		n = 500
	}
	for i := 0; i < n; i++ {
		g := newJGen(rng)
		g.longs = false
		if rng.Intn(2) == 0 { // names that mean something to a shell, a flag or a list
			for _, j := range rng.Perm(len(oddNames))[:1+rng.Intn(3)] {
				g.keys = append(g.keys, oddNames[j])
				g.search[oddNames[j]] = true
			}
		}
		search := g.searchList()
		nl := rng.Intn(9)
		var ls []jLine
		for j := 0; j < nl; j++ {
			if rng.Intn(7) == 0 {
				ls = append(ls, g.badLine(0))
			} else {
				nf := rng.Intn(7)
				if i%6 == 0 {
					nf = 60
				}
				ls = append(ls, g.line(0, nf, -1))
			}
		}
		ls, data := lay(ls)
		vers := []Ev{verEv(ls, data, search)}
		t := &Trace{ID: fmt.Sprintf("cli%d", i)}
		env := &cliEnv{dir: filepath.Join(c.Dir, fmt.Sprintf("cli%d", i))}
		if err := os.MkdirAll(env.dir, 0o755); err != nil {
			panic(err)
		}
		write(env.path("bystander"), []byte("not to be touched"))
		vis := rng.Intn(len(data) + 1)
		if rng.Intn(3) == 0 {
			vis = 0
		}
		for step := 0; step < 12; step++ {
			write(env.path("d.jsonl"), data[:vis])
			e := Ev{"op": "run", "ver": len(vers), "vis": vis, "vis2": vis, "kind": "sync"}
			args := []string{"-jsonl", "-i", "d.idx"}
			flags := []string{}
			may := map[string]bool{"d.idx": true}
			if rng.Intn(4) == 0 {
				flags = append(flags, "-t")
			}
			if rng.Intn(4) == 0 {
				flags = append(flags, "-debug")
			}
			if rng.Intn(4) == 0 {
				flags = append(flags, "-b", "bench.csv")
				may["bench.csv"] = true
			}
			if rng.Intn(6) == 0 {
				flags = append(flags, "-pprof", "cpu.prof")
				may["cpu.prof"] = true
			}
			for _, s := range search {
				flags = append(flags, "-s", s)
			}
			dataName := "d.jsonl"
			var during func()
			more := len(data)
			switch k := rng.Intn(14); {
			case k == 0:
				e["kind"], args = "csv", []string{"-csv", "-i", "d.idx"}
				if _, err := os.Stat(env.path("d.idx")); err != nil {
					continue // a new index of that kind
				}
			case k == 1:
				e["kind"], args = "format", []string{"-i", "d.idx"}
			case k == 2:
				e["kind"], args = "noindex", []string{"-jsonl"}
			case k == 3:
				e["kind"], dataName = "nodata", "missing.jsonl"
				if _, err := os.Stat(env.path("d.idx")); err != nil {
					delete(may, "d.idx")
				}
			case k == 4:
				e["kind"], args = "self", []string{"-jsonl", "-i", "d.jsonl"}
			case k == 5:
				e["kind"], args = "nowhere", []string{"-jsonl", "-i", "no/such/d.idx"}
			case k == 6:
				e["kind"] = "extra"
				dataName = ""
			case k < 9 && vis < len(data) && rng.Intn(2) == 0:
				// the data grows while the program runs
				more = vis + 1 + rng.Intn(len(data)-vis)
				e["vis2"] = more
				d := time.Duration(rng.Intn(12)) * time.Millisecond
				rest := data[vis:more]
				during = func() {
					time.Sleep(d)
					f, err := os.OpenFile(env.path("d.jsonl"), os.O_APPEND|os.O_WRONLY, 0)
					if err != nil {
						panic(err)
					}
					defer f.Close()
					if _, err := f.Write(rest); err != nil {
						panic(err)
					}
				}
			}
			before := env.snapshot()
			args = append(args, flags...)
			if dataName != "" {
				args = append(args, dataName)
			}
			e["exit"], e["msg"] = env.run(0, during, args...)
			after := env.snapshot()
			want := data[:vis]
			if during != nil {
				want = data[:more]
				vis = more
			}
			e["data"] = after["d.jsonl"] == "-rw-r--r-- "+string(want)
			e["idx"] = "changed"
			if after["d.idx"] == before["d.idx"] {
				e["idx"] = "same"
			}
			others := []string{}
			for f, b := range after {
				if f != "d.jsonl" && !may[f] && before[f] != b {
					others = append(others, f)
				}
			}
			for f := range before {
				if _, ok := after[f]; !ok {
					others = append(others, f)
				}
			}
			sort.Strings(others)
			e["others"] = others
			digEv(e, env.index("d.idx"), data)
			t.add(e)
			wm := e["off"].(int)
			if e["kind"] != "sync" {
				continue
			}
			// the first bad line is repaired, the data grows or, once, shrinks
			k := -1
			for j, l := range ls {
				if l.bad != "" {
					k = j
					break
				}
			}
			if k >= 0 && rng.Intn(2) == 0 && ls[k].o >= wm {
				ls[k] = g.line(0, rng.Intn(7), -1)
				ls, data = lay(ls)
				vers = append(vers, verEv(ls, data, search))
			}
			switch {
			case rng.Intn(12) == 0:
				vis = rng.Intn(len(data) + 1)
			case vis > len(data):
				vis = len(data)
			default:
				vis += rng.Intn(len(data) - vis + 1)
			}
		}
		t.Cfg = Ev{"vers": vers}
		c.Out.Emit(t)
		os.RemoveAll(env.dir)
	}
}

// drvCliFull runs the program with no room for its index after some page.
func drvCliFull(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 16))
	n := 10
	if c.Thorough {
		n = 100
	}
	for i := 0; i < n; i++ {
		g, ls, data, nold := crashFile(rng, i)
		search := g.searchList()
		oend := 0
		if nold > 0 {
			oend = ls[nold-1].o + ls[nold-1].n + 1
		}
		old, all := keysOf(search, data[:oend:oend]), keysOf(search, data)
		if nold == 0 {
			old = map[string]bool{}
		}
		t := &Trace{ID: fmt.Sprintf("full%d", i), Cfg: Ev{"old": nold, "all": len(ls), "ends": ends(ls)}}
		env := &cliEnv{dir: filepath.Join(c.Dir, fmt.Sprintf("full%d", i))}
		if err := os.MkdirAll(env.dir, 0o755); err != nil {
			panic(err)
		}
		args := []string{"-jsonl", "-i", "d.idx"}
		for _, s := range search {
			args = append(args, "-s", s)
		}
		args = append(args, "d.jsonl")
		sync := func(limit int, data []byte) (string, string) {
			write(env.path("d.jsonl"), data)
			exit, msg := env.run(limit, nil, args...)
			if exit == "0" {
				exit = "ok"
			}
			return exit, msg
		}
		e := Ev{"op": "base", "res": "ok", "msg": ""}
		if nold > 0 {
			e["res"], e["msg"] = sync(0, data[:oend])
		}
		t.add(e)
		base := env.index("d.idx").b
		f := Ev{"op": "full"}
		f["res"], f["msg"] = sync(0, data)
		t.add(f)
		final := len(env.index("d.idx").b)
		for k := len(base) / 4096; k <= final/4096; k++ {
			if k == 0 || (final/4096-len(base)/4096 > 8 && rng.Intn(3) > 0) {
				continue
			}
			os.Remove(env.path("d.idx"))
			if nold > 0 {
				write(env.path("d.idx"), base)
			}
			t.add(Ev{"op": "start"})
			x := Ev{"op": "full-disk", "at": k, "of": final / 4096}
			exit, msg := sync(k*4, data)
			f := env.index("d.idx")
			observe(x, f, data, old, all)
			// and against what it says it holds
			y := Ev{}
			now := old
			if m := x["entries"].(int); m > nold && m <= len(ls) {
				now = keysOf(search, data[:ls[m-1].o+ls[m-1].n+1])
			}
			observe(y, f, data, now, all)
			x["missNow"] = y["missOld"]
			x["exit"], x["emsg"] = exit, msg
			t.add(x)
			r := Ev{"op": "resync"}
			exit, msg = sync(0, data)
			observe(r, env.index("d.idx"), data, old, all)
			r["sres"], r["smsg"] = exit, msg
			t.add(r)
		}
		c.Out.Emit(t)
		os.RemoveAll(env.dir)
	}
}

// drvCliCSV runs the program on CSV files that grow and are repaired.
func drvCliCSV(c *Ctx) {
	rng := rand.New(rand.NewSource(c.Seed + 1515))
	n := 40
	if c.Thorough {
		n = 400
	}
	for i := 0; i < n; i++ {
		vers, total := csvFile(rng, i, false)
		env := &cliEnv{dir: filepath.Join(c.Dir, fmt.Sprintf("clicsv%d", i))}
		if err := os.MkdirAll(env.dir, 0o755); err != nil {
			panic(err)
		}
		write(env.path("bystander"), []byte("not to be touched"))
		r := newCSVRun(fmt.Sprintf("clicsv%d", i), vers...)
		r.prog = func(data []byte) (string, string) {
			write(env.path("d.csv"), data)
			args := []string{"-csv", "-i", "d.idx"}
			for _, f := range []string{"-t", "-debug"} {
				if rng.Intn(3) == 0 {
					args = append(args, f)
				}
			}
			before := env.snapshot()
			delete(before, "d.idx")
			exit, msg := env.run(0, nil, append(args, "d.csv")...)
			after := env.snapshot()
			delete(after, "d.idx")
			if fmt.Sprint(before) != fmt.Sprint(after) {
				return "other files changed", msg
			}
			r.mf = env.index("d.idx")
			switch exit {
			case "0":
				return "ok", msg
			case "fail":
				return "err", msg
			}
			return exit, msg
		}
		for v := 1; v <= len(vers); v++ {
			data := r.data(v)
			for vis := rng.Intn(len(data) + 1); ; vis += 1 + rng.Intn(len(data)) {
				if v > 1 || total > 100 {
					vis = len(data)
				}
				vis = min(vis, len(data))
				r.sync(v, vis)
				if vis == len(data) {
					break
				}
			}
		}
		c.Out.Emit(r.t)
		os.RemoveAll(env.dir)
	}
}
