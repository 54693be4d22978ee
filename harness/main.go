package main

import (
	"bytes"
	"context"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"time"
)

type Ctx struct {
	Seed     int64
	Thorough bool
	Out      *Out
	Dir      string // scratch directory
	In       string // optional input (model-generated scripts)
	Probe    bool   // run the known-finding probe of the driver instead
}

var drivers = map[string]func(*Ctx){}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "httpd" {
		httpd(os.Args[2])
		return
	}
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	dir := flag.String("dir", "", "")
	in := flag.String("in", "", "")
	probe := flag.Bool("probe", false, "")
	child := flag.Bool("child", false, "")
	flag.Parse()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	if flag.NArg() != 1 || drivers[flag.Arg(0)] == nil {
		var ns []string
		for n := range drivers {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Fprintln(os.Stderr, "drivers:", ns)
		os.Exit(2)
	}
	if !*child {
		os.Exit(parent(*out, *tier == "thorough"))
	}
	go watch()
	c := &Ctx{Seed: *seed, Thorough: *tier == "thorough", Dir: *dir, In: *in, Probe: *probe}
	c.Out = NewOut(*out, false)
	drivers[flag.Arg(0)](c)
	c.Out.Close()
}

// parent runs the driver in a process of its own: the code under test may take the process down
// with it (a stack overflow, all the memory) or never come back. What was recorded until then
// and an event of the crash are what the driver has observed.
func parent(out string, thorough bool) int {
	limit := 500 * time.Second
	if thorough {
		limit = 3 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], append([]string{"-child"}, os.Args[1:]...)...)
	var msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = os.Stdout, &msg
	err := cmd.Run()
	if err == nil {
		return 0
	}
	text := msg.String()
	res := ""
	switch m := died.FindStringIndex(text); {
	case ctx.Err() != nil:
		res = "hang"
	case m != nil:
		if g := strings.SplitN(text[m[0]:], "\n\ngoroutine ", 3); len(g) > 1 && strings.Contains(g[1], "kevmo314/appendable/") {
			res = "crash"
		}
	}
	if res == "" { // a failure of the driver itself
		fmt.Fprintln(os.Stderr, err)
		io.WriteString(os.Stderr, text)
		return 3
	}
	if len(text) > 2000 {
		text = text[:2000]
	}
	if b, err := os.ReadFile(out); err == nil { // complete traces only
		os.WriteFile(out, b[:bytes.LastIndexByte(b, '\n')+1], 0o644)
	}
	o := NewOut(out, true)
	o.Emit(&Trace{ID: "crash", Ev: []Ev{{"op": "crash", "res": res, "msg": text}}})
	o.Close()
	return 0
}

var died = regexp.MustCompile(`(?m)^(panic:|fatal error:|runtime: goroutine stack exceeds)`)

// watch ends the process when the code under test uses up the memory.
func watch() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(s)
		if s[0].Value.Uint64() > 5<<30 {
			b := make([]byte, 1<<20)
			b = b[:runtime.Stack(b, true)]
			for _, g := range strings.Split(string(b), "\n\n") {
				if strings.Contains(g, "kevmo314/appendable/") {
					fmt.Fprintf(os.Stderr, "fatal error: out of memory\n\n%s\n\n", g)
				}
			}
			os.Exit(2)
		}
	}
}
