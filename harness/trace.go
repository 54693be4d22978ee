package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ev is one recorded event of the real code: the operation, its arguments, its
// outcome and the projected state after it.
type Ev map[string]any

// Trace is one behaviour of the real code.
type Trace struct {
	ID  string `json:"id"`
	Cfg Ev     `json:"cfg"`
	Ev  []Ev   `json:"ev"`
}

// Out collects the traces of one driver and writes them as ndjson.
type Out struct {
	mu     sync.Mutex
	f      *os.File
	w      *bufio.Writer
	Traces int
	Events int
	seen   map[string]int
	Sample []string

	flushed time.Time
}

func NewOut(path string, more bool) *Out {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	mode := os.O_TRUNC
	if more {
		mode = os.O_APPEND
	}
	f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|mode, 0o644)
	if err != nil {
		panic(err)
	}
	return &Out{f: f, w: bufio.NewWriterSize(f, 1<<20), seen: map[string]int{}}
}

func (o *Out) Emit(t *Trace) {
	if t.Cfg == nil {
		t.Cfg = Ev{"none": 0}
	}
	if t.Ev == nil {
		t.Ev = []Ev{}
	}
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.w.Write(append(b, '\n'))
	if time.Since(o.flushed) > time.Second { // in case the process is taken down
		o.w.Flush()
		o.flushed = time.Now()
	}
	o.Traces++
	o.Events += len(t.Ev)
	for _, e := range t.Ev {
		if op, ok := e["op"].(string); ok {
			o.seen[op]++
		}
	}
	if len(o.Sample) < 3 {
		s := string(b)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		o.Sample = append(o.Sample, s)
	}
}

// Close writes the summary next to the trace file.
func (o *Out) Close() {
	if err := o.w.Flush(); err != nil {
		panic(err)
	}
	name := o.f.Name()
	o.f.Close()
	b, _ := json.Marshal(map[string]any{"traces": o.Traces, "events": o.Events, "ops": o.seen, "samples": o.Sample})
	if err := os.WriteFile(strings.TrimSuffix(name, ".ndjson")+".sum.json", b, 0o644); err != nil {
		panic(err)
	}
}

func (t *Trace) add(e Ev) Ev { t.Ev = append(t.Ev, e); return e }

var patience atomic.Value

func init() { patience.Store(60 * time.Second) }

// guard runs one call into the code under test. A panic (memory faults included)
// and a call which does not return are outcomes of the real code, not of the driver.
func guard(f func() error) (res string, msg string) {
	type r struct{ res, msg string }
	ch := make(chan r, 1)
	go func() {
		debug.SetPanicOnFault(true)
		defer func() {
			if p := recover(); p != nil {
				m := fmt.Sprint(p)
				if os.Getenv("VH_STACK") != "" {
					m += "\n" + string(debug.Stack())
				}
				ch <- r{"panic", m}
			}
		}()
		if err := f(); err != nil {
			ch <- r{"err", err.Error()}
			return
		}
		ch <- r{"ok", ""}
	}()
	select {
	case x := <-ch:
		return x.res, x.msg
	case <-time.After(patience.Load().(time.Duration)):
		patience.Store(2 * time.Second) // it hangs for sure: do not wait as long again
		return "hang", "no return in time"
	}
}
