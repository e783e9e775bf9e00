// Command harness drives the real go-matcher code with generated inputs and
// records what it did as traces, one JSON record per line, for the TLA+ trace
// specifications in /verif/spec.  It has no opinion about the results.
//
//	harness gen  -prop C01 -seed 1 -tier quick -shard 0/8 -out F [-journal J]
//	harness redo -prop C01 -in CASES -out F     (run the recorded inputs again)
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

// Case is one record: inputs chosen by a generator, outputs filled by Exec.
type Case interface {
	Exec()            // run the real code on the inputs, fill in the outputs
	Outcome(x string) // "ok", "panic: ...", "hang", "memory"
	Nontrivial() bool // counted as non-trivial in the evidence
	Blank() Case      // copy with inputs only (outputs empty)
}

// X is the outcome field embedded in every case.
type X struct {
	X string `json:"x"`
}

func (x *X) Outcome(s string) { x.X = s }

// Prop describes how to make the cases of a property.
type Prop struct {
	New func() Case
	// Gen yields the cases of one shard (the enumeration is split by counter
	// modulo the number of shards).
	Gen func(g *Gen)
}

var props = map[string]*Prop{}

// Gen is the state of a generator.
type Gen struct {
	R        *rand.Rand
	Tier     string
	Shard, N int
	deadline time.Time
	cnt      int
	emit     func(Case) bool
	stop     bool
	max      int
	emitted  int
	Stats    map[string]int
}

// Thorough says which tier is run.
func (g *Gen) Thorough() bool { return g.Tier == "thorough" }

// Mine splits an enumeration among shards.
func (g *Gen) Mine() bool {
	g.cnt++
	return g.cnt%g.N == g.Shard
}

// More says whether more random cases are wanted.
func (g *Gen) More() bool {
	return !g.stop && g.emitted < g.max
}

// Emit runs a case and records it.
func (g *Gen) Emit(c Case) {
	if g.stop {
		return
	}
	g.emitted++
	if !g.emit(c) {
		g.stop = true
	}
}

const caseLimit = 20 * time.Second
const memLimit = 3 << 29

func heapInUse() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func execGuarded(c Case) {
	defer func() {
		if e := recover(); e != nil {
			c.Outcome(fmt.Sprintf("panic: %v", e))
		}
	}()
	c.Outcome("ok")
	c.Exec()
}

type writer struct {
	w   *bufio.Writer
	f   *os.File
	n   int
	nt  int
	bad int
}

func (w *writer) write(c Case) {
	fixNil(reflect.ValueOf(c))
	b, err := json.Marshal(c)
	if err != nil {
		fatal(err)
	}
	w.w.Write(b)
	w.w.WriteByte('\n')
	w.n++
	if c.Nontrivial() {
		w.nt++
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

// runner executes cases one after another in its own goroutine, watched for
// hangs and memory exhaustion; the recorded outcome is then "hang"/"memory"
// and nothing more can be run in this process.
type runner struct {
	in   chan Case
	done chan struct{}
	w    *writer
}

func newRunner(w *writer) *runner {
	r := &runner{in: make(chan Case), done: make(chan struct{}), w: w}
	go func() {
		for c := range r.in {
			execGuarded(c)
			r.done <- struct{}{}
		}
	}()
	return r
}

var busySince int64 // unix nano, 0 - idle (read by the memory watch)

func (r *runner) run(c Case) bool {
	atomic.StoreInt64(&busySince, time.Now().UnixNano())
	r.in <- c
	t := time.NewTimer(200 * time.Millisecond)
	defer t.Stop()
	start := time.Now()
	for {
		select {
		case <-r.done:
			r.w.write(c)
			return true
		case <-t.C:
			x := ""
			if time.Since(start) > caseLimit {
				x = "hang"
			} else if heapInUse() > memLimit {
				x = "memory"
			}
			if x != "" {
				b := c.Blank() // the running goroutine still owns c
				b.Outcome(x)
				r.w.write(b)
				return false
			}
			t.Reset(100 * time.Millisecond)
		}
	}
}

func main() {
	debug.SetMaxStack(128 << 20)
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("usage: harness gen|redo"))
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "seed")
	tier := fs.String("tier", "quick", "tier")
	shard := fs.String("shard", "0/1", "shard")
	max := fs.Int("max", 1000, "max cases of the shard")
	in := fs.String("in", "", "cases")
	out := fs.String("out", "", "output")
	journal := fs.String("journal", "", "write each case here before it is run")
	fs.Parse(os.Args[2:])
	p := props[*prop]
	if p == nil {
		fatal(fmt.Errorf("no property %q", *prop))
	}
	f, err := os.Create(*out)
	if err != nil {
		fatal(err)
	}
	w := &writer{w: bufio.NewWriterSize(f, 1<<20), f: f}
	r := newRunner(w)
	var jf *os.File
	if *journal != "" {
		if jf, err = os.Create(*journal); err != nil {
			fatal(err)
		}
	}
	run := func(c Case) bool {
		if jf != nil {
			blank := c.Blank()
			fixNil(reflect.ValueOf(blank))
			b, _ := json.Marshal(blank)
			jf.Truncate(0)
			jf.WriteAt(b, 0)
		}
		return r.run(c)
	}
	switch cmd {
	case "gen":
		g := &Gen{Tier: *tier, max: *max, emit: run, Stats: map[string]int{}}
		fmt.Sscanf(*shard, "%d/%d", &g.Shard, &g.N)
		g.R = rand.New(rand.NewSource(*seed*1000003 + int64(g.Shard)*7919 + int64(len(*prop))))
		p.Gen(g)
	case "redo":
		fi, err := os.Open(*in)
		if err != nil {
			fatal(err)
		}
		d := json.NewDecoder(bufio.NewReaderSize(fi, 1<<20))
		for d.More() {
			c := p.New()
			if err := d.Decode(c); err != nil {
				fatal(err)
			}
			if !run(c.Blank()) {
				break
			}
		}
	default:
		fatal(fmt.Errorf("unknown command %q", cmd))
	}
	w.w.Flush()
	f.Close()
	fmt.Printf("{\"cases\":%d,\"nontrivial\":%d}\n", w.n, w.nt)
	os.Exit(0)
}
