// Command seq decides the properties of the sequential parts of the library by exhaustive enumeration of bounded input
// spaces against the independent reference in package ref. It runs on the unmodified code.
package main

import (
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"verif/rep"
)

type check struct {
	*rep.R
	evals      atomic.Int64 // executions of the real code compared with the reference
	nontrivial atomic.Int64 // distinct cases
	ops        atomic.Int64 // reads and writes the code made on its streams
	progress   atomic.Int64
	seenMu     sync.Mutex
	seen       map[uint64]struct{}
}

// distinct counts a case by its bytes.
func (c *check) distinct(b []byte) {
	h := maphash.Bytes(seed, b)
	c.seenMu.Lock()
	defer c.seenMu.Unlock()
	if _, ok := c.seen[h]; !ok {
		c.seen[h] = struct{}{}
		c.nontrivial.Add(1)
	}
}

var seed = maphash.MakeSeed()

// par runs f(i) for i in [0,n) on all processors.
func (c *check) par(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	w := runtime.GOMAXPROCS(0)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Violations() > 0 {
					return
				}
				f(i)
				c.progress.Add(1)
			}
		}()
	}
	wg.Wait()
}

// try runs f and turns a panic into a violation.
func (c *check) try(desc func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.bad("panic", desc(), fmt.Sprintf("panic: %v\n%s", r, debug.Stack()))
		}
	}()
	f()
}

func (c *check) bad(kind, input, what string) {
	c.Violation(kind, fmt.Sprintf("%s: %s\n  input: %s", c.Prop, what, input), map[string]any{"input": input, "what": what})
}

// watchdog reports a hang: no progress for a minute although every case takes microseconds.
func (c *check) watchdog(what string) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(2 * time.Second)
		if p := c.progress.Load() + c.evals.Load(); p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > 90*time.Second {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			c.bad("hang", what, "no progress for 90 s (hang)\n"+string(buf[:n]))
			c.Finish()
		}
	}
}

var checks = map[string]func(c *check){
	"C01": both(c01, c01extra), "C02": both(c02, c02extra), "C03": both(c03, c03extra), "C04": both(c04, c04extra), "C05": both(c05, c05extra), "C06": c06, "C07": c07, "C08": c08, "T01": t01,
}

func main() {
	id := os.Args[1]
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(2)
	}
	c := &check{R: rep.New(id, "model_checking"), seen: map[uint64]struct{}{}}
	go c.watchdog(id)
	f(c)
	// Every case is one execution of the real code compared with the reference model.
	c.Coverage["states"] = c.nontrivial.Load()
	c.Coverage["transitions"] = c.ops.Load()
	c.Coverage["traces_validated_against_impl"] = c.evals.Load()
	c.Coverage["exhaustive"] = true
	c.Finish()
}

func both(l ...func(*check)) func(*check) {
	return func(c *check) {
		for _, f := range l {
			f(c)
		}
	}
}
