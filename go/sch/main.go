// Command sch decides the properties of the client by enumerating the executions of closed scenarios: the real client
// code runs under a controlled scheduler (package vs) against a scripted connection and a conforming server.
//
//	sch ID                 runs the check of a property
//	sch ID --replay FILE   re-executes a recorded violation
package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/rep"
	"verif/vs"
)

// Scenario is a closed program whose executions are enumerated.
type Scenario struct {
	Name     string
	Body     func(w *World)
	Setup    func() // runs once before the exploration
	Seq      bool   // run-to-block scheduling: only data choices are enumerated
	CB       bool   // enumerate all schedules with at most Preempt preemptions instead of partial-order reduction
	Preempt  int
	Deviate  bool // any deviation from the default scheduler counts as a preemption
	MapOrder bool // enumerate map iteration orders
	Race     bool // run under the race detector
	Plain    bool // also run without the race detector
	Horizon  int
	Limit    time.Duration // for the exploration (default: see limits)
	Thorough bool          // only in the thorough tier
	Bare     bool          // what the server sends is exactly what matters: no variants (see dress.go)
	Heavy    bool          // its variants only in the thorough tier
	Keep     bool          // keep exploring after a violation (to list known findings)
}

// heavy.txt names the scenarios whose full exploration takes too long for the quick tier. There all schedules with at
// most one deviation from the default scheduler are explored instead.
//
//go:embed heavy.txt
var heavyList string

var heavy = func() map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(heavyList, "\n") {
		m[l] = true
	}
	return m
}()

type suite struct {
	scenarios func(thorough bool) []Scenario
	note      string
}

var suites = map[string]suite{}

type result struct {
	Name        string
	Execs       int
	Pruned      int
	States      int
	Transitions int
	Choices     int
	MaxDepth    int
	Exhaustive  bool
	Diverged    string
	Millis      int64
	Sample      []string
	Viols       []viol
}

type viol struct {
	Kind, Msg, Sig string
	Trace          []int
	Log            []string
}

func explorer(prop string, s Scenario, limit time.Duration) *vs.Explorer {
	e := &vs.Explorer{Name: s.Name, NoSched: s.Seq, FullDFS: s.CB, Deviate: s.Deviate, Preempt: s.Preempt, MapOrder: s.MapOrder, Horizon: s.Horizon}
	if e.Horizon == 0 {
		e.Horizon = 20000
	}
	if limit > 0 {
		e.Until = time.Now().Add(limit)
	}
	if s.Setup != nil {
		s.Setup()
	}
	e.Body = func(t *vs.T) {
		w := &World{T: t, prop: prop}
		s.Body(w)
		if !t.Failed() {
			w.finish()
		}
	}
	return e
}

func scenarios(prop string, thorough bool) (r []Scenario) {
	for _, s := range suites[prop].scenarios(thorough) {
		r = append(r, dressUp(prop, s)...)
		r = append(r, s)
		if heavy[s.Name] && !s.Thorough {
			r[len(r)-1].Thorough = true
			s.Name += " (one deviation)"
			s.CB, s.Deviate, s.Preempt = true, true, 1
			r = append(r, s)
		}
	}
	return
}

func find(prop, name string) *Scenario {
	for _, th := range []bool{false, true} {
		for _, s := range scenarios(prop, th) {
			if s.Name == name {
				return &s
			}
		}
	}
	return nil
}

// grace is what a worker may take beyond its budget. It exceeds what the watchdog needs to notice an endless loop.
const grace = 45 * time.Second

// worker explores one scenario and prints the result.
func worker(prop, name string, limit time.Duration, known map[string]bool) {
	s := find(prop, name)
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such scenario", name)
		os.Exit(3)
	}
	runtime.GOMAXPROCS(1)
	start := time.Now()
	e := explorer(prop, *s, limit)
	res := result{Name: name}
	seen := map[string]bool{}
	e.OnViolation = func(v *vs.Violation) bool {
		if !seen[v.Sig] {
			seen[v.Sig] = true
			res.Viols = append(res.Viols, viol{v.Kind, v.Msg, v.Sig, v.Trace, nil})
		}
		return known[v.Sig] || s.Keep
	}
	watchdog(e, func(tr []int, stack string) {
		res.Viols = append(res.Viols, viol{"hang", "an operation runs forever\n" + stack, "hang", tr, nil})
		b, _ := json.Marshal(res)
		os.Stdout.Write(append(append([]byte("RESULT "), b...), '\n'))
		os.Exit(0)
	})
	if limit > 0 {
		// The budget is looked at between executions. A tree on which single executions take very long still gets an
		// answer: what was explored counts, the scenario as not exhausted.
		time.AfterFunc(limit+grace, func() {
			res := result{Name: name, Execs: e.Execs, Pruned: e.Pruned, States: e.States, Transitions: e.Transitions,
				Choices: e.Choices, MaxDepth: e.MaxDepth, Millis: time.Since(start).Milliseconds()}
			b, _ := json.Marshal(res)
			os.Stdout.Write(append(append([]byte("RESULT "), b...), '\n'))
			os.Exit(0)
		})
	}
	e.Run()
	res.Execs, res.Pruned, res.States, res.Transitions, res.Choices = e.Execs, e.Pruned, e.States, e.Transitions, e.Choices
	res.MaxDepth, res.Exhaustive, res.Diverged = e.MaxDepth, e.Exhaustive, e.Diverged
	// one execution in full, as a sample
	k := explorer(prop, *s, 0)
	k.KeepLog = !vs.RaceBuild // see replay
	k.AfterLog = func(l []string) { res.Sample = clipLog(l, 60) }
	k.Replay(nil)
	res.Millis = time.Since(start).Milliseconds()
	b, _ := json.Marshal(res)
	os.Stdout.Write(append(append([]byte("RESULT "), b...), '\n'))
}

// replay re-executes one trace and prints the violation it leads to.
func replay(prop, name string, trace []int) {
	s := find(prop, name)
	if s == nil {
		os.Exit(3)
	}
	runtime.GOMAXPROCS(1)
	e := explorer(prop, *s, 0)
	// The log is made with package fmt, which hands its buffers from goroutine to goroutine. The race detector takes that
	// for synchronisation and would miss races, so there is no log when it is at work.
	e.KeepLog = !vs.RaceBuild
	watchdog(e, func(tr []int, stack string) {
		b, _ := json.Marshal(&viol{"hang", "an operation runs forever\n" + stack, "hang", trace, nil})
		os.Stdout.Write(append(append([]byte("RESULT "), b...), '\n'))
		os.Exit(0)
	})
	v := e.Replay(trace)
	var out *viol
	if v != nil {
		out = &viol{v.Kind, v.Msg, v.Sig, trace, v.Log}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(append(append([]byte("RESULT "), b...), '\n'))
}

// watchdog calls f when the explorer makes no step for a long time: the code under test loops without ever reaching a
// synchronisation operation.
func watchdog(e *vs.Explorer, f func(trace []int, stack string)) {
	go func() {
		last, same := -1, 0
		for {
			time.Sleep(2 * time.Second)
			if n := e.Progress(); n != last {
				last, same = n, 0
			} else if same++; same >= 15 {
				buf := make([]byte, 20000)
				n := runtime.Stack(buf, true)
				f(e.Trace(), string(buf[:n]))
			}
		}
	}()
}

func bin(s Scenario) string {
	if s.Race {
		return os.Getenv("VERIF_RACE_BIN")
	}
	return os.Args[0]
}

// run starts a worker process and decodes its result.
func run(s Scenario, into any, args ...string) (stderr string, err error) {
	cmd := exec.Command(bin(s), args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0", "GOGC=400")
	err = cmd.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			if e := json.Unmarshal([]byte(l[7:]), into); e == nil {
				return errb.String(), nil
			}
		}
	}
	if err == nil {
		err = fmt.Errorf("the worker gave no result")
	}
	return errb.String(), err
}

type replayFile struct {
	Replay struct {
		Prop, Scenario string
		Race           bool
		Trace          []int
	} `json:"replay"`
}

func main() {
	switch os.Args[1] {
	case "--worker":
		limit, _ := time.ParseDuration(os.Args[4])
		known := map[string]bool{}
		for _, k := range os.Args[5:] {
			known[k] = true
		}
		worker(os.Args[2], os.Args[3], limit, known)
		return
	case "--trace":
		var trace []int
		json.Unmarshal([]byte(os.Args[4]), &trace)
		replay(os.Args[2], os.Args[3], trace)
		return
	case "--list":
		for _, s := range suites[os.Args[2]].scenarios(len(os.Args) > 3) {
			fmt.Println(s.Name)
		}
		return
	}
	prop := os.Args[1]
	su, ok := suites[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown check", prop)
		os.Exit(2)
	}
	if len(os.Args) > 3 && os.Args[2] == "--replay" {
		b, err := os.ReadFile(os.Args[3])
		var f replayFile
		if err != nil || json.Unmarshal(b, &f) != nil {
			fmt.Fprintln(os.Stderr, "bad replay file")
			os.Exit(2)
		}
		s := find(prop, f.Replay.Scenario)
		if s == nil {
			os.Exit(2)
		}
		s.Race = f.Replay.Race
		tr, _ := json.Marshal(f.Replay.Trace)
		var v *viol
		stderr, err := run(*s, &v, "--trace", prop, f.Replay.Scenario, string(tr))
		fmt.Fprint(os.Stderr, stderr)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if v == nil {
			fmt.Println("the recorded execution no longer violates", prop)
			os.Exit(0)
		}
		for _, l := range v.Log {
			fmt.Println("  ", l)
		}
		fmt.Println(v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, os.Args[3])
		os.Exit(1)
	}
	r := rep.New(prop, "model_checking")
	os.Exit(master(r, prop, su))
}

func master(r *rep.R, prop string, su suite) int {
	thorough := r.Thorough()
	// The whole check stays well below the limit of its tier.
	total := 240 * time.Second
	if thorough {
		total = 45 * time.Minute
	}
	if v, err := time.ParseDuration(os.Getenv("VERIF_BUDGET")); err == nil {
		total = v
	}
	end := time.Now().Add(total)
	var list []Scenario
	for _, s := range scenarios(prop, thorough) {
		if s.Thorough && !thorough {
			continue
		}
		if os.Getenv("VERIF_FAST") != "" && !s.Seq && !s.CB {
			continue
		}
		if f := os.Getenv("VERIF_NOT"); f != "" && strings.Contains(s.Name, f) {
			continue
		}
		if f := os.Getenv("VERIF_ONLY"); f != "" && !strings.Contains(s.Name, f) {
			continue
		}
		if s.Race {
			list = append(list, s)
			if s.Plain {
				p := s
				p.Race = false
				list = append(list, p)
			}
			continue
		}
		list = append(list, s)
	}
	known := r.KnownSigs()
	workers := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil {
		workers = v
	}
	var mu sync.Mutex
	var results []result
	broken := 0
	stop := false
	next := 0
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(list) || stop {
					mu.Unlock()
					return
				}
				s := list[next]
				left := len(list) - next
				next++
				mu.Unlock()
				limit := s.Limit
				rest := time.Until(end)
				// Share what is left of the time among the scenarios that are left.
				share := rest
				if left > workers {
					share = rest * time.Duration(workers) / time.Duration(left) * 3
				}
				if share < time.Minute {
					share = time.Minute
				}
				if limit == 0 || limit > share {
					limit = share
				}
				if limit > rest {
					limit = rest
				}
				if limit < time.Second {
					limit = time.Second
				}
				var res result
				stderr, err := run(s, &res, append([]string{"--worker", prop, s.Name, limit.String()}, known...)...)
				if err != nil {
					mu.Lock()
					broken++
					fmt.Fprintf(os.Stderr, "scenario %s: worker failed: %v\n%s\n", s.Name, err, tail(stderr))
					mu.Unlock()
					continue
				}
				if s.Race {
					res.Name += " (race detector)"
				}
				mu.Lock()
				results = append(results, res)
				if res.Diverged != "" {
					fmt.Fprintf(os.Stderr, "scenario %s: %s\n", s.Name, res.Diverged)
				}
				mu.Unlock()
				for _, v := range res.Viols {
					if v.Kind == "diverged" {
						continue
					}
					// A violation counts if it happens again every time the same execution is repeated, a data race if it
					// is reported again at least once.
					tr, _ := json.Marshal(v.Trace)
					var last *viol
					confirmed := true
					report := ""
					for i := 0; i < 3; i++ {
						var again *viol
						stderr, err := run(s, &again, "--trace", prop, s.Name, string(tr))
						if err == nil && v.Kind == "race" && again == nil && i < 2 {
							continue // the race detector may forget an access, but it does not invent any
						}
						if err != nil || again == nil || again.Kind != v.Kind {
							confirmed = false
							break
						}
						last, report = again, stderr
						if v.Kind == "race" {
							break
						}
					}
					if !confirmed {
						fmt.Fprintf(os.Stderr, "scenario %s: a violation was not reproducible and does not count: %s\n", s.Name, v.Msg)
						continue
					}
					msg := fmt.Sprintf("%s: scenario %q: %s", prop, s.Name, last.Msg)
					if v.Kind == "race" {
						msg += "\n" + clipReport(report)
					}
					for _, l := range clipLog(last.Log, 120) {
						msg += "\n    " + l
					}
					if r.Violation(v.Sig, msg, map[string]any{"prop": prop, "scenario": s.Name, "race": s.Race, "trace": v.Trace}) {
						mu.Lock()
						stop = true
						mu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Name < results[j].Name })
	var states, trans, execs, done int
	var per []map[string]any
	for _, x := range results {
		states += x.States
		trans += x.Transitions
		execs += x.Execs
		if x.Exhaustive {
			done++
		}
		per = append(per, map[string]any{"scenario": x.Name, "executions": x.Execs, "redundant": x.Pruned, "states": x.States,
			"transitions": x.Transitions, "depth": x.MaxDepth, "exhausted": x.Exhaustive, "seconds": float64(x.Millis) / 1000})
		if len(x.Sample) > 0 {
			r.Sample(map[string]any{"scenario": x.Name, "execution": x.Sample})
		}
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Printf("  %-50s execs=%d pruned=%d states=%d depth=%d exhausted=%v %.1fs\n", x.Name, x.Execs, x.Pruned, x.States, x.MaxDepth, x.Exhaustive, float64(x.Millis)/1000)
		}
	}
	r.Coverage["states"] = states
	r.Coverage["transitions"] = trans
	r.Coverage["traces_validated_against_impl"] = execs
	r.Coverage["scenarios"] = len(results)
	r.Coverage["scenarios_exhausted"] = done
	r.Coverage["exhaustive"] = done == len(list)
	// The evidence file stays small: the scenarios cut short and the largest ones are listed one by one, the others
	// summed (the counts above include all of them).
	sort.SliceStable(per, func(i, j int) bool {
		if a, b := per[i]["exhausted"].(bool), per[j]["exhausted"].(bool); a != b {
			return b
		}
		return per[i]["transitions"].(int) > per[j]["transitions"].(int)
	})
	if len(per) > 400 {
		r.Coverage["per_scenario_omitted"] = len(per) - 400
		per = per[:400]
	}
	r.Coverage["per_scenario"] = per
	if su.note != "" {
		r.Coverage["bounds"] = su.note
	}
	if broken > 0 && r.Violations() == 0 {
		fmt.Fprintln(os.Stderr, "some workers failed")
		r.Write()
		return 3
	}
	r.Finish()
	return 0
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

// clipLog leaves out the middle of a long log.
func clipLog(l []string, n int) []string {
	if len(l) <= n {
		return l
	}
	r := append([]string{}, l[:n/2]...)
	r = append(r, fmt.Sprintf("... (%d lines)", len(l)-n))
	return append(r, l[len(l)-n/2:]...)
}

func clipReport(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}
