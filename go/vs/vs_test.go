package vs

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
)

// program is a random small concurrent program over shared objects; outcomes are the observable results.
type program struct{ threads [][][2]int }

func gen(r *rand.Rand) program {
	n := 2 + r.Intn(2)
	p := program{}
	for i := 0; i < n; i++ {
		var ops [][2]int
		k := 1 + r.Intn(4)
		if n == 3 {
			k = 1 + r.Intn(3)
		}
		for j := 0; j < k; j++ {
			ops = append(ops, [2]int{r.Intn(11), r.Intn(2)})
		}
		p.threads = append(p.threads, ops)
	}
	return p
}

func (p program) body(out *[]string) func(t *T) {
	return func(t *T) {
		*out = nil
		var mu [2]Mutex
		var rw [2]RWMutex
		var at [2]AtomicInt32
		ch := [2]chan int{make(chan int), make(chan int, 1)}
		val, rval := [2]int{}, [2]int{}
		var hs []*Handle
		res := make([]string, len(p.threads))
		for i, ops := range p.threads {
			i, ops := i, ops
			hs = append(hs, t.GoDaemon(fmt.Sprint("t", i), func() {
				for k, o := range ops {
					a := o[1]
					switch o[0] {
					case 0:
						mu[a].Lock()
						val[a] = val[a]*10 + i + 1
						res[i] += fmt.Sprint("m", val[a], " ")
						mu[a].Unlock()
					case 1:
						at[a].Store(int32(i*10 + k))
					case 2:
						res[i] += fmt.Sprint("a", at[a].Load(), " ")
					case 3:
						Ch(ch[a]).Send(i*10 + k)
						res[i] += "s "
					case 4:
						res[i] += fmt.Sprint("r", Recv(ch[a]), " ")
					case 5:
						c0, c1 := RecvCase(ch[0]), SendCase(ch[1])(i*10+k)
						n := Select(true, c0, c1)
						res[i] += fmt.Sprint("S", n, c0.Val, " ")
					case 6:
						c0, c1 := RecvCase(ch[0]), RecvCase(ch[1])
						n := Select(false, c0, c1)
						res[i] += fmt.Sprint("Q", n, c0.Val, c1.Val, " ")
					case 7:
						rw[a].RLock()
						res[i] += fmt.Sprint("R", rval[a], " ")
						rw[a].RUnlock()
					case 8:
						rw[a].Lock()
						mu[a].Lock()
						val[a]++
						rval[a] += i + 1
						mu[a].Unlock()
						rw[a].Unlock()
					case 9:
						mu[1-a].Lock()
						mu[a].Lock()
						val[a] += 3
						mu[a].Unlock()
						mu[1-a].Unlock()
					case 10:
						at[a].CompareAndSwap(0, int32(i+1))
					}
				}
				res[i] += "."
			}))
		}
		t.Quiesce()
		for i := range res {
			if !hs[i].Done() {
				res[i] += "!" + hs[i].Where()
			}
		}
		*out = append(res, fmt.Sprint(val))
	}
}

func outcomes(p program, full bool) (string, int) {
	var out []string
	set := map[string]bool{}
	e := &Explorer{Body: p.body(&out), FullDFS: full, Preempt: -1, MaxExec: 6000}
	e.OnViolation = func(v *Violation) bool { set["violation "+v.Kind] = true; return true }
	e.AfterExec = func() { set[strings.Join(out, "|")] = true }
	e.Run()
	if e.Diverged != "" {
		panic(e.Diverged)
	}
	if !e.Exhaustive {
		return "", 0
	}
	var l []string
	for s := range set {
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, "\n"), e.Execs
}

// TestReduction compares the outcomes found with partial-order reduction against those of full enumeration.
func TestReduction(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	n, a, b := 0, 0, 0
	for i := 0; i < 600; i++ {
		p := gen(r)
		want, fe := outcomes(p, true)
		if fe == 0 {
			continue
		}
		got, de := outcomes(p, false)
		if got != want {
			t.Fatalf("program %v\nreduced:\n%s\nfull:\n%s", p, got, want)
		}
		n++
		a += fe
		b += de
	}
	t.Logf("%d programs, %d executions in full, %d reduced", n, a, b)
}
