package main

// Online model-based testing: walks the labelled transition system which TLC
// generated from a specification, performing every action on the real code and
// checking that what is observed is an outcome the specification allows.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type ltsEdge struct {
	act string // canonical JSON of the action
	obs string // canonical JSON of the expected observation
	dst int
}

// LTS as generated by lib.py from the output of TLC.
type LTS struct {
	Init    []int
	Acts    []json.RawMessage
	Obs     []json.RawMessage
	Edges   [][4]int // src, act, obs, dst
	out     map[int]map[int][]ltsStep
	NState  int
	obsMap  []map[string]interface{}
	actMap  []map[string]interface{}
	covered []int32
	States  []json.RawMessage
	keys    map[string]bool // if set, the only observations to compare
}

type ltsStep struct {
	obs, dst, idx int
}

func loadLTS(path string) *LTS {
	buf, err := os.ReadFile(path)
	check(err)
	var l LTS
	check(json.Unmarshal(buf, &l))
	l.out = map[int]map[int][]ltsStep{}
	for i, e := range l.Edges {
		if l.out[e[0]] == nil {
			l.out[e[0]] = map[int][]ltsStep{}
		}
		l.out[e[0]][e[1]] = append(l.out[e[0]][e[1]], ltsStep{e[2], e[3], i})
	}
	for _, o := range l.Obs {
		m := map[string]interface{}{}
		check(json.Unmarshal(o, &m))
		l.obsMap = append(l.obsMap, m)
	}
	for _, o := range l.Acts {
		m := map[string]interface{}{}
		check(json.Unmarshal(o, &m))
		l.actMap = append(l.actMap, m)
	}
	l.covered = make([]int32, len(l.Edges))
	return &l
}

type Act map[string]interface{}

func (a Act) Op() string { return a["op"].(string) }
func (a Act) Int(n string) int {
	v, ok := a[n]
	if !ok {
		return 0
	}
	return int(v.(float64))
}
func (a Act) Str(n string) string {
	v, ok := a[n]
	if !ok {
		return ""
	}
	return v.(string)
}
func (a Act) Bool(n string) bool {
	v, ok := a[n]
	return ok && v.(bool)
}

type Obs map[string]interface{}

// Adapter performs actions of the specification on the real code.
type Adapter interface {
	// Reset puts the real system in the initial state of the specification.
	Reset()
	// Do performs the action and returns what is observed.  A non-empty
	// problem is a violation independent of what the LTS says.
	Do(a Act) (obs Obs, problem string)
	// Cleanup is called when the run is over.
	Cleanup()
}

// Every expected key should be observed as such.
func (l *LTS) obsMatches(want map[string]interface{}, got Obs) bool {
	for k, v := range want {
		if l.keys != nil && !l.keys[k] {
			continue
		}
		g, ok := got[k]
		if !ok {
			return false
		}
		if !jsonEq(v, g) {
			return false
		}
	}
	return true
}

func jsonEq(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

type exploreOpts struct {
	Budget   time.Duration
	Workers  int
	MaxLen   int // length of a run
	Seed     int64
	MaxRuns  int
	Watchdog time.Duration
	Name     string
	Full     bool // keep walking when everything is covered, until out of budget
}

type exploreResult struct {
	Steps, Runs          int64
	Covered, Total       int
	ActCovered, ActTotal int
	Violations           []Violation
	Complete             bool
	Samples              [][]traceStep
}

type traceStep struct {
	Act Obs `json:"act"`
	Obs Obs `json:"obs"`
}

func explore(l *LTS, mk func(worker int) Adapter, o exploreOpts) exploreResult {
	var res exploreResult
	var mux sync.Mutex
	var stop int32
	deadline := time.Now().Add(o.Budget)
	if o.Watchdog == 0 {
		o.Watchdog = 120 * time.Second
	}
	// visited (state, action) pairs
	visited := map[[2]int]int{}
	actCount := func() (n int) {
		for _, m := range l.out {
			n += len(m)
		}
		return
	}()

	addViolation := func(v Violation) {
		mux.Lock()
		if len(res.Violations) < 5 {
			res.Violations = append(res.Violations, v)
		}
		mux.Unlock()
		atomic.StoreInt32(&stop, 1)
	}

	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(o.Seed*1000 + int64(w)))
			ad := mk(w)
			defer ad.Cleanup()
			prog := newProgress(w)
			defer prog.close()
			for run := 0; atomic.LoadInt32(&stop) == 0 && time.Now().Before(deadline); run++ {
				mux.Lock()
				done := len(visited) == actCount
				tooMany := o.MaxRuns != 0 && int(res.Runs) >= o.MaxRuns
				mux.Unlock()
				if (done && !o.Full) || tooMany {
					return
				}
				atomic.AddInt64(&res.Runs, 1)
				trace := []traceStep{}
				prog.begin()
				fail := func(what string) {
					addViolation(Violation{What: what, Replay: map[string]interface{}{
						"lts": o.Name, "trace": trace, "worker": w}})
				}
				// Resetting is part of what's tested: it uses the real code.
				if pr := guarded(func() string { ad.Reset(); return "" }, o.Watchdog, ad); pr != "" {
					fail("in initialisation: " + pr)
					return
				}
				cur := append([]int{}, l.Init...)
				for step := 0; step < o.MaxLen && atomic.LoadInt32(&stop) == 0; step++ {
					if time.Now().After(deadline) {
						break
					}
					mux.Lock()
					act := l.choose(cur, visited, rng)
					mux.Unlock()
					if act < 0 {
						break
					}
					var obs Obs
					trace = append(trace, traceStep{Act: Obs(l.actMap[act])})
					prog.add(l.actMap[act])
					pr := guarded(func() string {
						var p string
						obs, p = ad.Do(Act(l.actMap[act]))
						return p
					}, o.Watchdog, ad)
					trace[len(trace)-1].Obs = obs
					if pr != "" {
						fail(fmt.Sprintf("action %s: %s", l.Acts[act], pr))
						return
					}
					atomic.AddInt64(&res.Steps, 1)
					next := []int{}
					seen := map[int]bool{}
					mux.Lock()
					for _, s := range cur {
						visited[[2]int{s, act}]++
						for _, st := range l.out[s][act] {
							if l.obsMatches(l.obsMap[st.obs], obs) {
								l.covered[st.idx]++
								if !seen[st.dst] {
									seen[st.dst] = true
									next = append(next, st.dst)
								}
							}
						}
					}
					mux.Unlock()
					if len(next) == 0 {
						exp := []string{}
						dup := map[string]bool{}
						for _, s := range cur {
							for _, st := range l.out[s][act] {
								t := string(l.Obs[st.obs])
								if !dup[t] {
									dup[t] = true
									exp = append(exp, t)
								}
							}
						}
						got, _ := json.Marshal(obs)
						st := ""
						if len(l.States) > cur[0] {
							st = string(l.States[cur[0]])
						}
						fail(fmt.Sprintf("in state %s, action %s was observed as %s, but the specification only allows %v",
							st, l.Acts[act], got, exp))
						return
					}
					cur = next
				}
				mux.Lock()
				if len(res.Samples) < 2 {
					t := trace
					if len(t) > 12 {
						t = t[:12]
					}
					res.Samples = append(res.Samples, t)
				}
				mux.Unlock()
			}
		}(w)
	}
	wg.Wait()
	res.Total = len(l.Edges)
	for _, c := range l.covered {
		if c > 0 {
			res.Covered++
		}
	}
	res.ActCovered = len(visited)
	res.ActTotal = actCount
	res.Complete = res.ActCovered == res.ActTotal
	return res
}

// Picks an action: one not performed yet in this state, or otherwise the first
// step of a shortest path to a state that has one.
func (l *LTS) choose(cur []int, visited map[[2]int]int, rng *rand.Rand) int {
	s := cur[rng.Intn(len(cur))]
	for _, x := range cur {
		if len(l.out[x]) == 0 {
			return -1 // we might have reached the bounds of the exploration
		}
	}
	// actions enabled in all states we might be in
	enabled := func(s int) []int {
		ret := []int{}
		for a := range l.out[s] {
			ret = append(ret, a)
		}
		// map order is random; sort for reproducibility
		for i := 1; i < len(ret); i++ {
			for j := i; j > 0 && ret[j-1] > ret[j]; j-- {
				ret[j-1], ret[j] = ret[j], ret[j-1]
			}
		}
		return ret
	}
	fresh := []int{}
	possible := func(a int) bool {
		for _, x := range cur {
			if len(l.out[x][a]) == 0 {
				return false
			}
		}
		return true
	}
	en := []int{}
	for _, a := range enabled(s) {
		if possible(a) {
			en = append(en, a)
		}
	}
	if len(en) == 0 {
		return -1
	}
	for _, a := range en {
		if visited[[2]int{s, a}] == 0 {
			fresh = append(fresh, a)
		}
	}
	if len(fresh) > 0 {
		return fresh[rng.Intn(len(fresh))]
	}
	// BFS
	type node struct{ s, first int }
	q := []node{}
	seen := map[int]bool{s: true}
	push := func(from, first int) {
		acts := enabled(from)
		rng.Shuffle(len(acts), func(i, j int) { acts[i], acts[j] = acts[j], acts[i] })
		for _, a := range acts {
			f := first
			if f < 0 {
				f = a
			}
			anyCovered := false
			for _, st := range l.out[from][a] {
				if l.covered[st.idx] > 0 {
					anyCovered = true
				}
			}
			for _, st := range l.out[from][a] {
				// outcomes that never happened are unlikely to happen now
				if anyCovered && l.covered[st.idx] == 0 {
					continue
				}
				if !seen[st.dst] {
					seen[st.dst] = true
					q = append(q, node{st.dst, f})
				}
			}
		}
	}
	push(s, -1)
	fallback := en[rng.Intn(len(en))]
	limit := 3000
	for len(q) > 0 && limit > 0 {
		limit--
		n := q[0]
		q = q[1:]
		for a := range l.out[n.s] {
			if visited[[2]int{n.s, a}] == 0 {
				if !possible(n.first) {
					return en[rng.Intn(len(en))]
				}
				return n.first
			}
		}
		push(n.s, n.first)
	}
	return fallback
}

// Runs f, turning panics into problems and hangs into problems too.
func guarded(f func() string, watchdog time.Duration, ad Adapter) (problem string) {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				if s, ok := r.(string); ok && len(s) > 9 && s[:9] == "harness: " {
					// Not the fault of the code under test
					fmt.Fprintln(os.Stderr, "HARNESS-ERROR "+msg)
					os.Exit(4)
				}
				ch <- msg
			}
		}()
		ch <- f()
	}()
	select {
	case p := <-ch:
		return p
	case <-time.After(watchdog):
		buf := make([]byte, 1<<16)
		return fmt.Sprintf("no progress in %v; goroutines:\n%s", watchdog, buf[:runtimeStack(buf)])
	}
}

// Records what is being done in a file per worker, for when the process crashes.
var progressFile string

type progress struct{ f *os.File }

func newProgress(w int) *progress {
	if progressFile == "" {
		return &progress{}
	}
	f, err := os.Create(fmt.Sprintf("%s.%d", progressFile, w))
	check(err)
	return &progress{f}
}

func (p *progress) begin() {
	if p.f != nil {
		p.f.Truncate(0)
		p.f.Seek(0, 0)
	}
}

func (p *progress) add(v interface{}) {
	if p.f != nil {
		buf, _ := json.Marshal(v)
		p.f.Write(append(buf, '\n'))
	}
}

func (p *progress) close() {
	if p.f != nil {
		p.f.Close()
	}
}
