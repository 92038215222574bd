//go:build sched

package main

// Runs the real code under chosen interleavings (see vsync) and records what
// happens, for KeyConc.tla to judge.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/vsync"
)

type tev map[string]interface{}

// A step of a thread
type cop struct {
	Op string `json:"op"`
	N  int    `json:"n,omitempty"`
	T  int    `json:"t,omitempty"`
}

type cfault struct {
	Op   string `json:"op"`
	Nth  int    `json:"nth"`  // from which call of this operation
	Len  int    `json:"len"`  // how many of them fail
	Done bool   `json:"done"` // whether the effect takes place nevertheless
}

type scenario struct {
	Alg     string    `json:"alg"`
	S0      int       `json:"s0"`
	Cache   string    `json:"cache"` // initial state of the cache
	Pre     bool      `json:"pre"`
	Bor     int       `json:"bor"`
	Phases  [][][]cop `json:"phases"`
	Faults  []cfault  `json:"faults"`
	Policy  string    `json:"policy"`
	Seed    int64     `json:"seed,string"`
	Threads int       `json:"threads"` // Context.Threads
}

// What does not change between runs
type concKey struct {
	ctx  *xmssmt.Context
	disk *memDisk
	pk   *xmssmt.PublicKey
	h    uint32
	th   uint32
	d    uint32
	base uint64 // numbers are given relative to this one
	cap  int
	ref  map[int][2][]byte // number -> signatures on the messages
}

var concMsgs = [2][]byte{[]byte("first message"), []byte("the other message, somewhat longer than that")}

// The name of an algorithm may be followed by @ and the number to begin at.
func newConcKey(alg string, seed int64) *concKey {
	k := &concKey{ref: map[int][2][]byte{}, disk: &memDisk{}}
	if i := strings.IndexByte(alg, '@'); i >= 0 {
		b, err := strconv.ParseUint(alg[i+1:], 10, 64)
		check(err)
		k.base = b
		alg = alg[:i]
	}
	k.ctx = mustCtx(alg)
	p := k.ctx.Params()
	rng := rand.New(rand.NewSource(seed))
	var s [3][]byte
	for i := range s {
		s[i] = make([]byte, p.N)
		rng.Read(s[i])
	}
	k.h, k.d = p.FullHeight, p.D
	k.th = p.FullHeight / p.D
	k.cap = k.rel(p.MaxSignatureSeqNo())
	sk, pk, err := k.ctx.DeriveInto(openMemCtr(k.disk), s[0], s[1], s[2])
	if err != nil {
		panic("harness: DeriveInto: " + err.Error())
	}
	k.pk = pk
	for j := 0; j < 2; j++ {
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(k.base))
		for i := 0; i < k.cap && i < 120; i++ {
			sig, err := sk.Sign(concMsgs[j])
			if err != nil {
				panic(fmt.Sprintf("Sign fails: %v", err))
			}
			b, err2 := sig.MarshalBinary()
			if err2 != nil {
				panic(err2)
			}
			r := k.ref[i]
			r[j] = b
			k.ref[i] = r
		}
	}
	return k
}

// n relative to the base, as a small number
func (k *concKey) rel(n uint64) int {
	const far = 1 << 20
	if d := int64(n - k.base); d > far {
		return far
	} else if d < -far {
		return -far
	} else {
		return int(d)
	}
}

// A subtree and the numbers under it
func (k *concKey) sta(a xmssmt.SubTreeAddress) tev {
	w := uint(k.th * (a.Layer + 1))
	end := uint64(1) << 62
	if a.Tree < end>>w {
		end = (a.Tree + 1) << w
	}
	return tev{"l": a.Layer, "tree": fmt.Sprint(a.Tree), "first": k.rel(a.Tree << w), "end": k.rel(end)}
}

// A container whose every operation takes time, during which others may run.
type schedCtr struct {
	memCtr
	run    *concRun
	graves map[string][][]byte
}

type concRun struct {
	sc     *scenario
	k      *concKey
	ev     []tev
	calls  map[string]int
	ctr    *schedCtr
	sk     *xmssmt.PrivateKey
	rng    *rand.Rand
	bad    []finding
	mux    sync.Mutex // for uncontrolled runs
	active []*activeOp
}

// An operation which has been called and has not returned
type activeOp struct {
	op      string
	waiting bool // in its message source
	done    bool
}

// Waits, in the message source of the current thread, for all other
// operations which are under way, except those which may wait for this one.
func (r *concRun) awaitOthers(me *activeOp) {
	r.mux.Lock()
	others := []*activeOp{}
	for _, o := range r.active {
		if o != me {
			others = append(others, o)
		}
	}
	me.waiting = true
	r.mux.Unlock()
	vsync.Block("other operations, in the message source", func() bool {
		r.mux.Lock()
		defer r.mux.Unlock()
		for _, o := range others {
			if !o.done && !o.waiting && o.op != "Close" {
				return false
			}
		}
		return true
	})
	r.mux.Lock()
	me.waiting = false
	r.mux.Unlock()
}

func (r *concRun) begin(op string) *activeOp {
	r.mux.Lock()
	defer r.mux.Unlock()
	a := &activeOp{op: op}
	r.active = append(r.active, a)
	return a
}

func (r *concRun) end(a *activeOp) {
	r.mux.Lock()
	defer r.mux.Unlock()
	a.done = true
	for i, o := range r.active {
		if o == a {
			r.active = append(append([]*activeOp{}, r.active[:i]...), r.active[i+1:]...)
			break
		}
	}
}

func (r *concRun) log(e tev) {
	r.mux.Lock()
	r.ev = append(r.ev, e)
	r.mux.Unlock()
}

func (r *concRun) wrong(what, props string) {
	r.mux.Lock()
	r.bad = append(r.bad, finding{what, props})
	r.mux.Unlock()
}

func (r *concRun) tid() int {
	if t := vsync.Cur(); t != nil {
		return t.ID
	}
	return 0
}

func (c *schedCtr) sta(a xmssmt.SubTreeAddress) tev {
	if c.run == nil {
		return nil
	}
	return c.run.k.sta(a)
}

func (c *schedCtr) begin(op string, a tev) (fail, done bool) {
	r := c.run
	if r == nil || vsync.Cur() == nil {
		return
	}
	r.mux.Lock()
	n := r.calls[op]
	r.calls[op]++
	r.mux.Unlock()
	for _, f := range r.sc.Faults {
		if f.Op == op && n >= f.Nth && n < f.Nth+f.Len {
			fail, done = true, f.Done
		}
	}
	e := tev{"e": "cb", "t": r.tid(), "op": op}
	for k, v := range a {
		e[k] = v
	}
	r.log(e)
	vsync.Point()
	return
}

func (c *schedCtr) end(op string, a tev, err xmssmt.Error) {
	r := c.run
	if r == nil || vsync.Cur() == nil {
		return
	}
	vsync.Point()
	e := tev{"e": "ce", "t": r.tid(), "op": op, "ok": err == nil}
	for k, v := range a {
		e[k] = v
	}
	r.log(e)
}

var errFault = cerr("injected container failure")

func (c *schedCtr) ResetCache() (err xmssmt.Error) {
	f, _ := c.begin("ResetCache", nil)
	if err = errFault; !f {
		err = c.memCtr.ResetCache()
	}
	c.end("ResetCache", nil, err)
	return
}

func (c *schedCtr) GetSubTree(a xmssmt.SubTreeAddress) (b []byte, ex bool, err xmssmt.Error) {
	f, done := c.begin("GetSubTree", c.sta(a))
	if !f || done {
		b, ex, err = c.memCtr.GetSubTree(a)
	}
	if f {
		b, ex, err = nil, false, errFault
	}
	c.end("GetSubTree", c.sta(a), err)
	return
}

func (c *schedCtr) HasSubTree(a xmssmt.SubTreeAddress) bool {
	c.begin("HasSubTree", c.sta(a))
	ret := c.memCtr.HasSubTree(a)
	c.end("HasSubTree", c.sta(a), nil)
	return ret
}

func (c *schedCtr) DropSubTree(a xmssmt.SubTreeAddress) (err xmssmt.Error) {
	f, done := c.begin("DropSubTree", c.sta(a))
	if !f || done {
		if c.disk.cacheInit {
			if b, ok := c.disk.cache[a]; ok {
				c.graves[fmt.Sprint(a)] = append(c.graves[fmt.Sprint(a)], b)
			}
		}
		err = c.memCtr.DropSubTree(a)
	}
	if f {
		err = errFault
	}
	c.end("DropSubTree", c.sta(a), err)
	return
}

func (c *schedCtr) ListSubTrees() (l []xmssmt.SubTreeAddress, err xmssmt.Error) {
	c.begin("ListSubTrees", nil)
	l, err = c.memCtr.ListSubTrees()
	sort.Slice(l, func(i, j int) bool {
		if l[i].Layer != l[j].Layer {
			return l[i].Layer < l[j].Layer
		}
		return l[i].Tree < l[j].Tree
	})
	c.end("ListSubTrees", nil, err)
	return
}

func (c *schedCtr) BorrowSeqNos(n uint32) (s xmssmt.SignatureSeqNo, err xmssmt.Error) {
	f, done := c.begin("BorrowSeqNos", nil)
	c.failIn = 0
	if f {
		c.failIn, c.applied = 1, done
	}
	s, err = c.memCtr.BorrowSeqNos(n)
	c.end("BorrowSeqNos", nil, err)
	return
}

func (c *schedCtr) SetSeqNo(s xmssmt.SignatureSeqNo) (err xmssmt.Error) {
	f, done := c.begin("SetSeqNo", nil)
	c.failIn = 0
	if f {
		c.failIn, c.applied = 1, done
	}
	err = c.memCtr.SetSeqNo(s)
	c.end("SetSeqNo", nil, err)
	return
}

func (c *schedCtr) GetSeqNo() (s xmssmt.SignatureSeqNo, l uint32, err xmssmt.Error) {
	f, _ := c.begin("GetSeqNo", nil)
	if err = errFault; !f {
		s, l, err = c.memCtr.GetSeqNo()
	}
	c.end("GetSeqNo", nil, err)
	return
}

func (c *schedCtr) GetPrivateKey() (b []byte, err xmssmt.Error) {
	c.begin("GetPrivateKey", nil)
	b, err = c.memCtr.GetPrivateKey()
	c.end("GetPrivateKey", nil, err)
	return
}

func (c *schedCtr) Initialized() *xmssmt.Params {
	c.begin("Initialized", nil)
	p := c.memCtr.Initialized()
	c.end("Initialized", nil, nil)
	return p
}

func (c *schedCtr) CacheInitialized() bool {
	c.begin("CacheInitialized", nil)
	ret := c.memCtr.CacheInitialized()
	c.end("CacheInitialized", nil, nil)
	return ret
}

func (c *schedCtr) Close() (err xmssmt.Error) {
	c.begin("Close", nil)
	err = c.memCtr.Close()
	c.end("Close", nil, err)
	return
}

// Every log message is a scheduling point, whatever it says.
type yieldLogger struct{}

func (yieldLogger) Logf(string, ...interface{}) {
	if vsync.Cur() != nil {
		vsync.Point()
	}
}

type slowReader struct {
	r    io.Reader
	n    int
	fail bool
	wait bool // for the other operations under way
	op   *activeOp
	run  *concRun
}

func (s *slowReader) Read(b []byte) (int, error) {
	if vsync.Cur() != nil {
		for i := 0; i < 3; i++ {
			vsync.Point()
		}
		if s.wait && s.n == 0 {
			s.run.awaitOthers(s.op)
		}
	}
	if len(b) > 7 {
		b = b[:7]
	}
	s.n++
	if s.fail && s.n == 2 {
		return 0, errInjected
	}
	return s.r.Read(b)
}

// Performs an operation in the current thread.
func (r *concRun) perform(o cop) {
	t := r.tid()
	call := tev{"e": "call", "t": t, "op": o.Op, "n": o.N, "th": o.T}
	r.log(call)
	vsync.Point()
	ret := tev{"e": "ret", "t": t, "ok": true, "val": -1}
	// whether the call succeeds (and with what) is known from the beginning
	call["res"] = -1
	call["succ"] = false
	op := r.begin(o.Op)
	defer r.end(op)
	switch o.Op {
	case "Sign", "SignBad":
		r.mux.Lock()
		mi := (t + len(r.ev)) % 2
		wait := (t+len(r.ev))%5 < 2
		r.mux.Unlock()
		sig, err := r.sk.SignFrom(&slowReader{r: strings.NewReader(string(concMsgs[mi])), fail: o.Op == "SignBad", wait: wait, op: op, run: r})
		ret["ok"] = err == nil
		if err == nil && sig == nil || err != nil && sig != nil {
			r.wrong("Sign returns neither or both of a signature and an error", "C10")
		} else if err == nil {
			s := r.k.rel(uint64(sig.SeqNo()))
			ret["val"] = s
			call["res"] = s
			ref, ok := r.k.ref[s]
			b, err := sig.MarshalBinary()
			if err != nil || !ok || string(b) != string(ref[mi]) {
				r.wrong(fmt.Sprintf("signature %d is not the one this key makes for this number and message (%v)", s, err), "C10")
			}
		} else {
			ret["err"] = err.Error()
		}
	case "Borrow":
		err := r.sk.BorrowExactly(uint32(o.N))
		ret["ok"] = err == nil
	case "BorrowIfBelow":
		err := r.sk.BorrowExactlyIfBelow(uint32(o.N), uint32(o.T))
		ret["ok"] = err == nil
	case "Unretired":
		ret["val"] = int64(r.sk.UnretiredSeqNos())
	case "SeqNo":
		ret["val"] = r.k.rel(uint64(r.sk.SeqNo()))
	case "Borrowed":
		ret["val"] = int64(r.sk.BorrowedSeqNos())
	case "Cached":
		ret["val"] = int64(r.sk.CachedSubTrees())
	case "Pre":
		r.sk.EnableSubTreePrecomputation()
	case "Close":
		err := r.sk.Close()
		ret["ok"] = err == nil
	default:
		panic("harness: unknown operation " + o.Op)
	}
	call["succ"] = ret["ok"]
	ret["disk"] = r.k.rel(uint64(r.ctr.disk.seqNo))
	r.log(ret)
}

func (r *concRun) prepareDisk() *memDisk {
	d := r.k.disk.clone()
	d.seqNo = xmssmt.SignatureSeqNo(r.k.base + uint64(r.sc.S0))
	d.bor = uint32(r.sc.Bor)
	switch r.sc.Cache {
	case "empty":
		d.cache = map[xmssmt.SubTreeAddress][]byte{}
	case "none":
		d.cache = nil
		d.cacheInit = false
	case "corrupt":
		// in the order of the addresses, to be reproducible
		for i, a := range sortedAddrs(d) {
			if r.rng.Intn(2) == 0 {
				b := d.cache[a]
				b[r.rng.Intn(len(b))] ^= byte(1 << uint(r.rng.Intn(8)))
				_ = i
			}
		}
	case "partial":
		for _, a := range sortedAddrs(d) {
			if r.rng.Intn(2) == 0 {
				delete(d.cache, a)
			}
		}
	}
	return d
}

func sortedAddrs(d *memDisk) []xmssmt.SubTreeAddress {
	l := []xmssmt.SubTreeAddress{}
	for a := range d.cache {
		l = append(l, a)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].Layer != l[j].Layer {
			return l[i].Layer < l[j].Layer
		}
		return l[i].Tree < l[j].Tree
	})
	return l
}

// The scheduling policies
func (r *concRun) policy() vsync.Chooser {
	rng := r.rng
	p := r.sc.Policy
	random := func(run []*vsync.Thread) *vsync.Thread { return run[rng.Intn(len(run))] }
	has := func(run []*vsync.Thread, t *vsync.Thread) bool {
		for _, x := range run {
			if x == t {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasPrefix(p, "pct"):
		// priorities, changed at a few random points
		n := int(p[3] - '0')
		prio := map[int]int{}
		low := 0
		changes := map[int]bool{}
		for i := 0; i < n; i++ {
			changes[rng.Intn(1500)] = true
		}
		step := 0
		return func(run []*vsync.Thread, cur *vsync.Thread, kind vsync.Kind) *vsync.Thread {
			step++
			if changes[step] {
				low--
				prio[cur.ID] = low
			}
			var best *vsync.Thread
			for _, t := range run {
				if _, ok := prio[t.ID]; !ok {
					prio[t.ID] = 1 + rng.Intn(1000)
				}
				if best == nil || prio[t.ID] > prio[best.ID] {
					best = t
				}
			}
			return best
		}
	case p == "coarse":
		// switches at operations on locks and calls of the harness only
		return func(run []*vsync.Thread, cur *vsync.Thread, kind vsync.Kind) *vsync.Thread {
			if kind == vsync.Stmt && has(run, cur) {
				return cur
			}
			if has(run, cur) && rng.Intn(3) > 0 {
				return cur
			}
			return random(run)
		}
	case p == "uniform":
		return func(run []*vsync.Thread, cur *vsync.Thread, kind vsync.Kind) *vsync.Thread {
			return random(run)
		}
	default: // "seldom"
		q := 5 + rng.Intn(60)
		return func(run []*vsync.Thread, cur *vsync.Thread, kind vsync.Kind) *vsync.Thread {
			if has(run, cur) && rng.Intn(q) > 0 {
				return cur
			}
			return random(run)
		}
	}
}

type concOutcome struct {
	trace tev
	bad   []finding
	res   vsync.Result
}

// Something wrong, and the properties it violates
type finding struct{ what, props string }

var errSlow = "harness: not under control"

func runScenario(sc *scenario, k *concKey, choose vsync.Chooser) concOutcome {
	r := &concRun{sc: sc, k: k, calls: map[string]int{}, rng: rand.New(rand.NewSource(sc.Seed))}
	disk := r.prepareDisk()
	r.ctr = &schedCtr{memCtr: memCtr{disk: disk, seqNo: disk.seqNo, bor: disk.bor}, graves: map[string][][]byte{}}
	k.ctx.Threads = 1
	sk, pk, lost, err := xmssmt.LoadPrivateKeyFrom(r.ctr)
	if err != nil {
		return concOutcome{bad: []finding{{"LoadPrivateKeyFrom fails: " + err.Error(), "C10"}}}
	}
	if int(lost) != sc.Bor || k.rel(uint64(sk.SeqNo())) != sc.S0 {
		r.wrong("unexpected state of the loaded key", "C01")
	}
	a, _ := pk.MarshalBinary()
	b, _ := k.pk.MarshalBinary()
	if string(a) != string(b) {
		r.wrong("the loaded key has another public key", "C10")
	}
	r.sk = sk
	sk.Context().Threads = sc.Threads
	if sk.Context().Threads == 0 {
		sk.Context().Threads = 1
	}
	r.ctr.run = r
	if choose == nil {
		choose = r.policy()
	}
	quiet := func(phase int) {
		c := []tev{}
		for _, a := range sortedAddrs(r.ctr.disk) {
			c = append(c, k.sta(a))
		}
		r.log(tev{"e": "quiet", "t": r.tid(), "cached": c, "disk": r.k.rel(uint64(r.ctr.disk.seqNo)), "phase": phase,
			"count": r.sk.CachedSubTrees()})
	}
	res := vsync.Run(func() {
		if sc.Pre {
			r.perform(cop{Op: "Pre"})
		}
		for i, ph := range sc.Phases {
			left := int32(len(ph))
			for j, ops := range ph {
				ops := ops
				vsync.GoNamed(fmt.Sprintf("user%d.%d", i, j), func() {
					for _, o := range ops {
						r.perform(o)
					}
					atomic.AddInt32(&left, -1)
				})
			}
			vsync.Block("the threads of the phase", func() bool { return atomic.LoadInt32(&left) == 0 })
			if vsync.Settle() {
				quiet(i)
			}
		}
	}, choose, 60000)
	bad := r.bad
	if res.Deadlock != "" {
		bad = append(bad, finding{"deadlock: " + res.Deadlock, "C10"})
	}
	for _, p := range res.Panics {
		if strings.HasPrefix(p, "harness: ") || strings.Contains(strings.SplitN(p, "\n", 2)[0], "harness: ") {
			panic(p)
		}
		bad = append(bad, finding{"panic in " + p, "C10"})
	}
	if res.Limit {
		bad = append(bad, finding{"the operations do not complete (60000 scheduling points)", "C10"})
	}
	for a, bs := range r.ctr.graves {
		for _, b := range bs {
			for _, x := range b {
				if x != 0xdb {
					bad = append(bad, finding{"the buffer of subtree " + a + " was written to after it was dropped", "C09 C10"})
					break
				}
			}
		}
	}
	return concOutcome{res: res, bad: bad, trace: tev{"cfg": tev{"th": k.th, "d": k.d, "cap": k.cap, "s0": sc.S0,
		"size": 1 << k.th, "off": int(k.base % (1 << k.th)),
		"clean": len(sc.Faults) == 0}, "ev": r.ev}}
}

func genScenario(rng *rand.Rand, algs []string, mode string, caps map[string]int) *scenario {
	sc := &scenario{Faults: []cfault{}, Alg: algs[rng.Intn(len(algs))], Seed: rng.Int63()}
	cap := caps[sc.Alg]
	if cap > 20 {
		cap = 20
	}
	sc.S0 = []int{0, 0, 0, rng.Intn(cap + 1), cap - rng.Intn(4)}[rng.Intn(5)]
	if sc.S0 < 0 {
		sc.S0 = 0
	}
	sc.Cache = []string{"fresh", "fresh", "empty", "none", "corrupt", "partial"}[rng.Intn(6)]
	sc.Pre = rng.Intn(2) == 0
	sc.Threads = 1
	if rng.Intn(10) == 0 {
		sc.Threads = 2
	}
	sc.Policy = []string{"pct2", "pct3", "pct5", "coarse", "uniform", "seldom", "seldom"}[rng.Intn(7)]
	oneOp := func() cop {
		if mode == "retire" {
			switch x := rng.Intn(20); {
			case x < 13:
				return cop{Op: "Sign"}
			case x < 16:
				return cop{Op: "SignBad"}
			case x < 19:
				return cop{Op: "Unretired"}
			default:
				return cop{Op: "Pre"}
			}
		}
		if mode == "ahead" {
			switch x := rng.Intn(20); {
			case x < 14:
				return cop{Op: "Sign"}
			case x < 15:
				return cop{Op: "SignBad"}
			case x < 16:
				return cop{Op: "Cached"}
			case x < 18:
				return cop{Op: "Borrow", N: rng.Intn(4)}
			default:
				return cop{Op: "Pre"}
			}
		}
		if mode == "reserve" && rng.Intn(2) == 0 {
			return cop{Op: []string{"Borrow", "Borrow", "BorrowIfBelow", "SeqNo", "Borrowed"}[rng.Intn(5)], N: rng.Intn(6), T: rng.Intn(3)}
		}
		if mode == "overlap" && rng.Intn(3) > 0 {
			return cop{Op: []string{"Pre", "Cached", "Borrow", "BorrowIfBelow", "SeqNo"}[rng.Intn(5)], N: rng.Intn(5), T: rng.Intn(3)}
		}
		switch x := rng.Intn(100); {
		case x < 60:
			return cop{Op: "Sign"}
		case x < 66:
			return cop{Op: "SignBad"}
		case x < 72:
			return cop{Op: "Borrow", N: rng.Intn(5)}
		case x < 75:
			return cop{Op: "BorrowIfBelow", N: rng.Intn(5), T: rng.Intn(3)}
		case x < 84:
			return cop{Op: "Unretired"}
		case x < 88:
			return cop{Op: "SeqNo"}
		case x < 91:
			return cop{Op: "Borrowed"}
		case x < 94:
			return cop{Op: "Cached"}
		default:
			return cop{Op: "Pre"}
		}
	}
	phases := 1 + rng.Intn(2)
	maxOps := 4
	switch mode {
	case "ahead":
		maxOps = 6
		sc.Pre = rng.Intn(4) > 0
		phases = 2 + rng.Intn(3)
	case "retire":
		maxOps = 6
		sc.Pre = rng.Intn(3) > 0
		if sc.Alg == "XMSS-SHAKE_2_128_w4" { // a single subtree
			sc.Alg = algs[0]
			if sc.S0 > caps[sc.Alg] {
				sc.S0 = caps[sc.Alg]
			}
		}
	}
	for i := 0; i < phases; i++ {
		ph := [][]cop{}
		for j := 0; j < 2+rng.Intn(3); j++ {
			ops := []cop{}
			for k := 0; k < 1+rng.Intn(maxOps); k++ {
				ops = append(ops, oneOp())
			}
			ph = append(ph, ops)
		}
		if i == phases-1 && rng.Intn(2) == 0 {
			j := rng.Intn(len(ph))
			ph[j] = append(ph[j], cop{Op: "Close"})
			if rng.Intn(3) == 0 {
				ph[j] = append(ph[j], cop{Op: "Close"})
			}
		}
		if mode == "closing" {
			// amidst the other operations, perhaps twice at once
			for n := 1 + rng.Intn(2); n > 0; n-- {
				j := rng.Intn(len(ph))
				at := rng.Intn(len(ph[j]) + 1)
				ph[j] = append(ph[j][:at:at], append([]cop{{Op: "Close"}}, ph[j][at:]...)...)
			}
			phases = i + 1
		}
		sc.Phases = append(sc.Phases, ph)
	}
	if mode == "faults" || ((mode == "mixed" || mode == "reserve") && rng.Intn(3) == 0) {
		for i := 0; i < 1+rng.Intn(2); i++ {
			op := []string{"GetSubTree", "GetSubTree", "GetSubTree", "SetSeqNo", "BorrowSeqNos", "DropSubTree", "GetSeqNo"}[rng.Intn(7)]
			sc.Faults = append(sc.Faults, cfault{Op: op, Nth: rng.Intn(8), Len: 1 + rng.Intn(3), Done: rng.Intn(2) == 0})
		}
		// later on it works again
		sc.Phases = append(sc.Phases, [][]cop{{{Op: "Unretired"}, {Op: "Sign"}, {Op: "Sign"}, {Op: "Unretired"}}})
	}
	return sc
}

func init() {
	commands["conc"] = func(cfg *Config) *Report {
		rep := NewReport()
		xmssmt.SetLogger(yieldLogger{})
		algs := pool(cfg)
		keys := map[string]*concKey{}
		caps := map[string]int{}
		for _, a := range algs {
			keys[a] = newConcKey(a, cfg.Seed)
			caps[a] = keys[a].cap
		}
		out, err := os.Create(cfg.Str("traces", ""))
		check(err)
		defer out.Close()
		w := bufio.NewWriter(out)
		defer w.Flush()
		deadline := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
		rng := rand.New(rand.NewSource(cfg.Seed))
		runs, events, points, otherwise := 0, 0, 0, 0
		prog := newProgress(0)
		var mux sync.Mutex
		for time.Now().Before(deadline) && len(rep.Violations) == 0 && runs < cfg.Int("max", 1<<30) {
			sc := genScenario(rng, algs, cfg.Str("mode", "mixed"), caps)
			prog.begin()
			prog.add(sc)
			ch := make(chan concOutcome, 1)
			go func() { ch <- runScenario(sc, keys[sc.Alg], nil) }()
			var o concOutcome
			select {
			case o = <-ch:
			case <-time.After(60 * time.Second):
				// It uses something we do not control.
				rep.Stats["uncontrolled"] = true
				rep.Stats["runs"] = runs
				return rep
			}
			mux.Lock()
			runs++
			if o.trace != nil {
				events += len(o.trace["ev"].([]tev))
			}
			points += o.res.Points
			others := false
			for _, b := range o.bad {
				if strings.Contains(b.props, cfg.Str("property", "")) {
					rep.Violations = append(rep.Violations, Violation{What: b.what, Replay: map[string]interface{}{"scenario": sc, "trace": o.trace}})
				} else {
					others = true
				}
			}
			if others {
				otherwise++
			}
			if o.trace != nil {
				o.trace["sc"] = sc
				buf, err := json.Marshal(o.trace)
				check(err)
				w.Write(buf)
				w.WriteByte('\n')
			}
			mux.Unlock()
		}
		rep.Stats["runs"] = runs
		rep.Stats["events"] = events
		rep.Stats["points"] = points
		rep.Stats["otherwise"] = otherwise
		return rep
	}
}
