package main

// Histories of keys, with the processor time that each operation took in
// units of the time it takes to compute a subtree.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

// One tree of such a key is what a subtree of the other is.
type workParams struct {
	Name string `json:"name"`
	One  string `json:"one"`
	H    int    `json:"h"`
	D    int    `json:"d"`
}

func cpu() time.Duration {
	var u syscall.Rusage
	check(syscall.Getrusage(syscall.RUSAGE_SELF, &u))
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func quiet() {
	for end, d := time.Now().Add(30*time.Second), time.Microsecond; workers() > 0 && time.Now().Before(end); {
		if d < 5*time.Millisecond {
			d *= 2
		}
		time.Sleep(d)
	}
}

type workRun struct {
	p    workParams
	ctx  *xmssmt.Context
	root string
	rng  *rand.Rand
	n    int // directories
	dir  string
	ctr  xmssmt.PrivateKeyContainer
	sk   *xmssmt.PrivateKey
	unit time.Duration
}

func (r *workRun) path() string { return filepath.Join(r.dir, "key") }

func seeds(rng *rand.Rand, n int) (a, b, c []byte) {
	x := make([]byte, 3*n)
	rng.Read(x)
	return x[:n], x[n : 2*n], x[2*n:]
}

func must(err xmssmt.Error) {
	if err != nil {
		panic("unexpected failure: " + err.Error())
	}
}

func (r *workRun) create() {
	ctr, err := xmssmt.OpenFSPrivateKeyContainer(r.path())
	must(err)
	a, b, c := seeds(r.rng, int(r.ctx.Params().N))
	sk, _, err := r.ctx.DeriveInto(ctr, a, b, c)
	must(err)
	r.ctr, r.sk = ctr, sk
}

func (r *workRun) list() []([2]int) {
	ctr := r.ctr
	if ctr == nil {
		var err xmssmt.Error
		ctr, err = xmssmt.OpenFSPrivateKeyContainer(r.path())
		must(err)
		defer ctr.Close()
	}
	res := [][2]int{}
	if !ctr.CacheInitialized() {
		return res
	}
	l, err := ctr.ListSubTrees()
	must(err)
	for _, a := range l {
		res = append(res, [2]int{int(a.Layer), int(a.Tree)})
	}
	return res
}

// Changes one byte of a subtree in the cache file.
func (r *workRun) damage() []([2]int) {
	name := r.path() + ".cache"
	b, err := os.ReadFile(name)
	if os.IsNotExist(err) {
		return [][2]int{}
	}
	check(err)
	par := r.ctx.Params()
	size := par.CachedSubTreeSize()
	stride := ((size+13-1)/4096 + 1) * 4096
	res := [][2]int{}
	n := (len(b) - 4096) / stride
	if n < 1 {
		return res
	}
	o := 4096 + r.rng.Intn(n)*stride
	if b[o] != 0 {
		b[o+13+r.rng.Intn(size)] ^= byte(1 + r.rng.Intn(255))
		res = append(res, [2]int{int(binary.BigEndian.Uint32(b[o+1:])), int(binary.BigEndian.Uint64(b[o+5:]))})
		check(os.WriteFile(name, b, 0600))
	}
	return res
}

func (r *workRun) step() Obs {
	ops := []string{"Load", "Load", "SignOnce", "SignOnce", "Damage", "Lose"}
	if r.sk != nil {
		ops = []string{"Sign", "Sign", "Sign", "Sign", "SignMany", "SignMany", "Borrow", "Precompute", "Jump", "Jump", "Jump", "Close", "Abandon"}
	}
	if r.n == 0 {
		ops = []string{"Create"}
	}
	e := Obs{"op": ops[r.rng.Intn(len(ops))], "s": 0, "k": 0, "damaged": [][2]int{}}
	if r.sk != nil {
		e["s"] = uint64(r.sk.SeqNo())
	}
	th := r.p.H / r.p.D
	end := uint64(1)<<uint(r.p.H) - 1
	quiet()
	before := cpu()
	switch e["op"] {
	case "Create":
		r.n++
		r.dir = filepath.Join(r.root, fmt.Sprint("k", r.n))
		mkdir(r.dir)
		r.create()
	case "Load":
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(r.path())
		must(err)
		sk, _, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
		if err != nil { // reserved beyond its end
			e["op"] = "Refused"
			ctr.Close()
		} else {
			r.ctr, r.sk = ctr, sk
		}
	case "SignOnce":
		b, err := xmssmt.Sign(r.path(), []byte("m"))
		if err == nil {
			var sig xmssmt.Signature
			check(sig.UnmarshalBinary(b))
			e["s"], e["k"] = uint64(sig.SeqNo()), 1
		}
	case "Sign":
		k := 1 + r.rng.Intn(4)
		e["k"] = k
		for i := 0; i < k; i++ {
			r.sk.Sign([]byte("m"))
		}
	case "SignMany":
		var wg sync.WaitGroup
		t := 2 + r.rng.Intn(4)
		e["k"] = t
		for i := 0; i < t; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.sk.Sign([]byte("m"))
			}()
		}
		wg.Wait()
	case "Borrow":
		r.sk.BorrowExactly(uint32(r.rng.Intn(6)))
	case "Precompute":
		r.sk.EnableSubTreePrecomputation()
	case "Jump": // to the end of a subtree, mostly
		s := uint64(r.sk.SeqNo())
		l := uint(th * (1 + r.rng.Intn(r.p.D)))
		to := (s>>l+1)<<l - 1 - uint64(r.rng.Intn(3))
		if r.rng.Intn(4) == 0 {
			to = s + uint64(r.rng.Intn(1<<l))
		}
		if to >= s && to < end {
			r.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(to))
		}
	case "Close":
		must(r.sk.Close())
		r.ctr, r.sk = nil, nil
	case "Abandon": // the process dies: what is on disk is used elsewhere
		r.n++
		dir := filepath.Join(r.root, fmt.Sprint("k", r.n))
		mkdir(dir)
		for _, x := range []string{"key", "key.cache"} {
			b, err := os.ReadFile(filepath.Join(r.dir, x))
			check(err)
			check(os.WriteFile(filepath.Join(dir, x), b, 0600))
		}
		r.sk.Close()
		os.RemoveAll(r.dir)
		r.dir, r.ctr, r.sk = dir, nil, nil
	case "Damage":
		e["damaged"] = r.damage()
	case "Lose":
		if err := os.Remove(r.path() + ".cache"); !os.IsNotExist(err) {
			check(err)
		}
	}
	quiet()
	e["work"] = int64(cpu()-before) * 1000 / int64(r.unit)
	e["cached"] = r.list()
	return e
}

func init() {
	commands["work"] = func(cfg *Config) *Report {
		rep := NewReport()
		out, err := os.Create(cfg.Str("histories", ""))
		check(err)
		defer out.Close()
		var all []workParams
		readLines(cfg.Str("params", ""), func(b []byte) {
			var p workParams
			check(json.Unmarshal(b, &p))
			all = append(all, p)
		})
		deadline := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(1 << 30)
		prog := newProgress(0)
		defer prog.close()
		n, ops := 0, 0
		n = cfg.Int("first", 0)
		for ; n < cfg.Int("max", 100000) && time.Now().Before(deadline); n++ {
			rng := rand.New(rand.NewSource(cfg.Seed*1000003 + int64(n)))
			p := all[(n+int(cfg.Seed))%len(all)]
			r := &workRun{p: p, ctx: mustCtx(p.Name), rng: rng, root: filepath.Join(cfg.Scratch, fmt.Sprint("w", n))}
			ev := []Obs{}
			prog.begin()
			runtime.GC()
			pr := guarded(func() string {
				// What a subtree costs
				for i := 0; i < 3; i++ {
					one := &workRun{ctx: mustCtx(p.One), rng: rng, dir: filepath.Join(r.root, fmt.Sprint("one", i))}
					mkdir(one.dir)
					before := cpu()
					one.create()
					if u := cpu() - before; i == 0 || u < r.unit {
						r.unit = u
					}
					one.sk.Close()
				}
				for i := 0; i < 40; i++ {
					e := r.step()
					prog.add(e)
					ev = append(ev, e)
				}
				if r.sk != nil {
					r.sk.Close()
				}
				b, err := json.Marshal(Obs{"p": p, "n": n, "ev": ev, "unit": r.unit.Microseconds()})
				check(err)
				fmt.Fprintf(out, "%s\n", b)
				return ""
			}, 2*time.Minute, nil)
			ops += len(ev)
			os.RemoveAll(r.root)
			if pr != "" {
				rep.Violations = append(rep.Violations, Violation{What: pr, Replay: map[string]interface{}{"history": ev}})
				break
			}
		}
		rep.Stats["operations"] = ops
		return rep
	}
}
