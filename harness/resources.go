package main

// C26: what is in use after every operation, counted.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

// Notes how many subtrees there are after each operation on the cache.
type countingCtr struct {
	xmssmt.PrivateKeyContainer
	live []int
}

func (c *countingCtr) note() {
	if l, err := c.ListSubTrees(); err == nil {
		c.live = append(c.live, len(l))
	}
}

func (c *countingCtr) Reset(key []byte, p xmssmt.Params) xmssmt.Error {
	err := c.PrivateKeyContainer.Reset(key, p)
	if err == nil {
		c.live = append(c.live, -1)
	}
	return err
}

func (c *countingCtr) ResetCache() xmssmt.Error {
	err := c.PrivateKeyContainer.ResetCache()
	if err == nil {
		c.live = append(c.live, -1)
	}
	return err
}

func (c *countingCtr) GetSubTree(a xmssmt.SubTreeAddress) ([]byte, bool, xmssmt.Error) {
	b, e, err := c.PrivateKeyContainer.GetSubTree(a)
	c.note()
	return b, e, err
}

func (c *countingCtr) DropSubTree(a xmssmt.SubTreeAddress) xmssmt.Error {
	err := c.PrivateKeyContainer.DropSubTree(a)
	c.note()
	return err
}

type resKey struct {
	p   fileParams
	dir string
	ctr *countingCtr
	sk  *xmssmt.PrivateKey
}

func (k *resKey) path() string { return filepath.Join(k.dir, "key") }

var stackBuf = make([]byte, 1<<20)

// Number of goroutines of the package
func workers() int {
	buf := stackBuf[:runtime.Stack(stackBuf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/bwesterb/go-xmssmt.") {
			n++
		}
	}
	return n
}

type resRun struct {
	root string
	rng  *rand.Rand
	keys []*resKey
	base map[string]int
	was  [2]syscall.Rlimit
}

func openFiles() map[string]string {
	m := map[string]string{}
	l, err := os.ReadDir("/proc/self/fd")
	check(err)
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			m[e.Name()] = t
		}
	}
	return m
}

func (r *resRun) observe(e Obs) Obs {
	for end, d := time.Now().Add(15*time.Second), time.Microsecond; workers() > 0 && time.Now().Before(end); d *= 2 {
		if d > 100*time.Millisecond {
			d = 100 * time.Millisecond
		}
		time.Sleep(d)
	}
	e["workers"] = workers()
	maps, err := os.ReadFile("/proc/self/maps")
	check(err)
	files := openFiles()
	for n, f := range files { // (what the runtime opens when it likes)
		if !strings.HasPrefix(f, "/") || strings.HasPrefix(f, "/proc/") || strings.HasPrefix(f, "/dev/") && !strings.HasPrefix(f, "/dev/shm/") || strings.HasPrefix(f, "/sys/") {
			delete(files, n)
		}
	}
	other := len(files)
	now := []Obs{}
	for _, k := range r.keys {
		n := 0
		for _, f := range files {
			if strings.HasPrefix(f, k.dir+"/") || f == k.dir || strings.HasPrefix(f, k.dir+" ") {
				n++
			}
		}
		other -= n
		pages := uint64(0)
		for _, l := range strings.Split(string(maps), "\n") {
			if strings.Contains(l, " "+k.dir+"/") {
				var from, to uint64
				fmt.Sscanf(l, "%x-%x", &from, &to)
				pages += (to - from) / 4096
			}
		}
		names := []string{}
		l, err := os.ReadDir(k.dir)
		check(err)
		for _, x := range l {
			names = append(names, x.Name())
		}
		live := 0
		if k.ctr != nil {
			if l, err := k.ctr.ListSubTrees(); err == nil {
				live = len(l)
			}
		}
		al, size, alloc, slots := 4096, 0, 0, 0
		if b, err := os.ReadFile(k.path() + ".cache"); err == nil {
			size = len(b)
			if len(b) >= 17 && b[12] == 1 && binary.BigEndian.Uint32(b[13:]) > 0 {
				al = int(binary.BigEndian.Uint32(b[13:]) & 0xffffff)
			}
			p := parseParams(k.p.Name)
			stride := ((p.CachedSubTreeSize()+13-1)/4096 + 1) * 4096
			if al > 4096 {
				stride = ((p.CachedSubTreeSize()+13-1)/al + 1) * al
			} else {
				al = 4096
			}
			for o := al; o+stride <= size; o += stride {
				slots++
				if b[o] != 0 {
					alloc++
				}
			}
		}
		now = append(now, Obs{"files": n, "pages": pages, "names": names, "live": live, "al": al, "size": size, "alloc": alloc, "slots": slots})
	}
	e["now"] = now
	if r.base == nil {
		r.base = map[string]int{"other": other}
	}
	e["other"] = other - r.base["other"]
	return e
}

// Makes the system refuse something; returns how to end that.
func (r *resRun) disturb(k *resKey) func() {
	var nofile, fsize syscall.Rlimit
	const RLIMIT_FSIZE = 1
	check(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &nofile))
	check(syscall.Getrlimit(RLIMIT_FSIZE, &fsize))
	switch r.rng.Intn(3) {
	case 0:
		used := openFiles()
		left := r.rng.Intn(4)
		n := 0
		for ; ; n++ {
			if used[strconv.Itoa(n)] == "" {
				if left == 0 {
					break
				}
				left--
			}
		}
		lim := nofile
		lim.Cur = uint64(n)
		check(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim))
		return func() { check(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &nofile)) }
	case 1:
		lim := fsize
		lim.Cur = uint64([]int{0, 20, 60, 4096, 8192, 4096 * (1 + r.rng.Intn(12))}[r.rng.Intn(6)])
		if st, err := os.Stat(k.path() + ".cache"); err == nil && r.rng.Intn(2) == 0 {
			lim.Cur = uint64(st.Size())
		}
		check(syscall.Setrlimit(RLIMIT_FSIZE, &lim))
		return func() { check(syscall.Setrlimit(RLIMIT_FSIZE, &fsize)) }
	default:
		check(os.Rename(k.dir, k.dir+".away"))
		return func() {
			os.RemoveAll(k.dir)
			check(os.Rename(k.dir+".away", k.dir))
		}
	}
}

func (r *resRun) damage(k *resKey) {
	name := k.path()
	if r.rng.Intn(3) > 0 {
		name += ".cache"
	}
	b, err := os.ReadFile(name)
	if err != nil || len(b) == 0 {
		return
	}
	switch r.rng.Intn(5) {
	case 0:
		check(os.Remove(name))
		return
	case 1:
		b = b[:r.rng.Intn(len(b))]
	case 2:
		// (A cache may have a large alignment: it is not wrong to believe it.)
		if x := r.rng.Intn(min(len(b), 40)); strings.HasSuffix(name, ".cache") && (x == 13 || x == 14) {
			b[0] ^= 1
		} else {
			b[x] ^= byte(1 + r.rng.Intn(255))
		}
	default:
		for i := 0; i < 20; i++ {
			b[min(40, len(b)-1)+r.rng.Intn(len(b)-min(40, len(b)-1))] ^= byte(1 + r.rng.Intn(255))
		}
	}
	check(os.WriteFile(name, b, 0600))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (r *resRun) step(calm bool) (e Obs, problem string) {
	pi := r.rng.Intn(len(r.keys))
	k := r.keys[pi]
	ctx := mustCtx(k.p.Name)
	e = Obs{"p": pi + 1, "live": []int{}, "disturbed": false, "ok": true}
	ops := []string{"Create", "Load", "Load", "Load", "Generate", "SignOnce", "Damage", "Raw"}
	if k.sk != nil {
		ops = []string{"Sign", "Sign", "Sign", "Sign", "Sign", "Sign", "Borrow", "Precompute", "Jump", "Close", "Create", "Load", "SignOnce", "Generate"}
	}
	op := ops[r.rng.Intn(len(ops))]
	if calm && op == "Damage" {
		op = "Load"
	}
	e["op"] = op
	end := func() {}
	if !calm && op != "Damage" && r.rng.Intn(3) == 0 {
		e["disturbed"] = true
		end = r.disturb(k)
	}
	ctr := k.ctr
	if ctr != nil {
		ctr.live = []int{}
	}
	var err xmssmt.Error
	err = func() (err xmssmt.Error) {
		switch op {
		case "Create", "Load":
			c, err := xmssmt.OpenFSPrivateKeyContainer(k.path())
			if err != nil {
				return err
			}
			n := &countingCtr{PrivateKeyContainer: c}
			ctr = n
			var sk *xmssmt.PrivateKey
			if op == "Create" {
				p := ctx.Params()
				b := make([]byte, 3*p.N)
				r.rng.Read(b)
				sk, _, err = ctx.DeriveInto(n, b[:p.N], b[p.N:2*p.N], b[2*p.N:])
			} else if n.Initialized() == nil {
				n.Close()
				return cerr("no key")
			} else {
				sk, _, _, err = xmssmt.LoadPrivateKeyFrom(n)
			}
			if err != nil {
				n.Close() // (of the caller)
				return err
			}
			if n.Initialized() == nil || n.Initialized().FullHeight != ctx.Params().FullHeight {
				sk.Close()
				return cerr("another key")
			}
			k.ctr, k.sk = n, sk
			if r.rng.Intn(3) == 0 {
				sk.EnableSubTreePrecomputation()
			}
		case "Sign":
			var wg sync.WaitGroup
			for t := 1 + r.rng.Intn(3); t > 0; t-- {
				wg.Add(1)
				go func(n int) {
					defer wg.Done()
					for ; n > 0; n-- {
						k.sk.Sign([]byte("m"))
					}
				}(1 + r.rng.Intn(8))
			}
			wg.Wait()
		case "Borrow":
			return k.sk.BorrowExactly(uint32(r.rng.Intn(12)))
		case "Precompute":
			k.sk.EnableSubTreePrecomputation()
		case "Jump":
			p := ctx.Params()
			s := uint64(k.sk.SeqNo()) + uint64(r.rng.Intn(12))
			if s < p.MaxSignatureSeqNo() {
				k.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(s))
			}
		case "Close":
			return k.sk.Close()
		case "Generate":
			sk, _, err := ctx.GenerateKeyPair(k.path())
			if err != nil {
				return err
			}
			return sk.Close()
		case "SignOnce":
			_, err := xmssmt.Sign(k.path(), []byte("m"))
			return err
		case "Damage":
			r.damage(k)
		case "Raw": // just the container
			c, err := xmssmt.OpenFSPrivateKeyContainer(k.path())
			if err != nil {
				return err
			}
			n := &countingCtr{PrivateKeyContainer: c}
			ctr = n
			if p := n.Initialized(); p == nil || *p != ctx.Params() {
				return n.Close()
			}
			for i := 0; i < 12; i++ {
				a := xmssmt.SubTreeAddress{Tree: uint64(r.rng.Intn(3))}
				switch x := r.rng.Intn(8); {
				case x < 4:
					n.GetSubTree(a)
				case x < 7:
					n.DropSubTree(a)
				default:
					n.ResetCache()
				}
			}
			return n.Close()
		}
		return nil
	}()
	for t := time.Now().Add(15 * time.Second); workers() > 0 && time.Now().Before(t); {
		time.Sleep(100 * time.Microsecond)
	}
	end()
	e["ok"] = err == nil
	if err != nil {
		e["err"] = err.Error()
	}
	if ctr != nil && ctr.live != nil && (op != "Generate" && op != "SignOnce" && op != "Damage") {
		e["live"] = append([]int{}, ctr.live...)
	}
	if op == "Close" && (err == nil || e["disturbed"] == false) {
		k.ctr, k.sk = nil, nil
	}
	return r.observe(e), ""
}

func init() {
	commands["resources"] = func(cfg *Config) *Report {
		rep := NewReport()
		signal.Ignore(syscall.SIGXFSZ)
		out, err := os.Create(cfg.Str("histories", ""))
		check(err)
		defer out.Close()
		var all []fileParams
		readLines(cfg.Str("params", ""), func(b []byte) {
			var p fileParams
			check(json.Unmarshal(b, &p))
			all = append(all, p)
		})
		deadline := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
		n, ops := 0, 0
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(1 << 30)
		prog := newProgress(0)
		defer prog.close()
		for ; n < cfg.Int("max", 100000) && time.Now().Before(deadline); n++ {
			rng := rand.New(rand.NewSource(cfg.Seed*1000003 + int64(n)))
			r := &resRun{root: filepath.Join(cfg.Scratch, fmt.Sprint("r", n)), rng: rng}
			ev := []Obs{}
			prog.begin()
			runtime.GC() // closes what was forgotten: not during a history
			pr := guarded(func() string {
				paths := []fileParams{}
				for i := 0; i < 2; i++ {
					p := all[rng.Intn(len(all))]
					paths = append(paths, p)
					k := &resKey{p: p, dir: filepath.Join(r.root, fmt.Sprint("k", i))}
					mkdir(k.dir)
					r.keys = append(r.keys, k)
				}
				r.observe(Obs{})
				calm := rng.Intn(2) == 0
				for i := 0; i < 40; i++ {
					e, pr := r.step(calm)
					prog.add(e)
					ev = append(ev, e)
					if pr != "" {
						return pr
					}
				}
				for i, k := range r.keys {
					if k.sk != nil {
						k.ctr.live = []int{}
						err := k.sk.Close()
						e := Obs{"p": i + 1, "live": k.ctr.live, "disturbed": false, "ok": err == nil, "op": "Close"}
						k.ctr, k.sk = nil, nil
						ev = append(ev, r.observe(e))
					}
				}
				b, err := json.Marshal(Obs{"paths": paths, "ev": ev})
				check(err)
				fmt.Fprintf(out, "%s\n", b)
				return ""
			}, time.Minute, nil)
			ops += len(ev)
			os.RemoveAll(r.root)
			if pr != "" {
				rep.Violations = append(rep.Violations, Violation{What: pr, Replay: map[string]interface{}{"history": ev}})
				break
			}
		}
		rep.Stats["histories"] = n
		rep.Stats["operations"] = ops
		return rep
	}
}
