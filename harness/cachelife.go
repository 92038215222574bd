package main

// C08: a key with a cache in any state.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

// What a key is with a fresh cache.
type cacheKey struct {
	ctx   *xmssmt.Context
	seeds [3][]byte
	pk    []byte
	mux   sync.Mutex
	ref   map[uint64][]byte
	trees map[xmssmt.SubTreeAddress][]byte // genuine contents of the cache
}

func newCacheKey(alg string, rng *rand.Rand) *cacheKey {
	k := &cacheKey{ctx: mustCtx(alg), ref: map[uint64][]byte{}, trees: map[xmssmt.SubTreeAddress][]byte{}}
	for i := range k.seeds {
		k.seeds[i] = make([]byte, k.ctx.Params().N)
		rng.Read(k.seeds[i])
	}
	sk, pk, _ := k.fresh()
	k.pk, _ = pk.MarshalBinary()
	sk.Close()
	return k
}

func (k *cacheKey) fresh() (*xmssmt.PrivateKey, *xmssmt.PublicKey, *memDisk) {
	d := &memDisk{}
	sk, pk, err := k.ctx.DeriveInto(openMemCtr(d), k.seeds[0], k.seeds[1], k.seeds[2])
	if err != nil {
		panic(fmt.Sprintf("DeriveInto fails: %v", err))
	}
	return sk, pk, d
}

func cacheMsg(seq uint64) []byte { return []byte(fmt.Sprintf("the message with number %d", seq)) }

// The signature with this number, by a fresh cache.
func (k *cacheKey) sig(seq uint64) []byte {
	k.mux.Lock()
	defer k.mux.Unlock()
	if s, ok := k.ref[seq]; ok {
		return s
	}
	sk, pk, d := k.fresh()
	sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(seq))
	sig, err := sk.Sign(cacheMsg(seq))
	if err != nil {
		panic(fmt.Sprintf("Sign fails: %v", err))
	}
	if ok, err := pk.Verify(sig, cacheMsg(seq)); !ok {
		panic(fmt.Sprintf("signature with a fresh cache does not verify: %v", err))
	}
	b, err2 := sig.MarshalBinary()
	check(err2)
	// (its last signature makes a tree obsolete)
	for a, t := range d.cache {
		if k.trees[a] == nil {
			k.trees[a] = append([]byte{}, t...)
		}
	}
	sk.Close()
	k.ref[seq] = b
	return b
}

// The contents of the cache for each subtree, when it was generated.
func (k *cacheKey) allTrees() map[xmssmt.SubTreeAddress][]byte {
	p := k.ctx.Params()
	h := uint(p.FullHeight / p.D)
	for s := uint64(0); s < p.MaxSignatureSeqNo(); s++ {
		if s+1 < p.MaxSignatureSeqNo() && (s+1)&(1<<h-1) == 0 && h > 0 {
			// Sign drops the tree
			if s&(1<<h-1) != 0 {
				continue
			}
		}
		k.sig(s)
	}
	return k.trees
}

type cacheLife struct {
	algs    []string
	rng     *rand.Rand
	scratch string
	keys    map[string][2]*cacheKey
	k, o    *cacheKey
	gen     int
	dir     string
	sk      *xmssmt.PrivateKey
	seen    [][]byte // versions of the cache file of this key
	other   [][]byte // versions of those of other keys
	base    uint64
	cap     uint64
}

func (c *cacheLife) path() string  { return filepath.Join(c.dir, "key") }
func (c *cacheLife) cache() string { return filepath.Join(c.dir, "key.cache") }

func (c *cacheLife) newDir() string {
	c.gen++
	d := filepath.Join(c.scratch, fmt.Sprintf("g%d", c.gen))
	mkdir(d)
	return d
}

func (c *cacheLife) stop() {
	if c.sk != nil {
		c.sk.Close()
		c.sk = nil
	}
}

func (c *cacheLife) Cleanup() {
	c.stop()
	os.RemoveAll(c.scratch)
}

func (c *cacheLife) note() {
	if b, err := os.ReadFile(c.cache()); err == nil {
		if len(c.seen) < 20 {
			c.seen = append(c.seen, b)
		} else {
			c.seen[c.rng.Intn(20)] = b
		}
	}
}

func (c *cacheLife) Reset() {
	c.stop()
	if len(c.seen) > 0 {
		c.other = append(c.other, c.seen[c.rng.Intn(len(c.seen))])
		if len(c.other) > 8 {
			c.other = c.other[1:]
		}
	}
	c.seen = nil
	os.RemoveAll(c.scratch)
	c.dir = c.newDir()
	alg := c.algs[c.rng.Intn(len(c.algs))]
	if c.keys == nil {
		c.keys = map[string][2]*cacheKey{}
	}
	if _, ok := c.keys[alg]; !ok {
		c.keys[alg] = [2]*cacheKey{newCacheKey(alg, c.rng), newCacheKey(alg, c.rng)}
	}
	ks := c.keys[alg]
	i := c.rng.Intn(2)
	c.k, c.o = ks[i], ks[1-i]
	var err xmssmt.Error
	c.sk, _, err = c.k.ctx.Derive(c.path(), c.k.seeds[0], c.k.seeds[1], c.k.seeds[2])
	if err != nil {
		panic(fmt.Sprintf("Derive fails: %v", err))
	}
	max := maxSeqNo(c.k.ctx)
	c.base = 0
	if max > c.cap {
		c.base = max - c.cap
	}
	if c.base != 0 {
		c.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(c.base))
		if err := c.sk.Close(); err != nil {
			panic(fmt.Sprintf("Close fails: %v", err))
		}
		if _, pr := c.load(); pr != "" {
			panic(pr)
		}
	}
}

func (c *cacheLife) load() (Obs, string) {
	sk, pk, _, err := xmssmt.LoadPrivateKey(c.path())
	if err != nil {
		return Obs{"ok": false, "err": err.Error()}, ""
	}
	c.sk = sk
	b, err2 := pk.MarshalBinary()
	return Obs{"ok": true, "next": int64(uint64(sk.SeqNo()) - c.base), "right": err2 == nil && bytes.Equal(b, c.k.pk)}, ""
}

func (c *cacheLife) Do(a Act) (Obs, string) {
	switch a.Op() {
	case "Sign":
		return c.sign()
	case "Skip":
		c.sk.DangerousSetSeqNo(c.sk.SeqNo() + xmssmt.SignatureSeqNo(a.Int("d")))
		return Obs{"ok": true}, ""
	case "Precompute":
		c.sk.EnableSubTreePrecomputation()
		return Obs{"ok": true}, ""
	case "Close":
		c.note()
		err := c.sk.Close()
		c.sk = nil
		if err != nil {
			return Obs{"ok": false, "err": err.Error()}, ""
		}
		return Obs{"ok": true}, ""
	case "Crash":
		c.note()
		d := c.newDir()
		copyDir(c.dir, d)
		c.stop()
		os.RemoveAll(c.dir)
		c.dir = d
		return Obs{"ok": true}, ""
	case "Load":
		return c.load()
	case "CrashIn":
		return c.crashIn(a.Str("during"), a.Str("how"))
	case "Damage":
		c.note()
		c.damage(a.Str("kind"))
		return Obs{"ok": true}, ""
	}
	panic("harness: unknown action " + a.Op())
}

func (c *cacheLife) sign() (Obs, string) {
	seq := uint64(c.sk.SeqNo())
	sig, err := c.sk.Sign(cacheMsg(seq))
	if err != nil {
		return Obs{"ok": false, "err": err.Error()}, ""
	}
	b, err2 := sig.MarshalBinary()
	return Obs{"ok": true, "seq": int64(uint64(sig.SeqNo()) - c.base), "right": err2 == nil && bytes.Equal(b, c.k.sig(seq))}, ""
}

// Performs the operation while recording the states the files are in.
func (c *cacheLife) crashIn(op, how string) (Obs, string) {
	type version struct{ key, cache []byte }
	var vs []version
	read := func() {
		var v version
		v.key, _ = os.ReadFile(c.path())
		v.cache, _ = os.ReadFile(c.cache())
		if len(vs) > 0 && bytes.Equal(vs[len(vs)-1].cache, v.cache) && bytes.Equal(vs[len(vs)-1].key, v.key) {
			return
		}
		if len(vs) < 60 {
			vs = append(vs, v)
		}
	}
	read()
	done := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-done:
				return
			default:
				read()
			}
		}
	}()
	var o Obs
	pr := ""
	switch op {
	case "Sign":
		o, pr = c.sign()
		if pr == "" && o["ok"] != true {
			pr = fmt.Sprintf("Sign fails: %v", o["err"])
		}
		if pr == "" && o["right"] != true {
			pr = "wrong signature"
		}
	case "Load":
		o, pr = c.load()
		if pr == "" && (o["ok"] != true || o["right"] != true) {
			pr = fmt.Sprintf("Load fails: %v", o)
		}
	case "Close":
		if err := c.sk.Close(); err != nil {
			pr = fmt.Sprintf("Close fails: %v", err)
		}
		c.sk = nil
	}
	close(done)
	wg.Wait()
	read()
	if pr != "" {
		return nil, pr
	}
	v := vs[c.rng.Intn(len(vs))]
	w := vs[c.rng.Intn(len(vs))]
	cache := v.cache
	switch how {
	case "blocks":
		cache = c.mix(v.cache, w.cache)
	case "zeros":
		cache = c.mix(v.cache, make([]byte, len(v.cache)))
	}
	d := c.newDir()
	old := c.dir
	c.dir = d
	check(os.WriteFile(c.path(), v.key, 0600))
	if v.cache != nil {
		check(os.WriteFile(c.cache(), cache, 0600))
	}
	c.stop()
	os.RemoveAll(old)
	return Obs{"ok": true}, ""
}

// Each block is of either; the length is that of either.
func (c *cacheLife) mix(a, b []byte) []byte {
	bs := []int{4096, 4096, 512, 64, 8}[c.rng.Intn(5)]
	r := append([]byte{}, a...)
	for o := 0; o < len(r); o += bs {
		if c.rng.Intn(2) == 0 {
			for i := o; i < o+bs && i < len(r); i++ {
				if i < len(b) {
					r[i] = b[i]
				} else {
					r[i] = 0
				}
			}
		}
	}
	if len(b) > len(a) && c.rng.Intn(2) == 0 {
		r = append(r, b[len(a):]...)
	}
	return r
}

// Positions which are not padding
func used(b []byte) []int {
	ret := []int{}
	last := -1000
	for i := range b {
		if b[i] != 0 {
			for j := i; j > last && j >= i-16 && j >= 0; j-- {
				_ = j
			}
			from := i - 16
			if from <= last {
				from = last + 1
			}
			if from < 0 {
				from = 0
			}
			for j := from; j <= i; j++ {
				ret = append(ret, j)
			}
			last = i
		}
	}
	return ret
}

func (c *cacheLife) damage(kind string) {
	b, err := os.ReadFile(c.cache())
	if err != nil {
		b = nil
		if len(c.seen) > 0 {
			b = append([]byte{}, c.seen[c.rng.Intn(len(c.seen))]...)
		}
	}
	orig := append([]byte{}, b...)
	u := used(b)
	pos := func() int {
		if len(u) == 0 {
			return 0
		}
		return u[c.rng.Intn(len(u))]
	}
	switch kind {
	case "absent":
		os.Remove(c.cache())
		return
	case "empty":
		b = nil
	case "truncate":
		if len(b) > 0 {
			if c.rng.Intn(2) == 0 {
				b = b[:c.rng.Intn(len(b))]
			} else {
				b = b[:pos()]
			}
		}
	case "truncateblock":
		b = b[:c.rng.Intn(len(b)/4096+1)*4096]
	case "extend":
		x := make([]byte, c.rng.Intn(3*4096))
		c.rng.Read(x)
		b = append(b, x...)
	case "flip":
		if len(b) > 0 {
			b[pos()] ^= 1 << uint(c.rng.Intn(8))
		}
	case "flips":
		for i := 0; i < 1+c.rng.Intn(30) && len(b) > 0; i++ {
			b[pos()] ^= byte(1 + c.rng.Intn(255))
		}
	case "header":
		// the fields in the beginning
		for i := 0; i <= c.rng.Intn(3) && len(b) > 0; i++ {
			j := c.rng.Intn(24)
			if j < len(b) {
				b[j] = []byte{0, 1, 2, 0x10, 0x20, 0x40, 0x80, 0xff, byte(c.rng.Intn(256))}[c.rng.Intn(9)]
			}
		}
	case "slotheader":
		n := len(b) / 4096
		if n > 1 {
			o := (1 + c.rng.Intn(n-1)) * 4096
			for i := 0; i <= c.rng.Intn(3); i++ {
				b[o+c.rng.Intn(13)] = []byte{0, 0, 1, 2, 3, 0x80, 0xff, byte(c.rng.Intn(256))}[c.rng.Intn(8)]
			}
		}
	case "zeroblock", "randblock":
		if n := len(b) / 512; n > 0 {
			o := c.rng.Intn(n) * 512
			l := []int{512, 4096, 1024}[c.rng.Intn(3)]
			for i := o; i < o+l && i < len(b); i++ {
				b[i] = 0
				if kind == "randblock" {
					b[i] = byte(c.rng.Intn(256))
				}
			}
		}
	case "random":
		x := make([]byte, len(b))
		c.rng.Read(x)
		copy(x, b[:c.rng.Intn(len(b)+1)])
		b = x
	case "swap":
		// (parts of) two pages
		if n := len(b) / 4096; n > 2 {
			i, j := 1+c.rng.Intn(n-1), 1+c.rng.Intn(n-1)
			from := []int{0, 0, 13}[c.rng.Intn(3)]
			l := []int{4096 - 13, 13, 512}[c.rng.Intn(3)]
			x := append([]byte{}, b[i*4096+from:i*4096+from+l]...)
			copy(b[i*4096+from:], b[j*4096+from:j*4096+from+l])
			if c.rng.Intn(2) == 0 {
				copy(b[j*4096+from:], x)
			}
		}
	case "earlier":
		if len(c.seen) > 0 {
			b = c.seen[c.rng.Intn(len(c.seen))]
		}
	case "mixearlier":
		if len(c.seen) > 0 {
			b = c.mix(b, c.seen[c.rng.Intn(len(c.seen))])
		}
	case "otherkey", "mixother":
		// the same subtrees of another key
		x := c.otherCache()
		if kind == "otherkey" {
			b = x
		} else {
			b = c.mix(b, x)
		}
	case "anykey":
		if len(c.other) > 0 {
			b = c.other[c.rng.Intn(len(c.other))]
		}
	default:
		panic("harness: unknown damage " + kind)
	}
	_ = orig
	check(os.WriteFile(c.cache(), b, 0600))
}

func (c *cacheLife) otherCache() []byte {
	d := c.newDir()
	defer os.RemoveAll(d)
	p := filepath.Join(d, "key")
	sk, _, err := c.o.ctx.Derive(p, c.o.seeds[0], c.o.seeds[1], c.o.seeds[2])
	if err != nil {
		panic(fmt.Sprintf("Derive fails: %v", err))
	}
	if kb, err := os.ReadFile(c.path()); err == nil && len(kb) > 0 {
		if sk2, _, _, err := loadSeq(kb, d); err == nil {
			sk.DangerousSetSeqNo(sk2)
		}
	}
	sk.Sign([]byte("x"))
	sk.Close()
	b, err2 := os.ReadFile(p + ".cache")
	check(err2)
	return b
}

// The next number according to a key file
func loadSeq(kb []byte, d string) (xmssmt.SignatureSeqNo, uint32, *xmssmt.Params, error) {
	p := filepath.Join(d, "probe")
	check(os.WriteFile(p, kb, 0600))
	ctr, err := xmssmt.OpenFSPrivateKeyContainer(p)
	if err != nil {
		return 0, 0, nil, err
	}
	defer ctr.Close()
	s, l, err := ctr.GetSeqNo()
	if err != nil {
		return 0, 0, nil, err
	}
	return s, l, ctr.Initialized(), nil
}

// Loads the key and makes all its signatures; in between it is reloaded.
func (k *cacheKey) usesRight(open func() (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error), from uint64, n int, rng *rand.Rand) (problem string) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(string); ok && strings.HasPrefix(s, "harness: ") {
				panic(e)
			}
			problem = fmt.Sprintf("panic: %v", e)
		}
	}()
	max := maxSeqNo(k.ctx)
	again := rng.Intn(n + 1)
	pre := rng.Intn(3) == 0
	sk, pk, err := open()
	if err != nil {
		return "does not load: " + err.Error()
	}
	for i := 0; ; i++ {
		b, _ := pk.MarshalBinary()
		if !bytes.Equal(b, k.pk) {
			sk.Close()
			return "has another public key"
		}
		if pre {
			sk.EnableSubTreePrecomputation()
		}
		for ; n > 0; n-- {
			if n == again && i == 0 {
				break
			}
			s := uint64(sk.SeqNo())
			if s != from {
				sk.Close()
				return fmt.Sprintf("the next number is %d instead of %d", s, from)
			}
			if s >= max {
				break
			}
			sig, err := sk.Sign(cacheMsg(s))
			if err != nil {
				sk.Close()
				return fmt.Sprintf("Sign %d fails: %v", s, err)
			}
			b, _ := sig.MarshalBinary()
			if !bytes.Equal(b, k.sig(s)) {
				sk.Close()
				return fmt.Sprintf("signature %d is another than with a fresh cache", s)
			}
			from++
		}
		if err := sk.Close(); err != nil {
			return "Close fails: " + err.Error()
		}
		if i == 1 || n == 0 {
			return ""
		}
		sk, pk, err = open()
		if err != nil {
			return "does not load again: " + err.Error()
		}
	}
}

var cacheDamages = []string{"absent"}

func init() {
	commands["cachelife"] = func(cfg *Config) *Report {
		rep := NewReport()
		l := loadLTS(cfg.Str("lts", ""))
		mk := func(w int) Adapter {
			return &cacheLife{
				algs: pool(cfg), rng: rand.New(rand.NewSource(cfg.Seed*177 + int64(w))),
				scratch: filepath.Join(cfg.Scratch, fmt.Sprintf("w%d", w)),
				cap:     uint64(cfg.Int("cap", 3)),
			}
		}
		res := explore(l, mk, exploreOpts{
			Budget: time.Duration(cfg.Budget * float64(time.Second)), Workers: cfg.Workers,
			MaxLen: cfg.Int("maxlen", 40), Seed: cfg.Seed, Name: "cachelife", Full: true,
		})
		fillReport(rep, res)
		return rep
	}

	// Every byte of a cache is changed.
	commands["cacheflips"] = func(cfg *Config) *Report {
		rep := NewReport()
		type job struct {
			k          *cacheKey
			key, cache []byte
			from       uint64
			pos        int
			xor        byte
			trunc      bool
			alg        string
		}
		var jobs, first []job
		rng := rand.New(rand.NewSource(cfg.Seed))
		for ai, alg := range pool(cfg) {
			k := newCacheKey(alg, rng)
			max := maxSeqNo(k.ctx)
			starts := []uint64{0, max / 2}
			for _, st := range starts {
				d := filepath.Join(cfg.Scratch, fmt.Sprintf("a%d-%d", ai, st))
				mkdir(d)
				p := filepath.Join(d, "key")
				sk, _, err := k.ctx.Derive(p, k.seeds[0], k.seeds[1], k.seeds[2])
				check2(err)
				if st != 0 {
					sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(st))
				}
				if st == 0 {
					sk.EnableSubTreePrecomputation()
				}
				if _, err := sk.Sign([]byte("x")); err != nil {
					panic(fmt.Sprintf("Sign fails: %v", err))
				}
				check2(sk.Close())
				kb, err2 := os.ReadFile(p)
				check(err2)
				cb, err2 := os.ReadFile(p + ".cache")
				check(err2)
				js := []job{}
				for _, i := range used(cb) {
					js = append(js, job{k, kb, cb, st + 1, i, byte(1 << uint(rng.Intn(8))), false, alg})
					if cfg.Tier == "thorough" || i < 32 {
						for b := 0; b < 8; b++ {
							js = append(js, job{k, kb, cb, st + 1, i, 1 << uint(b), false, alg})
						}
						js = append(js, job{k, kb, cb, st + 1, i, byte(rng.Intn(255) + 1), false, alg})
					}
					if i < 64 || i%37 == 0 || i%4096 < 32 {
						js = append(js, job{k, kb, cb, st + 1, i, 0, true, alg})
					}
				}
				rng.Shuffle(len(js), func(i, j int) { js[i], js[j] = js[j], js[i] })
				if only := cfg.Int("only", 0); ai >= cfg.Int("exhaustive", 1000) && len(js) > only {
					js = js[:only]
				}
				jobs = append(jobs, js...)
				for i := 0; i <= len(cb); i += 512 {
					first = append(first, job{k, kb, cb, st + 1, i, 0, true, alg})
					if i != 0 && rng.Intn(2) == 0 {
						first = append(first, job{k, kb, cb, st + 1, i - 1 - rng.Intn(511), 0, true, alg})
					}
				}
			}
			for s := uint64(0); s < max && s < 16; s++ {
				k.sig(s)
			}
		}
		rng.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		jobs = append(first, jobs...)
		var done int64
		parallel(cfg, len(jobs), func(w, i int, rng *rand.Rand, prog *progress) string {
			j := jobs[i]
			d := filepath.Join(cfg.Scratch, fmt.Sprintf("w%d", w))
			os.RemoveAll(d)
			mkdir(d)
			p := filepath.Join(d, "key")
			b := append([]byte{}, j.cache...)
			if j.trunc {
				b = b[:j.pos]
			} else {
				b[j.pos] ^= j.xor
			}
			what := fmt.Sprintf("%s at %d with byte %d of the cache changed by %#x (truncated: %v)", j.alg, j.from, j.pos, j.xor, j.trunc)
			prog.begin()
			prog.add(what)
			check(os.WriteFile(p, j.key, 0600))
			check(os.WriteFile(p+".cache", b, 0600))
			pr := j.k.usesRight(func() (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
				sk, pk, _, err := xmssmt.LoadPrivateKey(p)
				return sk, pk, err
			}, j.from, cfg.Int("sigs", 8), rng)
			atomic.AddInt64(&done, 1)
			if pr != "" {
				return "key " + pr + ": " + what
			}
			return ""
		}, rep)
		rep.Stats["jobs"] = len(jobs)
		rep.Stats["done"] = done
		return rep
	}

	// Caches whose slots are as SubTreeCache.tla says.
	commands["cachestates"] = func(cfg *Config) *Report {
		rep := NewReport()
		var slots []map[string]interface{}
		for _, s := range cfg.Args["slots"].([]interface{}) {
			slots = append(slots, s.(map[string]interface{}))
		}
		rng := rand.New(rand.NewSource(cfg.Seed))
		algs := pool(cfg)
		type pair struct{ me, other *cacheKey }
		ks := []pair{}
		for _, a := range algs {
			p := pair{newCacheKey(a, rng), newCacheKey(a, rng)}
			p.me.allTrees()
			p.other.allTrees()
			ks = append(ks, p)
		}
		var done int64
		total := cfg.Int("count", 1000)
		if total < len(slots)*len(algs) {
			total = len(slots) * len(algs)
		}
		parallel(cfg, total, func(w, i int, rng *rand.Rand, prog *progress) string {
			kp := ks[i%len(ks)]
			me := kp.me
			p := me.ctx.Params()
			// Which trees are meant?
			all := []xmssmt.SubTreeAddress{}
			for a := range me.trees {
				all = append(all, a)
			}
			sort.Slice(all, func(i, j int) bool {
				return all[i].Layer > all[j].Layer || all[i].Layer == all[j].Layer && all[i].Tree < all[j].Tree
			})
			name := map[string]xmssmt.SubTreeAddress{"root": all[0]}
			rest := append([]xmssmt.SubTreeAddress{}, all[1:]...)
			rng.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
			if len(rest) == 0 {
				rest = append(rest, all[0])
			}
			name["a"] = rest[0]
			name["b"] = rest[len(rest)-1]
			if rng.Intn(3) == 0 {
				name["root"], name["a"] = name["a"], name["root"]
			}
			ts, ws := int(p.BareSubTreeSize()), int(p.WotsSignatureSize())
			part := func(content string, from, to int) []byte {
				x := strings.SplitN(content, ":", 2)
				switch x[0] {
				case "me":
					return me.trees[name[x[1]]][from:to]
				case "other":
					return kp.other.trees[name[x[1]]][from:to]
				}
				b := make([]byte, to-from)
				if rng.Intn(2) == 0 {
					rng.Read(b)
				}
				return b
			}
			cache := map[xmssmt.SubTreeAddress][]byte{}
			desc := []interface{}{}
			put := func(s map[string]interface{}) {
				a := name[s["a"].(string)]
				t, wt := s["t"].(string), s["w"].(string)
				size := p.CachedSubTreeSize()
				buf := make([]byte, 0, size)
				buf = append(buf, part(t, 0, ts)...)
				buf = append(buf, part(wt, ts, ts+ws)...)
				switch s["sk"].(string) {
				case "x":
					b := make([]byte, size-ts-ws)
					if rng.Intn(2) == 0 {
						rng.Read(b)
					}
					buf = append(buf, b...)
				default:
					buf = append(buf, part(s["sk"].(string)+":"+s["sa"].(string), ts+ws, size)...)
				}
				cache[a] = buf
				desc = append(desc, s)
			}
			put(slots[i/len(ks)%len(slots)])
			for j := rng.Intn(3); j > 0; j-- {
				s := slots[rng.Intn(len(slots))]
				if _, ok := cache[name[s["a"].(string)]]; !ok {
					put(s)
				}
			}
			// ... and genuine ones
			for _, a := range all {
				if _, ok := cache[a]; !ok && rng.Intn(3) == 0 {
					cache[a] = append([]byte{}, me.trees[a]...)
				}
			}
			what := fmt.Sprintf("%s, slots %v", algs[i%len(ks)], desc)
			prog.begin()
			prog.add(what)
			max := maxSeqNo(me.ctx)
			from := uint64(0)
			if rng.Intn(2) == 0 {
				from = uint64(rng.Int63n(int64(max)))
			}
			n := 4
			if max < 8 {
				n = 8
			}
			var pr string
			if rng.Intn(4) != 0 {
				sk, _, disk := me.fresh()
				sk.Close()
				disk.cache = cache
				disk.seqNo = xmssmt.SignatureSeqNo(from)
				pr = me.usesRight(func() (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
					sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(openMemCtr(disk))
					return sk, pk, err
				}, from, n, rng)
			} else {
				d := filepath.Join(cfg.Scratch, fmt.Sprintf("s%d", w))
				os.RemoveAll(d)
				mkdir(d)
				path := filepath.Join(d, "key")
				sk, _, err := me.ctx.Derive(path, me.seeds[0], me.seeds[1], me.seeds[2])
				check2(err)
				sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(from))
				check2(sk.Close())
				ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
				check2(err)
				check2(ctr.ResetCache())
				for a, b := range cache {
					buf, _, err := ctr.GetSubTree(a)
					check2(err)
					copy(buf, b)
				}
				check2(ctr.Close())
				pr = me.usesRight(func() (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
					sk, pk, _, err := xmssmt.LoadPrivateKey(path)
					return sk, pk, err
				}, from, n, rng)
			}
			atomic.AddInt64(&done, 1)
			if pr != "" {
				return "key " + pr + ": " + what
			}
			return ""
		}, rep)
		rep.Stats["jobs"] = total
		rep.Stats["done"] = done
		return rep
	}
}

// Runs the jobs until the budget is used up; reports up to three problems.
func parallel(cfg *Config, n int, do func(w, i int, rng *rand.Rand, prog *progress) string, rep *Report) {
	deadline := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
	var next int64 = -1
	var mux sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < cfg.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			prog := newProgress(w)
			defer prog.close()
			for time.Now().Before(deadline) {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				rng := rand.New(rand.NewSource(cfg.Seed*1000003 + int64(i)))
				if pr := do(w, i, rng, prog); pr != "" {
					mux.Lock()
					if len(rep.Violations) < 3 {
						rep.Violations = append(rep.Violations, Violation{What: pr, Replay: map[string]interface{}{"job": i, "seed": cfg.Seed}})
					}
					stop := len(rep.Violations) >= 3
					mux.Unlock()
					if stop {
						return
					}
				}
			}
		}(w)
	}
	wg.Wait()
}

var _ = binary.BigEndian
