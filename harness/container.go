package main

// C15: walks the real filesystem container along Container.tla.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type ctrAdapter struct {
	rng     *rand.Rand
	scratch string
	names   []string // addresses in the specification
	pool    []string // algorithms to choose from

	gen    int
	dir    string
	ctr    xmssmt.PrivateKeyContainer
	addrs  map[string]xmssmt.SubTreeAddress
	back   map[xmssmt.SubTreeAddress]string
	params map[int]xmssmt.Params // key -> parameters
	secret map[int][]byte
	scale  uint64
	key    int
	held   map[string][]byte // buffers the user has, by address
	want   map[string][]byte // what should be in there
	tag    map[string]string // what the user wrote, if anything
	n      int
}

func (c *ctrAdapter) path() string { return filepath.Join(c.dir, "key") }

func (c *ctrAdapter) newDir() string {
	c.gen++
	d := filepath.Join(c.scratch, fmt.Sprintf("g%d", c.gen))
	mkdir(d)
	return d
}

func (c *ctrAdapter) Cleanup() {
	if c.ctr != nil {
		c.ctr.Close()
	}
	os.RemoveAll(c.scratch)
}

// Addresses that differ in one field or few bits only.
func randAddr(rng *rand.Rand) xmssmt.SubTreeAddress {
	base := []uint64{0, 1, 2, 3, 255, 256, 65535, 65536, 1 << 24, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1, 1 << 63}
	return xmssmt.SubTreeAddress{
		Layer: []uint32{0, 0, 1, 2, 255, 256, 1 << 31}[rng.Intn(7)],
		Tree:  base[rng.Intn(len(base))],
	}
}

func (c *ctrAdapter) Reset() {
	if c.ctr != nil {
		c.ctr.Close()
	}
	c.ctr = nil
	os.RemoveAll(c.scratch)
	c.dir = c.newDir()
	c.addrs = map[string]xmssmt.SubTreeAddress{}
	c.back = map[xmssmt.SubTreeAddress]string{}
	for _, n := range c.names {
		a := randAddr(c.rng)
		for c.back[a] != "" {
			a = randAddr(c.rng)
			a.Tree += uint64(c.rng.Intn(len(c.names)))
		}
		c.addrs[n] = a
		c.back[a] = n
	}
	c.params = map[int]xmssmt.Params{}
	c.secret = map[int][]byte{}
	for k := 1; k <= 2; k++ {
		c.params[k] = parseParams(c.pool[c.rng.Intn(len(c.pool))])
		p := c.params[k]
		c.secret[k] = make([]byte, p.PrivateKeySize())
		c.rng.Read(c.secret[k])
	}
	c.scale = []uint64{1, 1<<16 + 1, 1 << 29}[c.rng.Intn(3)]
	c.key = 0
	c.held = map[string][]byte{}
	c.forget()
}

func (c *ctrAdapter) forget() {
	c.want = map[string][]byte{}
	c.tag = map[string]string{}
}

func (c *ctrAdapter) size() int {
	p := c.params[c.key]
	return p.CachedSubTreeSize()
}

func (c *ctrAdapter) pattern(addr, tag string) []byte {
	b := make([]byte, c.size())
	seed := int64(0)
	for _, x := range addr + "/" + tag {
		seed = seed*131 + int64(x)
	}
	rand.New(rand.NewSource(seed)).Read(b)
	return b
}

func (c *ctrAdapter) release() {
	c.held = map[string][]byte{}
}

// Every buffer the user holds should have what was written into it last.
func (c *ctrAdapter) intact() string {
	for n, b := range c.held {
		if !bytes.Equal(b, c.want[n]) {
			return fmt.Sprintf("the buffer of %v (%s) changed by itself", c.addrs[n], n)
		}
	}
	return ""
}

// What can be seen
func (c *ctrAdapter) view(o Obs) (Obs, string) {
	if c.ctr == nil {
		o["init"] = 0
		o["cacheInit"] = false
		l := map[string]bool{}
		for _, n := range c.names {
			l[n] = false
		}
		o["list"], o["has"] = l, l
		return o, c.intact()
	}
	init := 0
	if p := c.ctr.Initialized(); p != nil {
		init = -1
		key, err := c.ctr.GetPrivateKey()
		if err != nil {
			return nil, "GetPrivateKey of an initialized container: " + err.Error()
		}
		// Keys might have equal parameters, but not secrets
		for k := range c.params {
			if bytes.Equal(key, c.secret[k]) && *p == c.params[k] {
				init = k
			}
		}
		// What was returned is the caller's as well
		wipe(key)
		*p = xmssmt.Params{}
	}
	o["init"] = init
	if s, b, err := c.ctr.GetSeqNo(); err == nil {
		o["seq"], o["bor"] = unscale(uint64(s), c.scale), unscale(uint64(b), c.scale)
	} else {
		o["norec"] = true
	}
	o["cacheInit"] = c.ctr.CacheInitialized()
	has := map[string]bool{}
	list := map[string]bool{}
	for _, n := range c.names {
		has[n] = c.ctr.HasSubTree(c.addrs[n])
		list[n] = false
	}
	if l, err := c.ctr.ListSubTrees(); err == nil {
		for _, a := range l {
			n, ok := c.back[a]
			if !ok {
				return nil, fmt.Sprintf("ListSubTrees gives %v, which was never retrieved", a)
			}
			if list[n] {
				return nil, fmt.Sprintf("ListSubTrees gives %v twice", a)
			}
			list[n] = true
		}
	}
	o["has"], o["list"] = has, list
	return o, c.intact()
}

func unscale(v, scale uint64) interface{} {
	if v%scale != 0 {
		return fmt.Sprintf("%d/%d", v, scale)
	}
	return v / scale
}

func (c *ctrAdapter) get(n string) ([]byte, bool, xmssmt.Error) {
	b, exists, err := c.ctr.GetSubTree(c.addrs[n])
	if err != nil {
		return nil, false, err
	}
	if h, ok := c.held[n]; ok && len(b) > 0 && len(h) > 0 && &h[0] != &b[0] {
		// Another buffer of the same subtree should at least have the same contents
		if !bytes.Equal(h, b) {
			return b, exists, cerr("harness: two buffers for one subtree")
		}
	}
	return b, exists, nil
}

func (c *ctrAdapter) Do(a Act) (Obs, string) {
	c.n++
	if a.Bool("blocked") {
		// The new record can't be written to its temporary file.
		t := c.path() + ".tmp"
		check(os.RemoveAll(t))
		mkdir(t)
		defer os.Remove(t)
	}
	ok := func(err xmssmt.Error) (Obs, string) { return c.view(Obs{"ok": err == nil}) }
	switch a.Op() {
	case "Open":
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(c.path())
		if err != nil {
			return c.view(Obs{"ok": false, "err": err.Error()})
		}
		c.ctr = ctr
		return ok(nil)
	case "Close":
		// Closing might unmap the buffers
		c.release()
		return ok(c.ctr.Close())
	case "Kill":
		d := c.newDir()
		copyDir(c.dir, d)
		c.release()
		c.ctr.Close()
		os.RemoveAll(c.dir)
		c.dir = d
		c.ctr = nil
		return ok(nil)
	case "LoseCache":
		if c.ctr != nil {
			panic("harness: LoseCache while open")
		}
		f := c.path() + ".cache"
		switch c.rng.Intn(3) {
		case 0:
			check(os.Remove(f))
		case 1:
			check(os.Truncate(f, int64(c.rng.Intn(12))))
		case 2:
			b, err := os.ReadFile(f)
			check(err)
			b[0] ^= 1
			check(os.WriteFile(f, b, 0600))
		}
		c.forget()
		return ok(nil)
	case "Convert":
		c.convert(a.Str("f"))
		return ok(nil)
	case "Reset":
		k := a.Int("k")
		c.release()
		secret := append([]byte{}, c.secret[k]...)
		err := c.ctr.Reset(secret, c.params[k])
		wipe(secret) // the caller's slice is the caller's
		if err == nil {
			c.key = k
			c.forget()
		}
		return ok(err)
	case "ResetCache":
		c.release()
		err := c.ctr.ResetCache()
		if err == nil {
			c.forget()
		}
		return ok(err)
	case "Get":
		n := a.Str("a")
		b, exists, err := c.get(n)
		if err != nil {
			return ok(err)
		}
		if len(b) != c.size() {
			return nil, fmt.Sprintf("buffer of %d bytes instead of %d", len(b), c.size())
		}
		o := Obs{"ok": true, "exists": exists}
		if !exists {
			c.want[n] = append([]byte{}, b...)
			o["new"] = true
		} else if w, ok := c.want[n]; ok {
			if !bytes.Equal(b, w) {
				return nil, fmt.Sprintf("the contents of %v (%s) changed by themselves", c.addrs[n], n)
			}
			if c.tag[n] == "" {
				o["new"] = true // never written
			} else {
				o["content"] = c.tag[n]
			}
		}
		c.held[n] = b
		return c.view(o)
	case "Write":
		n := a.Str("a")
		b, held := c.held[n]
		if !held || c.rng.Intn(2) == 0 {
			var exists bool
			var err xmssmt.Error
			b, exists, err = c.get(n)
			if err != nil || !exists {
				return nil, fmt.Sprintf("GetSubTree on an existing subtree: %v %v", exists, err)
			}
		}
		if len(b) != c.size() {
			return nil, fmt.Sprintf("buffer of %d bytes instead of %d", len(b), c.size())
		}
		p := c.pattern(n, a.Str("t"))
		copy(b, p)
		c.held[n], c.want[n], c.tag[n] = b, p, a.Str("t")
		return ok(nil)
	case "Drop":
		n := a.Str("a")
		delete(c.held, n)
		err := c.ctr.DropSubTree(c.addrs[n])
		if err == nil {
			delete(c.want, n)
			delete(c.tag, n)
		}
		return ok(err)
	case "Borrow":
		from, err := c.ctr.BorrowSeqNos(uint32(uint64(a.Int("n")) * c.scale))
		if err != nil {
			return ok(err)
		}
		return c.view(Obs{"ok": true, "from": unscale(uint64(from), c.scale)})
	case "BorrowTooMuch":
		_, err := c.ctr.BorrowSeqNos(1<<32 - 1)
		return ok(err)
	case "SetSeqNo":
		return ok(c.ctr.SetSeqNo(xmssmt.SignatureSeqNo(uint64(a.Int("s")) * c.scale)))
	case "Query":
		_, _, err1 := c.ctr.GetSeqNo()
		_, err2 := c.ctr.GetPrivateKey()
		_, err3 := c.ctr.ListSubTrees()
		return c.view(Obs{"ok": true, "getSeqNo": err1 == nil, "getKey": err2 == nil, "listOk": err3 == nil})
	}
	panic("harness: unknown action " + a.Op())
}

// Rewrites the cache file as another version or another machine would have.
func (c *ctrAdapter) convert(f string) {
	name := c.path() + ".cache"
	buf, err := os.ReadFile(name)
	check(err)
	if len(buf) < 17 || hex.EncodeToString(buf[:8]) != "5a11d7cf4a1f6314" || buf[12] != 1 {
		return // another format than the one we know
	}
	n := int(binary.BigEndian.Uint32(buf[8:]))
	oldAl := int(binary.BigEndian.Uint32(buf[13:]))
	al := map[string]int{"v0": 4096, "zero": 4096, "8192": 8192, "16384": 16384, "65536": 65536}[f]
	entry := c.size() + 13
	pad := func(al int) int { return (entry + al - 1) / al * al }
	if oldAl%4096 != 0 || oldAl == 0 || (n > 0 && len(buf) < oldAl+(n-1)*pad(oldAl)+entry) {
		return
	}
	out := make([]byte, al+n*pad(al))
	binary.BigEndian.PutUint32(out[8:], uint32(n))
	if f == "v0" {
		m, _ := hex.DecodeString("e77957607ef79446")
		copy(out, m)
	} else {
		copy(out, buf[:8])
		out[12] = 1
		if f != "zero" {
			binary.BigEndian.PutUint32(out[13:], uint32(al))
		}
	}
	for i := 0; i < n; i++ {
		copy(out[al+i*pad(al):], buf[oldAl+i*pad(oldAl):][:entry])
	}
	check(os.WriteFile(name, out, 0600))
}

// Many subtrees at once: by symmetry every one of them behaves as the one of
// the transition system (with a single address) does.
func containerWide(cfg *Config, rep *Report, l *LTS) {
	width := cfg.Int("width", 40)
	names := []string{}
	for i := 0; i < width; i++ {
		names = append(names, fmt.Sprintf("n%d", i))
	}
	local := map[int]bool{}
	for i, a := range l.actMap {
		local[i] = Act(a).Str("a") != ""
	}
	deadline := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
	steps, runs := 0, 0
	rng := rand.New(rand.NewSource(cfg.Seed * 99))
	ad := &ctrAdapter{rng: rng, scratch: filepath.Join(cfg.Scratch, "wide"), names: names, pool: pool(cfg)}
	defer ad.Cleanup()
	for len(rep.Violations) == 0 && time.Now().Before(deadline) {
		runs++
		ad.Reset()
		cur := make([]int, width)
		for i := range cur {
			cur[i] = l.Init[0]
		}
		trace := []Obs{}
		for k := 0; k < cfg.Int("len", 300) && time.Now().Before(deadline); k++ {
			i := rng.Intn(width)
			acts := []int{}
			for a := range l.out[cur[i]] {
				// Mostly local ones
				if local[a] || rng.Intn(25) == 0 {
					acts = append(acts, a)
				}
			}
			if len(acts) == 0 {
				for a := range l.out[cur[i]] {
					acts = append(acts, a)
				}
			}
			if len(acts) == 0 {
				break
			}
			sort.Ints(acts)
			ai := acts[rng.Intn(len(acts))]
			act := Obs{}
			for n, v := range l.actMap[ai] {
				act[n] = v
			}
			if local[ai] {
				act["a"] = names[i]
			}
			trace = append(trace, act)
			var obs Obs
			pr := guarded(func() (p string) { obs, p = ad.Do(Act(act)); return }, time.Minute, ad)
			steps++
			if pr == "" {
				for j := range cur {
					one := Obs{}
					for n, v := range obs {
						one[n] = v
					}
					for _, n := range []string{"list", "has"} {
						one[n] = map[string]bool{"a": obs[n].(map[string]bool)[names[j]]}
					}
					a := ai
					if local[ai] && i != j {
						// Nothing should happen to the others
						var st struct {
							Handle string
							Sub    struct{ A string }
						}
						check(jsonUnmarshal(l.States[cur[j]], &st))
						want := st.Sub.A != "absent" && st.Handle == "open"
						if one["list"].(map[string]bool)["a"] != want || one["has"].(map[string]bool)["a"] != want {
							pr = fmt.Sprintf("presence of %v changed on an operation on %v", ad.addrs[names[j]], ad.addrs[names[i]])
						}
						continue
					}
					next := -1
					for _, s := range l.out[cur[j]][a] {
						if l.obsMatches(l.obsMap[s.obs], one) {
							next = s.dst
							l.covered[s.idx]++
						}
					}
					if next < 0 {
						pr = fmt.Sprintf("observed %v for %s, which the specification forbids in state %s", one, names[j], l.States[cur[j]])
						break
					}
					cur[j] = next
				}
			}
			if pr != "" {
				rep.Violations = append(rep.Violations, Violation{
					What:   fmt.Sprintf("with %d subtrees, on %v: %s", width, act, pr),
					Replay: map[string]interface{}{"trace": trace},
				})
				return
			}
		}
	}
	rep.Stats["steps"] = steps
	rep.Stats["runs"] = runs
	rep.Stats["samples"] = []string{fmt.Sprintf("%d subtrees at once", width)}
}

func pool(cfg *Config) []string {
	ret := []string{}
	for _, x := range cfg.Args["algs"].([]interface{}) {
		ret = append(ret, x.(string))
	}
	return ret
}

func init() {
	commands["container"] = func(cfg *Config) *Report {
		rep := NewReport()
		l := loadLTS(cfg.Str("lts", ""))
		if cfg.Bool("wide") {
			containerWide(cfg, rep, l)
			return rep
		}
		names := []string{}
		for _, x := range cfg.Args["addrs"].([]interface{}) {
			names = append(names, x.(string))
		}
		mk := func(w int) Adapter {
			return &ctrAdapter{rng: rand.New(rand.NewSource(cfg.Seed*77 + int64(w))),
				scratch: filepath.Join(cfg.Scratch, fmt.Sprintf("w%d", w)), names: names, pool: pool(cfg)}
		}
		res := explore(l, mk, exploreOpts{
			Budget: time.Duration(cfg.Budget * float64(time.Second)), Workers: cfg.Workers,
			MaxLen: 150, Seed: cfg.Seed, Name: cfg.Str("name", "container"), Full: cfg.Tier == "thorough",
		})
		fillReport(rep, res)
		return rep
	}
}

func wipe(b []byte) {
	for i := range b {
		b[i] = 0
	}
}
