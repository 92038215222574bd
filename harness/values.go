package main

// Walks Values.tla: keys, public keys, signatures and buffers are independent
// values.

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type values struct {
	backend string
	alg     string
	precomp bool
	pks     []string
	sgs     []string
	maxN    int
	rng     *rand.Rand
	scratch string

	gen   int
	ctx   *xmssmt.Context
	seeds [3][]byte // as given to Derive
	msgs  [][]byte  // message of number i; the last one is that of key 2

	// the truth, from keys which nobody interferes with
	pkB  [3][]byte // by key
	sigB map[int][]byte

	disk   *memDisk
	sk     *xmssmt.PrivateKey
	closed bool
	sk2    *xmssmt.PrivateKey
	pk     map[string]*xmssmt.PublicKey
	sg     map[string]*xmssmt.Signature
	buf    []byte
	want   []byte // a copy of what buf has to be
	n      int
}

func (k *values) path() string { return filepath.Join(k.scratch, fmt.Sprintf("g%d", k.gen), "key") }

func (k *values) Cleanup() {
	k.drop()
	os.RemoveAll(k.scratch)
}

func (k *values) drop() {
	if k.sk != nil && !k.closed {
		k.sk.Close()
	}
	if k.sk2 != nil {
		k.sk2.Close()
	}
	k.sk, k.sk2 = nil, nil
}

func (k *values) random(n int) []byte {
	b := make([]byte, n)
	k.rng.Read(b)
	return b
}

func dup(b []byte) []byte { return append([]byte{}, b...) }

func (k *values) Reset() {
	k.drop()
	os.RemoveAll(k.scratch)
	k.gen++
	check(os.MkdirAll(filepath.Dir(k.path()), 0755))
	k.ctx = mustCtx(k.alg)
	nb := int(k.ctx.Params().N)
	k.pk = map[string]*xmssmt.PublicKey{}
	k.sg = map[string]*xmssmt.Signature{}
	k.sigB = map[int][]byte{}
	k.msgs = nil
	k.n = 0
	k.closed = false
	for i := 0; i <= k.maxN; i++ {
		k.msgs = append(k.msgs, k.random(k.rng.Intn(100)))
	}
	for i := range k.seeds {
		k.seeds[i] = k.random(nb)
	}
	// Key 1 as it should be
	ref, rpk, err := mustCtx(k.alg).DeriveInto(openMemCtr(&memDisk{}), dup(k.seeds[0]), dup(k.seeds[1]), dup(k.seeds[2]))
	if err != nil {
		panic(fmt.Sprintf("DeriveInto fails: %v", err))
	}
	k.pkB[1] = dup(mustMarshal(rpk))
	for i := 0; i < k.maxN; i++ {
		s, err := ref.Sign(k.msgs[i])
		if err != nil {
			panic(fmt.Sprintf("Sign fails: %v", err))
		}
		k.sigB[i] = dup(mustMarshal(s))
	}
	ref.Close()
	// Key 2 shares its Context with the real key 1
	var pk2 *xmssmt.PublicKey
	k.sk2, pk2, err = k.ctx.DeriveInto(openMemCtr(&memDisk{}), k.random(nb), k.random(nb), k.random(nb))
	if err != nil {
		panic(fmt.Sprintf("DeriveInto fails: %v", err))
	}
	k.pkB[2] = dup(mustMarshal(pk2))
	s, err := k.sk2.Sign(k.msgs[k.maxN])
	if err != nil {
		panic(fmt.Sprintf("Sign fails: %v", err))
	}
	k.sigB[-2] = dup(mustMarshal(s))
	k.setBuf(k.random(20))
	k.junk(k.buf)
}

func mustMarshal(m interface{ MarshalBinary() ([]byte, error) }) []byte {
	b, err := m.MarshalBinary()
	if err != nil {
		panic(fmt.Sprintf("MarshalBinary fails: %v", err))
	}
	return b
}

func (k *values) setBuf(b []byte) {
	k.buf, k.want = b, dup(b)
}

// Overwrites b with bytes which are no public key nor signature.
func (k *values) junk(b []byte) {
	k.rng.Read(b)
	for i := 0; i < 4 && i < len(b); i++ {
		b[i] = 0xff
	}
	if len(k.buf) > 0 && &b[0] == &k.buf[0] {
		k.want = dup(b)
	}
}

func (k *values) pkId(pk *xmssmt.PublicKey) int {
	if pk == nil {
		return 0
	}
	b := mustMarshal(pk)
	for i := 1; i < 3; i++ {
		if bytes.Equal(b, k.pkB[i]) {
			return i
		}
	}
	return 99 // something else
}

func (k *values) sigId(s *xmssmt.Signature) int {
	if s == nil {
		return -1
	}
	b := mustMarshal(s)
	for i, v := range k.sigB {
		if bytes.Equal(b, v) {
			return i
		}
	}
	return 99
}

func (k *values) msgOf(id int) []byte {
	if id == -2 {
		return k.msgs[k.maxN]
	}
	if id >= 0 && id < k.maxN {
		return k.msgs[id]
	}
	return nil
}

func (k *values) obs(ok bool) (Obs, string) {
	o := Obs{"ok": ok}
	pks, sgs, valid := map[string]int{}, map[string]int{}, map[string]map[string]bool{}
	for _, p := range k.pks {
		pks[p] = k.pkId(k.pk[p])
	}
	for _, g := range k.sgs {
		sgs[g] = k.sigId(k.sg[g])
	}
	for _, p := range k.pks {
		valid[p] = map[string]bool{}
		for _, g := range k.sgs {
			valid[p][g] = false
			if k.pk[p] != nil && k.sg[g] != nil {
				valid[p][g], _ = k.pk[p].Verify(k.sg[g], k.msgOf(sgs[g]))
			}
		}
	}
	own, next := 0, 0
	if k.sk != nil {
		own = k.pkId(k.sk.PublicKey())
		next = int(k.sk.SeqNo())
	}
	o["pk"], o["sg"], o["valid"], o["own"], o["next"] = pks, sgs, valid, own, next
	// The buffer last, as all of the above could have changed it
	if !bytes.Equal(k.buf, k.want) {
		return nil, "a buffer of the caller was changed by something which was not given this buffer"
	}
	kind, v := "junk", 0
	for i := 1; i < 3; i++ {
		if bytes.Equal(k.buf, k.pkB[i]) {
			kind, v = "pk", i
		}
		if len(k.buf) == len(k.pkB[i])-1 && bytes.Equal(k.buf, k.pkB[i][:len(k.buf)]) {
			kind = "short"
		}
	}
	for i, b := range k.sigB {
		if bytes.Equal(k.buf, b) {
			kind, v = "sig", i
		}
		if len(k.buf) == len(b)-1 && bytes.Equal(k.buf, b[:len(k.buf)]) {
			kind = "short"
		}
	}
	o["buf"] = map[string]interface{}{"kind": kind, "v": v}
	return o, ""
}

func (k *values) sign(sk *xmssmt.PrivateKey, msg []byte) (*xmssmt.Signature, error) {
	m := dup(msg)
	s, err := sk.Sign(m)
	k.junkAny(m)
	if err != nil {
		return nil, err
	}
	return s, nil
}

func (k *values) junkAny(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func (k *values) Do(a Act) (Obs, string) {
	switch a.Op() {
	case "Derive":
		var err xmssmt.Error
		var pk *xmssmt.PublicKey
		if k.backend == "mem" {
			k.disk = &memDisk{}
			k.sk, pk, err = k.ctx.DeriveInto(openMemCtr(k.disk), k.seeds[0], k.seeds[1], k.seeds[2])
		} else {
			k.sk, pk, err = k.ctx.Derive(k.path(), k.seeds[0], k.seeds[1], k.seeds[2])
		}
		if err != nil {
			return nil, "Derive fails: " + err.Error()
		}
		k.pk[a.Str("p")] = pk
		if k.precomp {
			k.sk.EnableSubTreePrecomputation()
		}
	case "Wipe":
		for _, s := range k.seeds {
			for i := range s {
				s[i] = 0
			}
		}
	case "Sign":
		s, err := k.sign(k.sk, k.msgs[k.n])
		if err != nil {
			return nil, "Sign fails: " + err.Error()
		}
		k.n++
		k.sg[a.Str("g")] = s
	case "MarshalPk":
		pk := k.pk[a.Str("p")]
		switch a.Str("via") {
		case "bin":
			k.setBuf(mustMarshal(pk))
		case "into":
			b := k.random(len(k.pkB[1]))
			if err := pk.WriteInto(b); err != nil {
				return nil, "WriteInto fails: " + err.Error()
			}
			k.setBuf(b)
		case "text":
			t, err := pk.MarshalText()
			if err != nil {
				return nil, "MarshalText fails: " + err.Error()
			}
			b, err := base64.StdEncoding.DecodeString(string(t))
			if err != nil {
				return nil, "MarshalText does not return base64: " + err.Error()
			}
			k.junkAny(t)
			k.setBuf(b)
		}
	case "MarshalSig":
		sg := k.sg[a.Str("g")]
		if a.Str("via") == "bin" {
			k.setBuf(mustMarshal(sg))
		} else {
			b := k.random(len(k.sigB[-2]))
			if err := sg.WriteInto(b); err != nil {
				return nil, "WriteInto fails: " + err.Error()
			}
			k.setBuf(b)
		}
	case "Scribble":
		k.junk(k.buf)
	case "Truncate":
		k.buf = k.buf[:len(k.buf)-1]
		k.want = dup(k.buf)
	case "ReceivePk":
		k.setBuf(dup(k.pkB[2]))
	case "ReceiveSig":
		k.setBuf(dup(k.sigB[-2]))
	case "UnmarshalPk":
		pk := k.pk[a.Str("p")]
		fresh := pk == nil
		if fresh {
			pk = &xmssmt.PublicKey{}
		}
		var err error
		switch a.Str("via") {
		case "bin":
			err = pk.UnmarshalBinary(k.buf)
		case "into":
			b := dup(k.buf)
			err = pk.UnmarshalBinary(b)
			k.junkAny(b)
		case "text":
			b := []byte(base64.StdEncoding.EncodeToString(k.buf))
			err = pk.UnmarshalText(b)
			k.junkAny(b)
		}
		if err == nil || !fresh {
			k.pk[a.Str("p")] = pk
		}
		return k.obs(err == nil)
	case "UnmarshalSig":
		sg := k.sg[a.Str("g")]
		fresh := sg == nil
		if fresh {
			sg = &xmssmt.Signature{}
		}
		err := sg.UnmarshalBinary(k.buf)
		if err == nil || !fresh {
			k.sg[a.Str("g")] = sg
		}
		return k.obs(err == nil)
	case "PublicKey":
		k.pk[a.Str("p")] = k.sk.PublicKey()
	case "CopyPk":
		c := *k.pk[a.Str("p")]
		k.pk[a.Str("q")] = &c
	case "CopySig":
		c := *k.sg[a.Str("g")]
		k.sg[a.Str("f")] = &c
	case "Close":
		if err := k.sk.Close(); err != nil {
			return nil, "Close fails: " + err.Error()
		}
		k.closed = true
		if k.backend == "mem" {
			// the buffers of a closed container are gone
			old := k.disk
			k.disk = k.disk.clone()
			for _, b := range old.cache {
				k.junkAny(b)
			}
			k.junkAny(old.key[:0]) // (the key itself stays: GetPrivateKey() need not return a copy)
		}
	case "Load":
		var err xmssmt.Error
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		if k.backend == "mem" {
			sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(openMemCtr(k.disk))
		} else {
			sk, pk, _, err = xmssmt.LoadPrivateKey(k.path())
		}
		if err != nil {
			return nil, "LoadPrivateKey fails: " + err.Error()
		}
		k.sk, k.closed = sk, false
		k.pk[a.Str("p")] = pk
		if k.precomp {
			k.sk.EnableSubTreePrecomputation()
		}
	case "Together":
		if pr := k.together(a.Bool("sign")); pr != "" {
			return nil, pr
		}
	default:
		panic("harness: unknown action " + a.Op())
	}
	return k.obs(true)
}

func (k *values) together(sign bool) string {
	var wg sync.WaitGroup
	var mux sync.Mutex
	problem := ""
	fail := func(f string, a ...interface{}) {
		mux.Lock()
		problem = fmt.Sprintf(f, a...)
		mux.Unlock()
	}
	start := make(chan struct{})
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fail("panic while objects are used by several goroutines: %v", e)
				}
			}()
			<-start
			f()
		}()
	}
	for i := 0; i < 3; i++ {
		run(func() {
			for _, p := range k.pks {
				pk := k.pk[p]
				if pk == nil {
					continue
				}
				pid := k.pkId(pk)
				for _, g := range k.sgs {
					sg := k.sg[g]
					if sg == nil {
						continue
					}
					sid := k.sigId(sg)
					if pid == 99 || sid == 99 {
						fail("a value changes while it is used by several goroutines")
						continue
					}
					ok, _ := pk.Verify(sg, k.msgOf(sid))
					if ok != (pid == 1 && sid >= 0 || pid == 2 && sid == -2) {
						fail("Verify is %v if it is used by several goroutines", ok)
					}
				}
			}
		})
	}
	m1, m2 := k.random(50), k.random(70)
	if sign {
		for _, m := range [][]byte{m1, m2} {
			m := m
			run(func() {
				s, err := k.sk.Sign(m)
				if err != nil {
					fail("Sign fails: %v", err)
					return
				}
				if ok, err := xmssmt.Verify(k.pkB[1], mustMarshal(s), m); !ok || err != nil {
					fail("signature made by several goroutines does not verify: %v", err)
				}
			})
		}
		k.n += 2
	}
	run(func() {
		if k.sk2.SeqNo() >= 12 {
			return
		}
		s, err := k.sk2.Sign(m2)
		if err != nil {
			fail("Sign of the other key fails: %v", err)
			return
		}
		if ok, err := xmssmt.Verify(k.pkB[2], mustMarshal(s), m2); !ok || err != nil {
			fail("signature of the other key does not verify: %v", err)
		}
	})
	close(start)
	wg.Wait()
	return problem
}

func init() {
	commands["values"] = func(cfg *Config) *Report {
		rep := NewReport()
		l := loadLTS(cfg.Str("lts", ""))
		strs := func(name string) (ret []string) {
			for _, s := range cfg.Args[name].([]interface{}) {
				ret = append(ret, s.(string))
			}
			return
		}
		algs := strs("algs")
		mk := func(w int) Adapter {
			return &values{
				backend: cfg.Str("backend", "mem"), alg: algs[w%len(algs)], precomp: w%2 == 1,
				pks: strs("pks"), sgs: strs("sgs"), maxN: cfg.Int("maxn", 2),
				rng:     rand.New(rand.NewSource(cfg.Seed*91 + int64(w))),
				scratch: filepath.Join(cfg.Scratch, fmt.Sprintf("v%d", w)),
			}
		}
		res := explore(l, mk, exploreOpts{
			Budget:  time.Duration(cfg.Budget * float64(time.Second)),
			Workers: cfg.Workers, MaxLen: cfg.Int("maxlen", 40), Seed: cfg.Seed,
			Name: cfg.Str("name", "values"), Full: cfg.Tier == "thorough",
		})
		fillReport(rep, res)
		return rep
	}
}
