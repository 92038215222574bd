package main

// Compares the real code with the interpretation of Xmss.tla: C06, C07, C17,
// parts of C11, C14 and C16.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

func (t *Tmpl) params() xmssmt.Params {
	p := xmssmt.Params{N: uint32(t.P.N), FullHeight: uint32(t.P.H), D: uint32(t.P.D), WotsW: uint16(t.P.W)}
	switch t.P.Func {
	case "SHA2":
		p.Func = xmssmt.SHA2
	case "SHAKE":
		p.Func = xmssmt.SHAKE
	case "SHAKE256":
		p.Func = xmssmt.SHAKE256
	}
	if t.P.Prf == "NIST" {
		p.Prf = xmssmt.NIST
	}
	return p
}

// vio is raised (by panic) for a violation.
type vio struct {
	what   string
	detail map[string]interface{}
}

func fail(detail map[string]interface{}, format string, a ...interface{}) {
	panic(vio{fmt.Sprintf(format, a...), detail})
}

// Runs f; a violation, or a panic of the code under test, is added to rep.
func catch(rep *Report, mux *sync.Mutex, name string, f func()) (ok bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		ok = false
		var v Violation
		switch x := r.(type) {
		case vio:
			v = Violation{What: name + ": " + x.what, Replay: x.detail}
		default:
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "harness: ") {
				mux.Lock()
				rep.Errors = append(rep.Errors, msg+"\n"+string(debug.Stack()))
				mux.Unlock()
				return
			}
			v = Violation{What: fmt.Sprintf("%s: panic: %v", name, r), Replay: map[string]interface{}{"stack": string(debug.Stack())}}
		}
		mux.Lock()
		if len(rep.Violations) < 10 {
			rep.Violations = append(rep.Violations, v)
		}
		mux.Unlock()
	}()
	f()
	return true
}

type inst struct {
	t    *Tmpl
	ctx  *xmssmt.Context
	ref  *refKey
	rng  *rand.Rand
	s    [3][]byte // pubSeed, skSeed, skPrf
	sk   *xmssmt.PrivateKey
	pk   *xmssmt.PublicKey
	disk *memDisk
	max  uint64
	det  map[string]interface{}
}

func newInst(t *Tmpl, rng *rand.Rand, threads int) *inst {
	in := &inst{t: t, rng: rng}
	in.det = map[string]interface{}{"params": t.P}
	ctx, err := xmssmt.NewContext(t.params())
	if err != nil {
		fail(in.det, "NewContext fails: %v", err)
	}
	ctx.Threads = threads
	in.ctx = ctx
	for i := range in.s {
		in.s[i] = make([]byte, t.P.N)
		rng.Read(in.s[i])
	}
	in.det["seeds"] = []string{hex.EncodeToString(in.s[0]), hex.EncodeToString(in.s[1]), hex.EncodeToString(in.s[2])}
	in.ref = newRefKey(t, in.s[1], in.s[2], in.s[0])
	in.max = uint64(1)<<uint(t.P.H) - 1
	return in
}

func (in *inst) derive() {
	in.disk = &memDisk{}
	var err xmssmt.Error
	in.sk, in.pk, err = in.ctx.DeriveInto(openMemCtr(in.disk), in.s[0], in.s[1], in.s[2])
	if err != nil {
		fail(in.det, "DeriveInto fails: %v", err)
	}
}

func (in *inst) checkPk(pk *xmssmt.PublicKey, what string) {
	b, err := pk.MarshalBinary()
	if err != nil {
		fail(in.det, "%s: MarshalBinary of public key: %v", what, err)
	}
	want := in.ref.pk()
	if !bytes.Equal(b, want) {
		in.det["got"], in.det["want"] = hex.EncodeToString(b), hex.EncodeToString(want)
		fail(in.det, "%s: public key differs from the specification", what)
	}
	txt, err := pk.MarshalText()
	if err != nil || string(txt) != base64.StdEncoding.EncodeToString(want) {
		fail(in.det, "%s: text of public key is not the base64 of its bytes", what)
	}
}

// Which part of the signature byte i belongs to.
func (t *Tmpl) segmentOf(i int) string {
	off := 0
	for _, s := range t.Sig {
		if i < off+s.Len {
			return fmt.Sprintf("%s (layer %d) + %d", s.Name, s.Layer, i-off)
		}
		off += s.Len
	}
	return "end"
}

func (in *inst) checkSig(sig *xmssmt.Signature, msg []byte, what string) []byte {
	b, err := sig.MarshalBinary()
	if err != nil {
		fail(in.det, "%s: MarshalBinary of signature: %v", what, err)
	}
	seq := uint64(sig.SeqNo())
	want := in.ref.sign(seq, msg, nil)
	if !bytes.Equal(b, want) {
		in.det["msg"], in.det["seq"] = hex.EncodeToString(msg), seq
		at := 0
		for at < len(b) && at < len(want) && b[at] == want[at] {
			at++
		}
		in.det["got"], in.det["want"] = hex.EncodeToString(b), hex.EncodeToString(want)
		fail(in.det, "%s: signature %d differs from the specification from byte %d: %s (lengths %d and %d)",
			what, seq, at, in.t.segmentOf(at), len(b), len(want))
	}
	return b
}

func (in *inst) msg() []byte {
	ls := []int{0, 1, 2, 7, 8, 31, 32, 33, 55, 56, 63, 64, 65, 100, 111, 112, 127, 128, 129, 135, 136, 137, 167, 168, 169, 200, 1000}
	l := ls[in.rng.Intn(len(ls))]
	if in.rng.Intn(40) == 0 {
		l = 32*1024 + in.rng.Intn(40000)
	}
	m := make([]byte, l)
	in.rng.Read(m)
	return m
}

// Interesting sequence numbers.
func (in *inst) seqs(count int) []uint64 {
	max := in.max // numbers 0 .. max-1
	set := map[uint64]bool{}
	ret := []uint64{}
	add := func(x uint64) {
		if x < max && !set[x] {
			set[x] = true
			ret = append(ret, x)
		}
	}
	if max <= uint64(count) {
		for i := uint64(0); i < max; i++ {
			add(i)
		}
		return ret
	}
	th := uint(in.t.TreeHeight)
	add(0)
	add(max - 1)
	add(1<<th - 1)
	add(1 << th)
	if in.t.P.H > 32 {
		add(1<<32 - 1)
		add(1 << 32)
		add(in.rng.Uint64()>>uint(64-in.t.P.H) | 1<<uint(in.t.P.H-1))
	}
	for l := uint(2); l < uint(in.t.P.D) && len(ret) < count; l++ {
		add(1<<(l*th) - 1)
		add(1 << (l * th))
	}
	for tries := 0; len(ret) < count && tries < 100; tries++ {
		add(in.rng.Uint64() >> uint(64-in.t.P.H))
	}
	if len(ret) > count {
		in.rng.Shuffle(len(ret), func(i, j int) { ret[i], ret[j] = ret[j], ret[i] })
		ret = ret[:count]
	}
	return ret
}

// forEach runs f for every template on a number of workers, until out of budget.
func forEach(cfg *Config, rep *Report, ts []*Tmpl, f func(t *Tmpl, rng *rand.Rand)) {
	var mux sync.Mutex
	deadline := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
	next, done := 0, 0
	var wg sync.WaitGroup
	for w := 0; w < cfg.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mux.Lock()
				i := next
				next++
				stop := len(rep.Violations) > 3 || (time.Now().After(deadline) && i >= cfg.Int("min", 0))
				mux.Unlock()
				if i >= len(ts) || stop {
					return
				}
				t := ts[i]
				rng := rand.New(rand.NewSource(cfg.Seed*100003 + int64(i)))
				catch(rep, &mux, t.String(), func() { f(t, rng) })
				mux.Lock()
				done++
				mux.Unlock()
			}
		}()
	}
	wg.Wait()
	rep.Stats["instances"] = done
	rep.Stats["instances_total"] = len(ts)
}

type counter struct {
	mux sync.Mutex
	m   map[string]int64
	smp []interface{}
}

func newCounter() *counter { return &counter{m: map[string]int64{}} }
func (c *counter) add(k string, n int) {
	c.mux.Lock()
	c.m[k] += int64(n)
	c.mux.Unlock()
}
func (c *counter) sample(v interface{}) {
	c.mux.Lock()
	if len(c.smp) < 4 {
		c.smp = append(c.smp, v)
	}
	c.mux.Unlock()
}
func (c *counter) into(rep *Report) {
	for k, v := range c.m {
		rep.Stats[k] = v
	}
	rep.Stats["samples"] = c.smp
}

// Signs with in.sk at seq (moving there by hand if necessary).
func (in *inst) signAt(seq uint64, msg []byte, what string) *xmssmt.Signature {
	if uint64(in.sk.SeqNo()) != seq {
		in.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(seq))
	}
	sig, err := in.sk.Sign(msg)
	if err != nil {
		fail(in.det, "%s: Sign fails at %d: %v", what, seq, err)
	}
	if uint64(sig.SeqNo()) != seq {
		fail(in.det, "%s: Sign used number %d instead of %d", what, sig.SeqNo(), seq)
	}
	return sig
}

func (in *inst) mustVerify(sig *xmssmt.Signature, b, msg []byte, what string) {
	if ok, err := in.pk.Verify(sig, msg); !ok || err != nil {
		fail(in.det, "%s: genuine signature %d is refused: %v", what, sig.SeqNo(), err)
	}
	if ok, err := xmssmt.Verify(in.ref.pk(), b, msg); !ok || err != nil {
		fail(in.det, "%s: genuine serialized signature %d is refused: %v", what, sig.SeqNo(), err)
	}
	other := append([]byte{}, msg...)
	if len(other) == 0 {
		other = []byte{0}
	} else {
		other[in.rng.Intn(len(other))] ^= 1 << uint(in.rng.Intn(8))
	}
	if ok, err := in.pk.Verify(sig, other); ok || err == nil {
		fail(in.det, "%s: signature %d verifies (ok=%v err=%v) for another message", what, sig.SeqNo(), ok, err)
	}
}

func init() {
	commands["xmss-sign"] = func(cfg *Config) *Report {
		rep := NewReport()
		ts := loadTemplates(cfg.Str("templates", ""))
		c := newCounter()
		nseq := cfg.Int("seqs", 15)
		forEach(cfg, rep, ts, func(t *Tmpl, rng *rand.Rand) {
			in := newInst(t, rng, []int{1, 0, 2, 3}[rng.Intn(4)])
			in.derive()
			in.checkPk(in.pk, "DeriveInto")
			if int(in.ctx.SignatureSize()) != t.SigSize {
				fail(in.det, "SignatureSize() is %d instead of %d", in.ctx.SignatureSize(), t.SigSize)
			}
			seqs := in.seqs(nseq)
			msgs := map[uint64][]byte{}
			sigs := map[uint64][]byte{}
			for _, s := range seqs {
				msgs[s] = in.msg()
				sig := in.signAt(s, msgs[s], "first handle")
				sigs[s] = in.checkSig(sig, msgs[s], "first handle")
				in.mustVerify(sig, sigs[s], msgs[s], "first handle")
				c.add("signatures", 1)
				c.sample(map[string]interface{}{"params": t.String(), "seq": s, "msglen": len(msgs[s]),
					"sig_prefix": hex.EncodeToString(sigs[s][:24])})
			}
			// In another order, with another handle on the same cache.
			if err := in.sk.Close(); err != nil {
				fail(in.det, "Close fails: %v", err)
			}
			// (the numbers were set back by hand: reload at 0)
			in.disk.seqNo = 0
			sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(openMemCtr(in.disk))
			if err != nil {
				fail(in.det, "LoadPrivateKeyFrom fails: %v", err)
			}
			in.sk = sk
			in.checkPk(pk, "LoadPrivateKeyFrom")
			perm := rng.Perm(len(seqs))
			for i, j := range perm {
				if i > 4 && i > len(seqs)/2 {
					break
				}
				s := seqs[j]
				in.checkSig(in.signAt(s, msgs[s], "second handle"), msgs[s], "second handle")
				c.add("signatures", 1)
			}
			// By several goroutines at once.
			start := seqs[rng.Intn(len(seqs))]
			if start+8 < in.max {
				in.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(start))
				var wg sync.WaitGroup
				var mux sync.Mutex
				type res struct {
					sig *xmssmt.Signature
					msg []byte
					err error
				}
				rs := []res{}
				for g := 0; g < 8; g++ {
					m := in.msg()
					wg.Add(1)
					go func() {
						defer wg.Done()
						sig, err := in.sk.Sign(m)
						var e error
						if err != nil {
							e = err
						}
						mux.Lock()
						rs = append(rs, res{sig, m, e})
						mux.Unlock()
					}()
				}
				wg.Wait()
				seen := map[uint64]bool{}
				for _, r := range rs {
					if r.err != nil {
						fail(in.det, "concurrent Sign fails: %v", r.err)
					}
					if seen[uint64(r.sig.SeqNo())] {
						fail(in.det, "concurrent Signs with the same number %d", r.sig.SeqNo())
					}
					seen[uint64(r.sig.SeqNo())] = true
					in.checkSig(r.sig, r.msg, "concurrent Sign")
					c.add("signatures", 1)
				}
			}
			in.sk.Close()
			// With a container on the filesystem, from the parsed name.
			if rng.Intn(3) == 0 || cfg.Bool("fs") {
				in.fsKey(cfg, c, seqs, msgs)
			}
		})
		c.into(rep)
		return rep
	}
}

func (in *inst) fsKey(cfg *Config, c *counter, seqs []uint64, msgs map[uint64][]byte) {
	ctx, err := xmssmt.NewContextFromName2(in.t.String())
	if err != nil {
		fail(in.det, "NewContextFromName2(%s) fails: %v", in.t.String(), err)
	}
	dir := filepath.Join(cfg.Scratch, strings.Replace(in.t.String(), "/", "-", -1))
	mkdir(dir)
	defer rmdir(dir)
	path := filepath.Join(dir, "key")
	sk, pk, err := ctx.Derive(path, in.s[0], in.s[1], in.s[2])
	if err != nil {
		fail(in.det, "Derive fails: %v", err)
	}
	in.sk = sk
	in.checkPk(pk, "Derive")
	s := seqs[in.rng.Intn(len(seqs))]
	in.checkSig(in.signAt(s, msgs[s], "fs"), msgs[s], "fs")
	if err := sk.Close(); err != nil {
		fail(in.det, "Close fails: %v", err)
	}
	sk, pk, _, err = xmssmt.LoadPrivateKey(path)
	if err != nil {
		fail(in.det, "LoadPrivateKey fails: %v", err)
	}
	in.sk = sk
	in.checkPk(pk, "LoadPrivateKey")
	if s+1 < in.max {
		if uint64(sk.SeqNo()) != s+1 {
			fail(in.det, "reloaded at %d instead of %d", sk.SeqNo(), s+1)
		}
		m := in.msg()
		in.checkSig(in.signAt(s+1, m, "fs reloaded"), m, "fs reloaded")
	}
	sk.Close()
	c.add("signatures", 2)
}
