package main

// Runs the real private key along KeyLife.tla.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type keyLife struct {
	backend string // "mem" or "fs"
	ctx     *xmssmt.Context
	base    uint64
	rng     *rand.Rand
	scratch string
	seeds   [3][]byte
	precomp bool

	gen  int // generation of the fs directory
	dir  string
	disk *memDisk
	ctr  *memCtr
	sk   *xmssmt.PrivateKey
	pk   *xmssmt.PublicKey
	used map[uint64]bool
	n    int
	old  []*xmssmt.PrivateKey
}

func parseParams(s string) xmssmt.Params {
	p, err := xmssmt.ParamsFromName2(s)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return *p
}

func mustCtx(name string) *xmssmt.Context {
	ctx, err := xmssmt.NewContextFromName2(name)
	if err != nil {
		panic("harness: " + err.Error())
	}
	ctx.Threads = 1
	return ctx
}

func copyDir(from, to string) {
	check(os.MkdirAll(to, 0755))
	ents, err := os.ReadDir(from)
	check(err)
	for _, e := range ents {
		if e.IsDir() || filepath.Ext(e.Name()) == ".lock" {
			continue
		}
		copySparse(filepath.Join(from, e.Name()), filepath.Join(to, e.Name()))
	}
}

func copySparse(from, to string) {
	buf, err := os.ReadFile(from)
	if os.IsNotExist(err) {
		return
	}
	check(err)
	check(os.WriteFile(to, buf, 0600))
}

func (k *keyLife) path() string { return filepath.Join(k.dir, "key") }

func (k *keyLife) Cleanup() {
	if k.backend == "fs" {
		k.dropOld()
		if k.sk != nil {
			k.sk.Close()
		}
		os.RemoveAll(k.scratch)
	}
}

func (k *keyLife) dropOld() {
	for _, sk := range k.old {
		sk.Close()
	}
	k.old = nil
}

func (k *keyLife) newDir() string {
	k.gen++
	d := filepath.Join(k.scratch, fmt.Sprintf("g%d", k.gen))
	check(os.MkdirAll(d, 0755))
	return d
}

func (k *keyLife) Reset() {
	p := k.ctx.Params()
	k.used = map[uint64]bool{}
	for i := range k.seeds {
		k.seeds[i] = make([]byte, p.N)
		k.rng.Read(k.seeds[i])
	}
	var err xmssmt.Error
	if k.backend == "mem" {
		k.disk = &memDisk{}
		k.ctr = openMemCtr(k.disk)
		k.sk, k.pk, err = k.ctx.DeriveInto(k.ctr, k.seeds[0], k.seeds[1], k.seeds[2])
		if err != nil {
			panic(fmt.Sprintf("DeriveInto fails: %v", err))
		}
		if k.base != 0 {
			k.disk.seqNo = xmssmt.SignatureSeqNo(k.base)
			k.load()
		}
	} else {
		k.dropOld()
		if k.sk != nil {
			k.sk.Close()
			k.sk = nil
		}
		os.RemoveAll(k.scratch)
		k.dir = k.newDir()
		k.sk, k.pk, err = k.ctx.Derive(k.path(), k.seeds[0], k.seeds[1], k.seeds[2])
		if err != nil {
			panic(fmt.Sprintf("Derive fails: %v", err))
		}
		if k.base != 0 {
			k.sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(k.base))
			if err = k.sk.Close(); err != nil {
				panic(fmt.Sprintf("Close fails: %v", err))
			}
			if _, pr := k.load(); pr != "" {
				panic(pr)
			}
		}
	}
	if k.precomp {
		k.sk.EnableSubTreePrecomputation()
	}
}

func (k *keyLife) pkBytes(pk *xmssmt.PublicKey) []byte {
	b, err := pk.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

func (k *keyLife) load() (Obs, string) {
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	var lost uint32
	var err xmssmt.Error
	if k.backend == "mem" {
		k.ctr = openMemCtr(k.disk)
		sk, pk, lost, err = xmssmt.LoadPrivateKeyFrom(k.ctr)
	} else {
		sk, pk, lost, err = xmssmt.LoadPrivateKey(k.path())
	}
	if err != nil {
		return Obs{"ok": false, "err": err.Error()}, ""
	}
	if !bytes.Equal(k.pkBytes(pk), k.pkBytes(k.pk)) {
		return nil, "the loaded key has another public key"
	}
	k.sk = sk
	if k.precomp {
		sk.EnableSubTreePrecomputation()
	}
	return k.with(Obs{"ok": true, "lost": lost}), ""
}

func (k *keyLife) with(o Obs) Obs {
	o["next"] = int64(uint64(k.sk.SeqNo()) - k.base)
	o["bor"] = k.sk.BorrowedSeqNos()
	return o
}

var errInjected = errors.New("injected read error")

type badReader struct {
	good int
}

func (r *badReader) Read(b []byte) (int, error) {
	if r.good == 0 {
		return 0, errInjected
	}
	n := len(b)
	if n > r.good {
		n = r.good
	}
	r.good -= n
	return n, nil
}

var _ io.Reader = &badReader{}

// Checks a signature that was released.
func (k *keyLife) checkSig(sig *xmssmt.Signature, msg []byte) (uint64, string) {
	s := uint64(sig.SeqNo())
	if k.used[s] {
		return s, fmt.Sprintf("sequence number %d is used by two signatures", s)
	}
	k.used[s] = true
	if s >= maxSeqNo(k.ctx) {
		return s, fmt.Sprintf("signature with sequence number %d, beyond the maximum", s)
	}
	ok, err := k.pk.Verify(sig, msg)
	if !ok || err != nil {
		return s, fmt.Sprintf("signature %d does not verify: %v", s, err)
	}
	if ok, _ := k.pk.Verify(sig, append([]byte{1}, msg...)); ok {
		return s, fmt.Sprintf("signature %d verifies for another message", s)
	}
	return s, ""
}

func (k *keyLife) Do(a Act) (Obs, string) {
	k.n++
	if k.backend == "mem" && k.ctr != nil {
		k.ctr.arm(a.Str("f"))
		defer func() { k.ctr.failIn = 0 }()
	}
	msg := make([]byte, k.rng.Intn(200))
	k.rng.Read(msg)
	switch a.Op() {
	case "Sign":
		sig, err := k.sk.Sign(msg)
		if err != nil {
			if sig != nil {
				return nil, "a failed Sign returned a signature"
			}
			return k.with(Obs{"ok": false}), ""
		}
		s, pr := k.checkSig(sig, msg)
		if pr != "" {
			return nil, pr
		}
		// In the instant a signature is released it has to be retired in storage
		if k.backend == "mem" && uint64(k.disk.seqNo) <= s {
			return nil, fmt.Sprintf("signature %d was released, but storage says %d is next", s, k.disk.seqNo)
		}
		return k.with(Obs{"ok": true, "seq": int64(s - k.base)}), ""
	case "SignBadReader":
		sig, err := k.sk.SignFrom(&badReader{k.rng.Intn(100)})
		if err == nil {
			return nil, "SignFrom succeeds with a failing reader"
		}
		if sig != nil {
			return nil, "a failed SignFrom returned a signature"
		}
		return k.with(Obs{"ok": false}), ""
	case "Borrow":
		err := k.sk.BorrowExactly(uint32(a.Int("n")))
		return k.with(Obs{"ok": err == nil}), ""
	case "BorrowIfBelow":
		err := k.sk.BorrowExactlyIfBelow(uint32(a.Int("n")), uint32(a.Int("t")))
		return k.with(Obs{"ok": err == nil}), ""
	case "Dangerous":
		k.sk.DangerousSetSeqNo(k.sk.SeqNo() + xmssmt.SignatureSeqNo(a.Int("d")))
		return k.with(Obs{"ok": true}), ""
	case "Close":
		if err := k.sk.Close(); err != nil {
			return k.with(Obs{"ok": false, "err": err.Error()}), ""
		}
		if sig, err := k.sk.Sign(msg); err == nil {
			return nil, fmt.Sprintf("Sign succeeds after Close (%d)", sig.SeqNo())
		}
		k.sk = nil
		return Obs{"ok": true}, ""
	case "Crash":
		if k.backend == "mem" {
			k.disk = k.disk.clone()
			k.sk.Close() // only stops the background workers: on the old disk
		} else {
			k.dropOld()
			d := k.newDir()
			copyDir(k.dir, d)
			oldDir := k.dir
			k.sk.Close()
			os.RemoveAll(oldDir)
			k.dir = d
		}
		k.sk = nil
		return Obs{"ok": true}, ""
	case "Load":
		return k.load()
	case "SignHelper":
		sigb, err := xmssmt.Sign(k.path(), msg)
		if err != nil {
			return Obs{"ok": false, "err": err.Error()}, ""
		}
		var sig xmssmt.Signature
		if err := sig.UnmarshalBinary(sigb); err != nil {
			return nil, fmt.Sprintf("Sign() returns an invalid signature: %v", err)
		}
		s, pr := k.checkSig(&sig, msg)
		if pr != "" {
			return nil, pr
		}
		return Obs{"ok": true, "seq": int64(s - k.base)}, ""
	}
	panic("harness: unknown action " + a.Op())
}

func init() {
	commands["keylife"] = func(cfg *Config) *Report {
		rep := NewReport()
		l := loadLTS(cfg.Str("lts", ""))
		if ks := cfg.Str("keys", ""); ks != "" {
			l.keys = map[string]bool{}
			for _, k := range strings.Split(ks, ",") {
				l.keys[k] = true
			}
		}
		mk := func(w int) Adapter {
			k := &keyLife{
				backend: cfg.Str("backend", "mem"),
				ctx:     mustCtx(cfg.Str("alg", "XMSSMT-SHAKE_2/1_128")),
				rng:     rand.New(rand.NewSource(cfg.Seed*77 + int64(w))),
				scratch: filepath.Join(cfg.Scratch, fmt.Sprintf("w%d", w)),
				precomp: cfg.Bool("precompute"),
			}
			max := k.ctx.Params()
			m := max.MaxSignatureSeqNo()
			switch cfg.Str("base", "zero") {
			case "end":
				k.base = m - uint64(cfg.Int("cap", 3))
			case "2^32":
				k.base = 1<<32 - 2
			}
			return k
		}
		res := explore(l, mk, exploreOpts{
			Budget:  time.Duration(cfg.Budget * float64(time.Second)),
			Workers: cfg.Workers, MaxLen: cfg.Int("maxlen", 60), Seed: cfg.Seed,
			Name: cfg.Str("name", "keylife"), Full: cfg.Tier == "thorough",
		})
		fillReport(rep, res)
		return rep
	}
}

func fillReport(rep *Report, res exploreResult) {
	rep.Violations = append(rep.Violations, res.Violations...)
	rep.Stats["steps"] = res.Steps
	rep.Stats["runs"] = res.Runs
	rep.Stats["transitions"] = res.Total
	rep.Stats["transitions_taken"] = res.Covered
	rep.Stats["state_actions"] = res.ActTotal
	rep.Stats["state_actions_performed"] = res.ActCovered
	rep.Stats["samples"] = res.Samples
}
