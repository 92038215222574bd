package main

// C17: worker threads and the vector implementation make no difference.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type sharedKey struct {
	Seeds [3][]byte
	Next  uint64
	Pk    []byte
	Sigs  [][]byte
	Msgs  [][]byte
	T     string
}

func init() {
	// Makes keys with every number of threads.
	commands["xmss-threads"] = func(cfg *Config) *Report {
		rep := NewReport()
		ts := loadTemplates(cfg.Str("templates", ""))
		c := newCounter()
		share := cfg.Str("share", "")
		mkdir(share)
		forEach(cfg, rep, ts, func(t *Tmpl, rng *rand.Rand) {
			in := newInst(t, rng, 0)
			for _, th := range []int{1, 2, 0, 3, 7, 40} {
				if th == 3 && rng.Intn(2) == 0 {
					continue
				}
				in.ctx.Threads = th
				in.derive()
				in.checkPk(in.pk, fmt.Sprintf("with %d threads", th))
				for _, s := range in.seqs(cfg.Int("seqs", 5)) {
					m := in.msg()
					sig := in.signAt(s, m, fmt.Sprintf("with %d threads", th))
					b := in.checkSig(sig, m, fmt.Sprintf("with %d threads", th))
					in.mustVerify(sig, b, m, fmt.Sprintf("with %d threads", th))
					c.add("signatures", 1)
				}
				in.sk.Close()
			}
			c.sample(map[string]interface{}{"params": t.String(), "threads": []int{1, 2, 0, 3, 7, 40}})
			// and one on disk, for the other kind of machine
			dir := filepath.Join(share, strings.Replace(t.String(), "/", "-", -1))
			mkdir(dir)
			sk, pk, err := in.ctx.Derive(filepath.Join(dir, "key"), in.s[0], in.s[1], in.s[2])
			if err != nil {
				fail(in.det, "Derive: %v", err)
			}
			k := sharedKey{Seeds: [3][]byte{in.s[0], in.s[1], in.s[2]}, T: t.String()}
			k.Pk, _ = pk.MarshalBinary()
			for i := 0; i < 2 && uint64(sk.SeqNo()) < in.max; i++ {
				m := in.msg()
				sig, err := sk.Sign(m)
				if err != nil {
					fail(in.det, "Sign: %v", err)
				}
				b, _ := sig.MarshalBinary()
				k.Sigs, k.Msgs = append(k.Sigs, b), append(k.Msgs, m)
			}
			k.Next = uint64(sk.SeqNo())
			if err := sk.Close(); err != nil {
				fail(in.det, "Close: %v", err)
			}
			buf, err2 := json.Marshal(k)
			check(err2)
			check(os.WriteFile(filepath.Join(dir, "shared.json"), buf, 0600))
		})
		c.into(rep)
		return rep
	}

	// Continues with the keys made by another process.
	commands["xmss-continue"] = func(cfg *Config) *Report {
		rep := NewReport()
		ts := loadTemplates(cfg.Str("templates", ""))
		c := newCounter()
		forEach(cfg, rep, ts, func(t *Tmpl, rng *rand.Rand) {
			dir := filepath.Join(cfg.Str("share", ""), strings.Replace(t.String(), "/", "-", -1))
			buf, err := os.ReadFile(filepath.Join(dir, "shared.json"))
			if err != nil {
				return // the other one ran out of time
			}
			var k sharedKey
			check(json.Unmarshal(buf, &k))
			in := newInst(t, rng, 0)
			in.s = k.Seeds
			in.ref = newRefKey(t, in.s[1], in.s[2], in.s[0])
			for i := range k.Sigs {
				if ok, err := xmssmt.Verify(k.Pk, k.Sigs[i], k.Msgs[i]); !ok || err != nil {
					fail(in.det, "signature made on the other kind of machine is refused: %v", err)
				}
				c.add("signatures", 1)
			}
			sk, pk, _, err2 := xmssmt.LoadPrivateKey(filepath.Join(dir, "key"))
			if err2 != nil {
				fail(in.det, "LoadPrivateKey: %v", err2)
			}
			in.sk, in.pk = sk, pk
			defer sk.Close()
			in.checkPk(pk, "key made on the other kind of machine")
			for i := 0; i < 4 && uint64(sk.SeqNo()) < in.max; i++ {
				m := in.msg()
				sig, err := sk.Sign(m)
				if err != nil {
					fail(in.det, "Sign: %v", err)
				}
				b := in.checkSig(sig, m, "key made on the other kind of machine")
				in.mustVerify(sig, b, m, "key made on the other kind of machine")
				c.add("signatures", 1)
			}
			sk.DangerousSetSeqNo(0)
			for i := range k.Sigs {
				sig, err := sk.Sign(k.Msgs[i])
				if err != nil {
					fail(in.det, "Sign: %v", err)
				}
				in.checkSig(sig, k.Msgs[i], "signature reproduced")
				b, _ := sig.MarshalBinary()
				if string(b) != string(k.Sigs[i]) {
					fail(in.det, "signature of the other kind of machine is not reproduced")
				}
				c.add("signatures", 1)
			}
		})
		c.into(rep)
		return rep
	}
}
