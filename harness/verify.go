package main

// C07: verification accepts exactly what Xmss.tla says is valid.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sync"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type segPos struct {
	tSeg
	off int
}

func (t *Tmpl) segs() []segPos {
	ret := []segPos{}
	off := 0
	for _, s := range t.Sig {
		ret = append(ret, segPos{s, off})
		off += s.Len
	}
	return ret
}

type verifier struct {
	in   *inst
	c    *counter
	pkb  []byte
	pk   *xmssmt.PublicKey
	full bool
}

// Whether the specification accepts.
func (v *verifier) want(pkb, sigb, msg []byte) bool {
	h := v.in.ref.header()
	if len(pkb) < 4 || len(sigb) < 4 || !bytes.Equal(pkb[:4], h) || !bytes.Equal(sigb[:4], h) {
		return false
	}
	return v.in.t.verify(pkb, sigb, msg)
}

// Compares the code with the expectation.
func (v *verifier) try(what string, pkb, sigb, msg []byte, want bool) {
	det := map[string]interface{}{"pk": hex.EncodeToString(pkb), "sig": hex.EncodeToString(sigb), "msg": hex.EncodeToString(msg), "what": what}
	ok, err := xmssmt.Verify(pkb, sigb, msg)
	if ok != want {
		fail(det, "%s: Verify returns %v (%v), but should %v", what, ok, err, want)
	}
	if ok != (err == nil) {
		fail(det, "%s: Verify returns %v with error %v", what, ok, err)
	}
	var sig xmssmt.Signature
	if err := sig.UnmarshalBinary(sigb); err != nil {
		if want {
			fail(det, "%s: UnmarshalBinary: %v", what, err)
		}
	} else {
		pk := v.pk
		if !bytes.Equal(pkb, v.pkb) {
			pk = new(xmssmt.PublicKey)
			if err := pk.UnmarshalBinary(pkb); err != nil {
				v.c.add("verifications", 1)
				return
			}
		}
		ok, err := pk.VerifyFrom(&sig, bytes.NewReader(msg))
		if ok != want || ok != (err == nil) {
			fail(det, "%s: VerifyFrom returns %v (%v), but should %v", what, ok, err, want)
		}
	}
	v.c.add("verifications", 1)
	if want {
		v.c.add("accepted", 1)
	}
}

// Tries a changed input for which the specification decides.
func (v *verifier) decide(what string, pkb, sigb, msg []byte) {
	w := v.want(pkb, sigb, msg)
	if w {
		v.c.add("crafted_genuine", 1)
	}
	v.try(what, pkb, sigb, msg, w)
}

func flip(b []byte, bit int) []byte {
	r := append([]byte{}, b...)
	r[bit/8] ^= 1 << uint(bit%8)
	return r
}

func (v *verifier) seq(seq uint64, msg []byte, other *inst) {
	in, rng, t := v.in, v.in.rng, v.in.t
	n := t.P.N
	sigb := in.ref.sign(seq, msg, nil)
	if !v.want(v.pkb, sigb, msg) {
		panic("harness: the specification refuses a genuine signature")
	}
	v.try("genuine", v.pkb, sigb, msg, true)

	// Round trips
	var sig xmssmt.Signature
	if err := sig.UnmarshalBinary(sigb); err != nil {
		fail(in.det, "genuine signature is not unmarshalled: %v", err)
	}
	for i := 0; i < 2; i++ {
		b, err := sig.MarshalBinary()
		if err != nil || !bytes.Equal(b, sigb) {
			fail(in.det, "round trip of signature %d changes it (%v)", seq, err)
		}
		if uint64(sig.SeqNo()) != seq {
			fail(in.det, "SeqNo() is %d instead of %d", sig.SeqNo(), seq)
		}
		if ok, err := v.pk.Verify(&sig, msg); !ok || err != nil {
			fail(in.det, "genuine signature %d is refused after a round trip: %v", seq, err)
		}
	}
	// Unmarshalling in a used object, from a buffer which is then overwritten.
	tmp := append([]byte{}, sigb...)
	if err := sig.UnmarshalBinary(tmp); err != nil {
		fail(in.det, "unmarshalling again: %v", err)
	}
	for i := range tmp {
		tmp[i] = 0x55
	}
	if ok, err := v.pk.Verify(&sig, msg); !ok || err != nil {
		fail(in.det, "genuine signature %d is refused after its buffer is reused: %v", seq, err)
	}

	// Bits of the signature
	bit := func(i int) {
		b := flip(sigb, i)
		what := fmt.Sprintf("signature %d with bit %d of %s flipped", seq, i%8, t.segmentOf(i/8))
		if i%37 == 0 {
			v.decide(what, v.pkb, b, msg)
		} else {
			v.try(what, v.pkb, b, msg, false)
		}
	}
	for _, s := range t.segs() {
		switch {
		case v.full || s.Name == "params" || s.Name == "idx":
			for i := s.off * 8; i < (s.off+s.Len)*8; i++ {
				bit(i)
			}
		default:
			// at least one bit of each node
			step := 1
			if t.P.W == 256 {
				step = 1 + rng.Intn(4)
			}
			for i := 0; i < s.Len/n; i += step {
				bit((s.off+i*n)*8 + rng.Intn(n*8))
			}
			if s.Len > 0 {
				bit(s.off * 8)
				bit((s.off+s.Len)*8 - 1)
			}
		}
	}
	// other headers
	for i := 0; i < 12; i++ {
		b := append([]byte{}, sigb...)
		rng.Read(b[1:4])
		v.decide("signature with another header", v.pkb, b, msg)
	}
	// nodes exchanged, zeroed, or overwritten with those of another signature
	seq2 := seq ^ 1
	if seq2 >= in.max {
		seq2 = 0
	}
	sig2 := in.ref.sign(seq2, msg, nil)
	segs := t.segs()
	for i, s := range segs {
		if s.Len == 0 {
			continue
		}
		b := append([]byte{}, sigb...)
		copy(b[s.off:s.off+s.Len], sig2[s.off:s.off+s.Len])
		v.decide(fmt.Sprintf("signature %d with %s of layer %d of signature %d", seq, s.Name, s.Layer, seq2), v.pkb, b, msg)
		b = append([]byte{}, sigb...)
		for j := s.off; j < s.off+s.Len; j++ {
			b[j] = 0
		}
		v.decide("segment zeroed", v.pkb, b, msg)
		for j := 0; j < i; j++ {
			s2 := segs[j]
			if s2.Len == s.Len {
				b = append([]byte{}, sigb...)
				copy(b[s.off:s.off+s.Len], sigb[s2.off:s2.off+s2.Len])
				copy(b[s2.off:s2.off+s2.Len], sigb[s.off:s.off+s.Len])
				v.decide("segments exchanged", v.pkb, b, msg)
			}
		}
		if s.Len >= 2*n {
			i, j := rng.Intn(s.Len/n), rng.Intn(s.Len/n)
			b = append([]byte{}, sigb...)
			copy(b[s.off+i*n:s.off+(i+1)*n], sigb[s.off+j*n:])
			copy(b[s.off+j*n:s.off+(j+1)*n], sigb[s.off+i*n:s.off+(i+1)*n])
			v.decide("nodes exchanged", v.pkb, b, msg)
		}
	}
	// lengths
	for _, l := range []int{0, 3, 4, 5, len(sigb) - n, len(sigb) - 2, len(sigb) - 1, rng.Intn(len(sigb))} {
		v.try(fmt.Sprintf("signature truncated to %d bytes", l), v.pkb, sigb[:l], msg, false)
	}
	for _, l := range []int{1, 4, n, len(sigb)} {
		v.try(fmt.Sprintf("signature with %d bytes more", l), v.pkb, append(append([]byte{}, sigb...), make([]byte, l)...), msg, false)
	}
	// public key
	for i := 0; i < 8*len(v.pkb); i++ {
		if v.full || i < 32 || rng.Intn(n/2) == 0 {
			v.try(fmt.Sprintf("public key with bit %d flipped", i), flip(v.pkb, i), sigb, msg, false)
		}
	}
	sw := append([]byte{}, v.pkb[:4]...)
	sw = append(append(sw, v.pkb[4+n:]...), v.pkb[4:4+n]...)
	v.decide("public key with root and seed exchanged", sw, sigb, msg)
	for _, l := range []int{0, 3, 4, 4 + n, len(v.pkb) - 1} {
		v.try(fmt.Sprintf("public key truncated to %d bytes", l), v.pkb[:l], sigb, msg, false)
	}
	v.try("public key with a byte more", append(append([]byte{}, v.pkb...), 0), sigb, msg, false)
	// header of both changed
	for i := 0; i < 32; i++ {
		v.try(fmt.Sprintf("bit %d of the header of both public key and signature flipped", i), flip(v.pkb, i), flip(sigb, i), msg, false)
	}
	// message
	msgs := [][]byte{append(append([]byte{}, msg...), 0), append([]byte{0}, msg...), append(append([]byte{}, msg...), msg...), {}}
	if len(msg) > 0 {
		msgs = append(msgs, msg[:len(msg)-1], msg[1:], flip(msg, 0), flip(msg, 8*len(msg)-1), flip(msg, rng.Intn(8*len(msg))))
	}
	for _, m := range msgs {
		if !bytes.Equal(m, msg) {
			v.try("other message", v.pkb, sigb, m, false)
		}
	}
	// other keys
	if other != nil {
		b := other.ref.sign(seq, msg, nil)
		v.decide("signature of another key", v.pkb, b, msg)
		if !bytes.Equal(other.ref.header(), in.ref.header()) {
			b2 := append(append([]byte{}, v.pkb[:4]...), b[4:]...)
			v.decide("signature of another key with other parameters under our header", v.pkb, b2, msg)
			b3 := append(append([]byte{}, other.ref.header()...), sigb[4:]...)
			v.try("our signature under the header of other parameters", v.pkb, b3, msg, false)
		}
	}
}

// Signatures which are nearly genuine: made with the secret key, but deviating
// from the specification in one place.
func (v *verifier) crafted(seq uint64, msg []byte) {
	in, rng, t := v.in, v.in.rng, v.in.t
	n := t.P.N
	c := func(what string, tw *tweak, pkb []byte) {
		v.decide(fmt.Sprintf("crafted signature %d: %s", seq, what), pkb, in.ref.sign(seq, msg, tw), msg)
	}
	root := in.ref.root
	bits := []int{}
	for i := 0; i < n; i++ {
		bits = append(bits, 8*i+rng.Intn(8))
	}
	if v.full {
		bits = nil
		for i := 0; i < 8*n; i++ {
			bits = append(bits, i)
		}
	} else if t.P.W == 256 {
		rng.Shuffle(len(bits), func(i, j int) { bits[i], bits[j] = bits[j], bits[i] })
		bits = bits[:6]
	}
	for _, b := range bits {
		r := flip(root, b)
		// valid but for the root of the public key
		pkb := append(append(append([]byte{}, v.pkb[:4]...), r...), v.pkb[4+n:]...)
		c(fmt.Sprintf("bit %d of the root of the public key differs", b), &tweak{hmsgRoot: r}, pkb)
		// valid but for the root in the hash of the message
		c(fmt.Sprintf("bit %d of the root in the hash of the message differs", b), &tweak{hmsgRoot: r}, v.pkb)
		c(fmt.Sprintf("bit %d of the randomizer in the hash of the message differs", b), &tweak{hmsgR: flip(in.refR(seq), b)}, v.pkb)
		for layer := 0; layer < t.P.D; layer++ {
			if t.P.D > 8 && rng.Intn(4) != 0 {
				continue
			}
			c(fmt.Sprintf("bit %d of the digest signed on layer %d differs", b, layer),
				&tweak{digest: func(l int, d []byte) []byte {
					if l == layer {
						return flip(d, b)
					}
					return d
				}}, v.pkb)
		}
		// another randomizer is as good
		c("another randomizer", &tweak{r: flip(in.refR(seq), b)}, v.pkb)
	}
	for b := uint(0); b < uint(8*t.IdxBytes); b++ {
		e := seq ^ 1<<b
		// consistently another index in hash and encoding
		c(fmt.Sprintf("bit %d of the index differs in hash and encoding", b), &tweak{hmsgIdx: &e, encIdx: &e}, v.pkb)
		c(fmt.Sprintf("bit %d of the index differs in the hash", b), &tweak{hmsgIdx: &e}, v.pkb)
		c(fmt.Sprintf("bit %d of the index differs in the encoding", b), &tweak{encIdx: &e}, v.pkb)
	}
}

func (in *inst) refR(seq uint64) []byte {
	t := in.t
	return t.hash(t.build(t.PrfIdx, &env{args: map[string][]byte{"key": in.ref.skPrf}, vars: map[string]uint64{"idx": seq}}))
}

func init() {
	commands["xmss-verify"] = func(cfg *Config) *Report {
		rep := NewReport()
		ts := loadTemplates(cfg.Str("templates", ""))
		c := newCounter()
		nseq := cfg.Int("seqs", 3)
		forEach(cfg, rep, ts, func(t *Tmpl, rng *rand.Rand) {
			in := newInst(t, rng, 1)
			v := &verifier{in: in, c: c, pkb: in.ref.pk()}
			v.pk = new(xmssmt.PublicKey)
			if err := v.pk.UnmarshalBinary(v.pkb); err != nil {
				fail(in.det, "public key is not unmarshalled: %v", err)
			}
			v.full = t.SigSize < cfg.Int("fullsize", 1500) && t.P.W <= 16
			// another key, with parameters of the same sizes
			t2 := t
			for tries := 0; tries < 20; tries++ {
				x := ts[rng.Intn(len(ts))]
				if x.P.N == t.P.N && x.P.H == t.P.H && x.P.D == t.P.D && x.P.W == t.P.W {
					t2 = x
				}
			}
			other := newInst(t2, rng, 1)
			for i, s := range in.seqs(nseq) {
				v.full = v.full && i == 0
				m := in.msg()
				v.seq(s, m, other)
				v.crafted(s, m)
				c.sample(map[string]interface{}{"params": t.String(), "seq": s, "msglen": len(m)})
			}
			// by many at once with the same objects
			s := in.seqs(1)[0]
			m := in.msg()
			sigb := in.ref.sign(s, m, nil)
			var sig xmssmt.Signature
			if err := sig.UnmarshalBinary(sigb); err != nil {
				fail(in.det, "UnmarshalBinary: %v", err)
			}
			var wg sync.WaitGroup
			bad := make(chan string, 100)
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					mm := m
					if g%2 == 1 {
						mm = append([]byte{1}, m...)
					}
					ok, err := v.pk.Verify(&sig, mm)
					if ok != (g%2 == 0) || ok != (err == nil) {
						bad <- fmt.Sprintf("concurrent Verify returns %v, %v", ok, err)
					}
				}(g)
			}
			wg.Wait()
			if len(bad) > 0 {
				fail(in.det, "%s", <-bad)
			}
		})
		c.into(rep)
		return rep
	}
}
