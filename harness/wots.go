package main

// C14 (and C17): one-time signatures of chosen digests.

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"math/rand"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

// Set if the overlay compiles.
var (
	wbX4            func() bool
	wbWotsPk        func(ctx *xmssmt.Context, pubSeed, skSeed []byte, w [8]uint32) []byte
	wbWotsSign      func(ctx *xmssmt.Context, msg, pubSeed, skSeed []byte, w [8]uint32) []byte
	wbWotsPkFromSig func(ctx *xmssmt.Context, sig, msg, pubSeed []byte, w [8]uint32) []byte
)

// A digest with the given digits.
func (t *Tmpl) digestOf(digits []int) []byte {
	ret := make([]byte, t.P.N)
	for i, d := range t.MsgDigits {
		ret[d.Byte] |= byte(digits[i] << uint(d.Shift))
	}
	return ret
}

// A random digest with the given checksum.
func (t *Tmpl) digestWithChecksum(c int, rng *rand.Rand) []byte {
	w := t.P.W
	digits := make([]int, t.Len1)
	perm := rng.Perm(t.Len1)
	left := c // sum of w-1-digit
	for i, p := range perm {
		rest := (t.Len1 - i - 1) * (w - 1)
		lo, hi := left-rest, w-1
		if lo < 0 {
			lo = 0
		}
		if hi > left {
			hi = left
		}
		x := lo + rng.Intn(hi-lo+1)
		digits[p] = w - 1 - x
		left -= x
	}
	return t.digestOf(digits)
}

type wotsKey struct {
	t               *Tmpl
	ctx             *xmssmt.Context
	pubSeed, skSeed []byte
	addr            [8]uint32
	nodes           [][][]byte // [chain][position]
	pk              []byte
}

func newWotsKey(t *Tmpl, ctx *xmssmt.Context, rng *rand.Rand) *wotsKey {
	k := &wotsKey{t: t, ctx: ctx, pubSeed: make([]byte, t.P.N), skSeed: make([]byte, t.P.N)}
	rng.Read(k.pubSeed)
	rng.Read(k.skSeed)
	a := adrsEnv{layer: uint64(rng.Intn(t.P.D)), tree: rng.Uint64() >> uint(rng.Intn(64)), leaf: uint32(rng.Intn(1 << uint(t.TreeHeight)))}
	ab := adrsBytes(t.OtsAdrs, &a)
	for i := range k.addr {
		k.addr[i] = binary.BigEndian.Uint32(ab[4*i:])
	}
	rk := &refKey{t: t, skSeed: k.skSeed, pubSeed: k.pubSeed}
	for i := 0; i < t.Len; i++ {
		a.chain = uint32(i)
		x := rk.wotsSk(a)
		c := [][]byte{x}
		for j := 0; j < t.P.W-1; j++ {
			x = t.chain(k.pubSeed, x, j, j+1, a)
			c = append(c, x)
		}
		k.nodes = append(k.nodes, c)
		k.pk = append(k.pk, x...)
	}
	return k
}

func (k *wotsKey) at(pos []int) []byte {
	ret := []byte{}
	for i, p := range pos {
		ret = append(ret, k.nodes[i][p]...)
	}
	return ret
}

// Which position the code uses on chain i; -1 if none.
func (k *wotsKey) posOf(i int, x []byte) int {
	for j, y := range k.nodes[i] {
		if bytes.Equal(x, y) {
			return j
		}
	}
	return -1
}

func (k *wotsKey) check(d []byte, what string, c *counter) {
	t := k.t
	det := map[string]interface{}{"params": t.P, "digest": hex.EncodeToString(d), "what": what}
	pos := t.positions(d)
	want := k.at(pos)
	got := wbWotsSign(k.ctx, d, k.pubSeed, k.skSeed, k.addr)
	if !bytes.Equal(got, want) {
		if len(got) == len(want) {
			n := t.P.N
			gp := make([]int, t.Len)
			for i := range gp {
				gp[i] = k.posOf(i, got[i*n:(i+1)*n])
			}
			det["code"], det["spec"] = gp, pos
		}
		fail(det, "%s: the one-time signature of the digest has other chain positions than specified", what)
	}
	if pk := wbWotsPkFromSig(k.ctx, got, d, k.pubSeed, k.addr); !bytes.Equal(pk, k.pk) {
		fail(det, "%s: the one-time public key computed from a genuine signature is wrong", what)
	}
	c.add("digests", 1)
}

// Tries to turn the signature of d into one of e by advancing chains.
func (k *wotsKey) forge(d, e []byte, c *counter) {
	t := k.t
	pd, pe := t.positions(d), t.positions(e)
	pos := make([]int, t.Len)
	worse := 0
	for i := range pos {
		pos[i] = pe[i]
		if pd[i] > pe[i] {
			pos[i] = pd[i] // (can't go back)
			worse++
		}
	}
	if worse == 0 {
		panic("harness: the specification allows a forgery")
	}
	sig := k.at(pos)
	if pk := wbWotsPkFromSig(k.ctx, sig, e, k.pubSeed, k.addr); bytes.Equal(pk, k.pk) {
		fail(map[string]interface{}{"params": t.P, "digest": hex.EncodeToString(d), "forged": hex.EncodeToString(e)},
			"the one-time signature of a digest was turned into that of another one")
	}
	c.add("forgeries_tried", 1)
}

func init() {
	commands["wots"] = func(cfg *Config) *Report {
		rep := NewReport()
		ts := loadTemplates(cfg.Str("templates", ""))
		c := newCounter()
		if wbX4 != nil {
			rep.Stats["fourway"] = wbX4()
		}
		forEach(cfg, rep, ts, func(t *Tmpl, rng *rand.Rand) {
			ctx, err := xmssmt.NewContext(t.params())
			if err != nil {
				fail(map[string]interface{}{"params": t.P}, "NewContext fails: %v", err)
			}
			k := newWotsKey(t, ctx, rng)
			if pk := wbWotsPk(ctx, k.pubSeed, k.skSeed, k.addr); !bytes.Equal(pk, k.pk) {
				fail(map[string]interface{}{"params": t.P}, "the one-time public key differs from the specification")
			}
			max := t.Len1 * (t.P.W - 1)
			c.sample(map[string]interface{}{"params": t.String(), "checksums": max + 1, "key": k.addr})
			// every attainable checksum, or as many as wanted
			step := 1
			if lim := cfg.Int("checksums", 1<<30); t.P.W == 256 && max > lim {
				step = max / lim
			} else if lim2 := cfg.Int("checksums2", 1<<30); max > lim2 {
				step = max / lim2
			}
			off := rng.Intn(step)
			for cs := off; cs <= max; cs += step {
				d := t.digestWithChecksum(cs, rng)
				k.check(d, "chosen checksum", c)
			}
			// where the checksum carries over
			for p := 1; p <= max+1; p *= t.P.W {
				for _, cs := range []int{0, max, p - 1, p, p + 1, max / p * p, max/p*p - 1} {
					if cs >= 0 && cs <= max {
						d := t.digestWithChecksum(cs, rng)
						k.check(d, "chosen checksum", c)
						if cs < max {
							k.forge(t.digestWithChecksum(cs+1, rng), d, c)
						}
					}
				}
			}
			// every digit at its extremes, and digests that differ from another
			// one in only a few digits, all of them larger
			for i := 0; i < t.Len1; i++ {
				if cfg.Tier == "quick" && t.P.W == 256 && rng.Intn(3) != 0 {
					continue
				}
				dg := make([]int, t.Len1)
				dg[i] = t.P.W - 1
				k.check(t.digestOf(dg), "one digit", c)
				for j := range dg {
					dg[j] = rng.Intn(t.P.W)
				}
				dg[i] = rng.Intn(t.P.W - 1)
				d := t.digestOf(dg)
				k.check(d, "random", c)
				amounts := []int{1, 1 + rng.Intn(t.P.W-1-dg[i])}
				for _, by := range amounts {
					dg2 := append([]int{}, dg...)
					dg2[i] += by
					e := t.digestOf(dg2)
					k.forge(d, e, c)
					k.check(e, "one digit larger", c)
				}
				// all larger by so much that low checksum digits agree
				dg3 := append([]int{}, dg...)
				todo := t.P.W
				for j := range dg3 {
					x := t.P.W - 1 - dg3[j]
					if x > todo {
						x = todo
					}
					dg3[j] += x
					todo -= x
				}
				if todo == 0 {
					k.forge(d, t.digestOf(dg3), c)
				}
			}
		})
		c.into(rep)
		return rep
	}
}
