package main

// Executes the templates which TLC printed from Xmss.tla, using the hash
// functions of the standard library.  Apart from those, everything (layouts,
// addresses, schedules, digits, sizes) is taken from the templates.

import (
	"bufio"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"sync"
)

type tSeg struct {
	T, Name string
	V       int
	Len     int
	Layer   int
}
type tWord struct {
	Sym string
	Val uint32
}
type tDigit struct{ Byte, Shift int }
type tStep struct {
	Op               string
	Height, Index    int
	Left, Right, Out int
}
type tPath struct{ Layer, TreeShift, LeafShift, LeafBits int }

// Tmpl describes one instance.
type Tmpl struct {
	P struct {
		Func string
		N    int
		H    int
		D    int
		W    int
		Prf  string
	}
	Hash                         string
	TreeHeight                   int
	Len1, Len2, Len              int
	MsgDigits, CsumDigits        []tDigit
	CsumShift, CsumBytes         int
	F, HH, HMsg, PrfAdrs, PrfIdx []tSeg
	PrfKeygen                    []tSeg
	OtsAdrs, LTreeAdrs, TreeAdrs []tWord
	LTree                        []tStep
	Path                         []tPath
	IdxBytes                     int
	Sig, Pk                      []tSeg
	SigSize                      int
	Header                       []int
}

func loadTemplates(path string) []*Tmpl {
	f, err := os.Open(path)
	check(err)
	defer f.Close()
	ret := []*Tmpl{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var t Tmpl
		check(json.Unmarshal(sc.Bytes(), &t))
		ret = append(ret, &t)
	}
	check(sc.Err())
	return ret
}

// Name in the notation of the library, always with everything spelled out.
func (t *Tmpl) String() string {
	prf := "_" + t.P.Prf
	w := fmt.Sprintf("_w%d", t.P.W)
	if t.P.D == 1 {
		return fmt.Sprintf("XMSS-%s_%d_%d%s%s", t.P.Func, t.P.H, t.P.N*8, w, prf)
	}
	return fmt.Sprintf("XMSSMT-%s_%d/%d_%d%s%s", t.P.Func, t.P.H, t.P.D, t.P.N*8, w, prf)
}

type env struct {
	args map[string][]byte
	vars map[string]uint64
	adrs *[32]byte
}

func toByte(x uint64, l int) []byte {
	ret := make([]byte, l)
	for i := l - 1; i >= 0 && x > 0; i-- {
		ret[i] = byte(x)
		x >>= 8
	}
	return ret
}

func (t *Tmpl) build(layout []tSeg, e *env) []byte {
	ret := make([]byte, 0, 256)
	for _, s := range layout {
		l := len(ret)
		switch s.T {
		case "int":
			ret = append(ret, toByte(uint64(s.V), s.Len)...)
		case "arg":
			ret = append(ret, e.args[s.Name]...)
		case "var":
			ret = append(ret, toByte(e.vars[s.Name], s.Len)...)
		case "adrs":
			ret = append(ret, e.adrs[:]...)
		case "rest":
			ret = append(ret, e.args[s.Name]...)
			continue
		default:
			panic("harness: unknown segment " + s.T)
		}
		if len(ret)-l != s.Len {
			panic(fmt.Sprintf("harness: segment %s has length %d instead of %d", s.Name, len(ret)-l, s.Len))
		}
	}
	return ret
}

func (t *Tmpl) hash(in []byte) []byte {
	switch t.Hash {
	case "sha256":
		h := sha256.Sum256(in)
		return append([]byte{}, h[:t.P.N]...)
	case "sha512":
		h := sha512.Sum512(in)
		return append([]byte{}, h[:t.P.N]...)
	case "shake128":
		return sha3.SumSHAKE128(in, t.P.N)
	case "shake256":
		return sha3.SumSHAKE256(in, t.P.N)
	}
	panic("harness: unknown hash " + t.Hash)
}

type adrsEnv struct {
	layer, tree                          uint64
	leaf, chain, step, km, height, index uint32
}

func adrsBytes(w []tWord, e *adrsEnv) *[32]byte {
	var ret [32]byte
	for i := range w {
		var v uint32
		switch w[i].Sym {
		case "":
			v = w[i].Val
		case "layer":
			v = uint32(e.layer)
		case "treeHi":
			v = uint32(e.tree >> 32)
		case "treeLo":
			v = uint32(e.tree)
		case "leaf":
			v = e.leaf
		case "chain":
			v = e.chain
		case "step":
			v = e.step
		case "km":
			v = e.km
		case "height":
			v = e.height
		case "index":
			v = e.index
		default:
			panic("harness: unknown address word " + w[i].Sym)
		}
		binary.BigEndian.PutUint32(ret[4*i:], v)
	}
	return &ret
}

func xor(a, b []byte) []byte {
	ret := make([]byte, len(a))
	for i := range a {
		ret[i] = a[i] ^ b[i]
	}
	return ret
}

func (t *Tmpl) prf(seed []byte, a *[32]byte) []byte {
	return t.hash(t.build(t.PrfAdrs, &env{args: map[string][]byte{"key": seed}, adrs: a}))
}

// One step in a chain.
func (t *Tmpl) chainStep(seed, x []byte, a adrsEnv) []byte {
	a.km = 0
	key := t.prf(seed, adrsBytes(t.OtsAdrs, &a))
	a.km = 1
	bm := t.prf(seed, adrsBytes(t.OtsAdrs, &a))
	return t.hash(t.build(t.F, &env{args: map[string][]byte{"key": key, "m": xor(x, bm)}}))
}

func (t *Tmpl) chain(seed, x []byte, start, end int, a adrsEnv) []byte {
	for i := start; i < end; i++ {
		a.step = uint32(i)
		x = t.chainStep(seed, x, a)
	}
	return x
}

func (t *Tmpl) randHash(seed, l, r []byte, w []tWord, a adrsEnv) []byte {
	a.km = 0
	key := t.prf(seed, adrsBytes(w, &a))
	a.km = 1
	bm0 := t.prf(seed, adrsBytes(w, &a))
	a.km = 2
	bm1 := t.prf(seed, adrsBytes(w, &a))
	return t.hash(t.build(t.HH, &env{args: map[string][]byte{
		"key": key, "left": xor(l, bm0), "right": xor(r, bm1)}}))
}

// Chain positions for the digest.
func (t *Tmpl) positions(digest []byte) []int {
	ret := make([]int, 0, t.Len)
	sum := 0
	for _, d := range t.MsgDigits {
		v := (int(digest[d.Byte]) >> uint(d.Shift)) % t.P.W
		ret = append(ret, v)
		sum += t.P.W - 1 - v
	}
	cb := toByte(uint64(sum)<<uint(t.CsumShift), t.CsumBytes)
	for _, d := range t.CsumDigits {
		ret = append(ret, (int(cb[d.Byte])>>uint(d.Shift))%t.P.W)
	}
	return ret
}

func (t *Tmpl) lTree(seed []byte, pk [][]byte, a adrsEnv) []byte {
	n := make([][]byte, len(pk))
	copy(n, pk)
	for _, s := range t.LTree {
		if s.Op == "copy" {
			n[s.Out] = n[s.Left]
			continue
		}
		a.height, a.index = uint32(s.Height), uint32(s.Index)
		n[s.Out] = t.randHash(seed, n[s.Left], n[s.Right], t.LTreeAdrs, a)
	}
	return n[0]
}

type refTree struct{ nodes [][][]byte }

type refKey struct {
	t                      *Tmpl
	skSeed, skPrf, pubSeed []byte
	root                   []byte

	mux   sync.Mutex
	trees map[[2]uint64]*refTree
}

func newRefKey(t *Tmpl, skSeed, skPrf, pubSeed []byte) *refKey {
	k := &refKey{t: t, skSeed: skSeed, skPrf: skPrf, pubSeed: pubSeed, trees: map[[2]uint64]*refTree{}}
	top := t.Path[len(t.Path)-1]
	tr := k.tree(uint64(top.Layer), 0)
	k.root = tr.nodes[t.TreeHeight][0]
	return k
}

func (k *refKey) wotsSk(a adrsEnv) []byte {
	return k.t.hash(k.t.build(k.t.PrfKeygen, &env{args: map[string][]byte{
		"skSeed": k.skSeed, "pubSeed": k.pubSeed}, adrs: adrsBytes(k.t.OtsAdrs, &a)}))
}

func (k *refKey) leaf(layer, tree uint64, leaf uint32) []byte {
	a := adrsEnv{layer: layer, tree: tree, leaf: leaf}
	pk := make([][]byte, k.t.Len)
	for i := range pk {
		a.chain = uint32(i)
		pk[i] = k.t.chain(k.pubSeed, k.wotsSk(a), 0, k.t.P.W-1, a)
	}
	return k.t.lTree(k.pubSeed, pk, adrsEnv{layer: layer, tree: tree, leaf: leaf})
}

func (k *refKey) tree(layer, tree uint64) *refTree {
	k.mux.Lock()
	defer k.mux.Unlock()
	key := [2]uint64{layer, tree}
	if tr, ok := k.trees[key]; ok {
		return tr
	}
	th := k.t.TreeHeight
	tr := &refTree{nodes: make([][][]byte, th+1)}
	for h := range tr.nodes {
		tr.nodes[h] = make([][]byte, 1<<uint(th-h))
	}
	if th >= 4 {
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := w; i < 1<<uint(th); i += 8 {
					tr.nodes[0][i] = k.leaf(layer, tree, uint32(i))
				}
			}(w)
		}
		wg.Wait()
	} else {
		for i := range tr.nodes[0] {
			tr.nodes[0][i] = k.leaf(layer, tree, uint32(i))
		}
	}
	for h := 1; h <= th; h++ {
		for i := range tr.nodes[h] {
			tr.nodes[h][i] = k.t.randHash(k.pubSeed, tr.nodes[h-1][2*i], tr.nodes[h-1][2*i+1], k.t.TreeAdrs,
				adrsEnv{layer: layer, tree: tree, height: uint32(h - 1), index: uint32(i)})
		}
	}
	k.trees[key] = tr
	return tr
}

func (k *refKey) wotsSign(digest []byte, layer, tree uint64, leaf uint32) []byte {
	ret := []byte{}
	a := adrsEnv{layer: layer, tree: tree, leaf: leaf}
	for i, p := range k.t.positions(digest) {
		a.chain = uint32(i)
		ret = append(ret, k.t.chain(k.pubSeed, k.wotsSk(a), 0, p, a)...)
	}
	return ret
}

// Deviations from a genuine signature, for crafting invalid ones.
type tweak struct {
	hmsgRoot []byte  // root in the hash of the message
	hmsgIdx  *uint64 // index in the hash of the message
	encIdx   *uint64 // index in the encoding
	hmsgR    []byte  // randomizer in the hash of the message
	r        []byte  // randomizer
	msg      []byte
	// modifies the digest which is signed on the given layer
	digest func(layer int, d []byte) []byte
}

func (k *refKey) header() []byte {
	ret := []byte{}
	for _, b := range k.t.Header {
		ret = append(ret, byte(b))
	}
	return ret
}

func (k *refKey) sign(seq uint64, msg []byte, tw *tweak) []byte {
	if tw == nil {
		tw = &tweak{}
	}
	t := k.t
	r := tw.r
	if r == nil {
		r = t.hash(t.build(t.PrfIdx, &env{args: map[string][]byte{"key": k.skPrf}, vars: map[string]uint64{"idx": seq}}))
	}
	hr, hroot, hidx, eidx := r, k.root, seq, seq
	if tw.hmsgR != nil {
		hr = tw.hmsgR
	}
	if tw.hmsgRoot != nil {
		hroot = tw.hmsgRoot
	}
	if tw.hmsgIdx != nil {
		hidx = *tw.hmsgIdx
	}
	if tw.encIdx != nil {
		eidx = *tw.encIdx
	}
	if tw.msg != nil {
		msg = tw.msg
	}
	digest := t.hash(t.build(t.HMsg, &env{
		args: map[string][]byte{"r": hr, "root": hroot, "msg": msg},
		vars: map[string]uint64{"idx": hidx}}))
	parts := map[string][]byte{
		"params": k.header(), "idx": toByte(eidx, t.IdxBytes), "r": r}
	for _, p := range t.Path {
		leaf := uint32((seq >> uint(p.LeafShift)) & (1<<uint(p.LeafBits) - 1))
		var tree uint64
		if p.TreeShift < 64 {
			tree = seq >> uint(p.TreeShift)
		}
		if tw.digest != nil {
			digest = tw.digest(p.Layer, digest)
		}
		tr := k.tree(uint64(p.Layer), tree)
		parts[fmt.Sprintf("ots%d", p.Layer)] = k.wotsSign(digest, uint64(p.Layer), tree, leaf)
		auth := []byte{}
		for h := 0; h < t.TreeHeight; h++ {
			auth = append(auth, tr.nodes[h][(leaf>>uint(h))^1]...)
		}
		parts[fmt.Sprintf("auth%d", p.Layer)] = auth
		digest = tr.nodes[t.TreeHeight][0]
	}
	ret := []byte{}
	for _, s := range t.Sig {
		nm := s.Name
		if nm == "ots" || nm == "auth" {
			nm = fmt.Sprintf("%s%d", nm, s.Layer)
		}
		if len(parts[nm]) != s.Len {
			panic(fmt.Sprintf("harness: segment %s of signature has length %d instead of %d", nm, len(parts[nm]), s.Len))
		}
		ret = append(ret, parts[nm]...)
	}
	return ret
}

func (k *refKey) pk() []byte {
	ret := []byte{}
	for _, s := range k.t.Pk {
		switch s.Name {
		case "params":
			ret = append(ret, k.header()...)
		case "root":
			ret = append(ret, k.root...)
		case "pubSeed":
			ret = append(ret, k.pubSeed...)
		default:
			panic("harness: unknown segment of public key")
		}
	}
	return ret
}

// Verifies; both are without regard to the header.
func (t *Tmpl) verify(pk, sig, msg []byte) bool {
	n := t.P.N
	if len(pk) != 4+2*n || len(sig) != t.SigSize+4 {
		return false
	}
	root, pubSeed := pk[4:4+n], pk[4+n:]
	parts := map[string][]byte{}
	off := 0
	for _, s := range t.Sig {
		nm := s.Name
		if nm == "ots" || nm == "auth" {
			nm = fmt.Sprintf("%s%d", nm, s.Layer)
		}
		parts[nm] = sig[off : off+s.Len]
		off += s.Len
	}
	var seq uint64
	for _, b := range parts["idx"] {
		seq = seq<<8 | uint64(b)
	}
	if t.P.H < 64 && seq>>uint(t.P.H) != 0 {
		return false
	}
	digest := t.hash(t.build(t.HMsg, &env{
		args: map[string][]byte{"r": parts["r"], "root": root, "msg": msg},
		vars: map[string]uint64{"idx": seq}}))
	for _, p := range t.Path {
		leaf := uint32((seq >> uint(p.LeafShift)) & (1<<uint(p.LeafBits) - 1))
		var tree uint64
		if p.TreeShift < 64 {
			tree = seq >> uint(p.TreeShift)
		}
		a := adrsEnv{layer: uint64(p.Layer), tree: tree, leaf: leaf}
		wpk := make([][]byte, t.Len)
		ots := parts[fmt.Sprintf("ots%d", p.Layer)]
		for i, pos := range t.positions(digest) {
			a.chain = uint32(i)
			wpk[i] = t.chain(pubSeed, ots[i*n:(i+1)*n], pos, t.P.W-1, a)
		}
		node := t.lTree(pubSeed, wpk, adrsEnv{layer: uint64(p.Layer), tree: tree, leaf: leaf})
		auth := parts[fmt.Sprintf("auth%d", p.Layer)]
		for h := 0; h < t.TreeHeight; h++ {
			sib := auth[h*n : (h+1)*n]
			a := adrsEnv{layer: uint64(p.Layer), tree: tree, height: uint32(h), index: leaf >> uint(h+1)}
			if (leaf>>uint(h))&1 == 0 {
				node = t.randHash(pubSeed, node, sib, t.TreeAdrs, a)
			} else {
				node = t.randHash(pubSeed, sib, node, t.TreeAdrs, a)
			}
		}
		digest = node
	}
	return string(digest) == string(root)
}
