package main

// C11, C12, C13: the tables of Codec.tla against the code.

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type cParams struct {
	Func    string
	N, H, D int
	W       int
	Prf     string
}

func (p cParams) params() xmssmt.Params {
	t := Tmpl{}
	t.P.Func, t.P.N, t.P.H, t.P.D, t.P.W, t.P.Prf = p.Func, p.N, p.H, p.D, p.W, p.Prf
	return t.params()
}

type cField struct {
	Name string
	Bits uint
}
type cEntry struct{ Code, Val int }
type cName struct {
	P       cParams
	Name    string
	Aliases []string
	Header  []int
}
type cReg struct {
	Mt   bool
	Oid  uint32
	From string
	Name string
	P    cParams
}
type cCase struct {
	Name string
	Ok   bool
	P    cParams
}
type cSize struct{ N, W, H, D, Sig, Idx int }

type codec struct {
	fields  []cField
	table   map[string]map[uint32]int
	must    map[[2]int]bool
	may     map[[2]int]bool
	sizes   map[[4]int]cSize
	names   []cName
	reg     []cReg
	cases   []cCase
	nameOf  map[xmssmt.Params]*cName
	regByP  map[xmssmt.Params]*cReg
	refused map[xmssmt.Params]bool
}

func loadCodec(path string) *codec {
	f, err := os.Open(path)
	check(err)
	defer f.Close()
	c := &codec{table: map[string]map[uint32]int{}, must: map[[2]int]bool{}, may: map[[2]int]bool{}, sizes: map[[4]int]cSize{},
		nameOf: map[xmssmt.Params]*cName{}, regByP: map[xmssmt.Params]*cReg{}}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var l struct {
			K         string
			Name      string
			Table     []cEntry
			Fields    []cField
			Must, May [][2]int
			N, W      int
			H, D      int
			Sig, Idx  int
			P         cParams
			Aliases   []string
			Header    []int
			E         cReg
			C         cCase
		}
		check(json.Unmarshal(sc.Bytes(), &l))
		switch l.K {
		case "field":
			c.table[l.Name] = map[uint32]int{}
			for _, e := range l.Table {
				c.table[l.Name][uint32(e.Code)] = e.Val
			}
		case "layout":
			c.fields = l.Fields
		case "shapes":
			for _, s := range l.Must {
				c.must[s] = true
			}
			for _, s := range l.May {
				c.may[s] = true
			}
		case "size":
			c.sizes[[4]int{l.N, l.W, l.H, l.D}] = cSize{l.N, l.W, l.H, l.D, l.Sig, l.Idx}
		case "name":
			c.names = append(c.names, cName{l.P, l.Name, l.Aliases, l.Header})
		case "reg":
			c.reg = append(c.reg, l.E)
		case "case":
			c.cases = append(c.cases, l.C)
		default:
			panic("harness: unknown line of Codec")
		}
	}
	check(sc.Err())
	for i := range c.names {
		c.nameOf[c.names[i].P.params()] = &c.names[i]
	}
	for i := range c.reg {
		c.regByP[c.reg[i].P.params()] = &c.reg[i]
	}
	if len(c.fields) == 0 || len(c.names) == 0 || len(c.reg) == 0 || len(c.cases) == 0 || len(c.must) == 0 {
		panic("harness: incomplete tables")
	}
	return c
}

// What the header denotes; ok if every field is valid.
func (c *codec) decode(h uint32) (v map[string]int, ok bool) {
	v = map[string]int{}
	ok = true
	shift := uint(32)
	for _, f := range c.fields {
		shift -= f.Bits
		code := (h >> shift) & (1<<f.Bits - 1)
		x, ok2 := c.table[f.Name][code]
		if !ok2 {
			ok = false
		}
		v[f.Name] = x
	}
	return
}

// The same without allocations; precomputed.
type fastDecoder struct {
	tab [][]int // -1 for invalid
	sh  []uint
	m   []uint32
}

func (c *codec) fast() *fastDecoder {
	d := &fastDecoder{}
	shift := uint(32)
	for _, f := range c.fields {
		shift -= f.Bits
		t := make([]int, 1<<f.Bits)
		for i := range t {
			t[i] = -1
			if x, ok := c.table[f.Name][uint32(i)]; ok {
				t[i] = x
			}
		}
		d.tab = append(d.tab, t)
		d.sh = append(d.sh, shift)
		d.m = append(d.m, 1<<f.Bits-1)
	}
	return d
}

func fieldIdx(c *codec, name string) int {
	for i, f := range c.fields {
		if f.Name == name {
			return i
		}
	}
	panic("harness: no field " + name)
}

var supportedN = map[int]bool{16: true, 24: true, 32: true, 64: true}

// 1 if a context for these must be possible, 0 if it may be, -1 if it must not.
func (c *codec) supported(p xmssmt.Params) int {
	s := [2]int{int(p.FullHeight), int(p.D)}
	if !supportedN[int(p.N)] || p.Func > 2 || p.Prf > 1 || (p.WotsW != 4 && p.WotsW != 16 && p.WotsW != 256) {
		return -1
	}
	if c.must[s] {
		return 1
	}
	if c.may[s] {
		return 0
	}
	return -1
}

func hexs(b []byte) string { return hex.EncodeToString(b) }

func init() {
	// Every header.
	commands["codec-headers"] = func(cfg *Config) *Report {
		rep := NewReport()
		cd := loadCodec(cfg.Str("tables", ""))
		fd := cd.fast()
		ix := map[string]int{}
		for _, n := range []string{"magic", "version", "prf", "n", "func", "w", "h", "d"} {
			ix[n] = fieldIdx(cd, n)
		}
		var mux sync.Mutex
		cn := newCounter()
		step := uint32(cfg.Int("step", 1))
		var wg sync.WaitGroup
		one := func(h uint32, buf []byte, mem []byte) {
			buf[0], buf[1], buf[2], buf[3] = byte(h>>24), byte(h>>16), byte(h>>8), byte(h)
			ok := true
			var v [8]int
			for i := range fd.tab {
				v[i] = fd.tab[i][(h>>fd.sh[i])&fd.m[i]]
				if v[i] < 0 {
					ok = false
				}
			}
			want := xmssmt.Params{}
			if ok {
				want = xmssmt.Params{Func: xmssmt.HashFunc(v[ix["func"]]), N: uint32(v[ix["n"]]), FullHeight: uint32(v[ix["h"]]),
					D: uint32(v[ix["d"]]), WotsW: uint16(v[ix["w"]]), Prf: xmssmt.PrfConstruction(v[ix["prf"]])}
			}
			det := map[string]interface{}{"header": hexs(buf)}
			// As parameters.  Those which no context supports might be refused.
			var p xmssmt.Params
			err := p.UnmarshalBinary(buf)
			if err == nil && !ok {
				fail(det, "invalid header %x is decoded as %+v", buf, p)
			}
			if err == nil && p != want {
				fail(det, "header %x is decoded as %+v instead of %+v", buf, p, want)
			}
			sup := -1
			if ok {
				sup = cd.supported(want)
			}
			if err != nil && sup == 1 {
				fail(det, "valid header %x is refused: %v", buf, err)
			}
			if err == nil {
				b, err := p.MarshalBinary()
				if err != nil || !bytes.Equal(b, buf) {
					fail(det, "header %x is encoded again as %x (%v)", buf, b, err)
				}
			}
			// As public key: of the right size, and of wrong ones.
			n := 32
			if ok && want.N <= 128 {
				n = int(want.N)
			}
			for _, l := range []int{4 + 2*n, 4 + 2*n - 1, 4 + 2*n + 1, 4} {
				if sup < 0 && l != 4+2*n {
					continue
				}
				b := mem[:l]
				copy(b, buf)
				var pk xmssmt.PublicKey
				err := pk.UnmarshalBinary(b)
				if err == nil && (sup < 0 || l != 4+2*n) {
					fail(det, "a public key of %d bytes with header %x is accepted", l, buf)
				}
				if err != nil && sup > 0 && l == 4+2*n {
					fail(det, "a public key of %d bytes with header %x is refused: %v", l, buf, err)
				}
				if err == nil {
					b2, err2 := pk.MarshalBinary()
					if err2 != nil || !bytes.Equal(b, b2) {
						fail(det, "public key with header %x is marshalled differently", buf)
					}
					if pk.Context().Params() != want {
						fail(det, "public key with header %x has parameters %+v", buf, pk.Context().Params())
					}
				}
			}
			// As signature
			size := 2000
			if s, ok2 := cd.sizes[[4]int{int(want.N), int(want.WotsW), int(want.FullHeight), int(want.D)}]; ok2 && ok {
				size = s.Sig
			}
			for _, l := range []int{size + 4, size + 3, size + 5, 4 + 5} {
				if sup < 0 && l != size+4 {
					continue
				}
				b := mem[:l]
				copy(b, buf)
				var sig xmssmt.Signature
				err := sig.UnmarshalBinary(b)
				if err == nil && (sup < 0 || (sup > 0 && l != size+4)) {
					fail(det, "a signature of %d bytes with header %x is accepted", l, buf)
				}
				if err != nil && sup > 0 && l == size+4 {
					fail(det, "a signature of %d bytes with header %x is refused: %v", l, buf, err)
				}
				if err == nil && sup > 0 {
					b2, err2 := sig.MarshalBinary()
					if err2 != nil || !bytes.Equal(b, b2) {
						fail(det, "signature with header %x is marshalled differently", buf)
					}
				}
			}
			if sup > 0 {
				cn.add("supported", 1)
			}
		}
		for w := 0; w < cfg.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(cfg.Seed*31 + int64(w)))
				buf := make([]byte, 4)
				mem := make([]byte, 1<<22)
				n := 0
				catch(rep, &mux, "headers", func() {
					off := uint32(cfg.Seed) % step
					for h := uint32(w)*step + off; h < 1<<24; h += uint32(cfg.Workers) * step {
						one(0xea<<24|h, buf, mem)
						n++
					}
					// all headers which are valid but for one field
					for i := 0; i < cfg.Int("others", 100000); i++ {
						h := rng.Uint32()
						if i%2 == 0 {
							// few bits from a valid one
							x := cd.names[rng.Intn(len(cd.names))].Header
							h = uint32(x[0])<<24 | uint32(x[1])<<16 | uint32(x[2])<<8 | uint32(x[3])
							h ^= 1 << uint(rng.Intn(32))
							if i%4 == 0 {
								h ^= 1 << uint(rng.Intn(32))
							}
						}
						one(h, buf, mem)
						n++
					}
				})
				cn.add("headers", n)
			}(w)
		}
		wg.Wait()
		cn.sample(map[string]interface{}{"headers": "0xea000000 + " + fmt.Sprint(step) + " k"})
		cn.into(rep)
		return rep
	}

	commands["codec-params"] = func(cfg *Config) *Report {
		rep := NewReport()
		cd := loadCodec(cfg.Str("tables", ""))
		cn := newCounter()
		var mux sync.Mutex
		catch(rep, &mux, "encoding of parameters", func() { cd.encodings(cn) })
		catch(rep, &mux, "sizes and names", func() { cd.nameTable(cn) })
		catch(rep, &mux, "registry", func() { cd.registry(cn, rand.New(rand.NewSource(cfg.Seed))) })
		catch(rep, &mux, "names", func() { cd.nameCases(cn, cfg) })
		cn.into(rep)
		return rep
	}

	commands["codec-malformed"] = func(cfg *Config) *Report {
		rep := NewReport()
		cd := loadCodec(cfg.Str("tables", ""))
		ts := loadTemplates(cfg.Str("templates", ""))
		cn := newCounter()
		forEach(cfg, rep, ts, func(t *Tmpl, rng *rand.Rand) { malformed(cd, t, ts, rng, cn) })
		cn.into(rep)
		return rep
	}
}

// Which parameters are representable, and how (C11).
func (cd *codec) encodings(cn *counter) {
	inv := map[string]map[int]uint32{}
	for f, t := range cd.table {
		inv[f] = map[int]uint32{}
		for c, v := range t {
			inv[f][v] = c
		}
	}
	vals := map[string][]int{
		"func": {0, 1, 2, 3, 4, 5, 7, 8, 64, 127, 255},
		"n":    {0, 1, 7, 8, 9, 12, 16, 17, 24, 32, 40, 64, 120, 127, 128, 129, 136, 256, 1 << 20, asInt(1<<32 - 8), asInt(1<<32 - 1)},
		"h":    {0, 1, 2, 31, 62, 63, 64, 65, 127, 128, 1 << 16, asInt(1<<32 - 1)},
		"d":    {0, 1, 2, 31, 62, 63, 64, 65, 127, 128, 1 << 16, asInt(1<<32 - 1)},
		"w":    {0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 32, 128, 255, 256, 257, 512, 65535},
		"prf":  {0, 1, 2, 3, 4, 127, 255},
	}
	seen := map[uint32]xmssmt.Params{}
	for _, f := range vals["func"] {
		for _, n := range vals["n"] {
			for _, h := range vals["h"] {
				for _, d := range vals["d"] {
					for _, w := range vals["w"] {
						for _, x := range vals["prf"] {
							p := xmssmt.Params{Func: xmssmt.HashFunc(f), N: uint32(n), FullHeight: uint32(h), D: uint32(d), WotsW: uint16(w), Prf: xmssmt.PrfConstruction(x)}
							v := map[string]int{"magic": 0, "version": 0, "func": f, "n": n, "h": h, "d": d, "w": w, "prf": x}
							ok := true
							var want uint32
							for _, fl := range cd.fields {
								code, ok2 := inv[fl.Name][v[fl.Name]]
								ok = ok && ok2
								want = want<<fl.Bits | code
							}
							cn.add("encodings", 1)
							det := map[string]interface{}{"params": fmt.Sprintf("%#v", p)}
							b, err := p.MarshalBinary()
							if !ok {
								if err == nil {
									fail(det, "unrepresentable parameters %#v are encoded as %x", p, b)
								}
								continue
							}
							if err != nil {
								if cd.supported(p) < 0 {
									continue // (invalid parameters may be refused)
								}
								fail(det, "parameters %#v are refused: %v", p, err)
							}
							got := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
							if len(b) != 4 || got != want {
								fail(det, "parameters %#v are encoded as %x instead of %08x", p, b, want)
							}
							if q, ok := seen[got]; ok && q != p {
								fail(det, "parameters %#v and %#v have the same encoding", p, q)
							}
							seen[got] = p
							into := bytes.Repeat([]byte{0x77}, 6)
							if err := p.WriteInto(into); err != nil || !bytes.Equal(into[:4], b) || into[4] != 0x77 {
								fail(det, "WriteInto differs from MarshalBinary for %#v", p)
							}
							var q xmssmt.Params
							if err := q.UnmarshalBinary(b); err != nil || q != p {
								fail(det, "encoding of %#v is decoded as %#v (%v)", p, q, err)
							}
							for _, l := range []int{0, 1, 3, 5, 8} {
								b2 := make([]byte, l)
								copy(b2, b)
								if err := q.UnmarshalBinary(b2); err == nil {
									fail(det, "%d bytes are decoded as parameters", l)
								}
							}
						}
					}
				}
			}
		}
	}
}

// Contexts, sizes, names and headers of every supported parameter set.
func (cd *codec) nameTable(cn *counter) {
	for i := range cd.names {
		e := &cd.names[i]
		p := e.P.params()
		det := map[string]interface{}{"params": e.P}
		ctx, err := xmssmt.NewContext(p)
		if err != nil {
			fail(det, "NewContext(%+v) fails: %v", e.P, err)
		}
		if ctx.Params() != p {
			fail(det, "context has other parameters than it was made with")
		}
		if p.String() != e.Name {
			fail(det, "name of %+v is %s instead of %s", e.P, p.String(), e.Name)
		}
		for _, n := range append([]string{e.Name}, e.Aliases...) {
			ctx2, err := xmssmt.NewContextFromName2(n)
			if err != nil {
				fail(det, "NewContextFromName2(%s) fails: %v", n, err)
			}
			if ctx2.Params() != p {
				fail(det, "%s gives %+v", n, ctx2.Params())
			}
			p2, err := xmssmt.ParamsFromName2(n)
			if err != nil || *p2 != p {
				fail(det, "ParamsFromName2(%s) gives %v, %v", n, p2, err)
			}
			cn.add("names", 1)
		}
		var hb []byte
		for _, x := range e.Header {
			hb = append(hb, byte(x))
		}
		b, err2 := p.MarshalBinary()
		if err2 != nil || !bytes.Equal(b, hb) {
			fail(det, "%s is encoded as %x instead of %x (%v)", e.Name, b, hb, err2)
		}
		s := cd.sizes[[4]int{e.P.N, e.P.W, e.P.H, e.P.D}]
		if int(ctx.SignatureSize()) != s.Sig {
			fail(det, "%s: SignatureSize() is %d instead of %d", e.Name, ctx.SignatureSize(), s.Sig)
		}
		if ctx.MT() != (e.P.D > 1) {
			fail(det, "%s: MT() is %v", e.Name, ctx.MT())
		}
		reg := cd.regByP[p]
		cd.checkIdentity(ctx, reg, det, e.Name)
		if uint64(p.MaxSignatureSeqNo()) != uint64(1)<<uint(e.P.H)-1 {
			fail(det, "%s: MaxSignatureSeqNo() is %d", e.Name, p.MaxSignatureSeqNo())
		}
		if p.PrivateKeySize() != 3*e.P.N {
			fail(det, "%s: PrivateKeySize() is %d", e.Name, p.PrivateKeySize())
		}
		cn.add("parameter_sets", 1)
	}
	cn.sample(map[string]interface{}{"name": cd.names[77].Name})
}

func (cd *codec) checkIdentity(ctx *xmssmt.Context, reg *cReg, det map[string]interface{}, what string) {
	for round := 0; round < 2; round++ { // (computed lazily: ask twice, in both orders)
		name, oid, rfc, nist, mt := "", uint32(0), false, false, ctx.Params().D > 1
		if reg != nil {
			name, oid, rfc, nist, mt = reg.Name, reg.Oid, reg.From == "RFC", reg.From == "NIST", reg.Mt
		}
		if round == 0 {
			if ctx.FromNIST() != nist {
				fail(det, "%s: FromNIST() is %v", what, ctx.FromNIST())
			}
			if ctx.FromRFC() != rfc {
				fail(det, "%s: FromRFC() is %v", what, ctx.FromRFC())
			}
		}
		if ctx.Oid() != oid {
			fail(det, "%s: Oid() is %x instead of %x", what, ctx.Oid(), oid)
		}
		if ctx.Name() != name {
			fail(det, "%s: Name() is %q instead of %q", what, ctx.Name(), name)
		}
		if ctx.MT() != mt {
			fail(det, "%s: MT() is %v", what, ctx.MT())
		}
		if ctx.FromRFC() != rfc {
			fail(det, "%s: FromRFC() is %v", what, ctx.FromRFC())
		}
		if ctx.FromNIST() != nist {
			fail(det, "%s: FromNIST() is %v", what, ctx.FromNIST())
		}
	}
}

func (cd *codec) registry(cn *counter, rng *rand.Rand) {
	want := map[string]*cReg{}
	byOid := map[bool]map[uint32]*cReg{true: {}, false: {}}
	for i := range cd.reg {
		r := &cd.reg[i]
		want[r.Name] = r
		byOid[r.Mt][r.Oid] = r
		det := map[string]interface{}{"entry": r}
		p := r.P.params()
		ctx := xmssmt.NewContextFromName(r.Name)
		if ctx == nil || ctx.Params() != p {
			fail(det, "NewContextFromName(%s) gives other parameters (or nothing)", r.Name)
		}
		cd.checkIdentity(ctx, r, det, "NewContextFromName("+r.Name+")")
		ctx = xmssmt.NewContextFromOid(r.Mt, r.Oid)
		if ctx == nil || ctx.Params() != p {
			fail(det, "NewContextFromOid(%v, %x) gives other parameters (or nothing) than %s", r.Mt, r.Oid, r.Name)
		}
		cd.checkIdentity(ctx, r, det, fmt.Sprintf("NewContextFromOid(%v, %x)", r.Mt, r.Oid))
		ctx, err := xmssmt.NewContextFromName2(r.Name)
		if err != nil || ctx.Params() != p {
			fail(det, "NewContextFromName2(%s) gives other parameters: %v", r.Name, err)
		}
		cd.checkIdentity(ctx, r, det, "NewContextFromName2("+r.Name+")")
		pp := xmssmt.ParamsFromName(r.Name)
		if pp == nil || *pp != p {
			fail(det, "ParamsFromName(%s) gives %v", r.Name, pp)
		}
		n, o := p.LookupNameAndOid()
		if n != r.Name || o != r.Oid {
			fail(det, "LookupNameAndOid of %s gives %s and %x", r.Name, n, o)
		}
		cn.add("registered", 1)
	}
	names := xmssmt.ListNames()
	got := map[string]bool{}
	for _, n := range names {
		if got[n] {
			fail(nil, "%s is listed twice", n)
		}
		got[n] = true
		if want[n] == nil {
			fail(nil, "%s is listed, but in neither RFC 8391 nor SP 800-208", n)
		}
	}
	if len(got) != len(want) {
		fail(nil, "ListNames has %d names instead of %d", len(got), len(want))
	}
	for _, n := range xmssmt.ListNames2() {
		ctx, err := xmssmt.NewContextFromName2(n)
		if err != nil {
			fail(nil, "%s of ListNames2 is not supported: %v", n, err)
		}
		e := cd.nameOf[ctx.Params()]
		if e == nil || e.Name != n {
			fail(nil, "%s of ListNames2 denotes other parameters", n)
		}
		cd.checkIdentity(ctx, cd.regByP[ctx.Params()], nil, n)
		cn.add("names", 1)
	}
	// Other OIDs
	for i := uint32(0); i < 1<<17; i++ {
		o := i
		if i >= 1<<16 {
			o = rng.Uint32()
		}
		for _, mt := range []bool{false, true} {
			ctx := xmssmt.NewContextFromOid(mt, o)
			if (ctx != nil) != (byOid[mt][o] != nil) {
				fail(nil, "NewContextFromOid(%v, %x) is %v", mt, o, ctx)
			}
			cn.add("oids", 1)
		}
	}
	// Parameters as exotic as can be do not name anything
	p := xmssmt.Params{Func: 7, N: 5}
	if n, o := p.LookupNameAndOid(); n != "" || o != 0 {
		fail(nil, "LookupNameAndOid gives %s for nonsense", n)
	}
}

func (cd *codec) nameCases(cn *counter, cfg *Config) {
	dir := filepath.Join(cfg.Scratch, "names")
	mkdir(dir)
	for i, cs := range cd.cases {
		det := map[string]interface{}{"name": cs.Name}
		ctx, err := xmssmt.NewContextFromName2(cs.Name)
		cn.add("names", 1)
		if !cs.Ok {
			if err == nil {
				fail(det, "the ill-formed name %q is accepted as %+v", cs.Name, ctx.Params())
			}
			if ctx1 := xmssmt.NewContextFromName(cs.Name); ctx1 != nil {
				fail(det, "the ill-formed name %q is accepted by NewContextFromName", cs.Name)
			}
			if pp := xmssmt.ParamsFromName(cs.Name); pp != nil {
				fail(det, "the ill-formed name %q is accepted by ParamsFromName", cs.Name)
			}
			if i%50 == 0 {
				if _, _, err := xmssmt.GenerateKeyPair(cs.Name, filepath.Join(dir, "key")); err == nil {
					fail(det, "GenerateKeyPair accepts the ill-formed name %q", cs.Name)
				}
				if _, err := os.Stat(filepath.Join(dir, "key")); err == nil {
					fail(det, "GenerateKeyPair with an ill-formed name leaves a key")
				}
			}
			continue
		}
		if err != nil {
			fail(det, "the name %q is refused: %v", cs.Name, err)
		}
		if ctx.Params() != cs.P.params() {
			fail(det, "the name %q gives %+v instead of %+v", cs.Name, ctx.Params(), cs.P)
		}
	}
	// Contexts of ill-formed parameters
	for _, n := range []uint32{0, 1, 8, 16, 20, 24, 32, 40, 64, 128, 1 << 28, 1<<32 - 8} {
		for _, h := range []uint32{0, 1, 2, 7, 20, 63, 64, 65, 128, 1 << 31, 1<<32 - 1} {
			for _, d := range []uint32{0, 1, 2, 3, 7, 20, 63, 64, 65, 1 << 31, 1<<32 - 1} {
				for _, w := range []uint16{0, 1, 2, 4, 8, 16, 32, 255, 256, 65535} {
					for _, f := range []int{0, 1, 2, 3, 4, 255} {
						for _, x := range []int{0, 1, 2, 255} {
							p := xmssmt.Params{Func: xmssmt.HashFunc(f), N: n, FullHeight: h, D: d, WotsW: w, Prf: xmssmt.PrfConstruction(x)}
							ctx, err := xmssmt.NewContext(p)
							if sup := cd.supported(p); sup < 0 && err == nil {
								fail(map[string]interface{}{"params": fmt.Sprintf("%#v", p)}, "NewContext accepts %#v", p)
							} else if sup > 0 && err != nil {
								fail(map[string]interface{}{"params": fmt.Sprintf("%#v", p)}, "NewContext refuses %#v: %v", p, err)
							}
							_ = ctx
							_ = p.String() // should not panic
							cn.add("contexts", 1)
						}
					}
				}
			}
		}
	}
}

// Byte strings that are no signatures or keys (C12), and genuine ones (C11).
func malformed(cd *codec, t *Tmpl, ts []*Tmpl, rng *rand.Rand, cn *counter) {
	in := newInst(t, rng, 1)
	seqs := in.seqs(2)
	m := in.msg()
	good := in.ref.sign(seqs[0], m, nil)
	pkb := in.ref.pk()
	in.det["seq"] = seqs[0]
	var pk xmssmt.PublicKey
	if err := pk.UnmarshalBinary(pkb); err != nil {
		fail(in.det, "public key is refused: %v", err)
	}

	// Layout and round trips, in used and in fresh objects
	var sig xmssmt.Signature
	for i := 0; i < 2; i++ {
		if err := sig.UnmarshalBinary(good); err != nil {
			fail(in.det, "signature is refused: %v", err)
		}
		b, err := sig.MarshalBinary()
		if err != nil || !bytes.Equal(b, good) {
			fail(in.det, "signature is marshalled differently")
		}
		big := bytes.Repeat([]byte{0x66}, len(good)+3)
		if err := sig.WriteInto(big); err != nil || !bytes.Equal(big[:len(good)], good) || big[len(good)] != 0x66 {
			fail(in.det, "WriteInto of the signature differs from MarshalBinary")
		}
		if uint64(sig.SeqNo()) != seqs[0] {
			fail(in.det, "SeqNo() is %d", sig.SeqNo())
		}
		if sig.Context().Params() != t.params() || int(sig.Context().SignatureSize())+4 != len(good) {
			fail(in.det, "context of the signature is wrong")
		}
		txt, err := pk.MarshalText()
		if err != nil || string(txt) != base64.StdEncoding.EncodeToString(pkb) {
			fail(in.det, "text of the public key is wrong: %s", txt)
		}
		var pk2 xmssmt.PublicKey
		if err := pk2.UnmarshalText(txt); err != nil {
			fail(in.det, "text of the public key is refused: %v", err)
		}
		if b, err := pk2.MarshalBinary(); err != nil || !bytes.Equal(b, pkb) {
			fail(in.det, "text of the public key does not round-trip")
		}
		bigp := bytes.Repeat([]byte{0x66}, len(pkb)+3)
		if err := pk2.WriteInto(bigp); err != nil || !bytes.Equal(bigp[:len(pkb)], pkb) || bigp[len(pkb)] != 0x66 {
			fail(in.det, "WriteInto of the public key differs from MarshalBinary")
		}
		if ok, err := pk2.Verify(&sig, m); !ok || err != nil {
			fail(in.det, "signature does not verify after the round trip: %v", err)
		}
		for _, bad := range []string{"", "!", string(txt[:len(txt)-1]), string(txt) + "AAAA", strings.Replace(string(txt), string(txt[5]), "*", 1)} {
			var pk3 xmssmt.PublicKey
			if err := pk3.UnmarshalText([]byte(bad)); err == nil {
				fail(in.det, "text %q is accepted as public key", bad)
			}
		}
		cn.add("round_trips", 1)
	}
	// the largest sequence numbers
	for _, s := range []uint64{0, 1, in.max - 1, in.max / 2} {
		b := append([]byte{}, good...)
		copy(b[4:4+t.IdxBytes], toByte(s, t.IdxBytes))
		if err := sig.UnmarshalBinary(b); err != nil {
			fail(in.det, "signature with number %d is refused: %v", s, err)
		}
		if uint64(sig.SeqNo()) != s {
			fail(in.det, "SeqNo() is %d instead of %d", sig.SeqNo(), s)
		}
		b2, err := sig.MarshalBinary()
		if err != nil || !bytes.Equal(b, b2) {
			fail(in.det, "signature with number %d is marshalled differently", s)
		}
	}

	try := func(what string, pkb, sigb, m []byte, sigMust int) {
		// sigMust: -1 it may not be unmarshalled, 0 don't care
		det := map[string]interface{}{"what": what, "pk": hexs(pkb), "sig": hexs(sigb), "msg": hexs(m)}
		if len(sigb) > 20000 {
			det["sig"] = hexs(sigb[:20000])
		}
		cn.add("inputs", 1)
		defer func() {
			if r := recover(); r != nil {
				if v, ok := r.(vio); ok {
					panic(v)
				}
				fail(det, "%s: panic: %v", what, r)
			}
		}()
		genuine := bytes.Equal(pkb, in.ref.pk()) && bytes.Equal(sigb, good)
		ok, err := xmssmt.Verify(pkb, sigb, m)
		if ok && !genuine {
			fail(det, "%s: verifies", what)
		}
		if !ok && err == nil {
			fail(det, "%s: Verify returns no error", what)
		}
		var s xmssmt.Signature
		if err := s.UnmarshalBinary(sigb); err == nil {
			if sigMust < 0 {
				fail(det, "%s: accepted as signature", what)
			}
			_ = s.String()
			_ = s.SeqNo()
			if ok, err := pk.Verify(&s, m); (ok && !bytes.Equal(sigb, good)) || ok != (err == nil) {
				fail(det, "%s: Verify returns %v, %v", what, ok, err)
			}
			if b, err := s.MarshalBinary(); err != nil || !bytes.Equal(b, sigb) {
				fail(det, "%s: marshalled differently", what)
			}
		}
	}
	// Truncated and extended
	lens := map[int]bool{}
	for i := 0; i < 8; i++ {
		lens[i] = true
		lens[len(good)-1-i] = true
		lens[len(good)+1+i] = true
		lens[4+t.IdxBytes+t.P.N-4+i] = true
	}
	for i := 0; i < 12; i++ {
		lens[rng.Intn(len(good))] = true
		lens[len(good)+1+rng.Intn(5000)] = true
	}
	for l := range lens {
		if l == len(good) || l < 0 {
			continue
		}
		b := make([]byte, l)
		copy(b, good)
		try(fmt.Sprintf("signature with %d bytes", l), pkb, b, m, -1)
	}
	for l := 0; l < 3*len(pkb); l++ {
		if l == len(pkb) {
			continue
		}
		b := make([]byte, l)
		copy(b, pkb)
		var x xmssmt.PublicKey
		if err := x.UnmarshalBinary(b); err == nil {
			fail(in.det, "public key with %d bytes is accepted", l)
		}
		try(fmt.Sprintf("public key with %d bytes", l), b, good, m, 0)
	}
	// Random contents behind a good header
	for i := 0; i < 8; i++ {
		b := make([]byte, len(good))
		rng.Read(b)
		copy(b, good[:4])
		if i%2 == 0 {
			copy(b, good[:4+rng.Intn(len(good)-4)])
		}
		if i == 1 {
			for j := 4; j < len(b); j++ {
				b[j] = 0xff
			}
		}
		p := append([]byte{}, pkb...)
		if i%3 == 0 {
			rng.Read(p[4:])
		}
		try("random signature", p, b, m, 0)
	}
	// Every other header, of this length and of the length that goes with it,
	// against this public key; and the other public key against this signature
	for i := 0; i < 40; i++ {
		e := &cd.names[rng.Intn(len(cd.names))]
		hb := []byte{}
		for _, x := range e.Header {
			hb = append(hb, byte(x))
		}
		if i%2 == 0 {
			hb[rng.Intn(4)] ^= 1 << uint(rng.Intn(8))
		}
		b := append(append([]byte{}, hb...), good[4:]...)
		try("other header", pkb, b, m, 0)
		s := cd.sizes[[4]int{e.P.N, e.P.W, e.P.H, e.P.D}]
		if s.Sig < 100000 {
			b = make([]byte, 4+s.Sig)
			rng.Read(b)
			copy(b, hb)
			try("other parameters", pkb, b, m, 0)
		}
		p := make([]byte, 4+2*e.P.N)
		rng.Read(p)
		copy(p, hb)
		try("public key of other parameters", p, good, m, 0)
		if s.Sig < 20000 && e.P.W <= 16 {
			try("other parameters for both", p, b, m, 0)
		}
	}
	// Signatures of the other instances against this key
	for i := 0; i < 6; i++ {
		o := ts[rng.Intn(len(ts))]
		if o.SigSize > 60000 {
			continue
		}
		b := make([]byte, 4+o.SigSize)
		rng.Read(b[4:])
		for j, x := range o.Header {
			b[j] = byte(x)
		}
		try("signature of "+o.String(), pkb, b, m, 0)
	}
	// Simply random
	for i := 0; i < 30; i++ {
		b := make([]byte, rng.Intn(3000))
		rng.Read(b)
		if len(b) > 4 && i%2 == 0 {
			b[0] = 0xea
			b[1] &= 0x1f
		}
		try("random bytes", pkb, b, m, 0)
		try("random bytes as public key", b, good, m, 0)
	}
	cn.sample(map[string]interface{}{"params": t.String(), "lengths": len(lens)})
}

// (not a constant: ints may have 32 bits)
func asInt(x uint32) int { return int(x) }
