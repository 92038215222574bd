package main

// C25: reads files as Files.tla says earlier versions left them, and records
// what the container writes.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type ints []int

func (a ints) bytes() []byte {
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x)
	}
	return b
}

func toInts(b []byte) ints {
	a := make(ints, len(b))
	for i, x := range b {
		a[i] = int(x)
	}
	return a
}

type fileParams struct {
	Name string `json:"name"`
	Func int    `json:"func"`
	N    int    `json:"n"`
	H    int    `json:"h"`
	D    int    `json:"d"`
	W    int    `json:"w"`
	Prf  int    `json:"prf"`
}

type fileCase struct {
	P      fileParams `json:"p"`
	Seq    ints       `json:"seq"`
	Bor    ints       `json:"bor"`
	Secret ints       `json:"secret"`
	F      int        `json:"f"`
	Al     int        `json:"al"`
	Slots  []struct {
		Allocated  int
		Addr, Mark ints
	} `json:"slots"`
	Load bool `json:"load"` // the numbers are possible ones
}

type fileImage struct {
	Case  int  `json:"case"`
	Key   ints `json:"key"`
	Cache struct {
		Size  int
		Parts []struct {
			Off int
			B   ints
		}
	} `json:"cache"`
}

func addrOf(b []byte) xmssmt.SubTreeAddress {
	return xmssmt.SubTreeAddress{Layer: binary.BigEndian.Uint32(b), Tree: binary.BigEndian.Uint64(b[4:])}
}

func addrBytes(a xmssmt.SubTreeAddress) []byte {
	b := make([]byte, 12)
	binary.BigEndian.PutUint32(b, a.Layer)
	binary.BigEndian.PutUint64(b[4:], a.Tree)
	return b
}

// What is in the files, for Files.tla
func fileState(path string, e Obs) Obs {
	key, err := os.ReadFile(path)
	check(err)
	e["key"] = toInts(key)
	cache, err := os.ReadFile(path + ".cache")
	if err != nil {
		cache = nil
	}
	pages := Obs{}
	for o := 4096; o+21 <= len(cache); o += 4096 {
		pages[fmt.Sprint(o)] = toInts(cache[o : o+21])
	}
	head := cache
	if len(head) > 17 {
		head = head[:17]
	}
	e["cache"] = Obs{"size": len(cache), "head": toInts(head), "pages": pages}
	return e
}

// Writes the files of a case; returns the contents of the cache.
func writeCase(path string, c *fileCase, im *fileImage, rng *rand.Rand) []byte {
	check(os.WriteFile(path, im.Key.bytes(), 0600))
	cache := make([]byte, im.Cache.Size)
	rng.Read(cache)
	for _, p := range im.Cache.Parts {
		copy(cache[p.Off:], p.B.bytes())
	}
	check(os.WriteFile(path+".cache", cache, 0600))
	return cache
}

// Reads a case
func checkCase(ctr xmssmt.PrivateKeyContainer, c *fileCase, im *fileImage, cache []byte) string {
	want := parseParams(c.P.Name)
	p := ctr.Initialized()
	if p == nil || *p != want {
		return fmt.Sprintf("parameters are read as %v", p)
	}
	key, err := ctr.GetPrivateKey()
	if err != nil || !bytes.Equal(key, c.Secret.bytes()) {
		return fmt.Sprintf("the secret key is not the one in the file (%v)", err)
	}
	seq, bor, err := ctr.GetSeqNo()
	if err != nil || uint64(seq) != binary.BigEndian.Uint64(c.Seq.bytes()) || bor != binary.BigEndian.Uint32(c.Bor.bytes()) {
		return fmt.Sprintf("next number %d and %d reserved were read (%v)", seq, bor, err)
	}
	if !ctr.CacheInitialized() {
		return "the cache is ignored"
	}
	live := map[xmssmt.SubTreeAddress]int{}
	for i, s := range c.Slots {
		if s.Allocated == 1 {
			live[addrOf(s.Addr.bytes())] = i
		}
	}
	l, err := ctr.ListSubTrees()
	if err != nil || len(l) != len(live) {
		return fmt.Sprintf("%v are listed instead of %d subtrees (%v)", l, len(live), err)
	}
	for a, i := range live {
		if !ctr.HasSubTree(a) {
			return fmt.Sprintf("subtree %v is not found", a)
		}
		b, exists, err := ctr.GetSubTree(a)
		if err != nil || !exists {
			return fmt.Sprintf("subtree %v: %v %v", a, exists, err)
		}
		off := im.Cache.Parts[i+1].Off + 13
		if len(b) != want.CachedSubTreeSize() || !bytes.Equal(b, cache[off:off+len(b)]) {
			return fmt.Sprintf("subtree %v has not the contents it has in the file", a)
		}
	}
	return ""
}

// Loads a case as a key
func loadCase(path string, c *fileCase) (problem string) {
	n := c.P.N
	s := c.Secret.bytes()
	sk, pk, lost, err := xmssmt.LoadPrivateKey(path)
	if err != nil {
		return "LoadPrivateKey fails: " + err.Error()
	}
	defer sk.Close()
	seq := binary.BigEndian.Uint64(c.Seq.bytes())
	bor := binary.BigEndian.Uint32(c.Bor.bytes())
	if lost != bor || uint64(sk.SeqNo()) != seq {
		return fmt.Sprintf("loaded with next number %d (%d lost) instead of %d (%d)", sk.SeqNo(), lost, seq, bor)
	}
	rsk, rpk, err := mustCtx(c.P.Name).DeriveInto(openMemCtr(&memDisk{}), dup(s[2*n:]), dup(s[:n]), dup(s[n:2*n]))
	if err != nil {
		return "DeriveInto fails: " + err.Error()
	}
	defer rsk.Close()
	rsk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(seq))
	if !bytes.Equal(mustMarshal(pk), mustMarshal(rpk)) {
		return "the key in the file has another public key"
	}
	par := parseParams(c.P.Name)
	if seq >= par.MaxSignatureSeqNo() {
		return ""
	}
	s1, err1 := sk.Sign([]byte("m"))
	s2, err2 := rsk.Sign([]byte("m"))
	if err1 != nil || err2 != nil {
		return fmt.Sprintf("Sign fails: %v %v", err1, err2)
	}
	if !bytes.Equal(mustMarshal(s1), mustMarshal(s2)) {
		return "the key in the file makes other signatures"
	}
	return ""
}

// Files of another kind are not misread.
func foreignCase(path string, c *fileCase, im *fileImage, rng *rand.Rand) string {
	key, cache := im.Key.bytes(), writeCase(path, c, im, rng)
	if rng.Intn(2) == 0 {
		key[rng.Intn(8)] ^= 1 << uint(rng.Intn(8))
		check(os.WriteFile(path, key, 0600))
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
		if err == nil {
			ctr.Close()
			return "a key file with another magic is read"
		}
	} else {
		// another magic, or a version of the future (or the wrong one for the magic)
		if rng.Intn(2) == 0 {
			cache[rng.Intn(8)] ^= 1 << uint(rng.Intn(8))
		} else {
			cache[12] = byte(2 + rng.Intn(250))
		}
		check(os.WriteFile(path+".cache", cache, 0600))
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
		if err != nil {
			return "a key with an unknown cache can't be opened: " + err.Error()
		}
		defer ctr.Close()
		if ctr.CacheInitialized() {
			return "a cache of an unknown format is used"
		}
		return ""
	}
	b, err := os.ReadFile(path)
	check(err)
	if !bytes.Equal(b, key) {
		return "a file of another kind was changed"
	}
	return ""
}

func filesHistory(cfg *Config, rng *rand.Rand, dir string, cases []fileCase, im []fileImage, k int) (ev []Obs, problem string) {
	mkdir(dir)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	ci := rng.Intn(len(cases))
	if k < len(cases) {
		ci = k
	}
	c := &cases[ci]
	say := func(f string, a ...interface{}) string {
		return fmt.Sprintf("case %d (%s): ", ci+1, c.P.Name) + fmt.Sprintf(f, a...)
	}
	if pr := foreignCase(path, c, &im[ci], rng); pr != "" {
		return nil, say(pr)
	}
	cache := writeCase(path, c, &im[ci], rng)
	if c.Load {
		for i := 0; i < 2; i++ {
			if i == 0 {
				check(os.Remove(path + ".cache"))
			}
			if pr := loadCase(path, c); pr != "" {
				return nil, say(pr)
			}
			cache = writeCase(path, c, &im[ci], rng)
		}
	}
	ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
	if err != nil {
		return nil, say("OpenFSPrivateKeyContainer fails: %v", err)
	}
	defer func() { ctr.Close() }()
	if pr := checkCase(ctr, c, &im[ci], cache); pr != "" {
		return nil, say(pr)
	}
	ev = append(ev, fileState(path, Obs{"op": "Adopt", "case": ci + 1}))
	live := []xmssmt.SubTreeAddress{}
	for _, s := range c.Slots {
		if s.Allocated == 1 {
			live = append(live, addrOf(s.Addr.bytes()))
		}
	}
	for i := 0; i < 12; i++ {
		e := Obs{}
		var err xmssmt.Error
		switch rng.Intn(9) {
		case 0:
			n := &cases[rng.Intn(len(cases))]
			if len(n.Slots) > 0 && n.P.H/n.P.D > 8 && rng.Intn(3) > 0 {
				continue
			}
			s := dup(n.Secret.bytes())
			rng.Read(s)
			err = ctr.Reset(s, parseParams(n.P.Name))
			e = Obs{"op": "Reset", "p": n.P, "secret": toInts(s)}
			live = nil
		case 1, 2:
			what := rng.Intn(2)
			if what == 0 {
				err = ctr.SetSeqNo(xmssmt.SignatureSeqNo(rng.Uint64() >> uint(rng.Intn(64))))
			} else if s, b, _ := ctr.GetSeqNo(); uint64(s) < 1<<62 && b < 1<<30 {
				_, err = ctr.BorrowSeqNos(uint32(rng.Intn(1 << 30)))
			}
			s, b, err2 := ctr.GetSeqNo()
			if err == nil {
				err = err2
			}
			sb, bb := make([]byte, 8), make([]byte, 4)
			binary.BigEndian.PutUint64(sb, uint64(s))
			binary.BigEndian.PutUint32(bb, b)
			e = Obs{"op": "Record", "seq": toInts(sb), "bor": toInts(bb)}
		case 3, 4, 5:
			a := randAddr(rng)
			if len(live) > 0 && rng.Intn(4) == 0 {
				a = live[rng.Intn(len(live))]
			}
			var b []byte
			b, _, err = ctr.GetSubTree(a)
			if err == nil {
				m := make([]byte, 8)
				rng.Read(m)
				copy(b, m)
				e = Obs{"op": "Write", "addr": toInts(addrBytes(a)), "mark": toInts(m)}
				live = append(live, a)
			}
		case 6:
			a := randAddr(rng)
			if len(live) > 0 && rng.Intn(4) > 0 {
				a = live[rng.Intn(len(live))]
			}
			err = ctr.DropSubTree(a)
			e = Obs{"op": "Drop", "addr": toInts(addrBytes(a))}
		case 7:
			if rng.Intn(3) == 0 {
				err = ctr.ResetCache()
				e = Obs{"op": "ResetCache"}
				live = nil
				break
			}
			fallthrough
		default:
			err = ctr.Close()
			if err == nil {
				ctr, err = xmssmt.OpenFSPrivateKeyContainer(path)
			}
			e = Obs{"op": "Reopen"}
		}
		if err != nil {
			return ev, say("after %d operations, %v fails: %v", i, e, err)
		}
		ev = append(ev, fileState(path, e))
	}
	return ev, ""
}

func readLines(name string, each func(b []byte)) {
	f, err := os.Open(name)
	check(err)
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<20)
	for {
		b, err := r.ReadBytes('\n')
		if len(bytes.TrimSpace(b)) > 0 {
			each(b)
		}
		if err != nil {
			return
		}
	}
}

func init() {
	commands["files"] = func(cfg *Config) *Report {
		rep := NewReport()
		var cases []fileCase
		readLines(cfg.Str("cases", ""), func(b []byte) {
			var c fileCase
			check(json.Unmarshal(b, &c))
			cases = append(cases, c)
		})
		im := make([]fileImage, len(cases))
		readLines(cfg.Str("images", ""), func(b []byte) {
			var i fileImage
			check(json.Unmarshal(b, &i))
			im[i.Case-1] = i
		})
		out, err := os.Create(cfg.Str("histories", ""))
		check(err)
		defer out.Close()
		var mux sync.Mutex
		ops, k := 0, 0
		parallel(cfg, cfg.Int("max", 1000), func(w, i int, rng *rand.Rand, prog *progress) string {
			prog.begin()
			prog.add(Obs{"history": i})
			var ev []Obs
			pr := guarded(func() (p string) {
				ev, p = filesHistory(cfg, rng, filepath.Join(cfg.Scratch, fmt.Sprintf("h%d", i)), cases, im, i)
				return
			}, time.Minute, nil)
			mux.Lock()
			defer mux.Unlock()
			k++
			if pr != "" {
				return pr
			}
			ops += len(ev)
			b, err := json.Marshal(Obs{"ev": ev})
			check(err)
			fmt.Fprintf(out, "%s\n", b)
			return ""
		}, rep)
		rep.Stats["histories"] = k
		rep.Stats["operations"] = ops
		return rep
	}
}
