package main

// C22: generates keys from a source of randomness which is watched, and which
// hands out what it has in pieces or fails.  Records attempts for KeyGen.tla.

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

// The stream of random bytes
type randStream struct {
	seed int64
	pos  int
	max  int // bytes at a time
	fail int // fails here; -1: does not
	kind string
	rng  *rand.Rand
	// the source failed
	failed bool
	mux    sync.Mutex
}

func streamBytes(seed int64, from, to int) []byte {
	var ret []byte
	for b := from / 32; b*32 < to; b++ {
		var x [16]byte
		binary.BigEndian.PutUint64(x[:], uint64(seed))
		binary.BigEndian.PutUint64(x[8:], uint64(b))
		h := sha256.Sum256(x[:])
		ret = append(ret, h[:]...)
	}
	return ret[from%32 : from%32+to-from]
}

func (s *randStream) Read(b []byte) (int, error) {
	s.mux.Lock()
	defer s.mux.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if s.max > 0 && n > s.max {
		n = s.max
	}
	var err error
	if s.fail >= 0 && s.pos+n >= s.fail && (s.pos == s.fail || s.kind == "partial" && s.pos+n > s.fail) {
		err = errors.New("no randomness today")
		if s.kind == "EOF" {
			err = io.EOF
		}
		s.failed = true
	}
	if s.fail >= 0 && s.pos+n > s.fail {
		n = s.fail - s.pos
	}
	copy(b, streamBytes(s.seed, s.pos, s.pos+n))
	s.pos += n
	return n, err
}

type keygenJob struct {
	Seed                 int64
	Pos, Max, Fail       int
	Kind, Alg, Path, Via string
	Out                  string
	Many                 int  // that many keys, at Path0, Path1, ...
	Together             bool // at the same time
}

type keygenResult struct {
	Ok, Broken, Locked bool
	Pos                int
	Err                string
	Pk                 []byte
	Pks                [][]byte
}

func keygenProc(args []string) {
	var j keygenJob
	check(json.Unmarshal([]byte(args[0]), &j))
	ctx := mustCtx(j.Alg)
	s := &randStream{seed: j.Seed, pos: j.Pos, max: j.Max, fail: j.Fail, kind: j.Kind}
	crand.Reader = s
	var r keygenResult
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	var err xmssmt.Error
	if j.Many > 0 {
		r.Pks = make([][]byte, j.Many)
		errs := make([]xmssmt.Error, j.Many)
		one := func(k int) {
			path := fmt.Sprintf("%s%d", j.Path, k)
			var sk *xmssmt.PrivateKey
			var pk *xmssmt.PublicKey
			if j.Via == "ctx" {
				sk, pk, errs[k] = ctx.GenerateKeyPair(path)
			} else {
				sk, pk, errs[k] = xmssmt.GenerateKeyPair(j.Alg, path)
			}
			if errs[k] == nil {
				r.Pks[k] = mustMarshal(pk)
				errs[k] = sk.Close()
			}
		}
		var wg sync.WaitGroup
		for k := 0; k < j.Many; k++ {
			if !j.Together {
				one(k)
				continue
			}
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				one(k)
			}(k)
		}
		wg.Wait()
		r.Ok = true
		for _, e := range errs {
			if e != nil {
				r.Ok, r.Err = false, e.Error()
			}
		}
		r.Pos, r.Broken = s.pos, s.failed
		b, _ := json.Marshal(r)
		check(os.WriteFile(j.Out, b, 0600))
		return
	}
	if j.Via == "ctx" {
		sk, pk, err = ctx.GenerateKeyPair(j.Path)
	} else {
		sk, pk, err = xmssmt.GenerateKeyPair(j.Alg, j.Path)
	}
	if err != nil {
		r.Err = err.Error()
		r.Locked = err.Locked()
	} else {
		r.Ok = true
		r.Pk = mustMarshal(pk)
		if err := sk.Close(); err != nil {
			r.Ok, r.Err = false, err.Error()
		}
	}
	s.mux.Lock()
	r.Pos, r.Broken = s.pos, s.failed
	b, _ := json.Marshal(r)
	check(os.WriteFile(j.Out, b, 0600))
	s.mux.Unlock()
}

func storedKey(path string) []byte {
	if _, err := os.Stat(path); err != nil {
		return nil
	}
	ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
	if err != nil {
		return []byte("unreadable: " + err.Error())
	}
	defer ctr.Close()
	if ctr.Initialized() == nil {
		return nil
	}
	key, err := ctr.GetPrivateKey()
	if err != nil {
		return []byte("unreadable: " + err.Error())
	}
	return append([]byte{}, key...)
}

// A history of attempts
func keygenHistory(cfg *Config, rng *rand.Rand, dir string, n int) (trace []map[string]interface{}, problem string) {
	algs := []string{"XMSS-SHAKE_1_128_w4", "XMSSMT-SHAKE256_2/2_192_w4", "XMSS-SHA2_1_256_w4", "XMSS-SHAKE_2_512_w4", "XMSSMT-SHA2_2/2_128_w4"}
	seed := rng.Int63()
	pos := rng.Intn(100)
	if n == 0 {
		pos = 0
	}
	first := pos
	keys := map[int][]byte{} // by path
	ids := map[int]int{}
	check(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	for i := 1; i <= n; i++ {
		p := 1 + rng.Intn(3)
		path := filepath.Join(dir, fmt.Sprintf("key%d", p))
		alg := algs[rng.Intn(len(algs))]
		params := parseParams(alg)
		nb := int(params.N)
		j := keygenJob{Seed: seed, Pos: pos, Fail: -1, Alg: alg, Path: path, Via: []string{"ctx", "pkg"}[rng.Intn(2)],
			Out: filepath.Join(dir, "out")}
		j.Max = []int{0, 0, 1, 3, nb - 1, nb, nb + 1, 2 * nb}[rng.Intn(8)]
		if rng.Intn(3) == 0 {
			j.Fail = pos + []int{0, 1, nb - 1, nb, nb + 1, 2*nb - 1, 2 * nb, 2*nb + 5, 3*nb - 1, 3 * nb, rng.Intn(3 * nb)}[rng.Intn(11)]
			j.Kind = []string{"error", "EOF", "partial"}[rng.Intn(3)]
		}
		if rng.Intn(5) == 0 {
			// Several keys in one process
			j.Fail, j.Many, j.Together = -1, 2+rng.Intn(7), rng.Intn(2) == 0
			j.Path = filepath.Join(dir, fmt.Sprintf("many%d-", i))
			if j.Together {
				j.Max = 0
			}
			os.Remove(j.Out)
			b, _ := json.Marshal(j)
			exe, err := os.Executable()
			check(err)
			out, _ := exec.Command(exe, "keygenproc", string(b)).CombinedOutput()
			var r keygenResult
			ob, err := os.ReadFile(j.Out)
			if err != nil {
				return trace, fmt.Sprintf("generating %d keys %s ends the process: %s", j.Many, alg, lastLines(out))
			}
			check(json.Unmarshal(ob, &r))
			e := map[string]interface{}{"id": i, "n": nb, "from": pos - first, "to": r.Pos - first, "ok": r.Ok, "alg": alg,
				"max": j.Max, "together": j.Together, "err": r.Err, "count": j.Many}
			str := streamBytes(seed, first, r.Pos)
			seeds := [][]int{}
			for k := 0; k < j.Many; k++ {
				ks := []int{-1, -1, -1}
				now := storedKey(fmt.Sprintf("%s%d", j.Path, k))
				for l := 0; l < 3 && len(now) == 3*nb; l++ {
					ks[l] = bytes.Index(str, now[l*nb:(l+1)*nb])
				}
				if r.Ok && len(now) == 3*nb && (len(r.Pks[k]) < nb || !bytes.Equal(r.Pks[k][len(r.Pks[k])-nb:], now[2*nb:])) {
					return trace, "the public key returned is not that of the key which was stored"
				}
				seeds = append(seeds, ks)
			}
			e["many"] = seeds
			pos = r.Pos
			trace = append(trace, e)
			continue
		}
		var held *xmssmt.PrivateKey
		if keys[p] != nil && rng.Intn(8) == 0 {
			sk, _, _, err := xmssmt.LoadPrivateKey(path)
			if err != nil {
				return trace, fmt.Sprintf("the key generated at path %d can't be loaded: %v", p, err)
			}
			held = sk
		}
		os.Remove(j.Out)
		b, _ := json.Marshal(j)
		exe, err := os.Executable()
		check(err)
		cmd := exec.Command(exe, "keygenproc", string(b))
		out, _ := cmd.CombinedOutput()
		if held != nil {
			held.Close()
		}
		var r keygenResult
		if ob, err := os.ReadFile(j.Out); err == nil {
			check(json.Unmarshal(ob, &r))
		} else {
			// The process ended itself
			if j.Fail < 0 {
				return trace, fmt.Sprintf("generating %s ends the process: %s", alg, lastLines(out))
			}
			r.Broken, r.Pos, r.Err = true, j.Fail, lastLines(out)
		}
		now := storedKey(path)
		e := map[string]interface{}{"id": i, "path": p, "n": nb, "from": pos - first, "to": r.Pos - first, "ok": r.Ok,
			"broken": r.Broken, "locked": held != nil && r.Locked, "alg": alg, "max": j.Max, "fail": j.Fail - pos, "err": r.Err}
		if j.Fail < 0 {
			e["fail"] = -1
		}
		e["stored"] = ids[p]
		if !bytes.Equal(now, keys[p]) {
			e["stored"] = i
			keys[p], ids[p] = now, i
		}
		seeds := []int{-1, -1, -1}
		if len(now) == 3*nb {
			str := streamBytes(seed, first, r.Pos)
			for k := range seeds {
				seeds[k] = bytes.Index(str, now[k*nb:(k+1)*nb])
			}
		}
		e["seeds"] = seeds
		if r.Ok && len(now) == 3*nb && (len(r.Pk) < nb || !bytes.Equal(r.Pk[len(r.Pk)-nb:], now[2*nb:])) {
			return trace, "the public key returned is not that of the key which was stored"
		}
		pos = r.Pos
		trace = append(trace, e)
	}
	return trace, ""
}

func lastLines(b []byte) string {
	l := strings.Split(strings.TrimSpace(string(b)), "\n")
	if len(l) > 3 {
		l = l[:3]
	}
	return strings.Join(l, " | ")
}

func init() {
	subprocs["keygenproc"] = keygenProc
	commands["keygen"] = func(cfg *Config) *Report {
		rep := NewReport()
		out, err := os.Create(cfg.Str("traces", ""))
		check(err)
		defer out.Close()
		end := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
		var mux sync.Mutex
		var wg sync.WaitGroup
		attempts, histories := 0, 0
		for w := 0; w < cfg.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(cfg.Seed*1009 + int64(w)))
				for k := 0; k == 0 || time.Now().Before(end); k++ {
					tr, pr := keygenHistory(cfg, rng, filepath.Join(cfg.Scratch, fmt.Sprintf("h%d-%d", w, k)), 30)
					mux.Lock()
					if pr != "" && len(rep.Violations) < 3 {
						rep.Violations = append(rep.Violations, Violation{What: pr, Replay: tr})
					}
					b, _ := json.Marshal(tr)
					fmt.Fprintf(out, "%s\n", b)
					attempts += len(tr)
					histories++
					mux.Unlock()
				}
			}(w)
		}
		wg.Wait()
		rep.Stats["attempts"] = attempts
		rep.Stats["histories"] = histories
		return rep
	}
}
