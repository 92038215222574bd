package main

// C02, C18, C08: runs operations on a key file (below strace, which records
// what happens to the file system), and loads the states a crash may leave.

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type fsOp struct {
	Op   string `json:"op"`
	Alg  string `json:"alg,omitempty"`
	Key  int    `json:"key,omitempty"`
	N    int    `json:"n,omitempty"`
	T    int    `json:"t,omitempty"`
	Path string `json:"path,omitempty"`
}

// A name of the public key
func pkId(pk *xmssmt.PublicKey) string {
	b, err := pk.MarshalBinary()
	check(err)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

// Visible to strace, in order with the system calls of this thread.
func mark(m map[string]interface{}) {
	b, err := json.Marshal(m)
	check(err)
	p, _ := syscall.BytePtrFromString("/MARK/" + string(b))
	var st syscall.Stat_t
	_ = st
	_ = p
	syscall.Stat("/MARK/"+string(b), &st)
}

func seedOf(key int, n uint32, what byte) []byte {
	b := sha512.Sum512([]byte(fmt.Sprintf("seed %d %d", key, what)))
	c := sha512.Sum512(b[:])
	return append(b[:], c[:]...)[:n]
}

func derive(ctx *xmssmt.Context, path string, key int) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	p := ctx.Params()
	return ctx.Derive(path, seedOf(key, p.N, 0x11), seedOf(key, p.N, 0x22), seedOf(key, p.N, 0x44))
}

func fsMsg(i int) []byte { return []byte(fmt.Sprintf("message %d", i%3)) }

func init() {
	commands["fsrun"] = func(cfg *Config) *Report {
		rep := NewReport()
		runtime.LockOSThread()
		// (Go does some system calls of its own, once, when a process is first
		// looked for, as is done for the owner of a lock.  It does not survive
		// each fault in those.)
		if p, err := os.FindProcess(os.Getpid()); err == nil {
			p.Release()
		}
		var ops []fsOp
		b, _ := json.Marshal(cfg.Args["ops"])
		check(json.Unmarshal(b, &ops))
		path := cfg.Str("path", "")
		say := func(f string, a ...interface{}) {
			if cfg.Bool("log") {
				fmt.Fprintf(os.Stderr, f+"\n", a...)
			}
		}
		if cfg.Bool("log") {
			syscall.Umask(0)
			xmssmt.SetLogger(logger{})
		}
		var sk *xmssmt.PrivateKey
		sigs := []string{}
		closeFailed := false
		for i, o := range ops {
			m := map[string]interface{}{"i": i, "op": o.Op, "n": o.N, "key": "", "t": o.T, "res": -1}
			if (o.Op == "sign" || o.Op == "signbad" || o.Op == "borrow" || o.Op == "borrowif" || o.Op == "danger" || o.Op == "close" || o.Op == "pre") && sk == nil {
				continue
			}
			if (o.Op == "derive" || o.Op == "generate" || o.Op == "generate2" || o.Op == "load") && sk != nil {
				continue
			}
			if closeFailed && o.Op != "close" {
				continue
			}
			if sk != nil {
				m["res"] = int(sk.BorrowedSeqNos())
			}
			m["e"] = "call"
			if o.Op == "derive" {
				ctx := mustCtx(o.Alg)
				m["key"] = fmt.Sprintf("derive%d", o.Key)
				_ = ctx
			}
			mark(m)
			r := map[string]interface{}{"e": "ret", "i": i, "op": o.Op, "ok": true, "val": -1, "lost": 0, "key": "", "n": o.N, "t": o.T, "res": m["res"]}
			var err error
			var pk *xmssmt.PublicKey
			switch o.Op {
			case "derive":
				var e xmssmt.Error
				sk, pk, e = derive(mustCtx(o.Alg), path, o.Key)
				if e != nil {
					err, sk = e, nil
				}
			case "generate":
				var e xmssmt.Error
				sk, pk, e = xmssmt.GenerateKeyPair(o.Alg, path)
				if e != nil {
					err, sk = e, nil
				}
			case "generate2":
				var e xmssmt.Error
				sk, pk, e = mustCtx(o.Alg).GenerateKeyPair(path)
				if e != nil {
					err, sk = e, nil
				}
			case "load":
				var e xmssmt.Error
				var lost uint32
				sk, pk, lost, e = xmssmt.LoadPrivateKey(path)
				if e != nil {
					err, sk = e, nil
				} else {
					r["lost"] = int(lost)
					r["val"] = int(sk.SeqNo())
				}
			case "sign":
				sig, e := sk.Sign(fsMsg(i))
				if e != nil {
					err = e
				} else {
					r["val"] = int(sig.SeqNo())
					sb, _ := sig.MarshalBinary()
					sigs = append(sigs, hex.EncodeToString(sb))
					say("%v %s", sig, sb)
				}
			case "signbad":
				if _, e := sk.SignFrom(&failReader{}); e != nil {
					err = e
				}
			case "helper":
				sb, e := xmssmt.Sign(path, fsMsg(i))
				if e != nil {
					err = e
				} else {
					var sig xmssmt.Signature
					check(sig.UnmarshalBinary(sb))
					r["val"] = int(sig.SeqNo())
					sigs = append(sigs, hex.EncodeToString(sb))
				}
			case "borrow":
				if e := sk.BorrowExactly(uint32(o.N)); e != nil {
					err = e
				}
			case "borrowif":
				if e := sk.BorrowExactlyIfBelow(uint32(o.N), uint32(o.T)); e != nil {
					err = e
				}
			case "danger":
				s := sk.SeqNo() + xmssmt.SignatureSeqNo(o.N)
				r["val"] = int(s)
				sk.DangerousSetSeqNo(s)
			case "pre":
				sk.EnableSubTreePrecomputation()
			case "close":
				if e := sk.Close(); e != nil {
					err = e
				} else {
					sk = nil
				}
				closeFailed = err != nil
			default:
				panic("harness: unknown operation " + o.Op)
			}
			if pk != nil {
				r["key"] = pkId(pk)
				say("%s %v %v", mustMarshal(pk), pk, pk.Context())
			}
			if err != nil {
				r["ok"] = false
				s := err.Error()
				say("%v", err)
				if e, ok := err.(xmssmt.Error); ok {
					say("%v %s %x", e.Inner(), e.Error(), e.Error())
				}
				if len(s) > 60 {
					s = s[:60]
				}
				r["err"] = strings.Replace(s, "/", "|", -1)
			}
			mark(r)
		}
		rep.Stats["sigs"] = sigs
		// (Injected faults might hit this.)
		out, _ := json.Marshal(rep)
		os.WriteFile(cfg.Out, out, 0644)
		os.Exit(0)
		return rep
	}

	// The names of the derived keys
	commands["fskeys"] = func(cfg *Config) *Report {
		rep := NewReport()
		for k := 1; k <= 4; k++ {
			for _, a := range pool(cfg) {
				sk, pk, err := derive(mustCtx(a), filepath.Join(cfg.Scratch, fmt.Sprintf("k%d", k)), k)
				check2(err)
				rep.Stats[fmt.Sprintf("%s:%d", a, k)] = pkId(pk)
				sk.Close()
			}
		}
		return rep
	}

	// Loads what crashes may leave
	commands["fsload"] = func(cfg *Config) *Report {
		rep := NewReport()
		var in struct {
			Contents []string            // base64
			Dirs     [][]map[string]int  // variants of directories: name -> content
			_        map[string]struct{} // nothing else
		}
		buf, err := os.ReadFile(cfg.Str("in", ""))
		check(err)
		check(json.Unmarshal(buf, &in))
		contents := make([][]byte, len(in.Contents))
		for i, c := range in.Contents {
			contents[i], err = base64.StdEncoding.DecodeString(c)
			check(err)
		}
		res := make([]map[string]interface{}, len(in.Dirs))
		var wg sync.WaitGroup
		var mux sync.Mutex
		ch := make(chan int)
		prog := newProgress(0)
		for w := 0; w < cfg.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := range ch {
					if i%50 == 0 {
						runtime.GC() // (the lockfile package leaves pidfds to the collector)
					}
					var first map[string]interface{}
					for v, files := range in.Dirs[i] {
						mux.Lock()
						prog.begin()
						prog.add(files)
						mux.Unlock()
						r := loadState(filepath.Join(cfg.Scratch, fmt.Sprintf("w%d", w)), files, contents)
						if first == nil {
							first = r
						} else if fmt.Sprint(first["ok"], first["key"], first["seq"], first["lost"], first["sign"]) !=
							fmt.Sprint(r["ok"], r["key"], r["seq"], r["lost"], r["sign"]) {
							first = map[string]interface{}{"ok": r["ok"], "key": r["key"], "seq": r["seq"], "lost": r["lost"],
								"sign": false, "why": fmt.Sprintf("depends on the cache (variant %d): %v vs %v", v, first, r)}
							break
						}
					}
					res[i] = first
				}
			}(w)
		}
		deadline := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
		done := 0
		for i := range in.Dirs {
			if time.Now().After(deadline) {
				break
			}
			ch <- i
			done++
		}
		close(ch)
		wg.Wait()
		rep.Stats["loads"] = done
		rep.Stats["results"] = res
		return rep
	}
}

type failReader struct{ n int }

func (f *failReader) Read(b []byte) (int, error) {
	f.n++
	if f.n < 3 {
		b[0] = 'x'
		return 1, nil
	}
	return 0, errInjected
}

func check2(err xmssmt.Error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// Loads the key from a directory with the given files, signs and verifies.
func loadState(dir string, files map[string]int, contents [][]byte) (r map[string]interface{}) {
	os.RemoveAll(dir)
	check(os.MkdirAll(dir, 0700))
	for n, c := range files {
		check(os.WriteFile(filepath.Join(dir, n), contents[c], 0600))
	}
	r = map[string]interface{}{"ok": false, "key": "", "seq": -1, "lost": -1, "sign": false, "why": ""}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(string); ok && strings.HasPrefix(s, "harness: ") {
				panic(e)
			}
			r["ok"] = false
			r["why"] = fmt.Sprintf("panic: %v", e)
		}
	}()
	path := filepath.Join(dir, "key")
	sk, pk, lost, err := xmssmt.LoadPrivateKey(path)
	if err != nil {
		r["why"] = err.Error()
		return
	}
	r["ok"], r["key"], r["lost"] = true, pkId(pk), int(lost)
	s := sk.SeqNo()
	r["seq"] = int(s)
	// Up to two signatures have to be right.
	good := true
	for j := 0; j < 2; j++ {
		if uint64(s) >= maxSeqNo(sk.Context()) {
			break
		}
		sig, err := sk.Sign([]byte("after the crash"))
		if err != nil {
			good = false
			r["why"] = "Sign: " + err.Error()
			break
		}
		b, _ := sig.MarshalBinary()
		if sig.SeqNo() != s {
			good = false
			r["why"] = "first signature does not have the next number"
		} else if ok, err := pk.Verify(sig, []byte("after the crash")); !ok {
			good = false
			r["why"] = fmt.Sprintf("signature does not verify: %v", err)
		}
		_ = b
		s++
	}
	r["sign"] = good
	if err := sk.Close(); err != nil {
		r["sign"] = false
		r["why"] = "Close: " + err.Error()
	}
	return
}

// Logs to standard error
type logger struct{}

func (logger) Logf(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
