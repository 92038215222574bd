package main

// C16: the behaviours of Stream.tla as message sources of the real code.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sync"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type behaviour struct {
	Reads []struct {
		K int
		E string
	}
	Ok  bool
	Len int
}

// A reader that behaves as prescribed.
type scripted struct {
	b     *behaviour
	msg   []byte
	scale int
	pos   int // in b.Reads
	off   int // of the current read
	at    int // in msg
	after int // reads after an error
	gate  chan struct{}
}

func (r *scripted) Read(buf []byte) (int, error) {
	if r.gate != nil {
		<-r.gate
	}
	if r.pos >= len(r.b.Reads) {
		r.after++
		return 0, ending(r.b.Reads[len(r.b.Reads)-1].E)
	}
	rd := r.b.Reads[r.pos]
	todo := rd.K*r.scale - r.off
	if todo > len(buf) {
		n := copy(buf, r.msg[r.at:r.at+todo])
		r.at += n
		r.off += n
		return n, nil
	}
	n := copy(buf, r.msg[r.at:r.at+todo])
	r.at += n
	r.pos++
	r.off = 0
	return n, ending(rd.E)
}

type timeout struct{}

func (timeout) Error() string   { return "injected timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

// The error that goes with the end of a read.
func ending(e string) error {
	switch e {
	case "no":
		return nil
	case "eof":
		return io.EOF
	case "other":
		return errInjected
	case "unexpected EOF":
		return io.ErrUnexpectedEOF
	case "wrapped EOF":
		return fmt.Errorf("injected: %w", io.EOF)
	case "timeout":
		return timeout{}
	case "no progress":
		return io.ErrNoProgress
	case "short":
		return io.ErrShortBuffer
	case "closed":
		return os.ErrClosed
	}
	panic("harness: unknown kind of failure")
}

// The same as an io.WriterTo
type scriptedWT struct{ scripted }

func (r *scriptedWT) WriteTo(w io.Writer) (int64, error) {
	var total int64
	for _, rd := range r.b.Reads {
		n, err := w.Write(r.msg[r.at : r.at+rd.K*r.scale])
		total += int64(n)
		r.at += n
		if err != nil {
			return total, err
		}
		if rd.E == "eof" {
			return total, nil
		}
		if err := ending(rd.E); err != nil {
			return total, err
		}
	}
	return total, nil
}

// Wrapped as others might
type byteReader struct{ r io.Reader }

func (r byteReader) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return r.r.Read(b)
}

func loadBehaviours(path string) []*behaviour {
	f, err := os.Open(path)
	check(err)
	defer f.Close()
	ret := []*behaviour{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var b behaviour
		check(json.Unmarshal(sc.Bytes(), &b))
		ret = append(ret, &b)
	}
	return ret
}

var streamScales = []int{1, 3, 63, 64, 65, 135, 136, 137, 167, 168, 169, 1000, 16384, 20000, 32768, 33000}

func init() {
	commands["stream"] = func(cfg *Config) *Report {
		rep := NewReport()
		ts := loadTemplates(cfg.Str("templates", ""))
		bs := loadBehaviours(cfg.Str("behaviours", ""))
		c := newCounter()
		forEach(cfg, rep, ts, func(t *Tmpl, rng *rand.Rand) {
			in := newInst(t, rng, 1)
			in.derive()
			next := uint64(0)
			use := func() uint64 {
				next++
				return next - 1
			}
			perm := rng.Perm(len(bs))
			if lim := cfg.Int("perinst", 1<<30); len(perm) > lim {
				perm = perm[:lim]
			}
			for _, bi := range perm {
				b := bs[bi]
				scale := streamScales[rng.Intn(len(streamScales))]
				if scale > 1000 && rng.Intn(4) != 0 {
					scale = 1 + rng.Intn(300)
				}
				msg := make([]byte, scale*3)
				rng.Read(msg)
				m := msg[:b.Len*scale]
				det := map[string]interface{}{"params": t.P, "behaviour": b, "scale": scale}
				readers := func() []io.Reader {
					return []io.Reader{&scripted{b: b, msg: msg, scale: scale},
						&scriptedWT{scripted{b: b, msg: msg, scale: scale}},
						byteReader{&scripted{b: b, msg: msg, scale: scale}},
						bufio.NewReader(&scripted{b: b, msg: msg, scale: scale})}
				}
				kinds := []string{"reader", "WriterTo", "byte-wise reader", "bufio.Reader"}
				ki := rng.Intn(4)
				// Signing
				for round := 0; round < 2; round++ {
					if next+2 >= in.max {
						in.sk.DangerousSetSeqNo(0)
						next = 0
					}
					n := use()
					sig, err := in.sk.SignFrom(readers()[ki])
					if (err == nil) != b.Ok {
						fail(det, "SignFrom(%s): error is %v, but should succeed: %v", kinds[ki], err, b.Ok)
					}
					if err != nil && sig != nil {
						fail(det, "SignFrom returns a signature and an error")
					}
					if uint64(in.sk.SeqNo()) != n+1 {
						fail(det, "next number after SignFrom is %d instead of %d", in.sk.SeqNo(), n+1)
					}
					if in.sk.UnretiredSeqNos() != 0 {
						fail(det, "%d unretired numbers after SignFrom", in.sk.UnretiredSeqNos())
					}
					if err == nil {
						if uint64(sig.SeqNo()) != n {
							fail(det, "SignFrom uses number %d instead of %d", sig.SeqNo(), n)
						}
						in.checkSig(sig, m, "SignFrom "+kinds[ki])
					}
					// the next one is not affected
					n = use()
					sig2, m2 := in.signNext(n)
					c.add("operations", 2)
					// Verifying
					good, err2 := in.refSig(n, m)
					if err2 != nil {
						fail(det, "UnmarshalBinary: %v", err2)
					}
					for k, r := range readers() {
						if k != 0 && k != ki {
							continue
						}
						ok, err := in.pk.VerifyFrom(good, r)
						if ok != b.Ok || (err == nil) != b.Ok {
							fail(det, "VerifyFrom(%s) of the genuine signature returns %v, %v but should be %v", kinds[k], ok, err, b.Ok)
						}
					}
					if ok, err := in.pk.VerifyFrom(sig2, readers()[ki]); !(b.Ok && bytes.Equal(m, m2)) && (ok || err == nil) {
						fail(det, "VerifyFrom returns %v, %v for the signature of another message", ok, err)
					}
					c.add("operations", 3)
					ki = (ki + 1 + rng.Intn(3)) % 4
				}
			}
			in.streamConcurrently(bs, c)
			c.sample(map[string]interface{}{"params": t.String(), "behaviour": bs[perm[0]]})
			in.sk.Close()
		})
		c.into(rep)
		return rep
	}
}

func (in *inst) signNext(n uint64) (*xmssmt.Signature, []byte) {
	m := in.msg()
	sig, err := in.sk.Sign(m)
	if err != nil {
		fail(in.det, "Sign fails: %v", err)
	}
	if uint64(sig.SeqNo()) != n {
		fail(in.det, "Sign uses number %d instead of %d", sig.SeqNo(), n)
	}
	in.checkSig(sig, m, "Sign after SignFrom")
	return sig, m
}

func (in *inst) refSig(n uint64, m []byte) (*xmssmt.Signature, error) {
	var sig xmssmt.Signature
	if err := sig.UnmarshalBinary(in.ref.sign(n, m, nil)); err != nil {
		return nil, err
	}
	return &sig, nil
}

// Several sources at once, which finish and fail in some order.
func (in *inst) streamConcurrently(bs []*behaviour, c *counter) {
	const N = 8
	if in.max < 3*N {
		return
	}
	in.sk.DangerousSetSeqNo(0)
	type job struct {
		b    *behaviour
		msg  []byte
		r    *scripted
		sig  *xmssmt.Signature
		err  error
		done chan struct{}
	}
	jobs := []*job{}
	var wg sync.WaitGroup
	for i := 0; i < N; i++ {
		b := bs[in.rng.Intn(len(bs))]
		scale := 1 + in.rng.Intn(200)
		j := &job{b: b, msg: make([]byte, 3*scale), done: make(chan struct{})}
		in.rng.Read(j.msg)
		j.r = &scripted{b: b, msg: j.msg, scale: scale, gate: make(chan struct{}, 100)}
		jobs = append(jobs, j)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(j.done)
			sig, err := in.sk.SignFrom(j.r)
			j.sig = sig
			if err != nil {
				j.err = err
			}
		}()
	}
	// let them read one by one
	live := append([]*job{}, jobs...)
	for len(live) > 0 {
		i := in.rng.Intn(len(live))
		j := live[i]
		select {
		case <-j.done:
			live = append(live[:i], live[i+1:]...)
		case j.r.gate <- struct{}{}:
		default:
			time.Sleep(time.Millisecond)
		}
	}
	wg.Wait()
	seen := map[uint64]bool{}
	for _, j := range jobs {
		det := map[string]interface{}{"params": in.t.P, "behaviour": j.b}
		if (j.err == nil) != j.b.Ok {
			fail(det, "concurrent SignFrom: error is %v, but should succeed: %v", j.err, j.b.Ok)
		}
		if j.err == nil {
			s := uint64(j.sig.SeqNo())
			if seen[s] || s >= N {
				fail(det, "concurrent SignFrom uses number %d (used already: %v)", s, seen[s])
			}
			seen[s] = true
			in.checkSig(j.sig, j.msg[:j.b.Len*j.r.scale], "concurrent SignFrom")
		}
		c.add("operations", 1)
	}
	if uint64(in.sk.SeqNo()) != N || in.sk.UnretiredSeqNos() != 0 {
		fail(in.det, "after %d concurrent SignFroms: next number %d, unretired %d", N, in.sk.SeqNo(), in.sk.UnretiredSeqNos())
	}
}
