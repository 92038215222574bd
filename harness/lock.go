//go:build linux && amd64

package main

// C05: processes which open, use and close keys.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type lockReq struct {
	Id   int    `json:"id"`
	Op   string `json:"op"`
	Slot int    `json:"slot"`
	Path string `json:"path"`
	Alg  string `json:"alg,omitempty"`
}
type lockRes struct {
	Id   int    `json:"id"`
	Tid  int    `json:"tid,omitempty"`
	R    string `json:"r,omitempty"`
	Seq  int    `json:"seq"`
	What string `json:"what,omitempty"`
}

type lockHandle struct {
	sk  *xmssmt.PrivateKey
	pk  *xmssmt.PublicKey
	ctr xmssmt.PrivateKeyContainer
}

var lockMsg = []byte("message")

// The helper process: performs requests concurrently.
func lockProc(args []string) {
	if len(args) > 0 && args[0] == "gate" {
		gateSelf([]string{os.Args[0], "lockproc"})
	}
	var mux sync.Mutex
	slots := map[int]*lockHandle{}
	out := bufio.NewWriter(os.Stdout)
	reply := func(r lockRes) {
		b, _ := json.Marshal(r)
		mux.Lock()
		out.Write(append(b, '\n'))
		out.Flush()
		mux.Unlock()
	}
	reply(lockRes{Id: -1})
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<16), 1<<20)
	for in.Scan() {
		var q lockReq
		check(json.Unmarshal(in.Bytes(), &q))
		if q.Op == "GC" {
			runtime.GC()
			reply(lockRes{Id: q.Id, R: "ok"})
			continue
		}
		go func() {
			runtime.LockOSThread()
			reply(lockRes{Id: q.Id, Tid: syscall.Gettid()})
			r := lockRes{Id: q.Id, Seq: -1}
			defer func() {
				if e := recover(); e != nil {
					r.R, r.What = "panic", fmt.Sprintf("%v", e)
				}
				reply(r)
			}()
			mux.Lock()
			h := slots[q.Slot]
			mux.Unlock()
			set := func(n *lockHandle) {
				mux.Lock()
				slots[q.Slot] = n
				mux.Unlock()
			}
			fail := func(err xmssmt.Error) bool {
				if err == nil {
					r.R = "ok"
					return false
				}
				r.R, r.What = "error", err.Error()
				if err.Locked() {
					r.R = "locked"
				}
				return true
			}
			switch q.Op {
			case "Load":
				sk, pk, _, err := xmssmt.LoadPrivateKey(q.Path)
				if !fail(err) {
					set(&lockHandle{sk: sk, pk: pk})
				}
			case "Ctr":
				ctr, err := xmssmt.OpenFSPrivateKeyContainer(q.Path)
				if !fail(err) {
					set(&lockHandle{ctr: ctr})
				}
			case "Generate":
				sk, pk, err := mustCtx(q.Alg).GenerateKeyPair(q.Path)
				if !fail(err) {
					set(&lockHandle{sk: sk, pk: pk})
				}
			case "Derive", "DeriveBad":
				ctx := mustCtx(q.Alg)
				p := ctx.Params()
				d := [3]uint32{}
				if q.Op == "DeriveBad" {
					d[q.Id%3] = uint32(q.Id%2)*2 - 1
				}
				sk, pk, err := ctx.Derive(q.Path, seedOf(1, p.N+d[0], 0x11), seedOf(1, p.N+d[1], 0x22), seedOf(1, p.N+d[2], 0x44))
				if !fail(err) {
					set(&lockHandle{sk: sk, pk: pk})
				}
			case "SignOnce":
				sig, err := xmssmt.Sign(q.Path, lockMsg)
				if !fail(err) {
					var s xmssmt.Signature
					if err := s.UnmarshalBinary(sig); err != nil {
						r.R, r.What = "bad", err.Error()
						return
					}
					r.Seq = int(s.SeqNo())
				}
			case "Use", "UseAgain":
				if h.ctr != nil {
					_, _, err := h.ctr.GetSeqNo()
					if q.Op == "Use" || err != nil {
						fail(err)
					} else {
						r.R = "ok"
					}
					return
				}
				sig, err := h.sk.Sign(lockMsg)
				if !fail(err) {
					r.Seq = int(sig.SeqNo())
					if ok, err := h.pk.Verify(sig, lockMsg); !ok {
						r.R, r.What = "bad", fmt.Sprintf("signature %d does not verify: %v", r.Seq, err)
					}
				}
			case "Close", "CloseAgain", "Again":
				if h.ctr != nil {
					fail(h.ctr.Close())
				} else {
					fail(h.sk.Close())
				}
			}
		}()
	}
	os.Exit(0)
}

func init() { subprocs["lockproc"] = lockProc }

// A helper process as seen by the harness.
type lockChild struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	fd   int // listener, -1 if not gated
	pid  int
	done chan struct{}
	dead bool
}

func startChild(dir string, gated bool, under string, onRes func(*lockChild, lockRes), onGate func(*lockChild, gateEvent)) (*lockChild, error) {
	exe, err := os.Executable()
	check(err)
	c := &lockChild{fd: -1, done: make(chan struct{})}
	args := []string{"lockproc"}
	var theirs, ours *os.File
	if gated {
		args = append(args, "gate")
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
		check(err)
		ours, theirs = os.NewFile(uintptr(fds[0]), "ours"), os.NewFile(uintptr(fds[1]), "theirs")
		defer ours.Close()
	}
	c.cmd = exec.Command(exe, args...)
	c.cmd.Dir = dir
	c.cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=2")
	c.cmd.Stderr = os.Stderr
	if gated {
		c.cmd.ExtraFiles = []*os.File{theirs}
	}
	c.in, err = c.cmd.StdinPipe()
	check(err)
	out, err := c.cmd.StdoutPipe()
	check(err)
	check(c.cmd.Start())
	c.pid = c.cmd.Process.Pid
	if gated {
		theirs.Close()
		syscall.SetsockoptTimeval(int(ours.Fd()), syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &syscall.Timeval{Sec: 10})
		fd, err := gateListener(ours)
		if err != nil {
			c.cmd.Process.Kill()
			c.cmd.Wait()
			return nil, fmt.Errorf("no listener: %v", err)
		}
		c.fd = fd
		go gateLoop(fd, under, func(e gateEvent) { onGate(c, e) }, c.done)
	}
	ready := make(chan bool, 1)
	go func() {
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<16), 1<<20)
		for sc.Scan() {
			var r lockRes
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				continue
			}
			if r.Id == -1 {
				ready <- true
				continue
			}
			onRes(c, r)
		}
		close(ready)
	}()
	select {
	case ok := <-ready:
		if ok {
			return c, nil
		}
	case <-time.After(20 * time.Second):
	}
	c.kill()
	return nil, fmt.Errorf("process does not start")
}

func (c *lockChild) send(q lockReq) {
	b, _ := json.Marshal(q)
	c.in.Write(append(b, '\n'))
}

func (c *lockChild) kill() {
	if c.dead {
		return
	}
	c.dead = true
	c.cmd.Process.Kill()
	c.cmd.Wait()
	close(c.done)
}

// Ways to name the same key; the processes run in dir's parent.
func lockAliases(dir string) []string {
	base := filepath.Base(dir)
	up := filepath.Dir(dir)
	return []string{
		filepath.Join(dir, "key"),
		filepath.Join(base, "key"),
		"./" + base + "/./key",
		dir + "//key",
		dir + "/../" + base + "/key",
		filepath.Join(dir, "link"),
		filepath.Join(dir, "rellink"),
		filepath.Join(up, base+"-dirlink", "key"),
		filepath.Join(up, base+"-dirlink", "rellink"),
		base + "-dirlink/link",
		filepath.Join(up, base+"-outer"),
	}
}

func lockSetup(dir string) {
	mkdir(dir)
	base := filepath.Base(dir)
	os.Symlink(filepath.Join(dir, "key"), filepath.Join(dir, "link"))
	os.Symlink("key", filepath.Join(dir, "rellink"))
	os.Symlink(dir, dir+"-dirlink")
	os.Symlink(base+"-dirlink/link", dir+"-outer")
}

func lockCleanup(dir string) {
	os.RemoveAll(dir)
	os.Remove(dir + "-dirlink")
	os.Remove(dir + "-outer")
}

// Contents of the directory
func dirState(dir string) string {
	es, err := os.ReadDir(dir)
	check(err)
	var b bytes.Buffer
	for _, e := range es {
		c, err := os.ReadFile(filepath.Join(dir, e.Name()))
		fmt.Fprintf(&b, "%s %v %x\n", e.Name(), err, c)
	}
	return b.String()
}

func dirNames(dir string) []string {
	es, _ := os.ReadDir(dir)
	ret := []string{}
	for _, e := range es {
		ret = append(ret, e.Name())
	}
	sort.Strings(ret)
	return ret
}

// Pid of a process which is not there anymore
func deadPid() int {
	c := exec.Command("/bin/true")
	check(c.Run())
	return c.Process.Pid
}

// ---------------------------------------------------------------------------
// Walks Lock.tla.
type lockWalk struct {
	scratch string
	rng     *rand.Rand
	alg     string
	gen     int
	dir     string
	procs   map[int]*lockChild
	res     chan lockRes
	next    int
	id      int
	good    []byte // the key file to put back
	spent   []byte // that of a key without numbers left
	away    bool   // it is not there now
}

func (l *lockWalk) proc(p int) *lockChild {
	if l.procs[p] == nil {
		c, err := startChild(l.scratch, false, "", func(_ *lockChild, r lockRes) {
			if r.R != "" {
				l.res <- r
			}
		}, nil)
		check(err)
		l.procs[p] = c
	}
	return l.procs[p]
}

func (l *lockWalk) ask(p int, q lockReq) lockRes {
	l.id++
	q.Id = l.id
	q.Alg = l.alg
	l.proc(p).send(q)
	for {
		select {
		case r := <-l.res:
			if r.Id == q.Id {
				return r
			}
		case <-time.After(60 * time.Second):
			return lockRes{R: "blocked", What: "no answer in 60 s"}
		}
	}
}

func (l *lockWalk) killAll() {
	for p, c := range l.procs {
		c.kill()
		delete(l.procs, p)
	}
}

func (l *lockWalk) Cleanup() {
	l.killAll()
	os.RemoveAll(l.scratch)
}

func (l *lockWalk) Reset() {
	l.gen++
	if l.dir != "" {
		l.killAll()
		lockCleanup(l.dir)
	}
	l.dir = filepath.Join(l.scratch, fmt.Sprintf("d%d", l.gen))
	lockSetup(l.dir)
	ctx := mustCtx(l.alg)
	p := ctx.Params()
	sk, _, err := ctx.Derive(l.key(), seedOf(1, p.N, 0x11), seedOf(1, p.N, 0x22), seedOf(1, p.N, 0x44))
	check2(err)
	check2(sk.Close())
	l.next = 0
	l.away = false
	l.snap()
	if l.spent == nil {
		x := filepath.Join(l.scratch, "spent")
		sk, _, err := ctx.Derive(x, seedOf(2, p.N, 0x11), seedOf(2, p.N, 0x22), seedOf(2, p.N, 0x44))
		check2(err)
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(maxSeqNo(ctx)))
		check2(sk.Close())
		b, err2 := os.ReadFile(x)
		check(err2)
		l.spent = b
	}
}

func (l *lockWalk) key() string { return filepath.Join(l.dir, "key") }

func (l *lockWalk) snap() {
	b, err := os.ReadFile(l.key())
	check(err)
	l.good = b
}

func (l *lockWalk) Do(a Act) (Obs, string) {
	as := lockAliases(l.dir)
	path := as[l.rng.Intn(len(as))]
	if _, err := os.Stat(l.key()); err != nil {
		// links to it are names of other keys
		path = as[[]int{0, 1, 2, 3, 4, 7}[l.rng.Intn(6)]]
	}
	switch a.Op() {
	case "Kill":
		p := a.Int("p")
		if c := l.procs[p]; c != nil {
			c.kill()
			delete(l.procs, p)
		}
		return Obs{"r": "ok"}, ""
	case "SetLock":
		lf := l.key() + ".lock"
		os.RemoveAll(lf)
		put := func(s string) { check(os.WriteFile(lf, []byte(s), 0644)) }
		switch a.Str("kind") {
		case "free":
		case "stale":
			put(fmt.Sprintf("%d\n", deadPid()))
		case "alive":
			put(fmt.Sprintf("%d\n", []int{os.Getpid(), os.Getppid()}[l.rng.Intn(2)]))
		case "pid1":
			put(fmt.Sprintf("%d\n", l.proc(1).pid))
		case "pid2":
			put(fmt.Sprintf("%d\n", l.proc(2).pid))
		case "junk":
			put([]string{"", "garbage", "-1\n", "0\n", "\n", "\x00\x00\x00\x00", "99999999999999999999\n", "1 2 3", strings.Repeat("x", 9000)}[l.rng.Intn(9)])
		case "dir":
			check(os.Mkdir(lf, 0755))
			if l.rng.Intn(2) == 0 {
				check(os.WriteFile(filepath.Join(lf, "x"), nil, 0644))
			}
		}
		return Obs{"r": "ok"}, ""
	case "SetKey":
		switch a.Str("kind") {
		case "none":
			l.snapIfGood()
			check(os.RemoveAll(l.key()))
		case "bad":
			l.snapIfGood()
			b := append([]byte{}, l.good...)
			switch l.rng.Intn(4) {
			case 0:
				b[l.rng.Intn(8)] ^= 1
			case 1:
				b = b[:l.rng.Intn(len(b))]
			case 2:
				b = nil
			case 3: // parameters
				for i := 8; i < 20 && i < len(b); i++ {
					b[i] = 0xff
				}
			}
			check(os.WriteFile(l.key(), b, 0600))
		case "spent":
			l.snapIfGood()
			check(os.WriteFile(l.key(), l.spent, 0600))
		case "good":
			check(os.WriteFile(l.key(), l.good, 0600))
			l.away = false
		}
		return Obs{"r": "ok"}, ""
	}
	q := lockReq{Op: a.Op(), Slot: a.Int("s"), Path: path}
	if q.Op == "Derive" && l.rng.Intn(3) == 0 {
		q.Op = "Generate"
	}
	before := dirState(l.dir)
	kb, _ := os.ReadFile(l.key())
	r := l.ask(a.Int("p"), q)
	obs := Obs{"r": r.R, "path": path, "what": r.What}
	switch a.Op() {
	case "DeriveBad":
		if b, _ := os.ReadFile(l.key()); !bytes.Equal(b, kb) {
			return obs, "Derive with seeds of the wrong size changes the key file"
		}
	}
	switch a.Op() {
	case "Load", "Ctr", "Derive", "DeriveBad", "SignOnce", "CloseAgain", "UseAgain":
		if r.R == "locked" || strings.HasSuffix(a.Op(), "Again") && r.R == "error" {
			if after := dirState(l.dir); after != before {
				return obs, fmt.Sprintf("%s of %s is refused, but changed files: %v (%s)", a.Op(), path, dirNames(l.dir), diffState(before, after))
			}
		}
	}
	if r.R != "ok" {
		return obs, ""
	}
	switch a.Op() {
	case "Derive":
		l.next = 0
		l.away = false
		l.snap()
	case "SignOnce", "Use":
		if r.Seq >= 0 {
			if r.Seq != l.next {
				return obs, fmt.Sprintf("number %d was used, when %d is the next", r.Seq, l.next)
			}
			l.next++
		}
	}
	return obs, ""
}

func diffState(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := func(s string, l []string) bool {
		for _, t := range l {
			if s == t {
				return true
			}
		}
		return false
	}
	ret := ""
	for _, s := range x {
		if !in(s, y) {
			ret += fmt.Sprintf("-%.60s ", s)
		}
	}
	for _, s := range y {
		if !in(s, x) {
			ret += fmt.Sprintf("+%.60s ", s)
		}
	}
	return ret
}

func (l *lockWalk) snapIfGood() {
	if !l.away {
		l.snap()
	}
	l.away = true
}

// ---------------------------------------------------------------------------
// Histories for LockConc.tla
type lockClient struct {
	id, p  int
	has    bool // has the key open
	closed bool // has a closed handle
	stuck  bool // its Close failed
	op     string
	seq    *int
	req    int
	tid    int
	left   int
	again  int
}

type lockEv map[string]interface{}

type lockGate struct {
	c  *lockChild
	p  int
	ev gateEvent
}

type lockRun struct {
	cfg     *Config
	rng     *rand.Rand
	scratch string
	dir     string
	gated   bool
	procs   map[int]*lockChild
	clients []*lockClient
	gates   []lockGate
	ch      chan interface{}
	ev      []lockEv
	id      int
	last    time.Time
	steps   int
	note    string
	// policy
	mode   int
	prio   map[int]int
	victim int // client which is held up ...
	at     int // ... at this call
	seen   int
	faults int
	kills  int
	tids   map[int]*lockClient
}

type lockResEv struct {
	c *lockChild
	r lockRes
}
type lockGateEv struct {
	c *lockChild
	e gateEvent
}

func (l *lockRun) proc(p int) *lockChild {
	if l.procs[p] == nil {
		c, err := startChild(l.scratch, l.gated, l.scratch, func(c *lockChild, r lockRes) { l.ch <- lockResEv{c, r} },
			func(c *lockChild, e gateEvent) { l.ch <- lockGateEv{c, e} })
		check(err)
		l.procs[p] = c
	}
	return l.procs[p]
}

func (l *lockRun) event(e lockEv) { l.ev = append(l.ev, e) }

func (l *lockRun) begin(c *lockClient, op, path string) {
	ch := l.proc(c.p)
	l.id++
	c.req, c.op, c.tid = l.id, op, 0
	e := lockEv{"e": "inv", "c": c.id, "p": c.p, "op": op, "seq": -1, "path": path}
	l.event(e)
	ch.send(lockReq{Id: l.id, Op: op, Slot: c.id, Path: path})
	c.left--
}

func (l *lockRun) handle(x interface{}) {
	l.last = time.Now()
	switch e := x.(type) {
	case lockGateEv:
		for p, c := range l.procs {
			if c == e.c {
				l.gates = append(l.gates, lockGate{e.c, p, e.e})
			}
		}
	case lockResEv:
		for _, c := range l.clients {
			if c.op != "" && c.req == e.r.Id && l.procs[c.p] == e.c {
				if e.r.R == "" {
					c.tid = e.r.Tid
					l.tids[e.r.Tid] = c
					return
				}
				seq := e.r.Seq
				for i := len(l.ev) - 1; i >= 0; i-- {
					if l.ev[i]["e"] == "inv" && l.ev[i]["c"] == c.id {
						l.ev[i]["seq"] = seq
						break
					}
				}
				l.event(lockEv{"e": "res", "c": c.id, "r": e.r.R, "seq": seq, "what": e.r.What})
				switch c.op {
				case "Load", "Ctr":
					if e.r.R == "ok" {
						c.has, c.closed = true, false
						if c.op == "Ctr" {
							c.closed = true // (marks a bare container)
						}
						c.again = 0
					}
				case "Close":
					c.has = false
					c.stuck = e.r.R != "ok"
					c.again = 1
				}
				c.op = ""
			}
		}
	}
}

// Takes in what happened; waits for it if something might be going to.
func (l *lockRun) settle() {
	for {
		running := 0
		for _, c := range l.clients {
			if c.op != "" {
				running++
			}
		}
		running -= len(l.gates)
		wait := 3 * time.Millisecond
		if running <= 0 {
			wait = 0
		}
		if !l.gated {
			wait = time.Duration(l.rng.Intn(300)) * time.Microsecond
		}
		select {
		case x := <-l.ch:
			l.handle(x)
			continue
		default:
		}
		if wait == 0 {
			return
		}
		select {
		case x := <-l.ch:
			l.handle(x)
		case <-time.After(wait):
			return
		}
	}
}

func (l *lockRun) release(i int) {
	g := l.gates[i]
	l.gates = append(l.gates[:i], l.gates[i+1:]...)
	var errno syscall.Errno
	if l.faults > 0 && l.rng.Intn(6) == 0 &&
		(strings.Contains(g.ev.path, ".lock") || g.ev.name == "flock" || g.ev.name == "newfstatat" || g.ev.name == "readlinkat" || g.ev.path == l.dir) {
		if c := l.tids[int(g.ev.n.pid)]; c != nil && c.op != "" && c.op != "Use" && l.procs[c.p] == g.c {
			l.faults--
			es := []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EPERM, syscall.EMFILE}
			if g.ev.name == "flock" {
				es = []syscall.Errno{syscall.EIO, syscall.ENOLCK}
			}
			errno = es[l.rng.Intn(len(es))]
			l.event(lockEv{"e": "fault", "c": c.id, "p": c.p, "leak": strings.HasPrefix(g.ev.name, "unlink"), "call": g.ev.name, "path": g.ev.path, "errno": errno.Error()})
		}
	}
	gateAnswer(g.c.fd, g.ev.n.id, errno)
	l.last = time.Now()
	l.steps++
}

func (l *lockRun) kill(p int) {
	ch := l.procs[p]
	if ch == nil {
		return
	}
	ch.kill()
	delete(l.procs, p)
	gs := l.gates[:0]
	for _, g := range l.gates {
		if g.c != ch {
			gs = append(gs, g)
		}
	}
	l.gates = gs
	cs := []int{}
	for _, c := range l.clients {
		if c.p == p {
			cs = append(cs, c.id)
			c.op, c.has, c.stuck, c.closed, c.again = "", false, false, false, 0
		}
	}
	l.event(lockEv{"e": "kill", "p": p, "clients": cs})
}

func (l *lockRun) step(ending bool) (busy bool) {
	l.settle()
	// Who could go on?
	type choice struct {
		prio int
		do   func()
	}
	cs := []choice{}
	as := lockAliases(l.dir)
	for i, g := range l.gates {
		i := i
		who := -1
		if c := l.tids[int(g.ev.n.pid)]; c != nil && l.procs[c.p] == g.c {
			who = c.id
		}
		cs = append(cs, choice{l.prio[who], func() {
			if who == l.victim && l.victim > 0 {
				l.seen++
			}
			l.release(i)
		}})
		if who == l.victim && l.seen >= l.at {
			cs[len(cs)-1].prio = -1
		}
	}
	inflight := 0
	for _, c := range l.clients {
		c := c
		if c.op != "" {
			inflight++
			continue
		}
		if c.stuck || c.left <= 0 && !(c.has) {
			continue
		}
		if ending && !c.has {
			continue
		}
		cs = append(cs, choice{l.prio[c.id], func() {
			path := as[0]
			if l.rng.Intn(2) == 0 {
				path = as[l.rng.Intn(len(as))]
			}
			switch {
			case c.has && !ending && c.left > 0 && !c.closed && l.rng.Intn(3) == 0:
				l.begin(c, "Use", "")
			case c.has:
				l.begin(c, "Close", "")
			case c.again > 0 && l.rng.Intn(3) == 0:
				c.again--
				l.begin(c, "Again", "")
			default:
				l.begin(c, []string{"Load", "Load", "SignOnce", "Ctr"}[l.rng.Intn(4)], path)
			}
		}})
	}
	if l.kills > 0 && l.steps > 2 && l.rng.Intn(25) == 0 {
		l.kills--
		l.kill(1 + l.rng.Intn(3))
		return true
	}
	if len(cs) == 0 {
		return inflight > 0
	}
	pick := 0
	switch l.mode {
	case 0:
		pick = l.rng.Intn(len(cs))
	default:
		// the highest priority first
		best := -2
		for i, c := range cs {
			if c.prio > best {
				best, pick = c.prio, i
			}
		}
		if l.rng.Intn(12) == 0 {
			for k := range l.prio {
				l.prio[k] = 1 + l.rng.Intn(1000)
			}
		}
	}
	cs[pick].do()
	return true
}

func (l *lockRun) run(key, cache []byte) (problem string) {
	lockCleanup(l.dir)
	lockSetup(l.dir)
	path := filepath.Join(l.dir, "key")
	check(os.WriteFile(path, key, 0600))
	check(os.WriteFile(path+".cache", cache, 0600))
	init := []string{"none", "stale", "stale", "stale", "junk"}[l.rng.Intn(5)]
	switch init {
	case "stale":
		check(os.WriteFile(path+".lock", []byte(fmt.Sprintf("%d\n", deadPid())), 0644))
	case "junk":
		check(os.WriteFile(path+".lock", []byte{}, 0644))
	}
	l.note = "lock file at first: " + init
	l.ev, l.clients, l.tids = nil, nil, map[int]*lockClient{}
	l.gates = nil
	for drained := false; !drained; {
		select {
		case <-l.ch:
		default:
			drained = true
		}
	}
	id := 0
	np := 1 + l.rng.Intn(3)
	for p := 1; p <= np; p++ {
		nt := 1 + l.rng.Intn(2)
		if np == 1 {
			nt = 2 + l.rng.Intn(2)
		}
		for t := 0; t < nt; t++ {
			id++
			l.clients = append(l.clients, &lockClient{id: id, p: p, left: 1 + l.rng.Intn(4)})
		}
	}
	l.mode = l.rng.Intn(3)
	l.prio = map[int]int{-1: 5000}
	for _, c := range l.clients {
		l.prio[c.id] = 1 + l.rng.Intn(1000)
	}
	l.victim, l.at, l.seen = 0, 0, 0
	if l.mode == 2 {
		l.victim, l.at = 1+l.rng.Intn(len(l.clients)), l.rng.Intn(14)
		l.prio[l.victim] = 2000
	}
	l.faults, l.kills = 0, 0
	if l.gated && l.rng.Intn(3) == 0 {
		l.faults = 1 + l.rng.Intn(2)
	}
	if l.rng.Intn(3) == 0 {
		l.kills = 1 + l.rng.Intn(2)
	}
	l.steps = 0
	l.last = time.Now()
	fin := func() string {
		if time.Since(l.last) > 30*time.Second {
			return "blocked: nothing happens for 30 s"
		}
		return ""
	}
	for l.step(false) {
		if p := fin(); p != "" {
			return p
		}
	}
	l.kills = 0
	for l.step(true) {
		if p := fin(); p != "" {
			return p
		}
	}
	// Processes which could not give the lock back are ended; after that, the
	// key can be opened.
	for p := 1; p <= np; p++ {
		leak := false
		for _, e := range l.ev {
			if e["e"] == "kill" && e["p"] == p {
				leak = false
			}
			if e["e"] == "fault" && e["p"] == p && e["leak"] == true {
				leak = true
			}
		}
		for _, c := range l.clients {
			leak = leak || c.p == p && c.stuck
		}
		if leak {
			l.kill(p)
		}
	}
	l.faults, l.mode = 0, 0
	l.clients = append(l.clients, &lockClient{id: id + 1, p: np + 1, left: 1})
	c := l.clients[len(l.clients)-1]
	l.begin(c, "Load", path)
	for l.step(true) {
		if p := fin(); p != "" {
			return p
		}
	}
	return ""
}

func init() {
	commands["lockwalk"] = func(cfg *Config) *Report {
		rep := NewReport()
		l := loadLTS(cfg.Str("lts", ""))
		algs := pool(cfg)
		mk := func(w int) Adapter {
			d := filepath.Join(cfg.Scratch, fmt.Sprintf("w%d", w))
			mkdir(d)
			return &lockWalk{scratch: d, rng: rand.New(rand.NewSource(cfg.Seed*91 + int64(w))), alg: algs[w%len(algs)],
				procs: map[int]*lockChild{}, res: make(chan lockRes, 100)}
		}
		res := explore(l, mk, exploreOpts{
			Budget: time.Duration(cfg.Budget * float64(time.Second)), Workers: cfg.Workers,
			MaxLen: cfg.Int("maxlen", 60), Seed: cfg.Seed, Name: "lockwalk", Full: cfg.Bool("full"),
		})
		fillReport(rep, res)
		return rep
	}

	commands["lockconc"] = func(cfg *Config) *Report {
		rep := NewReport()
		alg := cfg.Str("alg", "XMSSMT-SHAKE_10/2_128_w4")
		d := filepath.Join(cfg.Scratch, "key")
		mkdir(d)
		ctx := mustCtx(alg)
		p := ctx.Params()
		sk, _, err := ctx.Derive(filepath.Join(d, "key"), seedOf(1, p.N, 0x11), seedOf(1, p.N, 0x22), seedOf(1, p.N, 0x44))
		check2(err)
		if _, err := sk.Sign(lockMsg); err != nil {
			panic(err.Error())
		}
		check2(sk.Close())
		key, err2 := os.ReadFile(filepath.Join(d, "key"))
		check(err2)
		cache, err2 := os.ReadFile(filepath.Join(d, "key.cache"))
		check(err2)
		f, err2 := os.Create(cfg.Str("traces", ""))
		check(err2)
		defer f.Close()
		var mux sync.Mutex
		var runs, steps, points int64
		gated := true
		{
			c, err := startChild(cfg.Scratch, true, "/no/such/", func(*lockChild, lockRes) {}, func(*lockChild, gateEvent) {})
			if err != nil {
				gated = false
				rep.Stats["ungated"] = err.Error()
			} else {
				c.kill()
			}
		}
		deadline := time.Now().Add(time.Duration(cfg.Budget * float64(time.Second)))
		max := cfg.Int("max", 1<<30)
		var wg sync.WaitGroup
		for w := 0; w < cfg.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				s := filepath.Join(cfg.Scratch, fmt.Sprintf("w%d", w))
				mkdir(s)
				l := &lockRun{cfg: cfg, scratch: s, dir: filepath.Join(s, "d"), gated: gated, procs: map[int]*lockChild{},
					ch: make(chan interface{}, 1000)}
				for i := 0; time.Now().Before(deadline) && int(atomic.LoadInt64(&runs)) < max; i++ {
					seed := cfg.Seed*1000003 + int64(w)*10007 + int64(i)
					l.rng = rand.New(rand.NewSource(seed))
					if i%20 == 19 {
						for p, c := range l.procs {
							c.kill()
							delete(l.procs, p)
						}
					}
					pr := l.run(key, cache)
					b, _ := json.Marshal(map[string]interface{}{"ev": l.ev, "seed": seed, "note": l.note, "gated": gated})
					mux.Lock()
					f.Write(append(b, '\n'))
					if pr != "" && len(rep.Violations) < 3 {
						rep.Violations = append(rep.Violations, Violation{What: pr, Replay: map[string]interface{}{"history": l.ev}})
					}
					mux.Unlock()
					atomic.AddInt64(&runs, 1)
					atomic.AddInt64(&steps, int64(len(l.ev)))
					atomic.AddInt64(&points, int64(l.steps))
					if pr != "" {
						break
					}
					// Handles which are left
					for _, c := range l.clients {
						if c.stuck || c.has || c.op != "" {
							if ch := l.procs[c.p]; ch != nil {
								ch.kill()
								delete(l.procs, c.p)
							}
						}
					}
				}
				for _, c := range l.procs {
					c.kill()
				}
			}(w)
		}
		wg.Wait()
		rep.Stats["runs"], rep.Stats["events"], rep.Stats["calls"] = runs, steps, points
		rep.Stats["gated"] = gated
		return rep
	}
}
