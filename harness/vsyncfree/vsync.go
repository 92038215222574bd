// Package vsync (this variant) does not control the interleaving: goroutines
// run as they do, slowed down at random at the scheduling points of the
// harness.  It is used for code which the controlled variant does not know.
package vsync

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Kind int

const (
	Stmt Kind = iota
	Sync
	Yield
	Blocked
	Ended
)

const Controlled = false

type Thread struct{ ID int }

type Chooser func(runnable []*Thread, cur *Thread, kind Kind) *Thread

type Result struct {
	Deadlock string
	Panics   []string
	Points   int
	Limit    bool
}

var (
	mux     sync.Mutex
	running bool
	base    int
	ids     map[int]*Thread
	panics  []string
	points  int
	stuck   string
)

func gid() int {
	var b [64]byte
	s := bytes.TrimPrefix(b[:runtime.Stack(b[:], false)], []byte("goroutine "))
	n, _ := strconv.Atoi(string(s[:bytes.IndexByte(s, ' ')]))
	return n
}

func Run(main func(), choose Chooser, limit int) Result {
	mux.Lock()
	running, ids, panics, points, stuck = true, map[int]*Thread{}, nil, 0, ""
	base = runtime.NumGoroutine()
	mux.Unlock()
	done := make(chan bool)
	go func() {
		Cur() // is number 0
		guarded("main", main)
		close(done)
	}()
	<-done
	mux.Lock()
	defer mux.Unlock()
	running = false
	return Result{Deadlock: stuck, Panics: panics, Points: points}
}

type giveUp struct{}

func guarded(name string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(giveUp); ok {
				return
			}
			mux.Lock()
			panics = append(panics, fmt.Sprintf("%s: %v\n%s", name, e, debug.Stack()))
			mux.Unlock()
		}
	}()
	f()
}

func P() {}

func Point() {
	mux.Lock()
	points++
	mux.Unlock()
	switch x := rand.Intn(40); {
	case x == 0:
		time.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)
	case x < 14:
		runtime.Gosched()
	}
}

// Block waits, for a long time if need be.
func Block(what string, until func() bool) {
	for i := 0; !until(); i++ {
		mux.Lock()
		dead := len(panics) > 0
		mux.Unlock()
		if dead {
			panic(giveUp{})
		}
		time.Sleep(50 * time.Microsecond)
		if i > 200000 {
			buf := make([]byte, 1<<16)
			s := string(buf[:runtime.Stack(buf, true)])
			mux.Lock()
			stuck = what + " for more than 10 seconds:\n" + strings.TrimSpace(s)
			mux.Unlock()
			panic(giveUp{})
		}
	}
}

// Settle waits for the background goroutines to end, not for ever: there
// might be ones which stay.
func Settle() bool {
	for i := 0; i < 2000; i++ {
		if runtime.NumGoroutine() <= base+1 {
			return true
		}
		time.Sleep(500 * time.Microsecond)
	}
	return false
}

func Cur() *Thread {
	mux.Lock()
	defer mux.Unlock()
	if !running {
		return nil
	}
	g := gid()
	t := ids[g]
	if t == nil {
		t = &Thread{ID: len(ids)}
		ids[g] = t
	}
	return t
}

func Go(f func()) { GoNamed("", f) }

func GoNamed(name string, f func()) *Thread {
	go guarded(name, f)
	return nil
}
