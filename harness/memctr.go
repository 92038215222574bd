package main

// A PrivateKeyContainer in memory with injectable faults, which records every
// call and detects overlapping ones.

import (
	"fmt"
	"sync"
	"sync/atomic"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

type ctrErr struct{ msg string }

func (e *ctrErr) Error() string { return e.msg }
func (e *ctrErr) Locked() bool  { return false }
func (e *ctrErr) Inner() error  { return nil }

func cerr(format string, a ...interface{}) xmssmt.Error {
	return &ctrErr{fmt.Sprintf(format, a...)}
}

// What survives a crash.
type memDisk struct {
	init   bool
	params xmssmt.Params
	key    []byte
	seqNo  xmssmt.SignatureSeqNo
	bor    uint32

	cacheInit bool
	cache     map[xmssmt.SubTreeAddress][]byte
}

// Held within the operations of containers, as background work of a handle
// that was abandoned ("crashed") may still use its container.
var memMux sync.Mutex

func (d *memDisk) clone() *memDisk {
	memMux.Lock()
	defer memMux.Unlock()
	r := *d
	r.key = append([]byte{}, d.key...)
	r.cache = map[xmssmt.SubTreeAddress][]byte{}
	for k, v := range d.cache {
		r.cache[k] = append([]byte{}, v...)
	}
	return &r
}

type memCtr struct {
	disk   *memDisk
	closed bool

	// in-memory view of the record
	seqNo xmssmt.SignatureSeqNo
	bor   uint32

	// Fault injection: the fail'th update from now fails; applied tells whether
	// it is stored nevertheless.
	failIn  int
	applied bool
	fired   bool

	// called for every call (with no lock of the harness held)
	hook func(op string, args ...interface{}) xmssmt.Error

	busy     int32
	overlaps int32
	after    int32 // calls after Close
	writes   int
}

func openMemCtr(d *memDisk) *memCtr {
	return &memCtr{disk: d, seqNo: d.seqNo, bor: d.bor}
}

func (c *memCtr) enter(op string, args ...interface{}) (func(), xmssmt.Error) {
	if atomic.AddInt32(&c.busy, 1) != 1 {
		atomic.AddInt32(&c.overlaps, 1)
	}
	if c.closed {
		atomic.AddInt32(&c.after, 1)
	}
	var err xmssmt.Error
	if c.hook != nil {
		err = c.hook(op, args...)
	}
	memMux.Lock()
	return func() {
		memMux.Unlock()
		atomic.AddInt32(&c.busy, -1)
	}, err
}

func (c *memCtr) arm(f string) {
	c.failIn = 0
	c.fired = false
	switch f {
	case "before":
		c.failIn, c.applied = 1, false
	case "after":
		c.failIn, c.applied = 1, true
	case "before2":
		c.failIn, c.applied = 2, false
	case "after2":
		c.failIn, c.applied = 2, true
	}
}

// Store the new record.
func (c *memCtr) store(seqNo xmssmt.SignatureSeqNo, bor uint32) xmssmt.Error {
	c.writes++
	if c.failIn > 0 {
		c.failIn--
		if c.failIn == 0 {
			c.fired = true
			if c.applied {
				c.disk.seqNo, c.disk.bor = seqNo, bor
			}
			return cerr("injected storage failure")
		}
	}
	c.disk.seqNo, c.disk.bor = seqNo, bor
	c.seqNo, c.bor = seqNo, bor
	return nil
}

func (c *memCtr) ResetCache() xmssmt.Error {
	done, err := c.enter("ResetCache")
	defer done()
	if err != nil {
		return err
	}
	if c.closed || !c.disk.init {
		return cerr("not initialized")
	}
	c.disk.cacheInit = true
	c.disk.cache = map[xmssmt.SubTreeAddress][]byte{}
	return nil
}

func (c *memCtr) GetSubTree(a xmssmt.SubTreeAddress) ([]byte, bool, xmssmt.Error) {
	done, err := c.enter("GetSubTree", a)
	defer done()
	if err != nil {
		return nil, false, err
	}
	if c.closed || !c.disk.cacheInit {
		return nil, false, cerr("cache is not initialized")
	}
	if b, ok := c.disk.cache[a]; ok {
		return b, true, nil
	}
	b := make([]byte, c.disk.params.CachedSubTreeSize())
	c.disk.cache[a] = b
	return b, false, nil
}

func (c *memCtr) HasSubTree(a xmssmt.SubTreeAddress) bool {
	done, err := c.enter("HasSubTree", a)
	defer done()
	if err != nil || c.closed || !c.disk.cacheInit {
		return false
	}
	_, ok := c.disk.cache[a]
	return ok
}

func (c *memCtr) DropSubTree(a xmssmt.SubTreeAddress) xmssmt.Error {
	done, err := c.enter("DropSubTree", a)
	defer done()
	if err != nil {
		return err
	}
	if c.closed || !c.disk.cacheInit {
		return cerr("cache is not initialized")
	}
	if b, ok := c.disk.cache[a]; ok {
		// Using the buffer from now on is an error: make sure it's noticed.
		for i := range b {
			b[i] = 0xdb
		}
	}
	delete(c.disk.cache, a)
	return nil
}

func (c *memCtr) ListSubTrees() ([]xmssmt.SubTreeAddress, xmssmt.Error) {
	done, err := c.enter("ListSubTrees")
	defer done()
	if err != nil {
		return nil, err
	}
	if c.closed || !c.disk.cacheInit {
		return nil, cerr("cache is not initialized")
	}
	ret := []xmssmt.SubTreeAddress{}
	for a := range c.disk.cache {
		ret = append(ret, a)
	}
	return ret, nil
}

func (c *memCtr) Reset(key []byte, params xmssmt.Params) xmssmt.Error {
	done, err := c.enter("Reset")
	defer done()
	if err != nil {
		return err
	}
	if c.closed {
		return cerr("closed")
	}
	c.disk.init = true
	c.disk.params = params
	c.disk.key = append([]byte{}, key...)
	c.disk.cacheInit = true
	c.disk.cache = map[xmssmt.SubTreeAddress][]byte{}
	return c.store(0, 0)
}

func (c *memCtr) BorrowSeqNos(amount uint32) (xmssmt.SignatureSeqNo, xmssmt.Error) {
	done, err := c.enter("BorrowSeqNos", amount)
	defer done()
	if err != nil {
		return 0, err
	}
	if c.closed || !c.disk.init {
		return 0, cerr("not initialized")
	}
	ret := c.seqNo
	if err := c.store(c.seqNo+xmssmt.SignatureSeqNo(amount), c.bor+amount); err != nil {
		return 0, err
	}
	return ret, nil
}

func (c *memCtr) SetSeqNo(s xmssmt.SignatureSeqNo) xmssmt.Error {
	done, err := c.enter("SetSeqNo", s)
	defer done()
	if err != nil {
		return err
	}
	if c.closed || !c.disk.init {
		return cerr("not initialized")
	}
	return c.store(s, 0)
}

func (c *memCtr) GetSeqNo() (xmssmt.SignatureSeqNo, uint32, xmssmt.Error) {
	done, err := c.enter("GetSeqNo")
	defer done()
	if err != nil {
		return 0, 0, err
	}
	if c.closed || !c.disk.init {
		return 0, 0, cerr("not initialized")
	}
	return c.seqNo, c.bor, nil
}

func (c *memCtr) GetPrivateKey() ([]byte, xmssmt.Error) {
	done, err := c.enter("GetPrivateKey")
	defer done()
	if err != nil {
		return nil, err
	}
	if c.closed || !c.disk.init {
		return nil, cerr("not initialized")
	}
	return c.disk.key, nil
}

func (c *memCtr) Initialized() *xmssmt.Params {
	done, err := c.enter("Initialized")
	defer done()
	if err != nil || c.closed || !c.disk.init {
		return nil
	}
	p := c.disk.params
	return &p
}

func (c *memCtr) CacheInitialized() bool {
	done, err := c.enter("CacheInitialized")
	defer done()
	return err == nil && !c.closed && c.disk.cacheInit
}

func (c *memCtr) Close() xmssmt.Error {
	if c.closed {
		return cerr("closed")
	}
	done, err := c.enter("Close")
	defer done()
	if err != nil {
		return err
	}
	c.closed = true
	return nil
}
