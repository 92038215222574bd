//go:build linux && amd64

package main

// Stops another process at its file system calls (seccomp user notifications),
// to decide in which order those of several processes are done, or to let
// them fail.

import (
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
	"unsafe"
)

const (
	sysSeccomp      = 317
	notifRecv       = 0xc0502100
	notifSend       = 0xc0182101
	sysProcessVMRd  = 310
	filterNewListen = 1 << 3
	filterWaitKill  = 1 << 5
)

var gatedCalls = map[int32]struct {
	name string
	arg  int // of the path, -1 if none
}{
	265: {"linkat", 3}, 263: {"unlinkat", 1}, 264: {"renameat", 1}, 316: {"renameat2", 1},
	257: {"openat", 1}, 262: {"newfstatat", 1}, 267: {"readlinkat", 1}, 73: {"flock", -1},
	86: {"link", 1}, 87: {"unlink", 0}, 82: {"rename", 0}, 2: {"open", 0}, 6: {"lstat", 0}, 4: {"stat", 0},
}

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}
type sockFprog struct {
	n uint16
	f *sockFilter
}

type gateNotif struct {
	id    uint64
	pid   uint32
	flags uint32
	nr    int32
	arch  uint32
	ip    uint64
	args  [6]uint64
}
type gateResp struct {
	id    uint64
	val   int64
	error int32
	flags uint32
}

// Makes this process stop at the gated calls, starting with the exec of self.
// The listener is sent over the socket with descriptor 3.
func gateSelf(args []string) {
	runtime.LockOSThread()
	f := []sockFilter{{0x20, 0, 0, 0}}
	nrs := []int32{}
	for nr := range gatedCalls {
		nrs = append(nrs, nr)
	}
	for i, nr := range nrs {
		f = append(f, sockFilter{0x15, uint8(len(nrs) - i), 0, uint32(nr)})
	}
	f = append(f, sockFilter{0x06, 0, 0, 0x7fff0000}, sockFilter{0x06, 0, 0, 0x7fc00000})
	prog := sockFprog{uint16(len(f)), &f[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		fmt.Fprintln(os.Stderr, "harness: prctl:", e)
		os.Exit(5)
	}
	// (kept ready: from here on some calls stop)
	exe := "/proc/self/exe"
	env := os.Environ()
	fd, _, e := syscall.RawSyscall(sysSeccomp, 1, filterNewListen|filterWaitKill, uintptr(unsafe.Pointer(&prog)))
	if e != 0 {
		os.Exit(5)
	}
	runtime.KeepAlive(f)
	if err := syscall.Sendmsg(3, []byte{1}, syscall.UnixRights(int(fd)), nil, 0); err != nil {
		os.Exit(5)
	}
	syscall.Close(int(fd))
	syscall.Close(3)
	err := syscall.Exec(exe, args, env)
	fmt.Fprintln(os.Stderr, "harness: exec:", err)
	os.Exit(5)
}

type gateEvent struct {
	n    gateNotif
	name string
	path string
}

// Receives the descriptor of the listener.
func gateListener(sock *os.File) (int, error) {
	c, err := net.FileConn(sock)
	if err != nil {
		return -1, err
	}
	defer c.Close()
	buf, oob := make([]byte, 8), make([]byte, 64)
	_, on, _, _, err := c.(*net.UnixConn).ReadMsgUnix(buf, oob)
	if err != nil {
		return -1, err
	}
	ms, err := syscall.ParseSocketControlMessage(oob[:on])
	if err != nil || len(ms) == 0 {
		return -1, fmt.Errorf("no descriptor received: %v", err)
	}
	fds, err := syscall.ParseUnixRights(&ms[0])
	if err != nil || len(fds) == 0 {
		return -1, fmt.Errorf("no descriptor received: %v", err)
	}
	return fds[0], nil
}

func gateRead(pid uint32, addr uint64) string {
	ret := []byte{}
	for len(ret) < 4096 {
		n := 4096 - int(addr%4096)
		if n > 512 {
			n = 512
		}
		b := make([]byte, n)
		type iovec struct {
			base uintptr
			len  uint64
		}
		l := iovec{uintptr(unsafe.Pointer(&b[0])), uint64(n)}
		r := iovec{uintptr(addr), uint64(n)}
		got, _, e := syscall.RawSyscall6(sysProcessVMRd, uintptr(pid), uintptr(unsafe.Pointer(&l)), 1, uintptr(unsafe.Pointer(&r)), 1, 0)
		if e != 0 || int(got) <= 0 {
			break
		}
		for i := 0; i < int(got); i++ {
			if b[i] == 0 {
				return string(append(ret, b[:i]...))
			}
		}
		ret = append(ret, b[:got]...)
		addr += uint64(got)
	}
	return string(ret)
}

// Passes on the calls that concern paths containing under; lets the others go.
func gateLoop(fd int, under string, out func(gateEvent), done <-chan struct{}) {
	defer syscall.Close(fd)
	type pollFd struct {
		fd      int32
		events  int16
		revents int16
	}
	for {
		select {
		case <-done:
			return
		default:
		}
		p := pollFd{int32(fd), 1, 0}
		ts := syscall.Timespec{Nsec: 100e6}
		n, _, e := syscall.Syscall6(syscall.SYS_PPOLL, uintptr(unsafe.Pointer(&p)), 1, uintptr(unsafe.Pointer(&ts)), 0, 0, 0)
		if e != 0 && e != syscall.EINTR {
			return
		}
		if int(n) <= 0 || e != 0 {
			continue
		}
		if p.revents&1 == 0 {
			return // no process left
		}
		var m gateNotif
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), notifRecv, uintptr(unsafe.Pointer(&m))); e != 0 {
			continue
		}
		c := gatedCalls[m.nr]
		ev := gateEvent{n: m, name: c.name}
		if c.arg >= 0 {
			ev.path = gateRead(m.pid, m.args[c.arg])
			if !strings.Contains(ev.path, under) {
				gateAnswer(fd, m.id, 0)
				continue
			}
		}
		out(ev)
	}
}

// Lets the call be done, or fail.
func gateAnswer(fd int, id uint64, errno syscall.Errno) bool {
	r := gateResp{id: id}
	if errno == 0 {
		r.flags = 1
	} else {
		r.error = -int32(errno)
	}
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), notifSend, uintptr(unsafe.Pointer(&r)))
	return e == 0
}
