"""Runs harness processes below strace and turns the system calls they make on
one directory into events of FsCrash.tla."""
import json, os, re, signal, subprocess
import vlib

CALLS = ("openat,open,creat,openat2,close,dup,dup2,dup3,fcntl,write,pwrite64,writev,pwritev,pwritev2,read,pread64,lseek,"
         "ftruncate,truncate,fallocate,rename,renameat,renameat2,link,linkat,unlink,unlinkat,symlink,symlinkat,mkdir,mkdirat,rmdir,"
         "fsync,fdatasync,sync,syncfs,sync_file_range,mmap,sendfile,copy_file_range,newfstatat,stat,fstat")
LINE = re.compile(r"^(\d+) +(.*)$")
CALL = re.compile(r"^(\w+)\((.*)\) += +(0x[0-9a-f]+|-?\d+|\?)(.*)$", re.S)


def run(exe, cfg_path, out, inject=None, cwd=None, timeout=40, extra=""):
    """Returns the exit code (negative: killed)."""
    # (with --seccomp-bpf strace does not deliver the signals it is to inject)
    fast = [] if any("signal=" in i for i in inject or []) else ["--seccomp-bpf"]
    argv = ["strace"] + fast + ["-f", "-xx", "-s", "1000000", "-e", "trace=" + CALLS + extra, "-e", "signal=none", "-o", out]
    for i in inject or []:
        argv += ["-e", "inject=" + i]
    p = subprocess.Popen(argv + [exe, cfg_path], cwd=cwd, env=vlib.go_env({"GODEBUG": "asyncpreemptoff=1"}),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return None, o.decode(errors="replace")
    return p.returncode, o.decode(errors="replace")


def unquote(a):
    m = re.match(r'^"((?:\\x[0-9a-f]{2})*)"(\.\.\.)?', a)
    if not m or m.group(2):
        return None
    return bytes.fromhex(m.group(1).replace("\\x", ""))


def split_args(s):
    ret, depth, cur, inq = [], 0, "", False
    for ch in s:
        if ch == '"':
            inq = not inq
        if not inq:
            if ch in "([{":
                depth += 1
            elif ch in ")]}":
                depth -= 1
            elif ch == "," and depth == 0:
                ret.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        ret.append(cur.strip())
    return ret


def calls(path):
    """The system calls in the order of their completion: (pid, name, args, ret, injected)."""
    pending = {}
    for line in open(path, errors="replace"):
        m = LINE.match(line.rstrip("\n"))
        if not m:
            continue
        pid, rest = m.groups()
        if rest.startswith("+++") or rest.startswith("---"):
            yield pid, "+", rest, 0, False
            continue
        if rest.endswith("<unfinished ...>"):
            pending[pid] = rest[:-len("<unfinished ...>")].rstrip()
            continue
        r = re.match(r"^<\.\.\. (\w+) resumed>(.*)$", rest)
        if r:
            rest = pending.pop(pid, r.group(1) + "(") + r.group(2)
        m = CALL.match(rest)
        if not m:
            continue
        name, args, ret, tail = m.groups()
        if ret == "?":
            continue
        yield pid, name, split_args(args), int(ret, 8 if name == "umask" else 0), "(INJECTED)" in tail


class Follower:
    """Follows the directory over several processes."""

    def __init__(self, d, ignore):
        self.d = d.encode()
        self.ignore = ignore
        self.ev = []
        self.table = {}       # content -> id
        self.contents = []    # id -> bytes, or None if not followed
        self.names = {}       # name -> ino
        self.data = {}        # ino -> bytearray, or None
        self.fds = {}
        self.nino = 0
        self.unknown = []
        self.relevant = []    # system calls which may be made to fail: (name, index)
        self.opaque_ino = {}

    def cid(self, b):
        b = bytes(b)
        if b not in self.table:
            self.table[b] = len(self.contents)
            self.contents.append(b)
        return self.table[b]

    def opaque(self, ino):
        if self.data[ino] is None:
            return
        self.data[ino] = None
        c = len(self.contents)
        self.contents.append(None)
        self.opaque_ino[c] = ino
        self.ev.append({"e": "opaque", "ino": ino, "c": c})

    def name(self, p):
        if p is None:
            return None
        if p == self.d:
            return ""
        if not p.startswith(self.d + b"/"):
            return None
        n = p[len(self.d) + 1:].decode(errors="replace")
        if self.ignore(n):
            return None
        return n

    def process(self, trace):
        """Follows one process."""
        self.fds = {}
        counts = {}
        self.relevant = []
        fault = False
        ev = self.ev
        for pid, name, a, ret, injected in calls(trace):
            if name == "+":
                continue
            k = (pid, name)
            counts[k] = counts.get(k, 0) + 1
            fault = fault or injected
            if name in ("newfstatat", "stat"):
                p = unquote(a[1] if name == "newfstatat" else a[0])
                if p and p.startswith(b"/MARK/"):
                    m = json.loads(p[6:])
                    if m["e"] == "call":
                        fault = False
                    else:
                        m["fault"] = fault
                    ev.append(m)
                else:
                    if p is not None and p.startswith(self.d):
                        self.relevant.append((name, counts[k], len(ev)))
                continue
            if name in ("openat", "open", "creat", "openat2"):
                p = unquote(a[1] if name.startswith("openat") else a[0])
                inlock = p is not None and p.startswith(self.d)
                n = self.name(p)
                flags = a[2] if name == "openat" else a[1] if name == "open" else "O_CREAT|O_WRONLY|O_TRUNC"
                if inlock:
                    self.relevant.append((name, counts[k], len(ev)))
                if n is None or ret < 0:
                    if ret >= 0:
                        self.fds[ret] = None
                    continue
                if n == "":
                    self.fds[ret] = ["dir", 0, flags]
                    continue
                if n not in self.names:
                    if "O_CREAT" not in flags:
                        self.unknown.append("open of unknown " + n)
                        continue
                    ino = self.nino
                    self.nino += 1
                    self.names[n] = ino
                    self.data[ino] = bytearray()
                    ev.append({"e": "creat", "a": n, "ino": ino, "c": self.cid(b"")})
                elif "O_TRUNC" in flags:
                    self.write(self.names[n], lambda b: b.clear())
                self.fds[ret] = [self.names[n], 0, flags]
                continue
            if name == "mmap":
                m = re.match(r"^\d+$", a[4]) if len(a) > 4 else None
                if m and self.fds.get(int(a[4])):
                    self.relevant.append((name, counts[k], len(ev)))
                    if ret > 0 and not injected and "MAP_SHARED" in a[3] and "PROT_WRITE" in a[2] and self.fds[int(a[4])][0] != "dir":
                        self.opaque(self.fds[int(a[4])][0])
                continue
            if name == "sync":
                ev.append({"e": "syncall"})
                continue
            if name.startswith(("rename", "link", "unlink", "symlink", "mkdir", "rmdir", "truncate")):
                ps = [unquote(x) for x in a if x.startswith('"')]
                ns = [self.name(p) for p in ps]
                if any(p is not None and p.startswith(self.d) for p in ps):
                    self.relevant.append((name, counts[k], len(ev)))
                if ret < 0 or all(n is None for n in ns):
                    continue
                if name.startswith("rename") and None not in ns:
                    if name == "renameat2" and "EXCHANGE" in a[-1]:
                        self.unknown.append("exchange")
                        continue
                    if ns[0] in self.names:
                        ev.append({"e": "rename", "a": ns[0], "b": ns[1]})
                        self.names[ns[1]] = self.names.pop(ns[0])
                elif name.startswith("link") and None not in ns and ns[0] in self.names:
                    ev.append({"e": "link", "a": ns[0], "b": ns[1]})
                    self.names[ns[1]] = self.names[ns[0]]
                elif name.startswith("unlink") and ns[0] in self.names:
                    ev.append({"e": "unlink", "a": ns[0]})
                    del self.names[ns[0]]
                elif name == "truncate" and ns[0] in self.names:
                    n = int(a[1])
                    self.write(self.names[ns[0]], lambda b: resize(b, n))
                else:
                    self.unknown.append(name)
                continue
            # The others have a file descriptor first
            try:
                fd = int(a[0]) if name != "sendfile" else int(a[0])
            except (ValueError, IndexError):
                continue
            if name == "close":
                if fd in self.fds:
                    # (Linux closes a descriptor even if it reports an error, an injected
                    # error does not: a lock on the directory would be kept.)
                    if self.fds[fd] and self.fds[fd][0] != "dir":
                        self.relevant.append((name, counts[k], len(ev)))
                    if ret == 0:
                        del self.fds[fd]
                continue
            f = self.fds.get(fd)
            if f is None:
                if name in ("write",) and fd in self.fds:
                    self.relevant.append((name, counts[k], len(ev)))
                if name == "copy_file_range" and self.fds.get(int(a[2])):
                    self.opaque(self.fds[int(a[2])][0])
                continue
            if name not in ("fcntl", "lseek"):
                self.relevant.append((name, counts[k], len(ev)))
            if ret < 0:
                continue
            if name in ("dup", "dup2", "dup3"):
                self.fds[ret] = f
            elif name == "fcntl":
                if "DUPFD" in a[1]:
                    self.fds[ret] = f
            elif name in ("fsync", "fdatasync"):
                if f[0] == "dir":
                    ev.append({"e": "syncdir"})
                else:
                    ev.append({"e": "sync", "ino": f[0]})
            elif name == "syncfs":
                ev.append({"e": "syncall"})
            elif f[0] == "dir":
                pass
            elif name == "read":
                f[1] += ret
            elif name == "lseek":
                f[1] = ret
            elif name in ("write", "pwrite64"):
                buf = unquote(a[1])
                if buf is None:
                    self.opaque(f[0])
                    continue
                off = int(a[3]) if name == "pwrite64" else f[1]
                if "O_APPEND" in f[2] and self.data[f[0]] is not None:
                    off = len(self.data[f[0]])
                self.write(f[0], lambda b: overwrite(b, off, buf[:ret]))
                if name == "write":
                    f[1] = off + ret
                if "SYNC" in f[2]:
                    ev.append({"e": "sync", "ino": f[0]})
            elif name == "ftruncate":
                n = int(a[1])
                self.write(f[0], lambda b: resize(b, n))
            elif name in ("writev", "pwritev", "pwritev2", "sendfile", "copy_file_range", "fallocate"):
                self.opaque(f[0])
        ev.append({"e": "die"})

    def write(self, ino, change):
        b = self.data[ino]
        if b is None:
            return
        if len(b) > 1 << 16:
            return self.opaque(ino)
        change(b)
        if len(b) > 1 << 16:
            return self.opaque(ino)
        self.ev.append({"e": "write", "ino": ino, "c": self.cid(b), "z": self.cid(bytes(len(b)))})


def resize(b, n):
    if n < len(b):
        del b[n:]
    else:
        b.extend(bytes(n - len(b)))


def overwrite(b, off, buf):
    if off > len(b):
        b.extend(bytes(off - len(b)))
    b[off:off + len(buf)] = buf
