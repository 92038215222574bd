import base64, hashlib, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vlib, fstrace, fscrash

ALGS = ["XMSSMT-SHAKE_2/2_128_w4", "XMSS-SHA2_2_256_w4", "XMSSMT-SHAKE256_4/2_192_w4", "XMSS-SHAKE_1_512_w4"]
EXTRA = ",chmod,fchmod,fchmodat,fchmodat2,umask,sendto,sendmsg,pipe,pipe2,socket,msync,memfd_create"


def seed_of(key, n, what):
    b = hashlib.sha512(b"seed %d %d" % (key, what)).digest()
    return (b + hashlib.sha512(b).digest())[:n]


def marks(secrets):
    """What secrets look like, at least in part."""
    ret = set()
    for s in secrets:
        for k in range(0, len(s) - 7):
            w = s[k:k + 8]
            ret |= {w, w[::-1], w.hex().encode(), w.hex().upper().encode(), " ".join(map(str, w)).encode(), ", ".join(map(str, w)).encode(),
                    ", ".join("0x%x" % b for b in w).encode(), " ".join("%02x" % b for b in w).encode()}
            b = base64.b64encode(s[k:k + 9])
            ret |= {b, b.replace(b"+", b"-").replace(b"/", b"_")} if k + 9 <= len(s) else set()
    return ret


class Watch:
    """Turns system calls into events of SecrecyTrace.tla."""

    def __init__(self, pattern):
        self.pattern = pattern  # first six bytes of marks -> marks
        self.ev = []
        self.names = {}  # path -> inode
        self.sens = set()
        self.n = 0
        self.umask = 0

    def secret(self, b):
        return any(b[i:i + 6] in self.pattern and b.startswith(self.pattern[b[i:i + 6]], i) for i in range(len(b) - 5))

    def data(self, args):
        ret = b""
        for a in args:
            for m in re.finditer(r'"((?:\\x[0-9a-f]{2})*)"', a):
                ret += bytes.fromhex(m.group(1).replace("\\x", ""))
        return ret

    def create(self, m):
        self.n += 1
        self.ev.append({"e": "create", "f": self.n, "m": m & ~self.umask & 0o77})
        return self.n

    def path(self, cwd, fds, dirfd, p):
        p = p.decode(errors="replace")
        return os.path.normpath(os.path.join(cwd, p))

    def process(self, trace, cwd):
        fds = {}
        self.umask = 0
        for pid, name, a, ret, injected in fstrace.calls(trace):
            if name == "+" or injected and ret < 0:
                continue
            if name == "umask":
                self.umask = int(a[0], 8)
            elif name in ("openat", "open", "creat", "openat2"):
                p = fstrace.unquote(a[1] if name.startswith("openat") else a[0])
                if ret < 0 or p is None:
                    continue
                p = self.path(cwd, fds, a[0], p)
                flags = a[2] if name in ("openat", "openat2") else a[1] if name == "open" else "O_CREAT"
                if p not in self.names and re.search("O_(CREAT|TMPFILE)", flags) and not re.match("/dev/(?!shm/)", p):
                    m = re.search(r"\b0[0-7]*$|\bmode=(0[0-7]*)", a[-1])
                    if not m:
                        raise vlib.CheckError("mode of " + str(a))
                    self.names[p] = self.create(int(m.group(1) or m.group(0), 8))
                fds[ret] = self.names.get(p, "other")
            elif name in ("rename", "renameat", "renameat2", "link", "linkat"):
                ps = [self.path(cwd, fds, None, fstrace.unquote(x)) for x in a if x.startswith('"')]
                if ret < 0 or len(ps) != 2 or ps[0] not in self.names:
                    continue
                self.names[ps[1]] = self.names[ps[0]] if name.startswith("link") else self.names.pop(ps[0])
            elif name in ("unlink", "unlinkat"):
                p = self.path(cwd, fds, None, fstrace.unquote([x for x in a if x.startswith('"')][0]))
                if ret == 0:
                    self.names.pop(p, None)
            elif name in ("chmod", "fchmodat", "fchmodat2"):
                p = self.path(cwd, fds, None, fstrace.unquote([x for x in a if x.startswith('"')][0]))
                m = [x for x in a if re.match(r"^0[0-7]*$", x)]
                if ret == 0 and p in self.names:
                    self.ev.append({"e": "chmod", "f": self.names[p], "m": int(m[0], 8) & 0o77})
            elif name == "fchmod":
                if ret == 0 and isinstance(fds.get(int(a[0])), int):
                    self.ev.append({"e": "chmod", "f": fds[int(a[0])], "m": int(a[1], 8) & 0o77})
            elif name == "close":
                fds.pop(int(a[0]), None)
            elif name in ("dup", "dup2", "dup3") or name == "fcntl" and "DUPFD" in a[1]:
                if ret >= 0:
                    fds[ret] = fds.get(int(a[0]), "other")
            elif name == "mmap":
                if len(a) > 4 and re.match(r"^\d+$", a[4]) and ret > 0 and "MAP_SHARED" in a[3] and "PROT_WRITE" in a[2]:
                    f = fds.get(int(a[4]))
                    if isinstance(f, int):  # the cache
                        self.write(f, True)
            elif name in ("sendfile", "copy_file_range"):
                out, src = (int(a[0]), int(a[1])) if name == "sendfile" else (int(a[2]), int(a[0]))
                if ret > 0:
                    self.write(fds.get(out, "other"), fds.get(src) in self.sens)
            elif name in ("write", "pwrite64", "writev", "pwritev", "pwritev2", "sendto", "sendmsg"):
                if ret > 0:
                    self.write(fds.get(int(a[0]), "other"), self.secret(self.data(a[1:])))

    def write(self, f, secret):
        if not isinstance(f, int):
            self.ev.append({"e": "tell", "secret": secret})
        else:
            if secret:
                self.sens.add(f)
            if self.ev and self.ev[-1] == {"e": "write", "f": f, "secret": secret}:
                return
            self.ev.append({"e": "write", "f": f, "secret": secret})


def gen(rng):
    alg = rng.choice(ALGS)
    key = rng.randrange(1, 4)
    segs = [[{"op": "derive", "alg": alg, "key": key}] + fscrash.sign_ops(rng, rng.randrange(3)) + ([{"op": "close"}] if rng.random() < .7 else [])]
    for _ in range(rng.randrange(3)):
        r = rng.random()
        if r < .25:
            segs.append([{"op": "derive", "alg": rng.choice(ALGS), "key": rng.randrange(1, 4)}, {"op": "sign"}, {"op": "close"}])
        else:
            segs.append(([{"op": "helper"}] if rng.random() < .3 else []) + [{"op": "load"}] + fscrash.sign_ops(rng, 4) + [{"op": "close"}])
    return segs


def damage(rng, path):
    """Between two processes, somebody damages a file; returns what was done."""
    kind = rng.choice(["none", "none", "rmcache", "cache", "cachehead", "key", "keyhead", "keyshort", "params"])
    try:
        f = path + ".cache" if "cache" in kind else path
        if kind == "none":
            return kind
        if kind == "rmcache":
            os.unlink(f)
            return kind
        b = bytearray(open(f, "rb").read())
        if kind in ("cache", "key"):
            for _ in range(20):
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif kind in ("cachehead", "keyhead"):
            b[rng.randrange(min(len(b), 30))] ^= 1 << rng.randrange(8)
        elif kind == "params":
            b[8 + rng.randrange(8)] ^= 1 << rng.randrange(8)
        else:
            del b[rng.randrange(len(b)):]
        open(f, "wb").write(b)  # (in place: permissions stay)
    except (OSError, IndexError, ValueError):
        pass
    return kind


def scenario(c, exe, pattern, k, seed):
    rng = random.Random("%s/%s" % (seed, k))
    base = c.dir("sec-%d" % k)
    os.makedirs(base + "/d")
    w = Watch(pattern)
    segs = gen(rng)
    log = []
    for s, ops in enumerate(segs):
        inject = None
        if rng.random() < .4:
            inject = ["%s:error=%s:when=%d" % (rng.choice(["write", "write", "openat", "fsync", "renameat", "ftruncate", "unlinkat", "mmap", "read", "pread64"]),
                                                rng.choice(["EIO", "ENOSPC"]), rng.randrange(1, 14))]
        cf = base + "/cfg.json"
        json.dump({"cmd": "fsrun", "seed": 1, "scratch": base, "out": base + "/out.json", "budget": 10, "workers": 1,
                   "args": {"path": base + "/d/key", "ops": ops, "log": True}}, open(cf, "w"))
        rc, out = fstrace.run(exe, cf, base + "/trace", inject, cwd=base, extra=EXTRA)
        log.append({"ops": ops, "inject": inject, "rc": rc})
        if rc is not None:
            w.process(base + "/trace", base)
        if rc is None or rc != 0 and not inject:
            if rc is not None and not vlib.crash_in_code(out) and "harness: " in out:
                raise vlib.CheckError("fsrun fails: " + out[-3000:])
            break
        if s + 1 < len(segs):
            log.append({"damage": damage(rng, base + "/d/key")})
    shutil.rmtree(base)
    return w.ev, log


def main():
    c = vlib.Check("C23", "model_checking")
    st, _ = c.tlc("Secrecy", "Secrecy.cfg")
    c.add("states", st["distinct"])
    c.add("transitions", st["generated"])
    exe = c.harness()
    secrets = [seed_of(k, 64, x) for k in range(1, 4) for x in (0x22, 0x44)]
    pattern = {}
    for m in marks(secrets):
        pattern[m[:6]] = pattern.get(m[:6], ()) + (m,)
    end = time.time() + c.pick(25, 240)

    def one(k):
        return scenario(c, exe, pattern, k, c.seed) if time.time() < end else None

    with ThreadPoolExecutor(8) as ex:
        res = [r for r in ex.map(one, range(c.pick(1000, 12000))) if r]
    st, out = c.tlc("SecrecyTrace", "SecrecyTrace.cfg", files={"traces.ndjson": "".join(json.dumps(ev) + "\n" for ev, _ in res)}, workers=1)
    at = {}
    for t, i in re.findall(r'<<"at", (\d+), (\d+)>>', out):
        at[int(t)] = max(at.get(int(t), 0), int(i))
    c.add("states", st["distinct"])
    c.add("traces_validated_against_impl", len(res))
    c.add("events", sum(len(ev) for ev, _ in res))
    c.add("sensitive_writes", sum(e.get("secret", False) for ev, _ in res for e in ev))
    if not c.coverage["sensitive_writes"]:
        raise vlib.CheckError("no secret was ever seen: the check is blind")
    for ev, log in res[:2]:
        c.sample({"log": log, "events": ev[:12]})
    for k, (ev, log) in enumerate(res):
        n = at.get(k + 1, 0)
        if n < len(ev) and len(c.violations) < 3:
            e = ev[n]
            mode = next((x["m"] for x in reversed(ev[:n]) if x.get("f") == e.get("f") and "m" in x), None)
            c.violation("Secrecy.tla does not allow step %d, %s%s" % (
                n + 1, json.dumps(e), "" if mode is None else " (others have permissions %o)" % mode), {"log": log, "events": ev[:n + 1]})
    return c.done()
