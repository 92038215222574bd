"""Shared by C02, C08, C18: the real code on a file system that loses power, is
killed or fails at any system call; judged by FsCrash.tla."""
import base64, json, os, random, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
import vlib, fstrace

ALGS = ["XMSSMT-SHAKE_2/2_128_w4", "XMSS-SHAKE_2_128_w4", "XMSSMT-SHAKE_4/2_128_w4"]
ERRS = ["EIO", "ENOSPC", "EIO", "EROFS", "EDQUOT", "EMFILE"]


def ignored(n):
    return n.startswith("key.lock")


def sign_ops(rng, n):
    ops = []
    for _ in range(n):
        ops.append(rng.choice([
            {"op": "sign"}, {"op": "sign"}, {"op": "sign"}, {"op": "sign"}, {"op": "signbad"},
            {"op": "borrow", "n": rng.randrange(4)}, {"op": "borrow", "n": 2},
            {"op": "borrowif", "n": rng.randrange(4), "t": rng.randrange(3)},
            {"op": "danger", "n": rng.randrange(1, 3)}, {"op": "pre"}]))
    return ops


def gen_sign(rng):
    alg = rng.choice(ALGS)
    segs = [[{"op": "derive", "alg": alg, "key": 1}] + sign_ops(rng, rng.randrange(3)) +
            ([{"op": "close"}] if rng.random() < .6 else [])]
    for _ in range(1 + rng.randrange(2)):
        s = []
        for _ in range(1 + (rng.random() < .3)):
            if rng.random() < .2:
                s.append({"op": "helper"})
            s += [{"op": "load"}] + sign_ops(rng, 1 + rng.randrange(5))
            if rng.random() < .6:
                s.append({"op": "close"})
        if rng.random() < .2:
            s += [{"op": "close"}, {"op": "helper"}]
        segs.append(s)
    return segs


def create_ops(rng, alg, key):
    return rng.choice([[{"op": "derive", "alg": alg, "key": key}], [{"op": "derive", "alg": alg, "key": key}],
                       [{"op": "generate", "alg": alg}], [{"op": "generate2", "alg": alg}]])


def gen_create(rng):
    segs = []
    alg = rng.choice(ALGS)
    if rng.random() < .75:  # something to be replaced
        alg0 = alg if rng.random() < .7 else rng.choice(ALGS)
        segs.append(create_ops(rng, alg0, 1) + sign_ops(rng, rng.randrange(4)) + ([{"op": "close"}] if rng.random() < .7 else []))
    segs.append(create_ops(rng, alg, 2) + (sign_ops(rng, 1) if rng.random() < .4 else []) +
                ([{"op": "close"}] if rng.random() < .5 else []))
    if rng.random() < .5:
        segs.append([{"op": "load"}, {"op": "sign"}])
    return segs


class Scenario:
    def __init__(self, c, k, segs, rng, mode):
        self.c, self.k, self.segs, self.rng, self.mode = c, k, segs, rng, mode
        self.notes = []

    def run(self, exe, keys):
        base = self.c.dir("fs-%d" % self.k)
        d = os.path.join(base, "d")
        os.makedirs(d)
        self.f = fstrace.Follower(d, ignored)
        self.snap = {}     # opaque content -> bytes
        self.injected, self.kill, self.killed = [], False, False
        # (faults in the segment which does what the property is about)
        target = self.rng.randrange(len(self.segs)) if self.mode == "sign" else min(len(self.segs) - 1, 1 if len(self.segs) > 1 else 0)
        kind = self.rng.choice(["none", "error", "error", "error", "kill", "kill"])
        for s, ops in enumerate(self.segs):
            inject = None
            if s == target and kind != "none":
                # Learn which system calls it makes
                save = os.path.join(base, "save")
                shutil.copytree(d, save)
                rel = self.segment(exe, base, ops, None, dry=True)
                shutil.rmtree(d)
                os.rename(save, d)
                if rel:
                    name, n = self.rng.choice(rel)
                    if kind == "error":
                        e = "error=" + self.rng.choice(ERRS)
                        w = "when=%d" % n if self.rng.random() < .7 else "when=%d..%d" % (n, n + self.rng.randrange(1, 4))
                        inject = ["%s:%s:%s" % (name, e, w)]
                        if self.rng.random() < .2:
                            name, n = self.rng.choice(rel)
                            inject.append("%s:error=EIO:when=%d" % (name, n))
                            if inject[0].split(":")[0] == name:
                                inject.pop()
                    else:
                        inject = ["%s:signal=KILL:when=%d" % (name, n)]
                        self.kill = True
                    self.injected.append((s, inject))
            self.segment(exe, base, ops, inject)
            self.compare(d)
        shutil.rmtree(base)
        # Names of the keys
        known = {}
        for j, e in enumerate(self.f.ev):
            if e["e"] == "call" and e["op"] in ("derive", "generate", "generate2"):
                e["key"] = "?"
                if e["op"] == "derive":
                    e["key"] = keys[e["alg"]]
                for x in self.f.ev[j + 1:]:
                    if x["e"] in ("call", "die"):
                        break
                    if x["e"] == "ret" and x["ok"]:
                        e["key"] = x["key"]
        # (of a key whose creation failed we do not know the name)
        known = {e["key"] for e in self.f.ev if e["e"] == "call"} | {""}
        for e in self.f.ev:
            if e["e"] == "ret" and e["key"] not in known:
                e["key"] = "?"
        top, m = {}, 0
        for e in self.f.ev:
            if e["e"] == "call" and e["key"]:
                m = e["max"] = top[e["key"]] = (1 << int(re.search(r"_(\d+)", e["alg"]).group(1))) - 1
            elif e["e"] == "ret":
                e["max"] = top.get(e["key"], 0) if e["op"] == "load" else m
        self.known = {e["key"] for e in self.f.ev if e["e"] == "call"}

    def segment(self, exe, base, ops, inject, dry=False):
        cfg = {"cmd": "fsrun", "seed": 1, "scratch": base, "out": os.path.join(base, "out.json"), "budget": 10, "workers": 1,
               "args": {"path": os.path.join(base, "d", "key"), "ops": ops}}
        cf = os.path.join(base, "cfg.json")
        json.dump(cfg, open(cf, "w"))
        tr = os.path.join(base, "trace")
        rc, out = fstrace.run(exe, cf, tr, inject, cwd=base)
        if rc is None and inject:
            self.f.unknown.append("hangs after a fault: %s %s" % (ops, inject))
            return []
        if rc is None:
            raise vlib.CheckError("fsrun hangs: %s %s" % (ops, inject))
        killed = inject and any("KILL" in i for i in inject)
        self.killed = self.killed or bool(killed and rc in (-9, 137))
        if rc != 0 and not killed:
            if inject and not vlib.crash_in_code(out):
                # The fault hit something else, e.g. the runtime
                self.f.unknown.append("fault hit something else")
            elif "harness: " in out or "strace: " in out:
                raise vlib.CheckError("fsrun fails: " + out[-3000:])
            elif vlib.crash_in_code(out):
                if not dry:
                    self.notes.append("crash: " + vlib.first_crash_line(out))
            elif not dry:
                raise vlib.CheckError("fsrun ended with %s: %s" % (rc, out[-3000:]))
        f = self.f
        if dry:
            import copy
            f = copy.deepcopy(self.f)
        at = len(f.ev)
        f.process(tr)
        for e in f.ev[at:]:
            if e["e"] == "call":
                e["alg"] = ("%s:%d" % (ops[e["i"]].get("alg"), ops[e["i"]].get("key", 0)))
        # only what happens within the operations
        rel = []
        first = next((k for k, e in enumerate(f.ev) if k >= at and e["e"] == "call"), 1 << 30)
        for (name, n, pos) in f.relevant:
            if pos > first:
                rel.append((name, n))
        return rel

    def compare(self, d):
        """Do we know what is in the directory?"""
        real = {n for n in os.listdir(d) if not ignored(n)}
        if real != set(self.f.names):
            self.f.unknown.append("directory differs: %s vs. %s" % (sorted(real), sorted(self.f.names)))
            return
        for n in real:
            ino = self.f.names[n]
            b = open(os.path.join(d, n), "rb").read()
            if self.f.data[ino] is None:
                for c, i in self.f.opaque_ino.items():
                    if i == ino:
                        self.snap[c] = b
            elif bytes(self.f.data[ino]) != b:
                self.f.unknown.append("contents of %s differ" % n)


def generate(c, mode, budget, count, seed):
    exe = c.harness()
    h = c.start("fskeys", {"algs": ALGS}, budget=20, workers=1)
    keys = c.finish(h)
    rng = random.Random(seed)
    scs = []
    end = time.time() + budget

    def one(k):
        if time.time() > end:
            return None
        r = random.Random("%s-%s" % (seed, k))
        s = Scenario(c, k, (gen_sign if mode == "sign" else gen_create)(r), r, mode)
        s.run(exe, keys)
        return s

    with ThreadPoolExecutor(8) as ex:
        for s in ex.map(one, range(count)):
            if s is not None:
                scs.append(s)
    return scs


def judge(c, scs):
    """Runs both passes of FsCrash.tla; returns the rejected scenarios."""
    good = []
    for s in scs:
        if s.f.unknown:
            c.notes.append("not judged: " + s.f.unknown[0])
        else:
            good.append(s)
    if len(good) < len(scs) * .5:
        raise vlib.CheckError("most traces can't be followed: %s" % [s.f.unknown[:1] for s in scs if s.f.unknown][:3])
    parts = [good[k::8] for k in range(8) if good[k::8]]

    def tlc(part, pas, loaded=""):
        tf = "".join(json.dumps({"ev": s.f.ev}) + "\n" for s in part)
        st, out = c.tlc("FsCrash", "FsCrash.cfg", {"Pass": pas}, files={"traces.ndjson": tf, "loaded.ndjson": loaded}, workers=1,
                        name="FsCrash-%d" % pas, heap="3g", timeout=800)
        c.add("states", st["distinct"])
        c.add("transitions", st["generated"])
        return out

    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: tlc(p, 1), parts))
    for part, out in zip(parts, outs):
        for s in part:
            s.dirs = {}
        ends = set()
        for l in out.splitlines():
            if l.startswith('"{'):
                e = json.loads(json.loads(l))
                if e["done"]:
                    ends.add(e["tr"])
                for d in e["dirs"]:
                    d = d if isinstance(d, dict) else {}
                    part[e["tr"] - 1].dirs[json.dumps(d, sort_keys=True)] = d
        if len(ends) < len(part):
            # (Conditions on results are part of the second pass only.)
            c.notes.append("%d traces are not behaviours" % (len(part) - len(ends)))
    # What the real code makes of them
    contents, table = [], {}

    def cid(b):
        if b not in table:
            table[b] = len(contents)
            contents.append(base64.b64encode(b).decode())
        return table[b]

    rng = random.Random(c.seed)
    jobs, index = [], {}
    for s in good:
        s.jobs = {}
        for k, d in s.dirs.items():
            if "key" not in d:
                continue
            variants = [{}]
            bad = False
            for n, x in d.items():
                b = s.f.contents[x]
                if b is not None:
                    for v in variants:
                        v[n] = cid(b)
                    continue
                if n == "key":
                    bad = True
                    break
                b = s.snap.get(x)
                size = len(b) if b else 3 * 4096
                hdr = (b or b"")[:17]
                alts = [cid(bytes(size)), cid(hdr + bytes(size - len(hdr))), cid(hdr + rng.randbytes(4096 * 2 - len(hdr)))]
                if b:
                    half = bytearray(b)
                    half[len(b) // 2:] = bytes(len(b) - len(b) // 2)
                    alts = [cid(b), cid(bytes(half))] + alts
                variants = [dict(v, **{n: a}) for v in variants for a in (alts if len(variants) == 1 else alts[:2])]
            if bad:
                s.f.unknown.append("contents of the key file are not followed")
                break
            kk = json.dumps(variants, sort_keys=True)
            if kk not in index:
                index[kk] = len(jobs)
                jobs.append(variants)
            s.jobs[k] = index[kk]
    inp = os.path.join(c.scratch, "fsload-%d.json" % next(c._count))
    json.dump({"Contents": contents, "Dirs": jobs}, open(inp, "w"))
    st = c.finish(c.start("fsload", {"in": inp}, budget=c.pick(150, 1500), workers=8, timeout=c.pick(400, 2000)))
    if c.violations:
        return []
    if st["loads"] < len(jobs):
        raise vlib.CheckError("not all states were loaded")
    c.add("crash_states_loaded", sum(len(j) for j in jobs))

    def loaded(s):
        dirs = []
        for k, d in s.dirs.items():
            if "key" not in d:
                continue
            r = dict(st["results"][s.jobs[k]])
            if r["ok"] and r["key"] not in s.known:
                r["key"] = "?"
            dirs.append({"f": d, "r": r})
        return json.dumps({"dirs": dirs}) + "\n"

    parts = [[s for s in p if not s.f.unknown] for p in parts]
    parts = [p for p in parts if p]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: tlc(p, 2, "".join(loaded(s) for s in p)), parts))
    bad = []
    for part, out in zip(parts, outs):
        acc, at = set(), {}
        for what, k, i in re.findall(r'<<"(accepted|at)", (\d+), (\d+)>>', out):
            if what == "accepted":
                acc.add(int(k))
            at[int(k)] = max(at.get(int(k), 0), int(i))
        worst = {}
        for l in out.splitlines():
            if l.startswith('"{'):
                e = json.loads(json.loads(l))
                if e["tr"] not in worst or e["at"] < worst[e["tr"]]["at"]:
                    worst[e["tr"]] = e
        for k, s in enumerate(part):
            s.at = at.get(k + 1, 1)
            if k + 1 in worst:
                bad.append((s, worst[k + 1]))
            elif k + 1 not in acc:
                bad.append((s, None))
    c.add("traces_validated_against_impl", sum(len(p) for p in parts))
    return bad


def decide(c, mode, budget, count, seed=None):
    scs = generate(c, mode, budget, count, c.seed if seed is None else seed)
    if not scs:
        raise vlib.CheckError("no scenario was run")
    c.add("system_call_events", sum(len(s.f.ev) for s in scs))
    c.add("faults_injected", sum(len(s.injected) for s in scs))
    c.add("processes_killed", sum(s.killed for s in scs))
    if not any(s.killed for s in scs) and sum(s.kill for s in scs) > 10:
        raise vlib.CheckError("no process was killed")
    for s in scs[:2]:
        c.sample({"segments": s.segs, "injected": s.injected, "events": s.f.ev[:30]})
    for s, w in judge(c, scs)[:4]:
        if w is None:
            what = "the operations and their results are not a behaviour of FsCrash.tla: %s" % json.dumps(s.f.ev[s.at - 1])
        else:
            what = "a crash %s may leave %s, which is not a key it may be: %s" % (
                "during " + w["doing"] if w["doing"] != "none" else "after event %d" % w["at"], json.dumps(w["bad"]), json.dumps(w["may"]))
        c.violation(what + " [%s]" % json.dumps(s.segs), {"segments": s.segs, "injected": s.injected, "verdict": w, "events": s.f.ev,
                                                         "contents": [b.hex() if b is not None else None for b in s.f.contents]})
