"""Common machinery of the checks: scratch space, building the harness from
/repo's working tree, running TLC, and reporting."""
import itertools, atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """The check itself could not do its work (never a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def go_env(extra=None):
    env = dict(os.environ)
    env.update(HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off",
               GOFLAGS="-mod=mod", GOWORK="off", GOMODCACHE="/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env.pop("GODEBUG", None)
    if extra:
        env.update(extra)
    return env


class Check:
    last = None

    def __init__(self, prop, level, budget=None):
        Check.last = self
        self.prop = prop
        self._count = itertools.count()
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
        atexit.register(self.cleanup)
        self.violations = []     # (what, replay object, key)
        self.known_hit = []
        self.known = load_known(prop)
        self.coverage = {"samples": []}
        self.assumptions = []
        self.notes = []
        self._harness = {}
        for d in (EVIDENCE,):
            os.makedirs(d, exist_ok=True)
        for f in os.listdir(EVIDENCE):
            if f.startswith(prop + ".") or f.startswith(prop + "-"):
                try:
                    os.unlink(os.path.join(EVIDENCE, f))
                except OSError:
                    pass

    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick() else thorough

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------------
    # coverage
    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, s):
        if len(self.coverage["samples"]) < 12:
            self.coverage["samples"].append(s)

    def violation(self, what, replay=None, key=None):
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return
        self.violations.append((what, replay, key))

    # ------------------------------------------------------------------
    # building
    def sched_harness(self):
        """The harness and a copy of /repo in which the locks, condition
        variables and goroutines are those of harness/vsync; or, if that can't
        be built (constructs vsync does not know), one in which they are not."""
        if "sched" in self._harness:
            return self._harness["sched"]
        d = self.dir("rewrite")
        src = os.path.join(VERIF, "harness", "rewrite")
        for f in os.listdir(src):
            shutil.copy(os.path.join(src, f), d)
        exe = os.path.join(d, "rewrite-exe")
        subprocess.run(["go", "build", "-o", exe, "."], cwd=d, env=go_env(), check=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for variant in ("vsync", "vsyncfree"):
            if variant == "vsync" and self._harness.get("uncontrolled"):
                continue
            to = os.path.join(self.scratch, "rewritten-" + variant)
            p = subprocess.run([exe, REPO, to] + (["plain"] if variant == "vsyncfree" else []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            try:
                if p.returncode:
                    raise CheckError(p.stdout)
                shutil.copytree(os.path.join(VERIF, "harness", variant), os.path.join(to, "vsync"))
                self._harness["sched"] = self.harness(tags="sched," + variant, repo=to)
                self.coverage["instrumentation"] = p.stdout.strip() or "none: uncontrolled scheduling"
                return self._harness["sched"]
            except CheckError as e:
                if variant == "vsyncfree":
                    raise
                self.notes.append("the scheduler can't be controlled: " + str(e)[-600:])

    def uncontrolled(self):
        """From now on, the scheduler isn't controlled."""
        self._harness.pop("sched", None)
        self._harness["uncontrolled"] = True

    def harness(self, whitebox=False, tags="", repo=None, arch=None):
        """Builds the harness against /repo's working tree.  With whitebox,
        an extra file is overlaid on the package; returns None if that does not
        compile (the package's internals were reorganised)."""
        arch = arch or os.environ.get("VERIF_ARCH")
        k = (whitebox, tags, arch)
        repo = repo or REPO
        if k in self._harness:
            return self._harness[k]
        d = self.dir(("build-wb" if whitebox else "build" + tags) + (arch or ""))
        src = os.path.join(VERIF, "harness")
        for f in os.listdir(src):
            if f.endswith(".go"):
                shutil.copy(os.path.join(src, f), d)
        mod = open(os.path.join(REPO, "go.mod")).read()
        mod = re.sub(r"^module .*$", "module verifharness", mod, count=1, flags=re.M)
        mod = re.sub(r"^go 1\.\d+.*$", "go 1.21", mod, count=1, flags=re.M)
        mod += ("\nrequire github.com/bwesterb/go-xmssmt v0.0.0\n"
                "replace github.com/bwesterb/go-xmssmt => %s\n" % repo)
        open(os.path.join(d, "go.mod"), "w").write(mod)
        if os.path.exists(os.path.join(REPO, "go.sum")):
            shutil.copy(os.path.join(REPO, "go.sum"), d)
        out = os.path.join(d, "harness")
        cmd = ["go", "build", "-o", out]
        tg = [t for t in tags.split(",") if t]
        if whitebox:
            tg.append("whitebox")
            ov = os.path.join(d, "overlay.json")
            json.dump({"Replace": {os.path.join(REPO, "zz_verif_whitebox.go"):
                                   os.path.join(VERIF, "harness", "overlay", "whitebox.go.txt")}},
                      open(ov, "w"))
            cmd += ["-overlay", ov]
        if tg:
            cmd += ["-tags", ",".join(tg)]
        cmd.append(".")
        p = subprocess.run(cmd, cwd=d, env=go_env({"GOARCH": arch, "CGO_ENABLED": "0"} if arch else None), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if whitebox:
                self.notes.append("white-box overlay does not compile; skipped: " + p.stdout[-300:])
                self._harness[k] = None
                return None
            raise CheckError("harness does not build:\n" + p.stdout)
        self._harness[k] = out
        return out

    def start(self, cmd, args=None, budget=30, workers=8, whitebox=False, env=None,
              name=None, wrapper=None, timeout=None, seed=None, sched=False, arch=None):
        """Starts a harness command; returns a handle for finish()."""
        exe = self.sched_harness() if sched else self.harness(whitebox, arch=arch)
        if exe is None:
            return None
        name = name or cmd
        n = next(self._count)
        d = self.dir("run-%d-%s" % (n, re.sub(r"[^A-Za-z0-9_.-]", "_", name)))
        cfg = {"cmd": cmd, "seed": self.seed if seed is None else seed, "scratch": os.path.join(d, "scratch"),
               "out": os.path.join(d, "out.json"), "budget": budget, "workers": workers,
               "tier": self.tier, "args": args or {}}
        os.makedirs(cfg["scratch"], exist_ok=True)
        cf = os.path.join(d, "config.json")
        json.dump(cfg, open(cf, "w"))
        argv = (wrapper or []) + [exe, cf]
        so = open(os.path.join(d, "stdout"), "w")
        p = subprocess.Popen(argv, cwd=d, env=go_env(env), stdout=so, stderr=subprocess.STDOUT,
                             start_new_session=True)
        return {"p": p, "d": d, "cfg": cfg, "name": name, "t": time.time(),
                "timeout": timeout or (budget * 3 + 300)}

    def finish(self, h):
        """Waits for the command; registers violations; returns its stats."""
        p = h["p"]
        try:
            p.wait(timeout=max(1, h["timeout"] - (time.time() - h["t"])))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            raise CheckError("harness command %s timed out" % h["name"])
        out = open(os.path.join(h["d"], "stdout"), errors="replace").read()
        of = h["cfg"]["out"]
        if p.returncode != 0 or not os.path.exists(of):
            # A crash of the code under test takes the harness with it (e.g. a
            # panic in one of its goroutines, or a deadlock detected by the runtime).
            if "HARNESS-ERROR" in out or "harness: " in out:
                raise CheckError("harness error in %s:\n%s" % (h["name"], out[-4000:]))
            if crash_in_code(out):
                prog = read_progress(of + ".progress")
                self.violation("the code crashes the process: " + first_crash_line(out),
                               {"output": out[-6000:], "progress": prog, "config": h["cfg"]}, key="crash:" + h["name"])
                return {}
            raise CheckError("harness command %s ended with %s:\n%s" % (h["name"], p.returncode, out[-4000:]))
        rep = json.load(open(of))
        if rep.get("errors"):
            raise CheckError("harness errors in %s: %s" % (h["name"], rep["errors"][:5]))
        for v in rep.get("violations") or []:
            self.violation("[%s] %s" % (h["name"], v["what"]),
                           {"what": v["what"], "detail": v.get("replay"), "config": h["cfg"]}, key=v.get("key"))
        st = rep.get("stats") or {}
        h["report"] = rep
        return st

    def run(self, *a, **kw):
        h = self.start(*a, **kw)
        if h is None:
            return None
        return self.finish(h)

    # ------------------------------------------------------------------
    # TLC
    def tlc(self, module, cfg, consts=None, workers=8, extra=(), files=None, timeout=600,
            expect_violation=False, name=None, heap="4g", dfs=False):
        """Model checks spec/module.tla with the given configuration text (or name
        of a .cfg file in spec/).  Returns (stats, stdout)."""
        nm = name or module
        n = next(self._count)
        d = self.dir("tlc-%d-%s" % (n, nm))
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for fn, txt in (files or {}).items():
            open(os.path.join(d, fn), "w").write(txt)
        if "\n" not in cfg:
            cfg = open(os.path.join(SPEC, cfg)).read()
        for k, v in (consts or {}).items():
            cfg, cnt = re.subn(r"^(\s*)%s\s*=.*$" % re.escape(k), lambda m: "%s%s = %s" % (m.group(1), k, v), cfg, flags=re.M)
            if cnt == 0:
                raise CheckError("no constant %s in configuration of %s" % (k, module))
        open(os.path.join(d, module + ".cfg"), "w").write(cfg)
        cp = TLAJAR + ":" + os.path.join(os.path.dirname(TLAJAR), "CommunityModules-deps.jar")
        for f in os.listdir(os.path.dirname(TLAJAR)):
            if f.endswith(".jar") and f not in ("tla2tools.jar", "CommunityModules-deps.jar"):
                cp += ":" + os.path.join(os.path.dirname(TLAJAR), f)
        argv = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=%d" % timeout]
        if dfs:
            argv.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        argv += ["-cp", cp, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
                 "-nowarning", "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(argv, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout + 60)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s timed out" % nm)
        out = p.stdout
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        stats = {"generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0, "rc": p.returncode,
                 "dir": d}
        if not expect_violation and (p.returncode != 0 or "No error has been found" not in out):
            raise CheckError("TLC on %s fails (rc %d):\n%s" % (nm, p.returncode, "\n".join(
                l for l in out.splitlines() if not l.startswith('"{'))[-5000:]))
        return stats, out

    def export_lts(self, module, cfg, consts=None, emit="Emit", name=None, timeout=600):
        """Has TLC enumerate the transition system of the module: its action
        constraint Emit prints each edge as JSON."""
        nm = name or module
        if "\n" not in cfg:
            cfg = open(os.path.join(SPEC, cfg)).read()
        # (the action constraint also bounds the exploration)
        cfg = re.sub(r"^CONSTRAINT .*$", "", cfg, flags=re.M)
        cfg += "\nACTION_CONSTRAINT %s\n" % emit
        stats, out = self.tlc(module, cfg, consts, workers=1, name=nm, timeout=timeout)
        states, acts, obs = {}, {}, {}
        edges, seen = [], set()

        def ident(tab, v):
            s = json.dumps(v, sort_keys=True)
            if s not in tab:
                tab[s] = len(tab)
            return tab[s]

        for line in out.splitlines():
            if not line.startswith('"{'):
                continue
            e = json.loads(json.loads(line))
            t = (ident(states, e["s"]), ident(acts, e["a"]), ident(obs, e["o"]), ident(states, e["t"]))
            if t not in seen:
                seen.add(t)
                edges.append(t)
        if not edges:
            raise CheckError("no transitions were printed for " + nm)
        f = os.path.join(self.scratch, "lts-%s.json" % nm)
        json.dump({"Init": [edges[0][0]], "Acts": [json.loads(x) for x in acts],
                   "Obs": [json.loads(x) for x in obs], "Edges": edges, "NState": len(states),
                   "States": [json.loads(x) for x in states]}, open(f, "w"))
        self.add("states", stats["distinct"])
        self.add("transitions", len(edges))
        return f, {"states": len(states), "edges": len(edges)}

    # ------------------------------------------------------------------
    def done(self):
        wall = round(time.time() - self.t0, 2)
        vio = []
        for i, (what, replay, key) in enumerate(self.violations[:20]):
            rp = os.path.join("evidence", "%s-violation-%d.json" % (self.prop, i))
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump({"property": self.prop, "what": what, "key": key, "seed": self.seed,
                           "tier": self.tier, "replay": replay}, f, indent=1, default=str)
            vio.append((what, rp))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.coverage, "assumptions": self.assumptions, "wall_s": wall,
              "violations": len(self.violations)}
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        if not ev["coverage"]["samples"]:
            ev["coverage"]["samples"] = ["(none)"]
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        for what, rp in vio:
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            print("  " + what[:1500].replace("\n", "\n  "))
        if vio:
            return 1
        print("ok property=%s wall=%.1fs %s" % (self.prop, wall, json.dumps(
            {k: v for k, v in self.coverage.items() if isinstance(v, (int, bool))})))
        return 0


def crash_in_code(out):
    """Whether the output is that of a Go program which crashed in (or because
    of) the code under test."""
    if re.search(r"^(panic:|fatal error:|unexpected fault address|SIGBUS|SIGSEGV|runtime: )", out, re.M) is None:
        return False
    return "go-xmssmt" in out or "all goroutines are asleep" in out


def first_crash_line(out):
    m = re.search(r"^(panic:.*|fatal error:.*)$", out, re.M)
    return m.group(1) if m else "?"


def read_progress(base):
    ret = {}
    d = os.path.dirname(base)
    for f in os.listdir(d):
        if f.startswith(os.path.basename(base)):
            ret[f] = open(os.path.join(d, f), errors="replace").read()[-6000:]
    return ret


def load_known(prop):
    """known-findings.txt: lines 'known: property=<id> key=<key> <what>' (and
    'fixed: ...', which suppress nothing)."""
    ret = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                ret[m.group(2)] = m.group(3)
    return ret
