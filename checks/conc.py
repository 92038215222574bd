"""Shared by C01, C09, C10, C19: histories of the real code under a controlled
scheduler, judged by KeyConc.tla."""
import json, os, re
import vlib

ALGS = ["XMSSMT-SHAKE_2/2_128_w4", "XMSS-SHAKE_2_128_w4", "XMSSMT-SHAKE_4/4_128_w4",
        "XMSSMT-SHAKE_4/2_128_w4", "XMSSMT-SHAKE_3/3_128_w4",
        # across 2^32, and at the end of the largest keys
        "XMSSMT-SHAKE_40/20_128_w4@%d" % (2**32 - 10), "XMSSMT-SHAKE_60/30_128_w4@%d" % (2**60 - 20)]


def consts(c):
    """Only the rules of this property"""
    return {"Enforce": '{"%s"}' % c.prop}


def judge(c, lines, consts, batch=400, jobs=8):
    """Returns the histories (as parsed lines) that KeyConc does not accept."""
    from concurrent.futures import ThreadPoolExecutor
    parts = [lines[k:k + batch] for k in range(0, len(lines), batch)]

    def one(part):
        st, out = c.tlc("KeyConc", "KeyConc.cfg", consts, files={"traces.ndjson": "".join(part)}, workers=1,
                        name="KeyConc", timeout=600, heap="2g")
        acc = {int(m) for m in re.findall(r'<<"accepted", (\d+)>>', out)}
        return [l for k, l in enumerate(part) if k + 1 not in acc], st

    bad = []
    with ThreadPoolExecutor(jobs) as ex:
        for b, st in ex.map(one, parts):
            bad += b
            c.add("states", st["distinct"])
            c.add("transitions", st["generated"])
    return bad


def diagnose(c, line):
    """How far a rejected history is a behaviour, and what comes next."""
    st, out = c.tlc("KeyConc", "KeyConc.cfg", consts(c) | {"Diagnose": "TRUE"}, files={"traces.ndjson": line}, workers=1, name="KeyConc-diag")
    at = 0
    state = ""
    for l in out.splitlines():
        if l.startswith('"{'):
            d = json.loads(json.loads(l))
            if d["at"] > at:
                at, state = d["at"], []
            if d["at"] == at and len(state) < 4:
                state.append(d)
    t = json.loads(line)
    ev = t["ev"][at - 1] if 0 < at <= len(t["ev"]) else None
    return at, ev, state, t


def run(c, runs, budget):
    """runs: list of dicts of arguments of the harness command conc."""
    files = record(c, runs, budget)
    if files is None:
        c.notes.append("a run left the control of the scheduler")
        c.uncontrolled()
        files = record(c, runs, budget) or []
    if c.violations:
        return
    lines = []
    for f in files:
        with open(f) as fh:
            lines += [l for l in fh if l.strip()]
    # First against the rules of all properties, which leave little choice
    bad = judge(c, lines, {})
    if bad:
        others = len(bad)
        bad = judge(c, bad[:200], consts(c), batch=10)
        if len(bad) < others:
            c.notes.append("%d histories violate other properties" % (others - len(bad)))
    c.add("traces_validated_against_impl", len(lines))
    for l in lines[:2]:
        t = json.loads(l)
        c.sample({"scenario": t["sc"], "history": t["ev"][:20]})
    for l in bad[:3]:
        at, ev, state, t = diagnose(c, l)
        c.violation("the history of %s is not a behaviour of KeyConc.tla: step %d, %s, is impossible in %s" % (
            t["sc"]["alg"], at, json.dumps(ev), state), {"scenario": t["sc"], "cfg": t["cfg"], "step": at, "history": t["ev"]})


def record(c, runs, budget):
    """Records histories; None if the code could not be kept under control."""
    hs = []
    c.sched_harness()
    for k, args in enumerate(runs):
        f = os.path.join(c.scratch, "traces-%d.ndjson" % k)
        hs.append((f, c.start("conc", {"algs": ALGS, "traces": f, "property": c.prop} | args, budget=budget, workers=1, sched=True,
                              seed=c.seed * 1000 + k, name="conc-" + args.get("mode", "mixed"))))
    files, lost = [], False
    for f, h in hs:
        st = c.finish(h)
        if st:
            lost = lost or st.get("uncontrolled")
            c.add("schedules", st["runs"])
            c.add("events", st.get("events", 0))
            c.add("scheduling_points", st.get("points", 0))
        if os.path.exists(f):
            files.append(f)
    return None if lost and not c.violations else files


def design(c):
    """The algorithm itself: TreeCache.tla holds, and would not without its parts."""
    sizes = [{"NSigners": 3, "MaxFaults": 1, "Closes": "TRUE", "InitCache": '"corrupt"'},
             {"D": 3, "Start": 1, "Stop": 4, "Pre": 1, "MaxFaults": 1, "Closes": "TRUE", "NSigners": 1},
             {"NSigners": 2, "Start": 1, "Pre": 1, "Closes": "TRUE", "InitCache": '"any"'}]
    if not c.quick():
        sizes += [{"NSigners": 2, "Pre": 1, "MaxFaults": 1, "BadReads": 1, "Closes": "TRUE", "InitCache": '"any"'},
                  {"NSigners": 2, "Start": 1, "Pre": 2, "MaxFaults": 1, "Closes": "TRUE", "InitCache": '"corrupt"'},
                  {"D": 3, "Start": 1, "Stop": 4, "Pre": 1, "MaxFaults": 2, "Closes": "TRUE", "NSigners": 1},
                  {"D": 3, "Start": 1, "Stop": 4, "Pre": 1, "MaxFaults": 1, "NSigners": 2}]
    for s in sizes:
        st, _ = c.tlc("TreeCache", "TreeCache.cfg", s, timeout=800, heap="8g")
        c.add("states", st["distinct"])
        c.add("transitions", st["generated"])
    if c.quick():
        return
    # Everything comes to an end
    live = open(vlib.SPEC + "/TreeCache.cfg").read().replace("SPECIFICATION Spec", "SPECIFICATION Fair") + "PROPERTY Progress\n"
    for s in ({"NSigners": 2, "Pre": 1, "MaxFaults": 1, "Closes": "TRUE", "Stop": 2},
              {"NSigners": 3, "MaxFaults": 1, "Closes": "TRUE", "InitCache": '"corrupt"'}):
        st, _ = c.tlc("TreeCache", live, s, timeout=800, heap="8g", name="TreeCache-live")
        c.add("states", st["distinct"])
    two = {"NSigners": 2, "Pre": 1, "MaxFaults": 1, "Closes": "TRUE"}
    one = {"D": 3, "Start": 1, "Stop": 4, "Pre": 1, "MaxFaults": 2, "NSigners": 1}
    for b, s, inv in (("nobroadcast", two, "NoDeadlock"), ("nowait", two, "Right"), ("nocheck", two | {"InitCache": '"corrupt"'}, "Right"),
                      ("nowg", two, "ClosedIsQuiet"), ("nowgbg", two, "ClosedIsQuiet"), ("dropbusy", one, "Filled"), ("nobgdrop", one, "Dropped"),
                      ("beyond", two | {"MaxFaults": 0}, "Within"), ("keepgone", one, "Dropped"),
                      ("lazy", one | {"MaxFaults": 0}, "StaysAhead")):
        st, out = c.tlc("TreeCache", "TreeCache.cfg", s | {"Bugs": '{"%s"}' % b}, expect_violation=True, timeout=300)
        if "Invariant %s is violated" % inv not in out:
            raise vlib.CheckError("TreeCache.tla: %s holds even with %s" % (inv, b))
    c.coverage["weakened_designs_refuted"] = 10
