import json, os, re
import vlib


def judge(c, lines, batch=300, jobs=8):
    from concurrent.futures import ThreadPoolExecutor
    parts = [lines[k:k + batch] for k in range(0, len(lines), batch)]

    def one(part):
        st, out = c.tlc("LockConc", "LockConc.cfg", {}, files={"traces.ndjson": "".join(part)}, workers=1, timeout=600, heap="2g")
        acc = {int(m) for m in re.findall(r'<<"accepted", (\d+)>>', out)}
        return [l for k, l in enumerate(part) if k + 1 not in acc], st

    bad = []
    with ThreadPoolExecutor(jobs) as ex:
        for b, st in ex.map(one, parts):
            bad += b
            c.add("states", st["distinct"])
            c.add("transitions", st["generated"])
    return bad


def diagnose(c, line):
    st, out = c.tlc("LockConc", "LockConc.cfg", {"Diagnose": "TRUE"}, files={"traces.ndjson": line}, workers=1, name="LockConc-diag")
    at, state = 0, []
    for l in out.splitlines():
        if l.startswith('"{'):
            d = json.loads(json.loads(l))
            if d["at"] > at:
                at, state = d["at"], []
            if d["at"] == at and len(state) < 4:
                state.append(d)
    ev = json.loads(line)["ev"]
    return at, ev[at - 1] if 0 < at <= len(ev) else None, state


def main():
    c = vlib.Check("C05", "model_checking")
    f, n = c.export_lts("Lock", "Lock.cfg")
    tr = os.path.join(c.scratch, "lock.ndjson")
    hs = [c.start("lockwalk", {"lts": f, "algs": ["XMSSMT-SHAKE_10/2_128_w4", "XMSSMT-SHAKE_12/4_128"], "full": not c.quick()},
                  budget=c.pick(40, 400), workers=4, name="walk"),
          c.start("lockconc", {"traces": tr}, budget=c.pick(30, 400), workers=4, name="histories")]
    # The design
    st, out = c.tlc("LockImpl", "LockImpl.cfg", c.pick({"Procs": "{1, 2}"}, {}), workers=2, timeout=1500)
    c.add("states", st["distinct"])
    c.add("transitions", st["generated"])
    for k, v in (("Guard", "FALSE"), ("Table", "FALSE"), ("Early", "TRUE"), ("Ignore", "TRUE")):
        st, out = c.tlc("LockImpl", "LockImpl.cfg", {k: v, "Procs": "{1, 2}"}, workers=2, expect_violation=True)
        if "is violated" not in out:
            raise vlib.CheckError("LockImpl.tla holds even with %s = %s" % (k, v))
    for h in hs:
        st = c.finish(h)
        if st:
            c.coverage["on_implementation_" + h["name"]] = {k: st[k] for k in st if k != "samples"}
            c.add("traces_validated_against_impl", st.get("runs", 0))
            for s in (st.get("samples") or [])[:2]:
                c.sample({"run": h["name"], "steps": s})
    if not c.violations:
        lines = [l for l in open(tr) if l.strip()]
        for l in lines[:2]:
            c.sample({"history": json.loads(l)["ev"][:20]})
        bad = judge(c, lines)
        c.coverage["histories_rejected"] = len(bad)
        for l in sorted(bad, key=len)[:int(os.environ.get("VERIF_DIAG", "3"))]:
            at, ev, state = diagnose(c, l)
            t = json.loads(l)
            c.violation("a history (%s) is not a behaviour of LockConc.tla: step %d, %s, is impossible in %s" % (
                t["note"], at, json.dumps(ev), state), {"step": at, "history": t["ev"], "seed": t["seed"]})
    return c.done()
