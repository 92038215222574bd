import json, os, re
import vlib


def accepted(c, lines):
    """For every history how many of its attempts were accepted."""
    st, out = c.tlc("KeyGen", "KeyGen.cfg", files={"traces.ndjson": "".join(lines)}, workers=1)
    c.add("states", st["distinct"])
    at = {}
    for h, i in re.findall(r'<<"at", (\d+), (\d+)>>', out):
        at[int(h)] = max(at.get(int(h), 0), int(i))
    return [at.get(k + 1, 0) for k in range(len(lines))]


def main():
    c = vlib.Check("C22", "model_checking")
    st, _ = c.tlc("KeyGenImpl", "KeyGenImpl.cfg", {"N": c.pick(2, 3)})
    c.add("states", st["distinct"])
    c.add("transitions", st["generated"])
    for b, inv in (("short", "NotMadeUp"), ("ignore", "NotMadeUp"), ("shared", "Fresh")):
        _, out = c.tlc("KeyGenImpl", "KeyGenImpl.cfg", {"Bugs": '{"%s"}' % b}, expect_violation=True)
        if "Invariant %s is violated" % inv not in out:
            raise vlib.CheckError("KeyGenImpl.tla: %s holds even with %s" % (inv, b))
    f = os.path.join(c.scratch, "keygen.ndjson")
    st = c.run("keygen", {"traces": f}, budget=c.pick(15, 120))
    if st:
        lines = [l for l in open(f) if l.strip()]
        ats = accepted(c, lines)
        c.add("traces_validated_against_impl", len(lines))
        c.add("keys_generated", sum(e["ok"] * e.get("count", 1) for l in lines for e in json.loads(l)))
        c.add("attempts_that_failed", sum(not e["ok"] for l in lines for e in json.loads(l)))
        for l in lines[:2]:
            c.sample(json.loads(l)[:6])
        for l, at in zip(lines, ats):
            h = json.loads(l)
            if at < len(h) and len(c.violations) < 4:
                c.violation("attempt %d to generate a key is not one KeyGen.tla allows: %s" % (at + 1, json.dumps(h[at])), h[:at + 1])
    return c.done()
