import json, os, re
import vlib

# name, hash function, n, height, layers, w
PARAMS = [("XMSSMT-SHAKE_8/8_128_w4", 16, 8, 8, 4), ("XMSSMT-SHAKE_6/3_128", 16, 6, 3, 16), ("XMSSMT-SHAKE_14/2_128_w4", 16, 14, 2, 4),
          ("XMSS-SHAKE_3_256_w4", 32, 3, 1, 4), ("XMSSMT-SHA2_20/10_256", 32, 20, 10, 16)]


def main():
    c = vlib.Check("C26", "model_checking")
    params = os.path.join(c.scratch, "params.ndjson")
    open(params, "w").write("".join(json.dumps({"name": a, "n": n, "h": h, "d": d, "w": w}) + "\n" for a, n, h, d, w in PARAMS))
    hs = []
    for k in range(8):
        f = os.path.join(c.scratch, "histories-%d.ndjson" % k)
        hs.append((f, c.start("resources", {"histories": f, "params": params, "max": c.pick(40, 1000)}, budget=c.pick(15, 200),
                              workers=1, seed=c.seed * 100 + k, name="resources-%d" % k)))
    lines = []
    for f, h in hs:
        st = c.finish(h)
        if st:
            c.add("operations", st["operations"])
        if os.path.exists(f):
            lines += [l for l in open(f) if l.strip()]
    for k in range(0, len(lines), 200):
        part = lines[k:k + 200]
        st, out = c.tlc("Resources", "Resources.cfg", files={"histories.ndjson": "".join(part)}, workers=4)
        c.add("states", st["distinct"])
        at = {}
        for t, i in re.findall(r'<<"at", (\d+), (\d+)>>', out):
            at[int(t)] = max(at.get(int(t), 0), int(i))
        for j, l in enumerate(part):
            ev = json.loads(l)["ev"]
            if at.get(j + 1, 0) < len(ev) and len(c.violations) < 3:
                n = at.get(j + 1, 0)
                c.violation("after %s (%d), more is in use than open keys and their subtrees account for: %s" % (ev[n]["op"], n + 1, ev[n]),
                            {"paths": json.loads(l)["paths"], "history": ev[:n + 1]})
    c.add("traces_validated_against_impl", len(lines))
    for l in lines[:2]:
        c.sample(json.loads(l)["ev"][:10])
    return c.done()
