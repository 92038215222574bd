import json, os, re
import vlib

# name, one of its subtrees as a key, height, layers
PARAMS = [("XMSSMT-SHAKE_14/2_128_w4", "XMSS-SHAKE_7_128_w4", 14, 2), ("XMSSMT-SHA2_21/3_256", "XMSS-SHA2_7_256", 21, 3),
          ("XMSSMT-SHAKE256_16/2_192_w4", "XMSS-SHAKE256_8_192_w4", 16, 2), ("XMSSMT-SHAKE_21/3_256", "XMSS-SHAKE_7_256", 21, 3)]


def main():
    c = vlib.Check("C27", "model_checking")
    for k in ({"NSigners": 2, "Pre": 1}, {"NSigners": 2, "InitCache": '"any"', "Start": 1}):
        st, _ = c.tlc("TreeCache", "TreeCache.cfg", k, heap="8g")
        c.add("states", st["distinct"])
        c.add("transitions", st["generated"])
    for b in ("forget", "regen"):
        st, out = c.tlc("TreeCache", "TreeCache.cfg", {"NSigners": 2, "InitCache": '"good"', "Start": 1, "Bugs": '{"%s"}' % b}, expect_violation=True)
        if "Invariant Once is violated" not in out:
            raise vlib.CheckError("TreeCache.tla: Once holds even with %s" % b)
    params = os.path.join(c.scratch, "params.ndjson")
    open(params, "w").write("".join(json.dumps({"name": a, "one": o, "h": h, "d": d}) + "\n" for a, o, h, d in PARAMS))
    def judge(lines):
        """Indices of the events at which histories are rejected"""
        st, out = c.tlc("Work", "Work.cfg", files={"histories.ndjson": "".join(lines)}, workers=4)
        c.add("states", st["distinct"])
        at = {}
        for t, i in re.findall(r'<<"at", (\d+), (\d+)>>', out):
            at[int(t)] = max(at.get(int(t), 0), int(i))
        return {j: at.get(j + 1, 0) for j, l in enumerate(lines) if at.get(j + 1, 0) < len(json.loads(l)["ev"])}

    hs = []
    for k in range(8):
        f = os.path.join(c.scratch, "histories-%d.ndjson" % k)
        hs.append((k, f, c.start("work", {"histories": f, "params": params, "max": c.pick(25, 1000)}, budget=c.pick(20, 200),
                                 workers=1, seed=c.seed * 100 + k, name="work-%d" % k)))
    lines, by = [], []
    for k, f, h in hs:
        st = c.finish(h)
        if st:
            c.add("operations", st["operations"])
        if os.path.exists(f):
            l = [l for l in open(f) if l.strip()]
            lines += l
            by += [k] * len(l)
    again = 0
    for k in range(0, len(lines), 200):
        for j, n in judge(lines[k:k + 200]).items():
            if len(c.violations) >= 2 or again >= 12:
                break
            # Time is not measured exactly: what is found has to show every time.
            again += 1
            first = json.loads(lines[k + j])["n"]
            for r in range(4):
                f = os.path.join(c.scratch, "again.ndjson")
                c.finish(c.start("work", {"histories": f, "params": params, "first": first, "max": first + 1}, budget=60,
                                 workers=1, seed=c.seed * 100 + by[k + j], name="again-%d-%d" % (again, r)))
                l = [l for l in open(f) if l.strip()]
                bad = judge(l)
                if not bad:
                    break
            else:
                h = json.loads(l[0])
                e = h["ev"][bad[0]]
                c.violation("%s (%d) took %.2f times what a subtree costs, which is more than what was not in the cache accounts for: %s" %
                            (e["op"], bad[0] + 1, e["work"] / 1000, e), {"params": h["p"], "history": h["ev"][:bad[0] + 1]})
    c.coverage["histories_repeated"] = again
    c.add("traces_validated_against_impl", len(lines))
    for l in lines[:2]:
        c.sample(json.loads(l)["ev"][:10])
    return c.done()
