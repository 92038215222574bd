import json, random
import vlib, xmss


def main():
    c = vlib.Check("C16", "model_checking")
    rng = random.Random(c.seed + 16)
    st, out = c.tlc("Stream", "Stream.cfg", {"MaxUnits": c.pick(2, 3), "MaxReads": c.pick(4, 5),
                   "Failures": '{"other", "unexpected EOF", "wrapped EOF", "timeout", "no progress", "short", "closed"}'}, workers=1)
    c.add("states", st["distinct"])
    c.add("transitions", st["generated"])
    bs = [json.loads(l) for l in out.splitlines() if l.startswith('"{')]
    bf = c.scratch + "/behaviours.jsonl"
    open(bf, "w").write("\n".join(bs) + "\n")
    insts = xmss.base_instances()
    sh = [s for s in xmss.shapes() + xmss.shapes("SHA2", 32) if s["h"] >= 5]
    rng.shuffle(insts)
    rng.shuffle(sh)
    # one of each hash and length first
    first = {}
    for i in insts:
        first.setdefault((i["func"], i["n"]), i)
    insts = list(first.values()) + sh[:8] + insts
    for i in insts:
        if i["h"] == 2:
            i["h"] = 3
    f = xmss.templates(c, insts, "C16")
    st = c.run("stream", {"templates": f, "behaviours": bf, "perinst": c.pick(160, 100000), "min": 20}, budget=c.pick(20, 400))
    if st:
        c.coverage["traces_validated_against_impl"] = st["operations"]
        c.coverage["behaviours"] = len(bs)
        c.coverage["instances"] = st["instances"]
        for s in st["samples"] or []:
            c.sample(s)
    return c.done()
