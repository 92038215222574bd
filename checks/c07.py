import random
import vlib, xmss


def main():
    c = vlib.Check("C07", "translation_validation")
    rng = random.Random(c.seed + 7)
    insts = xmss.base_instances()
    rng.shuffle(insts)
    # (small ones first: all their bits are flipped)
    full = [xmss.inst("SHAKE", 16, 2, 1), xmss.inst("SHAKE", 16, 2, 2), xmss.inst("SHA2", 16, 3, 1), xmss.inst("SHAKE256", 16, 2, 1, 4)]
    sh = xmss.shapes() + [s for s in xmss.shapes("SHA2", 32) if s["h"] < 41] + xmss.shapes("SHAKE256", 24, 16, "NIST")
    rng.shuffle(sh)
    if c.quick():
        insts = full + insts[:48] + sh[:24] + insts[48:] + sh[24:]
    else:
        insts = full + insts + sh
    f = xmss.templates(c, insts, "C07")
    st = c.run("xmss-verify", {"templates": f, "seqs": c.pick(1, 4), "min": 24, "fullsize": c.pick(1300, 5000)}, budget=c.pick(35, 600))
    if st:
        c.coverage["programs"] = st["instances"]
        c.coverage["disagreements_checked"] = st["verifications"]
        for k in ("accepted", "crafted_genuine", "instances_total"):
            c.coverage[k] = st.get(k, 0)
        for s in st["samples"] or []:
            c.sample(s)
    return c.done()
