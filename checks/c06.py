import random
import vlib, xmss


def main():
    c = vlib.Check("C06", "translation_validation")
    rng = random.Random(c.seed)
    insts = xmss.base_instances()
    sh = xmss.shapes() + xmss.shapes("SHA2", 32) + xmss.shapes("SHAKE", 32)
    if not c.quick():
        for f, n, w, prf in [("SHA2", 64, 16, "RFC"), ("SHAKE", 32, 4, "NIST"), ("SHAKE256", 24, 16, "NIST"), ("SHAKE", 16, 256, "RFC")]:
            sh += xmss.shapes(f, n, w, prf)
        sh += [xmss.inst(f, n, 10, 1) for f in xmss.FUNCS for n in (24, 32, 64)]
        sh += [xmss.inst(f, n, h, d, 16, "NIST" if n == 24 else "RFC") for f in xmss.FUNCS for n in (24, 32) for h, d in [(20, 4), (40, 8), (60, 12), (20, 2)]]
    else:
        rng.shuffle(sh)
    insts += sh
    st, _ = c.tlc("XmssThm", "\n", name="XmssThm")
    c.add("specification_theorems_checked", 8)
    f = xmss.templates(c, insts, "C06")
    st = c.run("xmss-sign", {"templates": f, "seqs": c.pick(7, 15), "min": 72}, budget=c.pick(40, 500))
    if st:
        c.coverage["programs"] = st["instances"]
        c.coverage["disagreements_checked"] = st["signatures"]
        c.coverage["instances_total"] = st["instances_total"]
        for s in st["samples"]:
            c.sample(s)
    return c.done()
