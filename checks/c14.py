import vlib, xmss


def main():
    c = vlib.Check("C14", "translation_validation")
    # (the theorems: complete checksums never dominate one another)
    st, _ = c.tlc("XmssThm", "\n", name="XmssThm")
    c.add("specification_theorems_checked", 8)
    insts = [xmss.inst(f, n, 10, 1, w, prf) for f, prf in
             [("SHAKE", "RFC"), ("SHA2", "RFC"), ("SHAKE256", "NIST"), ("SHAKE", "NIST"), ("SHA2", "NIST"), ("SHAKE256", "RFC")]
             for w in (256, 16, 4) for n in (64, 32, 24, 16)]
    f = xmss.templates(c, insts, "C14")
    hs = []
    if c.harness(whitebox=True):
        # every attainable checksum
        hs.append(c.start("wots", {"templates": f, "checksums": c.pick(200, 1 << 30), "min": 12}, budget=c.pick(25, 400), whitebox=True, name="wots"))
        hs.append(c.start("wots", {"templates": f, "checksums": c.pick(60, 1 << 30), "checksums2": c.pick(200, 1 << 30), "min": 12}, budget=c.pick(25, 400), whitebox=True,
                          env={"GODEBUG": "cpu.avx2=off"}, name="wots-portable"))
    # ... and through the public interface: small heights, so that there are many digests
    small = [xmss.inst(fn, n, 3, 1, w, "RFC") for n in (64, 32, 24, 16) for w in (256, 16, 4) for fn in ("SHAKE", "SHA2")]
    f2 = xmss.templates(c, small, "C14-api")
    hs.append(c.start("xmss-sign", {"templates": f2, "seqs": 7, "min": 6}, budget=c.pick(20, 60), name="signatures"))
    for h in hs:
        st = c.finish(h)
        if st:
            c.add("programs", st["instances"])
            c.add("disagreements_checked", st.get("digests", 0) + st.get("signatures", 0))
            c.add("forgeries_tried", st.get("forgeries_tried", 0))
            for s in (st["samples"] or [])[:3]:
                c.sample({h["name"]: s})
            if "fourway" in st:
                c.coverage["fourway in " + h["name"]] = st["fourway"]
    return c.done()
