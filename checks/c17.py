import random
import vlib, xmss


def main():
    c = vlib.Check("C17", "translation_validation")
    rng = random.Random(c.seed + 17)
    # The fourway hashes are for SHAKE with n = 16 and 32.
    x4 = [xmss.inst("SHAKE", n, h, d, w, prf) for n in (16, 32) for w in (4, 16, 256) for prf in ("RFC", "NIST") for h, d in [(2, 1), (4, 2)]]
    rest = [i for i in xmss.base_instances() if not (i["func"] == "SHAKE" and i["n"] in (16, 32))]
    # Several workers on trees with more leaves than are handed out at once.
    trees = [xmss.inst(f, n, h, 1, 4 if n == 24 else 16, prf) for h in (4, 5, 6, 7) for f, n, prf in
             [("SHAKE", 16, "RFC"), ("SHA2", 32, "RFC"), ("SHAKE256", 24, "NIST"), ("SHAKE", 32, "NIST")]]
    rng.shuffle(rest)
    if c.quick():
        rest = rest[:24]
    else:
        trees += [xmss.inst(f, n, h, d, 16, prf) for h, d in ((10, 1), (20, 2)) for f, n, prf in [("SHAKE", 16, "RFC"), ("SHAKE", 32, "NIST")]]
    f = xmss.templates(c, x4 + trees + rest, "C17")
    f4 = xmss.templates(c, x4, "C17-wots")
    off = {"GODEBUG": "cpu.avx2=off"}
    wb = c.harness(whitebox=True)
    shared = c.dir("shared")
    for phase in ("a", "b"):
        hs = []
        for name, env in (("vector", None), ("portable", off)):
            if phase == "a":
                hs.append(c.start("xmss-threads", {"templates": f, "seqs": c.pick(5, 12), "min": 40, "share": "%s/%s" % (shared, name)},
                                  budget=c.pick(25, 300), env=env, workers=4, name="threads-" + name))
                if wb:
                    hs.append(c.start("wots", {"templates": f4, "checksums": c.pick(100, 4000), "checksums2": c.pick(150, 4000), "min": 12}, budget=c.pick(15, 200), env=env,
                                      workers=4, whitebox=True, name="wots-" + name))
            else:
                # continue with the keys which the other one has made
                hs.append(c.start("xmss-continue", {"templates": f, "share": "%s/%s" % (shared, "portable" if name == "vector" else "vector")},
                                  budget=c.pick(15, 200), env=env, workers=4, name="continue-" + name))
        for h in hs:
            st = c.finish(h)
            if st:
                c.add("programs", st["instances"])
                c.add("disagreements_checked", st.get("digests", 0) + st.get("signatures", 0))
                for s in (st.get("samples") or [])[:3]:
                    c.sample({h["name"]: s})
                if "fourway" in st:
                    c.coverage["fourway in " + h["name"]] = st["fourway"]
    return c.done()
