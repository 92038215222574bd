import vlib

ALGS = ["XMSSMT-SHAKE_6/3_128", "XMSSMT-SHA2_8/4_192", "XMSSMT-SHAKE256_6/6_256", "XMSSMT-SHAKE_4/2_256_w4",
        "XMSSMT-SHA2_4/2_512", "XMSS-SHAKE256_4_192"]


def main():
    c = vlib.Check("C21", "model_checking")
    models = [("pks", {"PkSlots": '{"p", "q"}', "SigSlots": '{"g"}', "MaxN": c.pick(2, 4)}),
              ("sigs", {"PkSlots": '{"p"}', "SigSlots": '{"g", "f"}', "MaxN": c.pick(5, 8), "Vias": '{"bin", "into"}'})]
    tot = c.coverage.setdefault("runs", [])
    hs = []
    lts = {m: c.export_lts("Values", "Values.cfg", consts, name="Values-" + m)[0] for m, consts in models}
    if c.harness():
        for m, consts in models:
            for backend in ("mem", "fs"):
                hs.append(c.start("values", {
                    "lts": lts[m], "backend": backend, "algs": ALGS, "maxn": consts["MaxN"],
                    "pks": [s for s in "pq" if '"%s"' % s in consts["PkSlots"]],
                    "sgs": [s for s in "gf" if '"%s"' % s in consts["SigSlots"]], "name": m + "-" + backend},
                    budget=c.pick(20, 240), workers=4, name=m + "-" + backend))
    for h in hs:
        st = c.finish(h)
        if st:
            c.add("traces_validated_against_impl", st["runs"])
            c.add("steps_on_implementation", st["steps"])
            for s in (st.get("samples") or [])[:1]:
                c.sample({"run": h["name"], "steps": s})
            tot.append({k: st[k] for k in st if k != "samples"} | {"run": h["name"]})
    return c.done()
