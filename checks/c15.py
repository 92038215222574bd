import vlib

# Subtree sizes around multiples of the page size come first.
ALGS = ["XMSS-SHAKE_2_128", "XMSSMT-SHAKE_40/20_128", "XMSSMT-SHAKE_20/4_512_w4", "XMSS-SHA2_10_256",
        "XMSSMT-SHA2_60/12_192", "XMSSMT-SHAKE_8/1_128", "XMSS-SHAKE_1_128_w256"]


def main():
    c = vlib.Check("C15", "model_checking")
    c.tlc("Container", "Container.cfg", {"Addrs": '{"a"}', "Seqs": "{0, 2}", "MaxSeq": c.pick(4, 6)})
    base = {"MaxSeq": 0, "MaxBor": 0, "Amounts": "{}", "Seqs": "{}",
            "Formats": '{"v0", "zero", "8192", "16384", "65536"}'}
    rec = {"Addrs": '{"a"}', "Tags": '{"x"}', "Seqs": "{0, 2}", "Amounts": "{0, 1, 3}", "MaxSeq": 4, "MaxBor": 4}
    runs = [("map", base | {"Addrs": '{"a", "b", "c"}'}, {}),
            ("record", rec, {}),
            ("one", base | {"Addrs": '{"a"}', "Keys": "{1}"}, {"wide": True})]
    hs = []
    tot = c.coverage.setdefault("runs", [])
    for name, consts, args in runs:
        f, st = c.export_lts("Container", "Container.cfg", consts, name="Container-" + name)
        addrs = [a for a in ("a", "b", "c") if '"%s"' % a in consts["Addrs"]]
        hs.append(c.start("container", {"lts": f, "addrs": addrs, "algs": algs(c), "name": name} | args,
                          budget=c.pick(20, 300), workers=3, name="container-" + name))
    for h in hs:
        st = c.finish(h)
        if st:
            c.add("traces_validated_against_impl", st["runs"])
            c.add("steps_on_implementation", st["steps"])
            tot.append({k: st[k] for k in st if k != "samples"} | {"run": h["name"]})
            for s in (st.get("samples") or [])[:2]:
                c.sample({"run": h["name"], "steps": s})
    c.assumptions.append("a killed process leaves behind what it wrote to its mappings and files (Kill copies the directory)")
    return c.done()


def algs(c):
    return ALGS
