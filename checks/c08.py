import json
import vlib

KINDS = ["absent", "empty", "truncate", "truncateblock", "extend", "flip", "flips", "header", "slotheader", "zeroblock", "randblock",
         "random", "swap", "earlier", "mixearlier", "otherkey", "mixother", "anykey"]


def main():
    c = vlib.Check("C08", "model_checking")
    # The design: what is trusted is right; not so if the checksum covered less.
    sizes = [{"NSlots": 1, "Trees": '{"root", "a", "b"}', "MaxCrash": 2}]
    if not c.quick():
        sizes.append({"NSlots": 2, "Trees": '{"root", "a"}', "MaxDamage": 1, "MaxCrash": 1})
    slots = {}
    cfg = open(vlib.SPEC + "/SubTreeCache.cfg").read()
    for k, s in enumerate(sizes):
        st, out = c.tlc("SubTreeCache", cfg.replace("INVARIANT", "INVARIANT Emit" if k == 0 else "INVARIANT"), s, timeout=1500)
        c.add("states", st["distinct"])
        c.add("transitions", st["generated"])
        for l in out.splitlines():
            if l.startswith('"{'):
                for x in json.loads(json.loads(l))["slots"]:
                    slots[json.dumps(x, sort_keys=True)] = x
    for b in ('{"addr"}', '{"key"}'):
        st, out = c.tlc("SubTreeCache", "SubTreeCache.cfg", {"Bind": b, "NSlots": 2, "Trees": '{"root", "a"}'}, expect_violation=True)
        if "UsedIsRight is violated" not in out:
            raise vlib.CheckError("SubTreeCache.tla holds even with a checksum which covers only %s" % b)
    slots = [slots[k] for k in sorted(slots)]
    c.coverage["slot_states_of_the_specification"] = len(slots)

    f, _ = c.export_lts("CacheLife", "CacheLife.cfg", {"Cap": 7, "Skips": "{1, 2}", "Damages": "{%s}" % ", ".join('"%s"' % k for k in KINDS)})
    small = ["XMSSMT-SHAKE_3/3_128", "XMSSMT-SHAKE_3/1_128", "XMSSMT-SHAKE_4/2_128_w4", "XMSSMT-SHAKE_6/3_128_w4", "XMSSMT-SHA2_4/4_256_w256"]
    big = ["XMSSMT-SHAKE_14/2_128_w4"]  # whose subtrees take more than a page
    hs = [c.start("cachestates", {"slots": slots, "algs": ["XMSSMT-SHAKE_3/3_128", "XMSSMT-SHAKE_2/2_128_w4", "XMSSMT-SHAKE_4/2_256_w4", "XMSS-SHAKE_2_128"],
                                  "count": c.pick(4000, 200000)}, budget=c.pick(25, 400), workers=3, name="states"),
          c.start("cacheflips", {"algs": c.pick(["XMSSMT-SHAKE_3/3_128", "XMSSMT-SHAKE_2/1_128_w4"], small + ["XMSSMT-SHAKE_2/1_128_w4"]) + big,
                                 "exhaustive": c.pick(2, 6), "only": c.pick(50, 3000), "sigs": 8},
                  budget=c.pick(25, 500), workers=3, name="flips"),
          c.start("cachelife", {"lts": f, "algs": small, "cap": 7}, budget=c.pick(25, 400), workers=3, name="life")]
    for h in hs:
        st = c.finish(h)
        if st:
            c.coverage["on_implementation_" + h["name"]] = {k: st[k] for k in st if k != "samples"}
            c.add("traces_validated_against_impl", st.get("done", st.get("runs", 0)))
            for s in (st.get("samples") or [])[:2]:
                c.sample({"run": h["name"], "steps": s})
            if not c.violations and st.get("done", st.get("steps")) < 100:
                raise vlib.CheckError("%s did hardly anything" % h["name"])
    return c.done()
