import vlib, codec, xmss


def main():
    c = vlib.Check("C11", "translation_validation")
    t = codec.tables(c)
    f = xmss.templates(c, codec.instances(c, 11), "C11")
    hs = [c.start("codec-headers", {"tables": t, "step": c.pick(3, 1), "others": c.pick(100000, 2000000)}, budget=60, workers=6),
          c.start("codec-params", {"tables": t}, budget=60, workers=2),
          c.start("codec-malformed", {"tables": t, "templates": f, "min": 20}, budget=c.pick(20, 300), workers=4)]
    codec_finish(c, hs)
    return c.done()


def codec_finish(c, hs):
    for h in hs:
        st = c.finish(h)
        if st:
            for k, v in st.items():
                if isinstance(v, int):
                    c.add(k, v)
            for s in (st.get("samples") or [])[:3]:
                c.sample({h["name"]: s})
    c.coverage["programs"] = c.coverage.get("instances", 0) + c.coverage.get("parameter_sets", 0)
    c.coverage["disagreements_checked"] = sum(c.coverage.get(k, 0) for k in ("headers", "encodings", "names", "inputs", "oids", "contexts"))
