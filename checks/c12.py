import vlib, codec, xmss, c11


def main():
    c = vlib.Check("C12", "translation_validation")
    t = codec.tables(c)
    f = xmss.templates(c, codec.instances(c, 12), "C12")
    hs = [c.start("codec-headers", {"tables": t, "step": c.pick(3, 1), "others": c.pick(100000, 2000000)}, budget=60, workers=6),
          c.start("codec-params", {"tables": t}, budget=60, workers=2),
          c.start("codec-malformed", {"tables": t, "templates": f, "min": 20}, budget=c.pick(20, 300), workers=4)]
    c11.codec_finish(c, hs)
    return c.done()


