import vlib, codec, c11


def main():
    c = vlib.Check("C13", "translation_validation")
    t = codec.tables(c)
    hs = [c.start("codec-params", {"tables": t}, budget=60, workers=8)]
    c11.codec_finish(c, hs)
    return c.done()
