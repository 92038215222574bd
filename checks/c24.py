import vlib, conc


def main():
    c = vlib.Check("C24", "model_checking")
    for k in ({"NSigners": 2, "Pre": 2, "BadReads": 1}, {"D": 3, "Start": 1, "Stop": 7, "Pre": 1, "NSigners": 1}):
        st, _ = c.tlc("TreeCache", "TreeCache.cfg", k, heap="8g")
        c.add("states", st["distinct"])
        c.add("transitions", st["generated"])
    conc.run(c, [{"mode": m} for m in ("ahead", "ahead", "ahead", "ahead", "ahead", "faults", "mixed", "retire")], c.pick(6, 240))
    return c.done()
