import vlib, conc


def main():
    c = vlib.Check("C09", "model_checking")
    if not c.quick():
        conc.design(c)
    conc.run(c, [{"mode": m} for m in ("mixed", "faults", "retire", "retire", "retire", "retire", "retire", "plain")], c.pick(10, 300))
    return c.done()
