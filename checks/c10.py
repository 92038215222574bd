import vlib, conc


def main():
    c = vlib.Check("C10", "model_checking")
    conc.design(c)
    conc.run(c, [{"mode": m} for m in ("mixed", "mixed", "faults", "faults", "plain", "plain", "faults", "mixed")], c.pick(10, 300))
    return c.done()
