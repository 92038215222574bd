import vlib, fscrash


def main():
    c = vlib.Check("C02", "model_checking")
    fscrash.decide(c, "sign", c.pick(20, 400), c.pick(400, 6000))
    return c.done()
