import vlib, conc


def main():
    c = vlib.Check("C19", "model_checking")
    conc.run(c, [{"mode": m} for m in ("mixed", "plain", "overlap", "overlap", "overlap", "overlap", "closing", "closing")], c.pick(10, 300))
    return c.done()
