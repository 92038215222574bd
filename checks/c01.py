import vlib, keylife, conc


def main():
    c = vlib.Check("C01", "model_checking")
    runs = [("faults", "2/1", "mem", {}), ("faults9", "8/4", "mem", {"precompute": True}),
            ("plain9", "40/20", "mem", {}), ("dangerfaults", "2/2", "mem", {}),
            ("helper", "2/2", "fs", {}), ("plain9", "8/4", "fs", {})]
    keylife.run(c, runs, keys="ok,seq,next", budget=c.pick(15, 240))
    if not c.violations:
        conc.run(c, [{"mode": m} for m in ("mixed", "mixed", "plain", "faults", "reserve", "reserve", "reserve", "reserve")], c.pick(6, 200))
    return c.done()
