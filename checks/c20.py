import vlib, keylife


def main():
    c = vlib.Check("C20", "model_checking")
    runs = [("danger", "2/1", "mem", {}), ("danger9", "8/4", "mem", {}),
            ("danger9", "8/4", "mem", {"precompute": True}), ("danger9", "40/20", "mem", {}),
            ("dangerfaults", "2/2", "mem", {}), ("dangerhelper", "2/2", "fs", {}),
            ("danger9", "8/4", "fs", {"precompute": True}), ("danger", "6/3end", "mem", {})]
    keylife.run(c, runs, budget=c.pick(15, 240))
    return c.done()
