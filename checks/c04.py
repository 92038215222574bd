import vlib, keylife


def main():
    c = vlib.Check("C04", "model_checking")
    runs = [("plain", "2/1", "mem", {}), ("plain", "2/2", "mem", {"precompute": True}),
            ("plain", "4/2end", "mem", {}), ("danger", "6/3end", "mem", {"precompute": True}),
            ("cap1", "1/1", "mem", {}), ("dangerhelper", "2/1", "fs", {}),
            ("helper", "6/3end", "fs", {"precompute": True}), ("dangerfaults", "4/2end", "mem", {}),
            ("whole", "4/1", "mem", {}), ("whole", "4/2", "fs", {"precompute": True}),
            ("whole", "4/4", "mem", {"precompute": True}), ("whole", "12/4end", "mem", {}),
            ("whole", "62/31end", "mem", {"precompute": True})]
    keylife.run(c, runs, budget=c.pick(15, 240))
    return c.done()
