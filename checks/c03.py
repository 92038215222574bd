import vlib, keylife


def main():
    c = vlib.Check("C03", "model_checking")
    runs = [("plain", "2/1", "mem", {}), ("plain", "4/2end", "mem", {}), ("plain9", "40/20", "mem", {}),
            ("faults", "2/2", "mem", {}), ("helper", "2/2", "fs", {}), ("plain9", "8/4", "fs", {})]
    keylife.run(c, runs, budget=c.pick(15, 240))
    return c.done()
