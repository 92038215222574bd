"""Shared by C11, C12, C13."""
import random
import vlib, xmss


def tables(c):
    st, out = c.tlc("Codec", "\n", workers=1)
    import json
    lines = [json.loads(l) for l in out.splitlines() if l.startswith('"{')]
    f = c.scratch + "/codec.jsonl"
    open(f, "w").write("\n".join(lines) + "\n")
    c.coverage["specification_theorems_checked"] = 4
    c.coverage["lines_exported"] = len(lines)
    return f


def instances(c, salt):
    rng = random.Random(c.seed + salt)
    insts = xmss.base_instances()
    sh = xmss.shapes() + xmss.shapes("SHA2", 64) + xmss.shapes("SHAKE256", 24, 16, "NIST")
    rng.shuffle(insts)
    rng.shuffle(sh)
    ret = []
    while insts or sh:
        if insts:
            ret.append(insts.pop())
            insts and ret.append(insts.pop())
        if sh:
            ret.append(sh.pop())
    return ret
