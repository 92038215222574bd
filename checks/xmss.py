"""Shared by the checks built on Xmss.tla."""
import json, random
import vlib

FUNCS = ["SHA2", "SHAKE", "SHAKE256"]


def inst(func, n, h, d, w=16, prf="RFC"):
    return {"func": func, "n": n, "h": h, "d": d, "w": w, "prf": prf}


def tla(p):
    return '[func |-> "%(func)s", n |-> %(n)d, h |-> %(h)d, d |-> %(d)d, w |-> %(w)d, prf |-> "%(prf)s"]' % p


def base_instances():
    """Every hash, length, Winternitz parameter and PRF construction."""
    return [inst(f, n, 2, d, w, prf) for f in FUNCS for n in (16, 24, 32, 64)
            for w in (4, 16, 256) for prf in ("RFC", "NIST") for d in (1,)]


def shapes(f="SHAKE", n=16, w=16, prf="RFC"):
    hd = [(1, 1), (3, 1), (5, 1), (2, 2), (3, 3), (4, 2), (6, 3), (6, 2), (8, 2), (8, 4), (8, 8), (9, 3), (12, 6), (16, 8),
          (17, 17), (20, 10), (24, 12), (32, 16), (33, 33), (34, 17), (40, 20), (48, 24), (56, 28), (60, 20), (62, 31), (63, 63), (63, 21)]
    return [inst(f, n, h, d, w, prf) for h, d in hd]


def templates(c, insts, name):
    """Has TLC evaluate the templates of the instances; returns a file with one per line."""
    mod = ("---- MODULE XmssInstances ----\nEXTENDS Sequences\nInstances == <<\n%s\n>>\n====\n"
           % ",\n".join(tla(p) for p in insts))
    st, out = c.tlc("XmssExport", "\n", files={"XmssInstances.tla": mod}, name="XmssExport-" + name, workers=1)
    lines = [json.loads(l) for l in out.splitlines() if l.startswith('"{')]
    if len(lines) != len(insts):
        raise vlib.CheckError("TLC printed %d templates for %d instances" % (len(lines), len(insts)))
    f = "%s/templates-%s.jsonl" % (c.scratch, name)
    open(f, "w").write("\n".join(lines) + "\n")
    return f
