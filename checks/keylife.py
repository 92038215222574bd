"""Shared by C01, C03, C04, C20 (and C02, C16): walks the transition system of
KeyLife.tla, as enumerated by TLC, on the real private key."""
import vlib

# alg: (name, cap, base) such that numbers base .. base+cap-1 are the usable ones
ALGS = {
    "2/1": ("XMSS-SHAKE_2_128", 3, "zero"),
    "2/2": ("XMSSMT-SHAKE_2/2_128", 3, "zero"),
    "4/2end": ("XMSSMT-SHAKE_4/2_128", 3, "end"),
    "6/3end": ("XMSSMT-SHAKE_6/3_128", 3, "end"),
    "40/20": ("XMSSMT-SHAKE_40/20_128", 9, "2^32"),
    "8/4": ("XMSSMT-SHAKE_8/4_128", 9, "zero"),
    "1/1": ("XMSS-SHAKE_1_128", 1, "zero"),
    "4/1": ("XMSS-SHAKE_4_128", 15, "zero"),
    "4/2": ("XMSSMT-SHAKE_4/2_128", 15, "zero"),
    "4/4": ("XMSSMT-SHAKE_4/4_128", 15, "zero"),
    "12/4end": ("XMSSMT-SHAKE_12/4_128_w4", 15, "end"),
    "62/31end": ("XMSSMT-SHAKE_62/31_128_w4", 15, "end"),
}
ALL5 = '{"none", "before", "after", "before2", "after2"}'


def cfg_consts(cap, maxnext, maxlost, amounts, faults='{"none"}', dangers="{}", helper="FALSE"):
    return {"Cap": cap, "MaxNext": maxnext, "MaxLost": maxlost, "Amounts": amounts,
            "Faults": faults, "Dangers": dangers, "Helper": helper}


def models(c):
    """name -> LTS constants."""
    return {
        "plain": cfg_consts(3, 4, 5, "{0, 1, 2, 3, 5}"),
        "plain9": cfg_consts(9, 6, 4, "{0, 1, 2, 4}"),
        "helper": cfg_consts(3, 4, 4, "{0, 1, 3}", helper="TRUE"),
        "cap1": cfg_consts(1, 2, 4, "{0, 1, 2, 3}", dangers="{1}", helper="FALSE"),
        # from the first number of a key to the last, and beyond
        "whole": cfg_consts(15, 16, 4, "{0, 3}"),
        "faults": cfg_consts(3, 4, 4, "{0, 2}", faults=ALL5),
        "faults9": cfg_consts(9, 4, 4, "{0, 2}", faults=ALL5),
        "danger": cfg_consts(3, 5, 4, "{0, 1, 2}", dangers="{1, 2}"),
        "danger9": cfg_consts(9, 6, 4, "{0, 1, 3}", dangers="{1, 2, 4}"),
        "dangerhelper": cfg_consts(3, 5, 4, "{0, 1, 2}", dangers="{1, 2}", helper="TRUE"),
        "dangerfaults": cfg_consts(3, 4, 4, "{0, 2}", faults='{"none", "before", "after"}', dangers="{1}"),
    }


def run(c, runs, keys=None, budget=20):
    """runs: list of (model, alg, backend, options)."""
    ms = models(c)
    lts = {}
    for m in sorted({r[0] for r in runs}):
        lts[m] = c.export_lts("KeyLife", "KeyLife.cfg", ms[m], name="KeyLife-" + m)
    c.harness()
    tot = c.coverage.setdefault("runs", [])
    c.coverage.setdefault("traces_validated_against_impl", 0)
    hs = []
    w = max(1, 8 // max(1, len(runs)))
    for (m, a, backend, opt) in runs:
        alg, cap, base = ALGS[a]
        args = {"lts": lts[m][0], "backend": backend, "alg": alg, "base": base, "cap": cap,
                "name": "%s-%s-%s" % (m, a, backend), "precompute": bool(opt.get("precompute"))}
        if keys:
            args["keys"] = keys
        hs.append(c.start("keylife", args, budget=budget, workers=opt.get("workers", w),
                          name=args["name"] + ("-pre" if opt.get("precompute") else "")))
    for h in hs:
        st = c.finish(h)
        if st:
            c.add("traces_validated_against_impl", st["runs"])
            c.add("steps_on_implementation", st["steps"])
            for s in (st.get("samples") or [])[:1]:
                c.sample({"run": h["name"], "steps": s})
            tot.append({k: st[k] for k in st if k != "samples"} | {"run": h["name"]})
            if st["steps"] == 0 and not c.violations:
                raise vlib.CheckError("nothing was performed in " + h["name"])
