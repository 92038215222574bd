import json, os, random, re
import vlib

# name, hash function, n, height, layers, w, construction of the PRF
PARAMS = [("XMSS-SHAKE_2_128_w4", 1, 16, 2, 1, 4, 0), ("XMSSMT-SHA2_4/2_256", 0, 32, 4, 2, 16, 0), ("XMSSMT-SHAKE256_60/30_192_w256", 2, 24, 60, 30, 256, 1),
          ("XMSSMT-SHAKE_40/20_512_w4", 1, 64, 40, 20, 4, 0), ("XMSS-SHA2_7_192", 0, 24, 7, 1, 16, 1), ("XMSS-SHAKE_8_128", 1, 16, 8, 1, 16, 0),
          ("XMSS-SHA2_10_256_w256_NIST", 0, 32, 10, 1, 256, 1), ("XMSSMT-SHAKE256_63/21_256_NIST", 2, 32, 63, 21, 16, 1),
          ("XMSS-SHAKE_3_512_w256", 1, 64, 3, 1, 256, 0), ("XMSSMT-SHA2_6/3_192_w4_RFC", 0, 24, 6, 3, 4, 0), ("XMSSMT-SHAKE_20/4_128_w4", 1, 16, 20, 4, 4, 0)]


def case(rng, k):
    name, func, n, h, d, w, prf = PARAMS[k % len(PARAMS)]
    b = lambda n: [rng.randrange(256) for _ in range(n)]
    load = h // d <= 8 and rng.random() < .7
    seq = rng.randrange(1 << rng.randrange(1, 65))
    if load:
        seq %= 2 ** h
        if rng.random() < .1:
            seq = 2 ** h - 1
    bor = rng.randrange(1 << rng.randrange(1, 33))
    if load:
        bor = min(bor, seq)  # what was reserved is before the next number
    slots = []
    for _ in range(rng.randrange(6)):
        a = [list((rng.choice([0, 0, 1, d - 1, 2**31])).to_bytes(4, "big")) + list(rng.choice([0, 1, 2, 255, 256, 2**32, 2**63, rng.randrange(2**64)]).to_bytes(8, "big"))]
        if a[0] not in [s["addr"] for s in slots]:
            slots.append({"allocated": int(rng.random() < .7), "addr": a[0], "mark": b(8)})
    f = rng.choice([0, 1, 1])
    al = 4096 if f == 0 else rng.choice([0, 4096, 4096, 8192, 65536])
    return {"p": {"name": name, "func": func, "n": n, "h": h, "d": d, "w": w, "prf": prf}, "seq": list(seq.to_bytes(8, "big")),
            "bor": list(bor.to_bytes(4, "big")), "secret": b(3 * n), "f": f, "al": al, "slots": slots, "load": load}


def main():
    c = vlib.Check("C25", "model_checking")
    rng = random.Random(c.seed)
    cases = "".join(json.dumps(case(rng, k)) + "\n" for k in range(c.pick(66, 330)))
    st, out = c.tlc("Files", "Files.cfg", files={"cases.ndjson": cases, "histories.ndjson": ""}, workers=1)
    c.add("states", st["distinct"])
    images = [json.loads(l) for l in out.splitlines() if l.startswith('"{')]
    if len(images) != cases.count("\n"):
        raise vlib.CheckError("not all files were exported")
    cf, f, h = (os.path.join(c.scratch, x) for x in ("cases.ndjson", "images.ndjson", "histories.ndjson"))
    open(cf, "w").write(cases)
    open(f, "w").write("\n".join(images) + "\n")
    st = c.run("files", {"cases": cf, "images": f, "histories": h, "max": c.pick(400, 4000)}, budget=c.pick(15, 150))
    if not st:
        return c.done()
    c.add("files_read_as_specified", st["histories"])
    lines = [l for l in open(h) if l.strip()]
    for k in range(0, len(lines), 100):
        part = lines[k:k + 100]
        tst, out = c.tlc("Files", "Files.cfg", files={"cases.ndjson": cases, "histories.ndjson": "".join(part)}, workers=4)
        c.add("states", tst["distinct"])
        at = {}
        for t, i in re.findall(r'<<"at", (\d+), (\d+)>>', out):
            at[int(t)] = max(at.get(int(t), 0), int(i))
        for j, l in enumerate(part):
            ev = json.loads(l)["ev"]
            c.add("files_written_as_specified", at.get(j + 1, 0))
            if at.get(j + 1, 0) < len(ev) and len(c.violations) < 3:
                e = ev[at.get(j + 1, 0)]
                c.violation("after operation %d, %s, the files are not those of Files.tla: key %s, header of the cache %s" % (
                    at.get(j + 1, 0) + 1, {k: e[k] for k in e if k not in ("key", "cache")}, bytes(e["key"]).hex(), bytes(e["cache"]["head"]).hex()),
                    {"history": [{k: x[k] for k in x if k != "cache"} for x in ev]})
    c.add("traces_validated_against_impl", len(lines))
    for l in lines[:2]:
        c.sample([{k: x[k] for k in x if k not in ("key", "cache", "secret")} for x in json.loads(l)["ev"]])
    return c.done()
