"""The default allocator and the construction of allocators, P28."""
NAME = "alloc"; DRIVER = "alloc"; MC = "MCAlloc"; TRACE = "TraceAlloc"; START = None
ENC = {999999999 + 1: "M", 999999999: "M-1", 900000000: "H", 800000000: "Q+0", 800000001: "Q+1", 800000002: "Q+2"}
def num(v): return ENC.get(v, str(v))
def to_line(o): return " ".join("%s=%s" % (k, num(o[k]) if k in ("es", "n") else o[k]) for k in ("op", "s", "es", "n", "f", "m") if k in o)
def header(rng): return "op=Begin"
def gen(rng, n, length=60):
    res = []
    for _ in range(n):
        sc = [header(rng)]; big = rng.random() < 0.2
        while len(sc) < length:
            s = rng.randint(1, 3); k = rng.random(); f = rng.choice((0, 0, 0, 0, 1))
            c = rng.choice(("1", "2", "3", "7", "8", "16", "17", str(rng.randint(1, 300)), str(rng.randint(1, 70000)) if big else "24"))
            if rng.random() < 0.12: c = rng.choice(("M", "M-1", "H", "H-3", "Q+0", "Q+1", "Q+2", "Q+5"))
            if k < 0.3: sc.append("op=Alloc s=%d es=%s n=%s f=%d" % (s, rng.choice(("1", "1", "2", "3", "8", "16", "300" if not big else "4")) if rng.random() < 0.95 else rng.choice(("M", "H", "Q+1")), c, f))
            elif k < 0.6: sc.append("op=Realloc s=%d%s n=%s f=%d" % (s, " es=%s" % rng.choice(("1", "2", "3", "8", "64", "M", "H", "Q+0")) if rng.random() < 0.2 else "", c, f))
            elif k < 0.85: sc.append("op=Fill s=%d" % s)
            elif k < 0.97: sc.append("op=Dealloc s=%d" % s)
            else: sc.append(rng.choice(("op=Default s=0", "op=AInit s=0 m=%d" % rng.randrange(16))))
        res.append(sc)
    return res
FIXED = [["op=Begin"] + ["op=AInit s=0 m=%d" % m for m in range(16)]]
def c_st(e, r, p): e["st"] = "FAILED" if e["st"] == "SUCCESS" else "SUCCESS"; return True
def c_pre(e, r, p):
    if e["op"] == "Fill": e["pre"][e["s"] - 1] -= 1; return True
def c_pre2(e, r, p):
    if p["op"] == "Fill" and p["s"] != e.get("s") and e["pre"][p["s"] - 1] > 0: e["pre"][p["s"] - 1] -= 1; return True
def c_blk(e, r, p): e["blk"] += 1; return True
def c_own(e, r, p):
    if e["own"] > 0 and e["op"] in ("Alloc", "Realloc") and e["st"] == "SUCCESS": e["own"] = 0; return True
def c_keep(e, r, p):
    if e.get("keep") and e["st"] != "SUCCESS": e["keep"] = False; return True
def c_bad(e, r, p): e["bad"] = 1; return True
def c_al(e, r, p): e["al"] = False; return True
def c_init(e, r, p):
    if e["op"] == "AInit" and e["m"] == 0: e["calls"] = [2, 1, 3]; return True
CORRUPT = [("status", c_st), ("contents", c_pre), ("other contents", c_pre2), ("blocks", c_blk), ("bytes", c_own), ("pointer", c_keep), ("release", c_bad), ("alignment", c_al), ("functions", c_init)]
def consts(sizes, counts, ns): return {"Sizes": set(sizes), "Counts": set(counts), "NS": ns}
