"""ZyanList: scripts, corruptions for P07-P09."""
NAME = "list"; DRIVER = "list"; MC = "MCList"; TRACE = "TraceList"; START = None
def to_line(o):
    t = ["op=" + o["op"]]
    for k in ("i", "j", "n", "x", "k", "d", "room"):
        if k in o: t.append("%s=%d" % (k, o[k]))
    if "room" in o: t.append("ext=%d" % ((o["room"] * 7 + 3) % 16))
    if "dtor" in o: t.append("dtor=%d" % o["dtor"])
    if o.get("buf"): t.append("buf=1")
    if o.get("cf"): t.append("cf=1")
    if o.get("f"): t.append("f=%d" % o["f"])
    return " ".join(t)
SIZES = (1, 2, 3, 4, 4, 8, 8, 12, 16, 24, 100)
def header(rng): return "op=Begin esz=%d" % (rng.choice(SIZES) if rng.random() < 0.7 else rng.randrange(1, rng.choice((33, 70, 260))))
CREATE = ("Init", "InitEx", "InitBuf")
ADD = ("PushBack", "PushFront", "EmplaceBack", "EmplaceFront", "EmplaceBackRaw", "EmplaceFrontRaw")
DEL = ("PopBack", "PopFront", "Remove", "RemoveRange")
OTHER = ("Set", "Get", "Next", "Prev", "Clear", "Resize", "ResizeEx", "Destroy")
ALL = CREATE + ADD + DEL + OTHER
def gen(rng, n, length=80, faults=0.0, cf=0.0, fixed=0.4, dtor=None, nulls=0.02):
    res = []
    for _ in range(n):
        sc = [header(rng)]; alive = False
        target = rng.choice((3, 5, 10, 30)); vmax = rng.choice((2, 5, 256))
        while len(sc) < length:
            f = " f=%d" % rng.choice((1, 1, 2, 3)) if rng.random() < faults else ""
            if not alive:
                d = int(rng.random() < 0.5) if dtor is None else dtor
                if rng.random() < fixed: sc.append("op=InitBuf room=%d ext=%d dtor=%d" % (rng.choice((0, 1, 2, 3, target, target)), rng.randrange(40), d))
                else: sc.append("op=%s dtor=%d" % (rng.choice(("Init", "InitEx")), d))
                alive = True; continue
            k = rng.random(); x = rng.randrange(vmax); p = "%%%d" % rng.randrange(1000)
            if k < 0.01: sc.append("op=Destroy"); alive = False
            elif k < 0.02: sc.append("op=Clear")
            elif k < 0.02 + nulls: sc.append("op=Null k=%d" % rng.randrange(40))
            elif k < 0.024 + nulls: sc.append("op=Giant k=%d d=%d buf=%d" % (rng.randrange(5), rng.randrange(40), rng.randrange(2)))
            elif k < 0.5: sc.append("op=%s x=%d cf=%d%s" % (rng.choice(ADD), x, rng.random() < cf, f))
            elif k < 0.62: sc.append("op=%s" % rng.choice(("PopBack", "PopFront")))
            elif k < 0.74: sc.append("op=Remove i=%s" % p)
            elif k < 0.79: sc.append("op=RemoveRange i=%s j=%%%d" % (p, rng.randrange(1000)))
            elif k < 0.87: sc.append("op=Set i=%s x=%d" % (p, x))
            elif k < 0.92: sc.append("op=%s i=%s" % (rng.choice(("Get", "Next", "Prev")), p))
            else: sc.append("op=%s n=%d x=%d%s" % (rng.choice(("Resize", "ResizeEx")), rng.randrange(target + 3), x, f))
        sc.append("op=Destroy"); res.append(sc)
    return res
def c(field, fn):
    def g(e, r, p):
        if not e.get("a"): return False
        return fn(e, r)
    return g
def c_sz(e, r): e["sz"] += 1; return True
def c_fwd(e, r):
    if e["fwd"]: e["fwd"][r.randrange(len(e["fwd"]))] ^= 1; return True
def c_bwd(e, r):
    if e["bwd"]: e["bwd"].pop(); return True
def c_rev(e, r):
    if len(e["fwd"]) > 1: e["fwd"].reverse(); return True
def c_own(e, r): e["own"] += 1; return True
def c_exact(e, r): e["exact"] = False; return True
def c_bad(e, r): e["bad"] = 2; return True
def c_dt(e, r): e["dt"] = e["dt"] + [1]; return True
def c_dtm(e, r):
    if e["dt"]: e["dt"].pop(); return True
def c_inb(e, r): e["inb"] = False; return True
def c_st(e, r): e["st"] = "FALSE"; return True
def c_st2(e, r):
    if e["st"] != "SUCCESS": e["st"] = "SUCCESS"; return True
def c_val(e, r):
    if e["op"] in ("Get", "Next", "Prev"): e["val"] += 1; return True
def c_ids(e, r):
    if len(e["ids"]) > 1 and e["op"] in ("Get", "Set", "Next", "Prev"): e["ids"][0], e["ids"][1] = e["ids"][1], e["ids"][0]; return True
CORRUPT = [(n, c(n, f)) for n, f in (("size", c_sz), ("forward walk", c_fwd), ("backward walk", c_bwd), ("order", c_rev), ("blocks", c_own), ("block sizes", c_exact),
           ("allocator protocol", c_bad), ("extra destruction", c_dt), ("missing destruction", c_dtm), ("outside", c_inb), ("status", c_st), ("status2", c_st2), ("value", c_val), ("address", c_ids))]
def consts(kinds, cfgs, maxlen=3, vals=2, faults=False):
    return {"Kinds": set(kinds), "Cfgs": "<- " + cfgs, "XS": list(range(1, vals + 1)), "MaxLen": maxlen, "Faults": faults}
