"""ZyanVector: scripts, corruptions and plans for P01-P06."""
NAME = "vector"; DRIVER = "vector"; MC = "MCVector"; TRACE = "TraceVector"
START = None

def num(n):
    n = int(n)
    if n > 950000000: return "M-%d" % (1000000000 - n)
    if n >= 850000000: return "H-%d" % (900000000 - n)
    if n >= 800000000: return "Q+%d" % (n - 800000000)
    return str(n)

NUMKEYS = ("i", "j", "n", "cap")
def to_line(o):
    t = ["op=" + o["op"], "s=%d" % o.get("s", 1)]
    for k in NUMKEYS:
        if k in o: t.append("%s=%s" % (k, num(o[k])))
    for k in ("x", "gf", "thr", "k"):
        if k in o: t.append("%s=%d" % (k, o[k]))
    if "dtor" in o: t.append("dtor=%d" % o["dtor"])
    if "xs" in o: t.append("xs=" + ",".join(map(str, o["xs"])))
    if o.get("cf"): t.append("cf=1")
    if o.get("inj"): t.append("f=1")
    return " ".join(t)

SIZES = (1, 2, 3, 4, 4, 8, 8, 12, 16, 24, 100)
def header(rng):
    return "op=Begin esz=%d" % (rng.choice(SIZES) if rng.random() < 0.7 else rng.randrange(1, rng.choice((33, 70, 260))))

# ---- random histories ----
def gen(rng, n, length=60, ops=None, faults=0.0, invalid=0.0, cf=0.0, big=0.2, second=0.25, dtor=None, sorted_=0.0, vals=4, probe=0.0):
    scripts = []
    for _ in range(n):
        sc = [header(rng)]
        large = rng.random() < big
        vmax = rng.choice((2, vals, 256))
        alive = [False, False]
        def create(s):
            d = int(rng.random() < 0.5) if dtor is None else dtor
            k = rng.random()
            cap = rng.choice((0, 1, 2, 3, 5, 8, 13, 40)) if not large else rng.choice((0, 1, 50, 200))
            if k < 0.2: return "op=Init s=%d cap=%d dtor=%d" % (s, cap, d)
            if k < 0.4: return "op=InitBuf s=%d cap=%d dtor=%d" % (s, max(1, cap if not large else 300), d)
            return "op=InitEx s=%d cap=%d gf=%d thr=%d dtor=%d" % (s, cap, rng.choice((1, 2, 2, 3, 7, rng.randrange(1, 256) if not large else 4)), rng.choice((0, 1, 2, 4, 4, 9, rng.randrange(256))), d)
        L = length * (3 if large else 1)
        target = rng.choice((3, 6, 12)) if not large else rng.choice((30, 80, 200))
        asc = 0; issorted = rng.random() < sorted_
        while len(sc) < L:
            s = 2 if (rng.random() < second and alive[1]) else 1
            f = " f=%d" % rng.choice((1, 1, 1, 2)) if rng.random() < faults else ""
            if not alive[s - 1]:
                sc.append(create(s) + f); alive[s - 1] = True; asc = 0; continue
            if rng.random() < 0.01:
                sc.append("op=Destroy s=%d" % s); alive[s - 1] = False; continue
            bad = rng.random() < invalid
            def pos(extra=0):
                if bad: return rng.choice(("S", "S+1", "S+2", "M-0", "M-1", "M-7", "H-0", "H-1", "Q+0", "%9"))
                return "%%%d" % rng.randrange(1000)
            def cnt():
                if bad: return rng.choice(("0", "S", "S+1", "M-0", "M-1", "M-2", "M-5", "H-0", "H-3", "1", "Q+1"))
                return str(rng.choice((1, 1, 2, 3, 5)) if not large else rng.choice((1, 5, 20, 60)))
            def x(): return rng.randrange(vmax)
            if issorted and rng.random() < 0.5:
                asc = min(255, asc + rng.choice((0, 0, 1, 1, 2)))
                sc.append("op=PushBack s=%d x=%d" % (s, asc)); continue
            cands = ops or ALL
            w = [WEIGHT.get(o, 3) for o in cands]
            o = rng.choices(cands, w)[0]
            if rng.random() < probe: o = rng.choice(("FindEx", "BinSearchEx", "Find", "BinSearch"))
            line = "op=%s s=%d" % (o, s)
            if o in ("Get", "GetM", "GetP", "GetPM", "Delete", "Macro"): line += " i=" + pos()
            elif o in ("PushBack",): line += " x=%d" % x()
            elif o == "Emplace": line += " x=%d cf=%d" % (x(), rng.random() < cf)
            elif o in ("Find", "BinSearch"): line += " x=%d" % x()
            elif o in ("Set", "SetM", "Insert", "EmplaceRaw"): line += " i=%s x=%d" % (pos(), x())
            elif o == "EmplaceEx": line += " i=%s x=%d cf=%d" % (pos(), x(), rng.random() < cf)
            elif o == "InsertRange":
                m = rng.choice((1, 2, 3, 4, 7)) if not large else rng.choice((1, 10, 40))
                if bad and rng.random() < 0.3: m = 0
                if bad and rng.random() < 0.3: line = "op=InsertHuge s=%d i=%s n=%s" % (s, rng.choice(("0", "S", "%%%d" % rng.randrange(1000), pos())), rng.choice(("M-0", "M-1", "M-%d" % rng.randrange(60), "H-0", "H-1", "Q+0", "Q+%d" % rng.randrange(9), "4611686018427387904", "9223372036854775808")))
                else: line += " i=%s xs=%s" % (pos(), ",".join(str(x()) for _ in range(m)))
            elif o == "Swap": line += " i=%s j=%s" % (pos(), pos())
            elif o == "DeleteRange": line += " i=%s n=%s" % (pos(), cnt())
            elif o in ("FindEx", "BinSearchEx"):
                line += " i=%s n=%s x=%d" % (pos(), cnt() if rng.random() < 0.7 else "%%%d" % rng.randrange(100), x())
            elif o in ("Resize", "ResizeEx"):
                nn = rng.choice(("M-0", "M-1", "H-0", "Q+0", "Q+1", "M-3")) if bad else str(rng.randrange(target + 1))
                line += " n=%s x=%d" % (nn, x())
            elif o == "Reserve":
                nn = rng.choice(("M-0", "M-1", "H-0", "Q+0")) if bad else str(rng.randrange(2 * target + 1))
                line += " n=%s" % nn
            elif o in ("Dup", "DupEx", "DupBuf"):
                if alive[2 - s]:
                    if rng.random() < 0.6: continue
                    sc.append("op=Destroy s=%d" % (3 - s)); alive[2 - s] = False
                nn = rng.choice(("M-0", "H-0", "Q+0", "0", "S-1")) if bad else rng.choice(("S", "S+3", "0", "1"))
                if o == "DupBuf" and not bad: nn = rng.choice(("S", "S", "S+1", "S+5"))
                if o == "DupBuf" and nn[0] in "MHQ": nn = "S-1"
                line += " cap=%s gf=%d thr=%d" % (nn, rng.choice((1, 2, 3, 9)), rng.choice((0, 4, 2, rng.randrange(256))))
                sc.append(line + f); alive[2 - s] = True; continue
            elif o == "Null": line += " k=%d" % rng.randrange(42)
            sc.append(line + f)
        sc.append("op=Destroy s=1"); sc.append("op=Destroy s=2")
        scripts.append(sc)
    return scripts

READ = ("Get", "GetM", "GetP", "GetPM", "Macro", "Foreach")
EDIT = ("Set", "SetM", "PushBack", "Insert", "InsertRange", "Emplace", "EmplaceEx", "EmplaceRaw", "Swap", "Delete", "DeleteRange",
        "PopBack", "Clear", "Resize", "ResizeEx", "Reserve", "ShrinkToFit", "Dup", "DupEx", "DupBuf", "Destroy")
SEARCH = ("Find", "FindEx", "BinSearch", "BinSearchEx")
ALL = READ + EDIT[:-1] + SEARCH
WEIGHT = {"PushBack": 10, "Clear": 1, "Get": 1, "GetM": 1, "GetP": 1, "GetPM": 1, "Macro": 1, "Foreach": 1, "Destroy": 0, "Insert": 5, "InsertRange": 5}
CREATE = ("Init", "InitEx", "InitBuf")

# ---- falsified observations (all must be rejected) ----
def slot(e):
    for k in (0, 1):
        if e["v"][k]["a"]: return e["v"][k]
def c_size(e, r, p):
    v = slot(e)
    if v: v["sz"] += r.choice((1, -1)); return True
def c_cap(e, r, p):
    v = slot(e)
    if v: v["cap"] += 1; return True
def c_elem(e, r, p):
    v = slot(e)
    if v and v["seq"]: k = r.randrange(len(v["seq"])); v["seq"][k] ^= 1; return True
def c_swap(e, r, p):
    v = slot(e)
    if v and len(v["seq"]) > 1: v["seq"].reverse(); return True
def c_status(e, r, p):
    e["st"] = "FAILED" if e["st"] != "FAILED" else "SUCCESS"; return True
def c_status2(e, r, p):
    if e["st"] in ("SUCCESS",): e["st"] = "NOT_ENOUGH_MEMORY" if not e["oom"] else "OUT_OF_RANGE"; return True
    if e["st"] == "OUT_OF_RANGE": e["st"] = "SUCCESS"; return True
def c_val(e, r, p):
    if (e["op"] in ("Get", "GetM", "GetP", "GetPM", "Macro") and e["st"] == "SUCCESS") or e["op"] in ("Find", "FindEx") and e["st"] in ("TRUE", "FALSE"):
        e["val"] += 1; return True
def c_own(e, r, p):
    e["own"] += 1; return True
def c_bad(e, r, p):
    e["bad"] = 1; return True
def c_dt_add(e, r, p):
    e["dt"] = e["dt"] + [3]; return True
def c_dt_drop(e, r, p):
    if e["dt"]: e["dt"] = e["dt"][1:]; return True
def c_inb(e, r, p):
    v = slot(e)
    if v: v["inb"] = False; return True
CORRUPT = [("size", c_size), ("capacity", c_cap), ("element", c_elem), ("order", c_swap), ("status", c_status), ("status2", c_status2), ("value", c_val),
           ("owned bytes", c_own), ("allocator protocol", c_bad), ("extra destruction", c_dt_add), ("missing destruction", c_dt_drop),
           ("outside of the buffer", c_inb)]

def consts(kinds, cfgs, maxlen=3, vals=2, maxcap=8, faults=False, invalid=False, second=False):
    return {"Kinds": set(kinds), "Cfgs": "<- " + cfgs, "Vals": list(range(vals)), "MaxLen": maxlen, "MaxCap": maxcap,
            "Faults": faults, "Invalid": invalid, "Second": second}
