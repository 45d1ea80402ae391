"""Atomic variables: values at all boundaries and free running histories for P24."""
NAME = "atomic"; DRIVER = "atomic"; MC = "MCAtomic"; TRACE = "TraceAtomic"; START = None
def lst(x): return ",".join(map(str, x))
def to_line(o): return " ".join("%s=%s" % (k, lst(o[k]) if isinstance(o[k], list) else o[k]) for k in ("op", "w", "form", "c", "v") if k in o)
def header(rng): return "op=Begin"
M = 65535
def val(rng):
    k = rng.random()
    if k < 0.3: x = rng.choice((0, 1, 2, 2**16 - 1, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**48 - 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2))
    elif k < 0.5: x = (1 << rng.randrange(64)) - rng.randint(0, 1)
    else: x = rng.getrandbits(rng.choice((8, 16, 32, 33, 48, 64)))
    return [x >> 16 * i & M for i in range(4)]
def gen(rng, n, length=60):
    res = []
    for _ in range(n):
        sc = [header(rng)] + ["op=Store w=%d v=%s" % (w, lst(val(rng))) for w in (0, 32, 64)]
        last = {}
        pool = [val(rng) for _ in range(3)]
        while len(sc) < length:
            w = rng.choice((0, 32, 64)); f = rng.randrange(3); k = rng.random()
            if k < 0.12: v = rng.choice(pool + [val(rng)]); sc.append("op=Store w=%d v=%s" % (w, lst(v))); last[w] = v
            elif k < 0.35: sc.append("op=%s w=%d form=%d" % (rng.choice(("Inc", "Dec")), w, f)); last.pop(w, None)
            else:
                c = last[w] if w in last and rng.random() < 0.6 else rng.choice(pool + [val(rng)])
                if w in last and rng.random() < 0.2: c = list(c); c[rng.randrange(4 if w != 32 else 2)] ^= 1 << rng.randrange(16)
                v = rng.choice(pool + [val(rng)])
                if c == last.get(w): last[w] = v
                sc.append("op=Cas w=%d form=%d c=%s v=%s" % (w, f, lst(c), lst(v)))
        res.append(sc)
    return res
def races(rng, n, per=12, count=150, mixed=1500, lock=300, length=10):
    res = []
    for _ in range(n):
        sc = [header(rng)]
        for _ in range(per): sc.append("op=Race w=%d form=%d threads=%d n=%d seed=%d v=%s" % (rng.choice((0, 32, 64)), rng.randrange(4), rng.choice((2, 3, 4)), rng.choice((4, length)), rng.randrange(1 << 20), lst(val(rng))))
        for w in (0, 32, 64):
            f = rng.randrange(3)
            sc += ["op=Count w=%d form=%d threads=4 n=%d v=%s" % (w, f, count, lst(val(rng))), "op=Mixed w=%d form=%d threads=4 n=%d seed=%d v=%s" % (w, f, mixed, rng.randrange(1 << 20), lst(val(rng))),
                   "op=Lock w=%d form=%d threads=%d n=%d" % (w, f, rng.choice((2, 4)), lock)]
            # to and fro across the wrap and across the boundaries of halves
            for b in (0, rng.choice((2**31, 2**32, 2**63, 2**15, 2**16, 2**8, 2**48))):
                v = (b + rng.randint(-1, 1)) % 2**64
                sc += ["op=Mixed w=%d form=%d threads=4 n=%d seed=%d v=%s" % (w, rng.randrange(3), mixed // 2, rng.randrange(1 << 20) | 1, lst([v >> 16 * i & M for i in range(4)]))]
        res.append(sc)
    return res
def c_r(e, r, p):
    if e["op"] in ("Inc", "Dec", "Cas"): e["r"][r.randrange(len(e["r"]))] ^= 1; return True
def c_now(e, r, p):
    if e["op"] in ("Inc", "Dec", "Cas"): e["now"][r.randrange(len(e["now"]))] ^= 1 << r.randrange(16); return True
def c_in(e, r, p): e["intact"] = False; return True
def c_race(e, r, p):
    if e["op"] == "Race":
        x = r.choice([x for x in e["log"] if not x["inv"]]); x["r"][1] ^= 0x1000; return True
def c_count(e, r, p):
    if e["op"] == "Count": e["rets"][0][3] = e["rets"][1][3]; return True
def c_mixed(e, r, p):
    if e["op"] == "Mixed": e["up"] += 1; return True
def c_lock(e, r, p):
    if e["op"] == "Lock": e["plain"] -= 1; return True
CORRUPT = [("result", c_r), ("value left", c_now), ("neighbours", c_in), ("result in a race", c_race), ("value given twice", c_count), ("update lost", c_mixed), ("lock broken", c_lock)]
def consts(w, n): return {"W": w, "N": n}
