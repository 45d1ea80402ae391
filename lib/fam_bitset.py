"""ZyanBitset: scripts, corruptions for P15-P17."""
NAME = "bitset"; DRIVER = "bitset"; MC = "MCBitset"; TRACE = "TraceBitset"; START = None
def num(v):
    if v >= 1000000000 - 50000000: return "M-%d" % (1000000000 - v)
    if v >= 900000000 - 50000000: return "H-%d" % (900000000 - v)
    if v >= 800000000: return "Q+%d" % (v - 800000000)
    return str(v)
def to_line(o):
    t = ["op=" + o["op"]]
    for k in ("s", "t", "i", "n", "x", "k", "cap", "gf", "thr"):
        if k in o: t.append("%s=%s" % (k, num(o[k])))
    if "fn" in o: t.append("fn=" + o["fn"])
    if o.get("inj"): t.append("f=1")
    return " ".join(t)
def header(rng): return "op=Begin"
CREATE = ("Init", "InitEx", "InitBuf")
BIT = ("Set", "Reset", "Toggle", "Assign")
ASK = ("Test", "TestMSB", "TestLSB")
WHOLE = ("SetAll", "ResetAll", "Flip")
MIX = ("AND", "OR", "XOR", "ByteOp")
SIZE = ("Push", "Pop", "Clear", "Reserve", "ShrinkToFit")
ALL = CREATE + ("Destroy",) + BIT + ASK + WHOLE + MIX + SIZE + ("Null",)
BIG = ("M-0", "M-1", "M-7", "M-8", "H-0", "Q+0", "Q+7")
def gen(rng, n, length=70, faults=0.0, bad=0.05, libc=True, size=0.35, fixed=0.3):
    res = []
    for _ in range(n):
        sc = [header(rng)]; alive = [False, False]
        big = rng.choice((4, 9, 17, 40, 40, 70, 130, 300))
        while len(sc) < length:
            f = " f=%d" % rng.choice((1, 1, 2)) if rng.random() < faults else ""
            s = rng.choice((1, 1, 2))
            if not alive[s - 1]:
                n0 = rng.choice((0, rng.randrange(big + 1), rng.randrange(big + 1), 8 * rng.randrange(big // 8 + 1), 32 * rng.randrange(big // 32 + 1)))
                if rng.random() < fixed:
                    if rng.random() < bad: sc.append("op=InitBuf s=%d n=%s cap=%d" % (s, rng.choice(BIG), rng.choice((1, 2, 40))))
                    c = rng.choice(((n0 + 7) // 8, (n0 + 7) // 8 + rng.randrange(4), max(0, (n0 + 7) // 8 - 1)))
                    sc.append("op=InitBuf s=%d n=%d cap=%d" % (s, n0, c)); ok = c >= (n0 + 7) // 8 and c > 0
                else:
                    if rng.random() < bad / 2: sc.append("op=InitEx s=%d n=%s gf=2 thr=2" % (s, rng.choice(BIG))); continue
                    kind = rng.choice(("Init", "InitEx"))
                    sc.append("op=%s s=%d n=%d gf=%d thr=%d%s" % (kind, s, n0, rng.choice((1, 2, 3, 2, rng.randrange(1, 256))), rng.choice((0, 1, 2, 4, 4, rng.randrange(256))), f)); ok = not f
                alive[s - 1] = ok; continue
            i = rng.choice(BIG) if rng.random() < bad else "S+%d" % rng.randrange(9) if rng.random() < bad else "%%%d" % rng.randrange(100000) if rng.random() < 0.8 else "S-%d" % rng.choice((1, 1, 2, 8))
            k = rng.random()
            if k < size:
                # runs of pushes and pops, to cross byte borders
                for _ in range(rng.choice((1, 1, 2, 5, 9))):
                    p = rng.random()
                    if p < 0.6: sc.append("op=Push s=%d x=%d%s" % (s, rng.choice((0, 1, 1, 255)), f))
                    elif p < 0.95: sc.append("op=Pop s=%d%s" % (s, f))
                    elif p < 0.97: sc.append("op=Reserve s=%d n=%s%s" % (s, rng.choice(BIG) if rng.random() < bad else rng.choice(("S+%d" % rng.randrange(40), str(rng.randrange(2 * big)))), f))
                    elif p < 0.99: sc.append("op=ShrinkToFit s=%d%s" % (s, f))
                    else: sc.append("op=Clear s=%d%s" % (s, f))
            elif k < size + 0.3: sc.append("op=%s s=%d i=%s x=%d" % (rng.choice(BIT + ("Set", "Set")), s, i, rng.choice((0, 1, 2))))
            elif k < size + 0.36: sc.append("op=%s s=%d i=%s" % (rng.choice(ASK), s, i))
            elif k < size + 0.46: sc.append("op=%s s=%d" % (rng.choice(WHOLE), s))
            elif k < size + 0.46 + bad / 2: sc.append("op=Null s=1 k=%d" % rng.randrange(42))
            elif k < size + 0.6: sc.append("op=%s s=%d t=%d fn=%s k=%d" % (rng.choice(MIX), s, rng.choice((1, 2)), rng.choice(("NAND", "COPY")), rng.choice((0, 0, 0, 1, 2, 3))))
            elif k < size + 0.61: sc.append("op=Destroy s=%d" % s); alive[s - 1] = False
        sc = sc[:length]
        sc += ["op=Destroy s=1", "op=Destroy s=2"]; res.append(sc)
    return res
def on(fn):
    def g(e, r, p):
        for b in e["b"]:
            if b["a"] and fn(b, r): return True
        return False
    return g
def c_bit(b, r):
    if b["bits"] and b["sz"] == len(b["bits"]): b["bits"][r.randrange(len(b["bits"]))] ^= 1; return True
def inc(k, d=1):
    def f(b, r): b[k] += d; return True
    return f
def neg(k):
    def f(b, r): b[k] = {"TRUE": "FALSE", "FALSE": "TRUE"}.get(b[k], "TRUE"); return True
    return f
def c_guard(b, r): b["guard"] = False; return True
def c_cap(b, r):
    if b["sb"] > 0: b["cb"] = b["sb"] - 1; b["cap"] = 8 * b["cb"]; return True
def c_st(e, r, p):
    e["st"] = {"SUCCESS": "OUT_OF_RANGE", "TRUE": "FALSE", "FALSE": "TRUE", "OUT_OF_RANGE": "SUCCESS"}.get(e["st"], "NOT_FOUND"); return True
def c_own(e, r, p): e["own"] += 1; return True
def c_bad(e, r, p): e["bad"] = 1; return True
CORRUPT = [("bit", on(c_bit)), ("size", on(inc("sz"))), ("bytes", on(inc("sb"))), ("capacity", on(inc("cap"))), ("count", on(inc("cnt"))), ("capacity below size", on(c_cap)),
           ("guard", on(c_guard))] + [(k, on(neg(k))) for k in ("all", "any", "none", "msb", "lsb", "out")] + [("status", c_st), ("owned bytes", c_own), ("allocator protocol", c_bad)]
def consts(kinds, cfgs, maxlen=9, faults=False, invalid=False, second=False, uniform=False):
    return {"Kinds": set(kinds), "Cfgs": "<- " + cfgs, "MaxLen": maxlen, "Faults": faults, "Invalid": invalid, "Second": second, "Uniform": uniform}
