"""Fundamental types, limits, constants for P30."""
NAME = "types"; DRIVER = "types"; MC = "MCTypes"; TRACE = "TraceTypes"; START = None
from fam_helpers import to_line, header, word, lst
TYPES = ("U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "USize", "ISize", "UPointer", "IPointer", "Bool", "Ternary", "Status")
def gen(rng, n, length=100):
    res = []
    for _ in range(n):
        sc = [header(rng)]
        while len(sc) < length:
            a = word(rng, 8); k = rng.random()
            if k < 0.6: o = dict(op="Store", n=rng.choice(TYPES), a=a)
            elif k < 0.75: o = dict(op="Bits", k=rng.choice((1, 3, 7, 12, 21)), a=a)
            else: o = dict(op=rng.choice(("Pointer", "Magnitude")), a=a)
            sc.append(to_line(o))
        res.append(sc)
    return res
def c_x(e, r, p):
    if "x" in e: e["x"][r.randrange(8)] ^= 1 << r.randrange(8); return True
def c_w(e, r, p):
    if "w" in e: e["w"] *= 2; return True
def c_sg(e, r, p):
    if "sg" in e: e["sg"] = not e["sg"]; return True
def c_lim(e, r, p):
    if "hi" in e: e[r.choice(("hi", "lo"))][r.randrange(8)] ^= 1; return True
def c_rest(e, r, p):
    if "rest" in e: e["rest"] = False; return True
CORRUPT = [("value", c_x), ("width", c_w), ("signedness", c_sg), ("limit", c_lim), ("neighbours", c_rest)]
def consts(fine): return {"Fine": fine, "Ptr": 8}
