"""Status codes, comparison functions, arithmetic macros for P27."""
NAME = "helpers"; DRIVER = "helpers"; MC = "MCHelpers"; TRACE = "TraceHelpers"; START = None
def lst(x): return ",".join(map(str, x))
def to_line(o): return " ".join("%s=%s" % (k, lst(v) if isinstance(v, list) else str(v).lower() if isinstance(v, bool) else v) for k, v in o.items())
def header(rng): return "op=Begin"
def word(rng, n):
    k = rng.random(); b = 8 * n
    if k < 0.3: x = (1 << rng.randrange(b)) + rng.randint(-1, 1)
    elif k < 0.4: x = -(1 << rng.randrange(b)) + rng.randint(-1, 1)
    elif k < 0.5: x = rng.randint(-3, 3)
    elif k < 0.7: x = rng.getrandbits(rng.randint(1, b)) << rng.randrange(b)
    else: x = rng.getrandbits(rng.randint(1, b))
    x &= (1 << b) - 1
    return [x >> 8 * i & 255 for i in range(n)]
def num(x): return sum(v << 8 * i for i, v in enumerate(x))
def gen(rng, n, length=100):
    res = []
    for _ in range(n):
        sc = [header(rng)]
        while len(sc) < length:
            k = rng.random()
            if k < 0.15: o = dict(op="Make", e=word(rng, 4), m=word(rng, 4), c=word(rng, 4))
            elif k < 0.25: o = dict(op=rng.choice(("Split", "Check")), s=word(rng, 4))
            elif k < 0.55:
                w = rng.choice((1, 2, 4, 8)); a = word(rng, w); b = word(rng, w)
                if rng.random() < 0.4: b = list(a); rng.random() < 0.7 and b.__setitem__(rng.randrange(w), rng.choice((0, 1, 127, 128, 255)))
                f = rng.choice(("own", "field", "std", "ptr")); sg = f in ("own", "field") and rng.random() < 0.6
                if f == "ptr": w = 8; a = word(rng, 8); b = a if rng.random() < 0.2 else word(rng, 8)
                o = dict(op="Compare", w=w, sg=sg, form=f, a=a, b=b)
            elif k < 0.65: w = rng.choice((4, 8)); o = dict(op=rng.choice(("Min", "Max")), w=w, sg=rng.random() < 0.5, a=word(rng, w), b=word(rng, w))
            elif k < 0.7:
                w = rng.choice((1, 2, 4, 8)); a = word(rng, w)
                if num(a) == 1 << 8 * w - 1: continue
                o = dict(op="Abs", w=w, a=a)
            elif k < 0.74: w = rng.choice((1, 2, 4, 8)); o = dict(op="Pow2", w=w, a=word(rng, w))
            elif k < 0.88:
                w = rng.choice((4, 8)); op = rng.choice(("Aligned", "Up", "Down", "Up")); a = word(rng, w); al = rng.randrange(8 * w)
                if rng.random() < 0.3: x = num(a) >> al << al; a = [x >> 8 * i & 255 for i in range(w)]
                if op == "Up" and num(a) + (1 << al) - 1 >= 1 << 8 * w: continue
                o = dict(op=op, w=w, a=a, al=al)
            elif k < 0.91: o = dict(op="Div", a=word(rng, 8), d=rng.choice((10, 100, rng.randint(1, 1 << 22))))
            elif k < 0.94: o = dict(op="NeedsBit", a=word(rng, 4), k=rng.randrange(32))
            elif k < 0.97: o = dict(op="BitsTo", a=word(rng, 4))
            else: o = dict(op="Version", a=word(rng, 8))
            sc.append(to_line(o))
        res.append(sc)
    return res
def flip(k):
    def f(e, r, p):
        if isinstance(e.get(k), bool): e[k] = not e[k]; return True
    return f
def c_x(e, r, p):
    if e["op"] in ("Min", "Max", "Abs", "Up", "Down", "Div"): i = r.randrange(len(e["x"])); e["x"][i] ^= 1 << r.randrange(8); return True
def c_m(e, r, p):
    if e["op"] in ("Make", "Split"): k = r.choice(("rm", "rc")); e[k][0] ^= 1; return True
def c_s(e, r, p):
    if e["op"] in ("Make", "Check"): e["rs"][r.randrange(4)] ^= 1 << r.randrange(8); return True
def c_cmp(e, r, p):
    if e["op"] == "Compare": e["cmp"] = {0: 1, 1: -1, -1: 1}[e["cmp"]]; return True
def c_codes(e, r, p):
    if e["op"] == "Codes": i, j = r.sample(range(len(e["codes"])), 2); e["codes"][i]["s"] = e["codes"][j]["s"]; return True
def c_n(e, r, p):
    if e["op"] == "BitsTo": e["n"] += 1; return True
def c_v(e, r, p):
    if e["op"] == "Version": e["x"][r.randrange(4)][r.randrange(2)] ^= 8; return True
CORRUPT = [("value", c_x), ("field", c_m), ("code", c_s), ("order", c_cmp), ("equality", flip("eq")), ("truth", flip("t")), ("success", flip("ok")), ("failure", flip("bad")),
           ("clash", c_codes), ("bits", c_n), ("version", c_v)]
def consts(kind, fine=False): return {"Kind": kind, "Fine": fine}
