"""The fallbacks for C library routines, P26."""
NAME = "libc"; DRIVER = "libc"; MC = "MCLibc"; TRACE = "TraceLibc"; START = None
def lst(x): return ",".join(map(str, x))
def to_line(o): return " ".join("%s=%s" % (k, lst(o[k]) if isinstance(o[k], list) else o[k]) for k in ("op", "a", "b", "c", "n", "d", "s", "z", "w") if k in o)
def header(rng): return "op=Begin"
def text(rng, n=None, pool=None):
    n = rng.choice((0, 1, 2, 3, 5, 8, 16, 17, 33, 64)) if n is None else n
    pool = pool or rng.choice(((97, 98), (1, 127, 128, 255), tuple(range(1, 256)), (97, 65, 32)))
    return [rng.choice(pool) for _ in range(n)]
def gen(rng, n, length=70):
    res = []
    for _ in range(n):
        sc = [header(rng)]; tok = False; long_ = rng.random() < 0.3
        while len(sc) < length:
            o = rng.choice(("MemChr", "MemCmp", "MemCpy", "MemMove", "MemMove", "MemSet", "StrCat", "StrNCat", "StrCpy", "StrNCpy", "StrXfrm", "StrChr", "StrRChr", "StrCmp", "StrColl", "StrNCmp", "StrCSpn",
                            "StrSpn", "StrPBrk", "StrStr", "StrStr", "StrLen", "Tok", "TokNext", "TokNext", "TokNext"))
            pool = rng.choice((None, (97, 98), (97, 98, 99)))
            a = text(rng, pool=pool); b = text(rng, pool=pool)
            if long_ and rng.random() < 0.06:                         # lengths that do not fit into a byte
                a = text(rng, rng.choice((255, 256, 257, 300)), pool); b = rng.choice((b, text(rng, rng.choice((254, 256, 258)), pool)))
            if rng.random() < 0.35 and a: b = list(a); (rng.random() < 0.6) and b.__setitem__(rng.randrange(len(b)), rng.choice((1, 127, 128, 255, 97)))
            if rng.random() < 0.2: b = a[:rng.randint(0, len(a))]
            if o == "StrStr" and rng.random() < 0.7: k = rng.randint(0, len(a)); b = a[k:k + rng.randint(0, 6)]
            c = rng.choice(a + [0]) if rng.random() < 0.7 else rng.randrange(-128, 512)
            f = dict(op=o)
            if o in ("MemChr", "MemCmp", "MemCpy", "MemMove", "MemSet"):
                if rng.random() < 0.3 and a: a[rng.randrange(len(a))] = 0
                if rng.random() < 0.3 and b: b[rng.randrange(len(b))] = 0
                m = min(len(a), len(b)) if o in ("MemCmp", "MemCpy") else len(a)
                f["a"] = a; f["n"] = rng.choice((m, m, rng.randint(0, m)))
                if o in ("MemCmp", "MemCpy"): f["b"] = b
                if o in ("MemMove", "MemSet"):
                    f["d"] = rng.randint(0, len(a)); f["s"] = rng.choice((rng.randint(0, len(a)), max(0, f["d"] - 1), min(len(a), f["d"] + 1)))
                    m = len(a) - max(f["d"], f["s"] if o == "MemMove" else 0); f["n"] = rng.choice((m, rng.randint(0, m)))
                if o in ("MemChr", "MemSet"): f["c"] = c
            elif o in ("StrCat", "StrCmp", "StrColl", "StrCSpn", "StrSpn", "StrPBrk", "StrStr"): f["a"] = a; f["b"] = b
            elif o in ("StrNCat", "StrNCmp", "StrNCpy"):
                if o != "StrNCpy": f["a"] = a
                f["b"] = b; f["z"] = rng.choice((0, 1))
                m = len(b) if o != "StrNCmp" else min(len(a), len(b))
                f["n"] = rng.randint(0, m) if rng.random() < 0.5 else m if not f["z"] else rng.randint(0, len(a) + len(b) + 3)
            elif o == "StrCpy": f["b"] = b
            elif o == "StrXfrm": f["b"] = b; f["n"] = rng.choice((len(b), len(b) + 1, len(b) + 2, rng.randint(0, len(b))))
            elif o in ("StrChr", "StrRChr"): f["a"] = a; f["c"] = c
            elif o == "StrLen": f["a"] = a
            elif o == "Tok": f["a"] = a; f["b"] = b[:rng.randint(0, 3)]; tok = True
            elif o == "TokNext":
                if not tok: continue
                f["b"] = text(rng, rng.randint(0, 2), pool or (97, 98))
            sc.append(to_line(f))
        res.append(sc)
    return res
def wide(rng):
    """lengths that do not fit into 16 bits"""
    sc = [header(rng)]
    L = 65536 + rng.randrange(1, 300); M = L + rng.choice((-1, 1, 5)); x = rng.choice((97, 200))
    A = "a=%s ra=%d" % (rng.choice(("97", "97,98", "200,97,255")), L)
    B = lambda m: "b=%s rb=%d" % (A[2:A.index(" ")], m)
    sc += ["op=MemChr %s ta=7 n=%d c=7" % (A, L), "op=MemChr %s ta=7 n=%d c=7" % (A, L - 1), "op=MemCmp %s %s tb=7 n=%d" % (A, B(L), L), "op=MemCmp %s %s tb=7 n=%d" % (A, B(L), L - 1),
           "op=MemCpy %s %s n=%d" % (A, "b=1," + B(L)[2:], L - 1), "op=MemMove %s ta=7 d=%d s=0 n=%d" % (A, 1, L - 1), "op=MemMove %s ta=7 d=0 s=%d n=%d" % (A, 3, L - 3),
           "op=MemSet %s d=1 n=%d c=%d" % (A, L - 2, x ^ 1), "op=StrCat %s b=1,2" % A, "op=StrCat a=1,2 %s" % B(L), "op=StrNCat a=1 %s n=%d z=1" % (B(L), L - 2), "op=StrCpy %s" % B(L),
           "op=StrNCpy %s n=%d z=1" % (B(L), L - 1), "op=StrNCpy b=1,2 n=%d z=1" % L, "op=StrXfrm %s n=%d" % (B(L), L + 1), "op=StrChr %s ta=7 c=7" % A, "op=StrRChr %s c=97" % A, "op=StrRChr %s ta=7 c=0" % A,
           "op=StrCmp %s %s" % (A, B(M)), "op=StrCmp %s %s tb=7" % (A, B(L)), "op=StrColl %s %s" % (A, B(M)), "op=StrNCmp %s %s tb=7 n=%d z=1" % (A, B(L), L), "op=StrNCmp %s %s tb=7 n=%d z=1" % (A, B(L), L - 1),
           "op=StrCSpn %s ta=7 b=1,7" % A, "op=StrSpn %s ta=7 b=97,98,200,255" % A, "op=StrPBrk %s ta=7 b=1,7" % A, "op=StrStr %s ta=7 b=97,7" % A, "op=StrStr %s ta=7 b=7" % A, "op=StrLen %s" % A,
           "op=Tok %s ta=7 b=7" % A, "op=TokNext b=7"]
    return [sc]
def c_r(e, r, p):
    if "r" in e: e["r"] = {0: 1, -1: 0}.get(e["r"], e["r"] - 1); return True
def c_out(e, r, p):
    if e.get("out") and e["op"] != "StrXfrm": i = r.randrange(len(e["out"])); e["out"][i] ^= 4; return True
def c_ty(e, r, p):
    if e["op"] == "Types": k = r.choice(("max", "min", "umax")); e[k][-1] ^= 128; return True
CORRUPT = [("result", c_r), ("memory", c_out), ("limits", c_ty)]
def consts(maxlen, alpha, kind): return {"MaxLen": maxlen, "Alpha": set(alpha), "Kind": kind}
