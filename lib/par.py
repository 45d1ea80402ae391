"""Scripts for threads that use different objects, or read the same ones (P29)."""
T = 4
def vector_reads(rng, n):
    r = []
    for _ in range(n):
        p = "%%%d" % rng.randrange(1000); x = rng.randrange(6)
        r.append(rng.choice(("op=Get s=1 i=%s" % p, "op=GetP s=1 i=%s" % p, "op=Macro s=1 i=%s" % p, "op=Find s=1 x=%d" % x, "op=FindEx s=1 i=%%%d n=%s x=%d" % (rng.randrange(9), "0", x), "op=BinSearch s=1 x=%d" % x,
                             "op=FindEx s=1 i=0 n=S x=%d" % x, "op=BinSearchEx s=1 i=0 n=S x=%d" % x)))
    return r
def list_reads(rng, n): return ["op=%s i=%%%d" % (rng.choice(("Get", "Next", "Prev")), rng.randrange(1000)) for _ in range(n)]
def bitset_reads(rng, n): return ["op=%s s=%d i=%%%d" % (rng.choice(("Test", "Test", "TestMSB", "TestLSB")), rng.choice((1, 1, 2)), rng.randrange(1000)) for _ in range(n)]
LOOKS = ("LPos", "LPosI", "RPos", "RPosI", "LPosEx", "LPosIEx", "RPosEx", "RPosIEx", "Compare", "CompareI", "GetChar")
def string_reads(rng, n):
    r = []
    for _ in range(n):
        o = rng.choice(LOOKS); v, w = rng.choice((11, 11, 1, 3)), rng.choice((2, 2, 11, 1))
        if o == "GetChar": r.append("op=GetChar v=%d i=%%%d" % (v, rng.randrange(1000)))
        elif o.startswith("Compare"): r.append("op=%s v=%d w=%d" % (o, v, w))
        elif o.endswith("Ex"): r.append("op=%s v=%d w=%d i=%s n=%s" % (o, v, w, rng.choice(("0", "S", "%%%d" % rng.randrange(1000))), rng.choice(("0", "S", "%%%d" % rng.randrange(1000)))))
        else: r.append("op=%s v=%d w=%d" % (o, v, w))
    return r
def vector_setup(rng):
    xs = [rng.randrange(6) for _ in range(rng.choice((0, 3, 9, 30)))]
    if rng.random() < 0.7: xs.sort()
    c = rng.choice(("op=InitEx s=1 cap=0 gf=2 thr=4 dtor=0", "op=InitBuf s=1 cap=40 dtor=0"))
    return ["op=Begin esz=%d" % rng.choice((1, 2, 4, 8, 12))] + [c] + ["op=PushBack s=1 x=%d" % x for x in xs]
def list_setup(rng):
    c = rng.choice(("op=Init dtor=0", "op=InitBuf room=20 ext=3 dtor=1"))
    return ["op=Begin esz=%d" % rng.choice((1, 4, 8))] + [c] + ["op=PushBack x=%d" % rng.randrange(9) for _ in range(rng.choice((0, 1, 5, 15)))]
def bitset_setup(rng):
    sc = ["op=Begin"]
    for s in (1, 2):
        n = rng.choice((1, 7, 8, 9, 40, 130))
        sc.append("op=InitEx s=%d n=%d gf=2 thr=2" % (s, n)); sc += ["op=Set s=%d i=%%%d" % (s, rng.randrange(1000)) for _ in range(5)] + rng.choice(([], ["op=SetAll s=%d" % s]))
    return sc
def string_setup(rng):
    a = [rng.choice((97, 65, 98, 66, 90, 122)) for _ in range(rng.choice((0, 4, 12, 40)))]
    if rng.random() < 0.5: a = [rng.choice((97, 65)) for _ in a]
    l = lambda x: ",".join(map(str, x))
    return ["op=Begin", "op=Buf v=1 xs=%s term=%d" % (l(a), rng.randrange(2)), "op=Buf v=2 xs=%s term=1" % l(rng.choice(([97], [97, 65], [98], [90, 97], a[1:4] or [66]))),
            rng.choice(("op=InitEx s=1 cap=0 gf=2 thr=4", "op=InitBuf s=1 cap=60")), "op=Append s=1 v=1", "op=ViewEx v=3 w=11 i=0 n=S"]
READ = {"vector": (vector_setup, vector_reads), "list": (list_setup, list_reads), "bitset": (bitset_setup, bitset_reads), "string": (string_setup, string_reads)}
def readers(name, rng, n, length=40):
    """n groups of T scripts that share the objects of the first part"""
    setup, reads = READ[name]; res = []
    for _ in range(n):
        pre = setup(rng)
        for _ in range(T): res.append(pre + ["op=Fork"] + reads(rng, length))
    return res
