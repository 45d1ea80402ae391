"""Histories of objects whose sizes cross the 8- and 16-bit boundaries, and of large elements."""

def room(rng, lim, kind, edit=True):
    """Room for all but the last of lim + 10: sizes which drop to a few when cut to 8 or 16 bits seem to fit."""
    dyn, buf = "op=InitEx s=1 cap=%d gf=1 thr=0" % (lim + rng.choice((4, 9))), "op=InitBuf s=1 cap=%d" % (lim + rng.choice((4, 9)))
    k = lim + rng.randrange(3); e = rng.randrange(200)
    if kind == "vector":
        return [["op=Begin esz=1", i, "op=InsertRange s=1 i=0 xs=1,2 rep=10", "op=InsertRange s=1 i=%s xs=%d rep=%d" % (rng.choice(("3", "S")), e, k)] +
                (["op=ResizeEx s=1 n=%d x=4" % (2 * lim + 12), "op=Resize s=1 n=3 x=1"] if "Ex" in i else ["op=Resize s=1 n=%d x=4" % (2 * lim + 3), "op=Reserve s=1 n=%d" % (2 * lim)]) + ["op=PushBack s=1 x=9", "op=Destroy s=1"] for i in (dyn, buf)]
    res = []
    for i in (dyn, buf):
        sc = ["op=Begin", "op=Buf v=1 xs=97,98 rep=%d term=1" % k, "op=Buf v=2 xs=99 rep=10 term=1", i, "op=Append s=1 v=2", rng.choice(("op=Append s=1 v=1", "op=Insert s=1 i=3 v=1"))]
        sc += ["op=DupBuf s=2 v=1 cap=%d" % (k - lim + rng.randrange(9)), "op=ConcatBuf s=2 v=2 w=1 cap=%d" % (lim + 5), "op=Destroy s=2", "op=Append s=1 v=2", "op=Destroy s=1"]
        res.append(sc)
    return res

def vector(rng, n, w=0):
    res = [x for lim in (256,) * bool(n) + (65536,) * bool(w) for x in room(rng, lim, "vector")]
    for z in range(n + w):
        wide = z >= n
        esz = rng.choice((1, 1, 2, 4)) if wide else rng.choice((1, 2, 4, 8, 300, 5000))
        lim = 65536 if wide else 256
        dt = rng.random() < 0.4
        sc = ["op=Begin esz=%d" % esz]
        gf, thr = rng.choice(((2, 4), (1, 0), (2, 2), (3, 1)))
        pat = "xs=1,2" if dt and wide else "xs=" + ",".join(str(x) for x in sorted(rng.sample(range(200), 3)))
        a = lim - rng.choice((1, 2, 3, 7))
        kind = rng.random()
        if kind < 0.2: sc.append("op=InitBuf s=1 cap=%d dtor=%d" % (lim + rng.choice((4, 9, 30)), dt))
        elif kind < 0.4: sc.append("op=InitEx s=1 cap=%d gf=%d thr=%d dtor=%d" % (lim + rng.choice((0, 1, 5)), gf, thr, dt))
        else: sc.append("op=InitEx s=1 cap=0 gf=%d thr=%d dtor=%d" % (gf, thr, dt))
        sc.append("op=InsertRange s=1 i=0 %s rep=%d step=%d" % (pat, a, 0 if wide and dt else rng.choice((0, 1))))
        m = 10 if wide else 20; big = True
        for _ in range(m):
            x = rng.randrange(200); p = rng.choice(("%%%d" % rng.randrange(1000000), "S-%d" % rng.randrange(1, 9), str(rng.randrange(9)), str(lim - rng.randrange(1, 4))))
            o = rng.random()
            if o < 0.3: sc.append("op=%s s=1 x=%d" % (rng.choice(("PushBack", "Emplace")), x))
            elif o < 0.4: sc.append("op=Insert s=1 i=%s x=%d" % (rng.choice(("0", "1", "S", p)), x))
            elif o < 0.5: sc.append("op=InsertRange s=1 i=%s xs=7,9 rep=%d" % (rng.choice(("0", "2", p)), rng.choice((2, 5, lim - 2, lim // 2 + 3, 255, 256, 257) if not wide else (2, 5, 255, 256, 300, 65537 if big else 300)))); big = big and "65537" not in sc[-1]
            elif o < 0.6: sc.append("op=DeleteRange s=1 i=%s n=%s" % (rng.choice(("0", "1", "3")), rng.choice(("%%%d" % rng.randrange(1000000), "1", "2", "256", str(lim // 2), str(lim - 9)))))
            elif o < 0.68: sc.append("op=Delete s=1 i=%s" % rng.choice(("0", "1", p)))
            elif o < 0.74: sc.append("op=%s s=1 i=%s x=%d" % (rng.choice(("Set", "SetM")), p, x))
            elif o < 0.78: sc.append("op=Swap s=1 i=%s j=%s" % (p, rng.choice(("0", "S-1"))))
            elif o < 0.84: sc.append("op=%s s=1 i=%s" % (rng.choice(("Get", "GetP", "GetPM", "Macro")), p))
            elif o < 0.92: sc.append("op=%s s=1 i=%s n=%s x=%d" % (rng.choice(("FindEx", "FindEx", "BinSearchEx")), rng.choice(("0", "5", "S-40", str(lim // 2), p)), rng.choice(("%%%d" % rng.randrange(1000000), "S-9")), x))
            else: sc.append("op=%s s=1 n=%s x=%d" % (rng.choice(("Resize", "ResizeEx")), rng.choice(("S+3", "S-3", str(lim), str(lim + 1), str(lim - 1), "3")), x))
        if wide: sc.append("op=InsertRange s=1 i=%s %s rep=%d" % (rng.choice(("0", "2", "S")), pat, 65536 + rng.randrange(3)))
        sc.append(rng.choice(("op=Dup s=1 cap=0", "op=DupEx s=1 cap=5 gf=2 thr=4", "op=DupBuf s=1 cap=S+1 gf=1 thr=0")))
        sc += ["op=PushBack s=1 x=3", "op=Delete s=2 i=0", "op=Destroy s=2", "op=Resize s=1 n=3 x=1", "op=ShrinkToFit s=1", "op=Clear s=1", "op=Destroy s=1"]
        res.append(sc)
    return res

def runs(rng, n):
    """Sorted vectors with long runs of equal elements, searched everywhere."""
    res = []
    for _ in range(n):
        sc = ["op=Begin esz=%d" % rng.choice((1, 2, 4, 8, 12)), rng.choice(("op=InitEx s=1 cap=0 gf=2 thr=4 dtor=0", "op=InitBuf s=1 cap=800 dtor=0"))]
        xs = sorted(rng.sample(range(1, 255), rng.randrange(1, 7)))
        for x in xs: sc.append("op=InsertRange s=1 i=S xs=%d rep=%d" % (x, rng.choice((1, 2, rng.randrange(1, 40), rng.randrange(1, 120)))))
        for _ in range(25):
            x = rng.choice(xs) + rng.choice((0, 0, 0, 1, -1))
            k = rng.random()
            if k < 0.15: sc.append("op=%s s=1 x=%d" % (rng.choice(("BinSearch", "Find")), x))
            elif k < 0.9: sc.append("op=%s s=1 i=%s n=%s x=%d" % (rng.choice(("BinSearchEx", "BinSearchEx", "FindEx")), rng.choice(("0", "1", "%%%d" % rng.randrange(10 ** 6))), rng.choice(("S", "S-1", "%%%d" % rng.randrange(10 ** 6), "%%%d" % rng.randrange(10 ** 6))), x))
            else: sc.append(rng.choice(("op=Delete s=1 i=%%%d" % rng.randrange(10 ** 6), "op=DeleteRange s=1 i=0 n=%%%d" % rng.randrange(300))))
        res.append(sc + ["op=Destroy s=1"])
    return res

def list_(rng, n, w=0, fixed=None):
    res = []
    for z in range(n + w):
        wide = z >= n
        lim = 65536 if wide else 256
        dt = rng.random() < 0.4
        sc = ["op=Begin esz=%d" % rng.choice((1, 2, 4, 8) if wide else (1, 4, 8, 300, 5000))]
        fx = rng.random() < 0.4 if fixed is None else fixed
        sc.append("op=InitBuf room=%d ext=%d dtor=%d" % (lim + rng.choice((0, 1, 2)), rng.randrange(16), dt) if fx else "op=%s dtor=%d" % (rng.choice(("Init", "InitEx")), dt))
        sc.append("op=ResizeEx n=%d x=1" % (lim - rng.choice((1, 2, 3))))
        for _ in range(8 if wide else 16):
            o = rng.random(); p = rng.choice(("%%%d" % rng.randrange(1000000), "S-%d" % rng.randrange(1, 6), str(rng.randrange(5))))
            if o < 0.5: sc.append("op=%s x=%d" % (rng.choice(("PushBack", "PushFront", "EmplaceBack", "EmplaceFront")), rng.randrange(250)))
            elif o < 0.6: sc.append("op=%s" % rng.choice(("PopBack", "PopFront")))
            elif o < 0.7: sc.append("op=Remove i=%s" % p)
            elif o < 0.8: sc.append("op=Set i=%s x=%d" % (p, rng.randrange(250)))
            elif o < 0.9: sc.append("op=RemoveRange i=%s j=%s" % (p, rng.choice(("5", "S-2", "%%%d" % rng.randrange(1000000)))))
            else: sc.append("op=%s n=%s x=2" % (rng.choice(("Resize", "ResizeEx")), rng.choice(("S+3", "S-3", str(lim), str(lim + 1), "4"))))
        sc += ["op=Resize n=2 x=1", "op=PushBack x=3", "op=Clear", "op=Destroy"]
        res.append(sc)
    return res

def string(rng, n, w=0, edit=True, search=True, views=True, fmt=False, libc=True):
    res = [x for lim in (256,) * bool(n) + (65536,) * bool(w) for x in room(rng, lim, "string")] if edit else []
    for z in range(n + w):
        wide = z >= n
        lim = 65536 if wide else 256
        a = lim - rng.choice((-3, -1, 0, 1, 2, 3, 7)); term = rng.randrange(2)
        if z in (0, n): a = lim + rng.choice((1, 3)); term = 0
        if z in (1, n + 1): a = lim + rng.choice((1, 3)); term = 1
        pat = rng.choice(("97", "97,98", "97,66,65,98,122,90,64,91"))
        sc = ["op=Begin", "op=Buf v=1 xs=%s rep=%d term=%d" % (pat, a, term), "op=Buf v=2 xs=%s term=1" % rng.choice(("97,98", "98,97", "65", "90,64,91"))]
        if views:
            sc += ["op=View v=3 w=1", "op=ViewEx v=3 w=1 i=%s n=%s" % (rng.choice(("0", "1", "%%%d" % rng.randrange(1000000))), rng.choice(("S", "S-1", "%%%d" % rng.randrange(1000000)))),
                   "op=GetChar v=3 i=S-1", "op=GetChar v=1 i=%d" % (lim - rng.randrange(1, 3)), "op=ViewEx v=4 w=3 i=%s n=S-1" % rng.choice(("0", "1"))]
        if search:
            for _ in range(5 if wide else 10):
                sc.append("op=%s v=%d w=%d i=%s n=%s" % (rng.choice(("LPos", "LPosI", "RPos", "RPosI", "LPosEx", "LPosIEx", "RPosEx", "RPosIEx")), rng.choice((1, 3)) if views else 1, 2,
                          rng.choice(("0", "3", "S", "S-1", "%%%d" % rng.randrange(1000000))), rng.choice(("S", "S-1", "2", "%%%d" % rng.randrange(1000000)))))
            sc.append("op=%s v=1 w=%d" % (rng.choice(("Compare", "CompareI")), rng.choice((1, 3)) if views else 1))
        if edit:
            sc.append(rng.choice(("op=InitEx s=1 cap=0 gf=2 thr=4", "op=InitEx s=1 cap=%d gf=1 thr=0" % rng.choice((lim, lim + 1, 3)), "op=InitBuf s=1 cap=%d" % (lim + rng.choice((1, 2, 9, 400))), "op=DupEx s=1 v=2 cap=0 gf=2 thr=0")))
            for _ in range(9 if wide else 18):
                o = rng.random(); p = rng.choice(("0", "1", "S", "S-1", "%%%d" % rng.randrange(1000000)))
                if o < 0.35: sc.append(rng.choice(("op=Append s=1 v=1", "op=Append s=1 v=2", "op=AppendEx s=1 v=1 j=%d n=%s" % (rng.randrange(3), rng.choice(("S", "S-2", "S-1", "255", "256"))))))
                elif o < 0.5: sc.append("op=Insert s=1 i=%s v=%d" % (p, rng.choice((1, 2))) if rng.random() < 0.5 else "op=InsertEx s=1 i=%s v=1 j=1 n=%s" % (p, rng.choice(("%%%d" % rng.randrange(1000000), "255", "256"))))
                elif o < 0.65: sc.append("op=Delete s=1 i=%s n=%s" % (rng.choice(("0", "1", "2")), rng.choice(("1", "2", "255", "256", "%%%d" % rng.randrange(1000000)))))
                elif o < 0.7: sc.append("op=Truncate s=1 i=%s" % rng.choice((p, "255", "256", str(lim))))
                elif o < 0.78: sc.append("op=%s s=1 i=%s n=%s" % (rng.choice(("LowerEx", "UpperEx")), p, rng.choice(("S", "%%%d" % rng.randrange(1000000)))))
                elif o < 0.82: sc.append("op=%s s=1" % rng.choice(("Lower", "Upper", "ShrinkToFit")))
                elif o < 0.9: sc.append("op=%s s=1 i=%s x=99" % (rng.choice(("SetChar", "SetCharM")), p))
                elif o < 0.95: sc.append("op=Resize s=1 n=%s x=100" % rng.choice((str(lim), str(lim - 1), str(lim + 1), "S-1", "7")))
                elif fmt and libc: sc.append("op=Fmt s=1 k=%d d=5 wd=300 xs=65,66,67 rep=%d" % (rng.choice((0, 2, 7, 4)), rng.choice((10, 255, 256, 300, 1000, 1365, 1366, 1500, 3000))))
                else: sc.append("op=%s s=1 q=%s,2,3,4 pad=%d%s" % (rng.choice(("DecU", "HexU", "DecS", "HexS", "DecS", "HexS")), rng.choice(("1", "65535")), rng.choice((0, 255)), " force=1 v=1" if not wide or rng.random() < 0.3 else ""))
            if fmt and not wide or z == n: sc.append("op=%s s=1 q=%s,0,0,5 pad=3 force=1 v=1 up=1" % (rng.choice(("DecS", "HexS")), rng.choice(("0", "65535"))))
            if fmt and libc and z == n: sc.append("op=Fmt s=1 k=%d d=5 xs=65,66,67 rep=%d" % (rng.choice((0, 2, 8)), rng.choice((21845, 21846, 22000))))
            if wide:                                          # (what the drivers show is bounded)
                full = [k for k, l in enumerate(sc) if l.startswith(("op=Append", "op=Insert")) and "v=1" in l.split()]
                for k in full[2:]: sc[k] = "op=Append s=1 v=2"
            if not wide or rng.random() < 0.5: sc.append(rng.choice(("op=DupEx s=2 v=11 cap=0 gf=2 thr=4", "op=ConcatEx s=2 v=11 w=1 cap=0 gf=2 thr=4", "op=DupBuf s=2 v=1 cap=S+1", "op=ConcatBuf s=2 v=1 w=2 cap=S+1")))
            sc += ["op=Clear s=1", "op=Destroy s=1", "op=Destroy s=2"]
        res.append(sc)
    return res

def numbers(rng, n, w=0):
    """Numbers after long prefixes, and after long texts."""
    res = []
    for z in range(n + w):
        lim = 65536 if z >= n else 256
        sc = ["op=Begin", "op=Buf v=1 xs=%s rep=%d term=1" % (rng.choice(("45", "48,120", "97,98,99")), lim + rng.randrange(-4, 5)), "op=Buf v=2 xs=48,120 term=1"]
        sc.append(rng.choice(("op=InitEx s=1 cap=0 gf=2 thr=4", "op=InitEx s=1 cap=%d gf=1 thr=0" % (lim + rng.randrange(30)), "op=InitBuf s=1 cap=%d" % (2 * lim + rng.choice((20, 300, 700))))))
        for k in range(12):
            o = rng.choice(("DecU", "DecS", "HexU", "HexS")); q = rng.choice(("0,0,0,%d" % rng.randrange(100), "65535,65535,65535,%d" % rng.randrange(65536), "32768,0,0,0", "%d,2,3,4" % rng.randrange(65536)))
            sc.append("op=%s s=1 q=%s pad=%d up=%d force=%d%s" % (o, q, rng.choice((0, 1, 5, 20, 255)), rng.randrange(2), rng.randrange(2), " v=%d" % (1 if k < 2 else 2) if o[3] == "S" and rng.random() < 0.7 else ""))
            if rng.random() < 0.15: sc.append(rng.choice(("op=Truncate s=1 i=%s" % rng.choice(("3", str(lim), str(lim - 1))), "op=ShrinkToFit s=1", "op=Append s=1 v=2")))
        res.append(sc + ["op=Destroy s=1"])
    return res

def formats(rng, n, w=0):
    """Formatted texts of all sizes, with and without room for them."""
    res = []
    for z in range(n + w):
        sizes = (254, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192) if z < n else (32767, 32768, 65534, 65535, 65536, 65537, 70001)
        sc = ["op=Begin", "op=Buf v=1 xs=97,98 term=1"]
        m = rng.choice(sizes)
        init = rng.choice(("op=InitEx s=1 cap=0 gf=%d thr=%d" % (rng.choice((1, 1, 2)), rng.choice((0, 4))), "op=InitEx s=1 cap=0 gf=1 thr=0", "op=InitBuf s=1 cap=%d" % (m + rng.randrange(4))))
        if z == n:          # just past 2^16 characters into storage that has to grow first
            for k, m in ((0, 65537), (2, 70001)):
                sc += ["op=InitEx s=1 cap=0 gf=1 thr=0", "op=Fmt s=1 k=%d d=5 wd=%d xs=65 rep=%d" % (k, m, m), "op=Destroy s=1"]
            res.append(sc); continue
        sc.append(init)
        for _ in range(6 if z < n else 2):
            k = rng.choice((0, 2, 7, 8, 4)); m = rng.choice((m, rng.choice(sizes)))
            sc.append("op=Fmt s=1 k=%d d=%d wd=%d xs=%s rep=%d" % (k, rng.choice((5, 0, 99999)), m, rng.choice(("65", "66")) if k != 7 else "65", m - rng.choice((0, 1, 4)) if k != 7 else 1))
            sc.append(rng.choice(("op=Truncate s=1 i=0", "op=Truncate s=1 i=1", "op=Clear s=1", "op=ShrinkToFit s=1", "op=Resize s=1 n=3 x=99\nop=ShrinkToFit s=1", "op=Append s=1 v=1")) if z < n else "op=Resize s=1 n=2 x=99\nop=ShrinkToFit s=1")
        res.append("\n".join(sc).split("\n") + ["op=Destroy s=1"])
    return res

def bitset(rng, n, w=0):
    res = []
    for z in range(n + w):
        wide = z >= n
        lim = 65536 if wide else rng.choice((2048, 2048, 1024))
        n1 = lim - rng.choice((0, 1, 2, 7, 8, 9)); n2 = rng.choice((n1, lim, lim + 3, lim // 2, 300))
        sc = ["op=Begin"]
        for s, k in ((1, n1), (2, n2)):
            sc.append("op=InitBuf s=%d n=%d cap=%d" % (s, k, (k + 7) // 8 + rng.choice((0, 1, 3))) if rng.random() < 0.3 else "op=InitEx s=%d n=%d gf=%d thr=%d" % (s, k, rng.choice((1, 2)), rng.choice((0, 2))))
        for _ in range(9 if wide else 24):
            o = rng.random(); s = rng.choice((1, 1, 2)); p = rng.choice(("%%%d" % rng.randrange(1000000), "S-1", "S-%d" % rng.randrange(1, 20), "S", str(lim - 1), str(rng.randrange(300))))
            if o < 0.3: sc.append("op=Push s=%d x=%d" % (s, rng.randrange(2)))
            elif o < 0.4: sc.append("op=Pop s=%d" % s)
            elif o < 0.65: sc.append("op=%s s=%d i=%s x=%d" % (rng.choice(("Set", "Reset", "Toggle", "Assign", "Test")), s, p, rng.randrange(2)))
            elif o < 0.8: sc.append("op=%s s=%d" % (rng.choice(("SetAll", "Flip", "Flip", "ResetAll")), s))
            elif o < 0.93: sc.append("op=%s s=%d t=%d fn=%s k=%d" % (rng.choice(("AND", "OR", "XOR", "ByteOp")), s, 3 - s, rng.choice(("NAND", "COPY")), rng.choice((0, 0, 256, 257))))
            else: sc.append("op=%s s=%d n=%d" % (rng.choice(("Reserve", "ShrinkToFit")), s, lim + rng.randrange(100)))
        sc += ["op=Clear s=1", "op=Push s=1 x=1", "op=Destroy s=1", "op=Destroy s=2"]
        res.append(sc)
    return res


# Objects of more than 2^32 elements (characters, bits): the recording leaves out the positions below a base (see
# drv.h), which all hold the same, and the model describes the others. Elements of half a gigabyte likewise.
BASES = (1 << 32, (1 << 32) + (1 << 23), 1 << 31, (1 << 33) + (1 << 22))

def vector_giant(rng, n, search=False, invalid=False):
    res = []
    for z in range(n):
        huge = z % 2 == 1
        base = BASES[0] if z < 2 else rng.choice(BASES)
        esz = 4 if z < 2 else rng.choice((1, 2, 4, 8))
        sc = ["op=Begin huge=536870912" if huge else "op=Begin esz=%d base=%d" % (esz, base)]
        sc.append("op=InitBuf s=1 cap=16 dtor=0" if rng.random() < 0.3 else "op=InitEx s=1 cap=%d gf=1 thr=%d dtor=%d" % (rng.choice((2, 12)), 100 if huge else 0, 0))
        xs = sorted(rng.sample(range(1, 200), 4))
        if huge: sc.append("op=Resize s=1 n=8 x=%d" % xs[0])
        sc += ["op=PushBack s=1 x=%d" % x for x in (xs if huge else xs + xs)]
        lo = (lambda: str(rng.randrange(3))) if not huge else (lambda: rng.choice(("0", "7", "8", "9", "S-1", "S-2")))
        low = 7      # at least one element stays behind the base: the limits of the specification are relative to it
        for _ in range(9 if huge else 26):
            x = rng.randrange(1, 200); o = rng.random()
            if 0.32 <= o < 0.48 or 0.74 < o < 0.86:
                if low < 2 and not huge: o = 0.15
                else: low -= 2
            elif o < 0.12: low = min(low + 1, 10)
            i = rng.choice((lo(), "S-1", "S-2", "%%%d" % rng.randrange(10 ** 6)))
            if invalid and rng.random() < 0.5: i = rng.choice(("S", "S+1", "S+7"))
            if o < 0.12: sc.append("op=%s s=1 x=%d" % (rng.choice(("PushBack", "Emplace")), x))
            elif o < 0.24: sc.append("op=Insert s=1 i=%s x=%d" % (i, x))
            elif o < 0.32: sc.append("op=InsertRange s=1 i=%s xs=%s" % (i, ",".join(str(rng.randrange(1, 200)) for _ in range(rng.randrange(1, 3)))))
            elif o < 0.42: sc.append("op=Delete s=1 i=%s" % i)
            elif o < 0.48: sc.append("op=DeleteRange s=1 i=%s n=%d" % (i, rng.randrange(1, 3)))
            elif o < 0.58: sc.append("op=%s s=1 i=%s x=%d" % (rng.choice(("Set", "SetM")), i, x))
            elif o < 0.66: sc.append("op=%s s=1 i=%s" % (rng.choice(("Get", "GetP", "GetPM", "Macro")), i))
            elif o < 0.74: sc.append("op=Swap s=1 i=%s j=%s" % (i, lo()))
            elif o < 0.80: sc.append("op=PopBack s=1")
            elif o < 0.86 and not huge: sc.append("op=Resize s=1 n=%s x=%d" % (rng.choice(("S+2", "S-1")), x))
            elif not huge: sc.append("op=%s s=1 i=0 n=S x=%d" % (rng.choice(("FindEx", "BinSearchEx")), x))
            elif huge: sc.append("op=%s s=1 x=%d" % (rng.choice(("BinSearch", "Find")), rng.choice(xs)))
        if search and not huge: sc += ["op=FindEx s=1 i=0 n=S x=%d" % x for x in xs]
        if search and z < 3 and not huge:
            sc += ["op=Resize s=1 n=0 x=1"] + ["op=PushBack s=1 x=%d" % x for x in sorted(xs + [xs[1], 250])]
            sc += ["op=BinSearchEx s=1 i=0 n=%s x=%d all=1" % (m, x) for x in xs + [1, xs[0] + 1, 251] for m in ("S", "S-1", "2")]
        if huge: sc += [rng.choice(("op=DupEx s=1 cap=0 gf=1 thr=0", "op=DupBuf s=1 cap=S+1")), "op=Destroy s=2"]
        sc += ["op=ShrinkToFit s=1", "op=PushBack s=1 x=5", "op=Destroy s=1"]
        res.append(sc)
    return res

def bitset_giant(rng, n):
    res = []
    for z in range(n):
        base = BASES[0] if z < 1 else rng.choice((1 << 31, 1 << 32, (1 << 32) + (1 << 26)))
        sc = ["op=Begin base=%d" % base, "op=InitEx s=1 n=%d gf=1 thr=0" % rng.randrange(12, 30)]
        pops = 10      # some bits stay behind the base
        for _ in range(40):
            o = rng.random(); i = rng.choice(("0", "S-1", "S", "7", "8", "%%%d" % rng.randrange(10 ** 6)))
            if o < 0.2: sc.append("op=Push s=1 x=%d" % rng.randrange(2))
            elif o < 0.3 and pops: sc.append("op=Pop s=1"); pops -= 1
            elif o < 0.8: sc.append("op=%s s=1 i=%s x=%d" % (rng.choice(("Set", "Reset", "Toggle", "Assign", "Test")), i, rng.randrange(2)))
            elif o < 0.9: sc.append("op=TestMSB s=1")
            else: sc.append("op=%s s=1 n=%d" % (rng.choice(("Reserve", "ShrinkToFit")), rng.randrange(200)))
        sc += ["op=Push s=1 x=1", "op=Test s=1 i=0 probe=1", "op=SetAll s=1", "op=Reset s=1 i=S-1", "op=Toggle s=1 i=0 probe=1", "op=ResetAll s=1", "op=Set s=1 i=1", "op=Destroy s=1"]
        res.append(sc)
    return res

def string_giant(rng, n, edit=True, search=False):
    res = []
    for z in range(n):
        base = BASES[0] if z < 2 else rng.choice(BASES)
        sc = ["op=Begin base=%d fill=46" % base, "op=Buf v=1 xs=97,98,67", "op=Buf v=2 xs=%s term=1" % rng.choice(("66", "98,67", "97")),
              rng.choice(("op=InitEx s=1 cap=4 gf=1 thr=0", "op=InitEx s=1 cap=30 gf=1 thr=0", "op=InitBuf s=1 cap=40")), "op=Append s=1 v=1", "op=Append s=1 v=1"]
        low = 5
        for _ in range(24 if edit else 10):
            o = rng.random()
            if 0.45 <= o < 0.6 or 0.8 <= o < 0.85:
                if low < 2: o = 0.7 + o / 10
                else: low -= 2
            elif o < 0.15: low = min(low + 1, 20)
            i = rng.choice(("0", "1", "S", "S-1", "%%%d" % rng.randrange(10 ** 6))); x = rng.randrange(65, 123)
            if o < 0.15: sc.append("op=Append s=1 v=%d" % rng.choice((1, 2)))
            elif o < 0.3: sc.append("op=Insert s=1 i=%s v=%d" % (i, rng.choice((1, 2))))
            elif o < 0.4: sc.append("op=InsertEx s=1 i=%s v=1 j=1 n=%d" % (i, rng.choice((1, 2, 3))))
            elif o < 0.45: sc.append("op=AppendEx s=1 v=1 j=0 n=2")
            elif o < 0.55: sc.append("op=Delete s=1 i=%s n=%d" % (i, rng.choice((1, 2))))
            elif o < 0.6: sc.append("op=Truncate s=1 i=%s" % rng.choice(("S-1", "S-2", "S")))
            elif o < 0.7: sc.append("op=%s s=1 i=%s n=%s" % (rng.choice(("LowerEx", "UpperEx")), i, rng.choice(("1", "S", "2"))))
            elif o < 0.8: sc.append("op=%s s=1 i=%s x=%d" % (rng.choice(("SetChar", "SetCharM", "GetCharM")), i, x))
            elif o < 0.85: sc.append("op=Resize s=1 n=%s x=%d" % (rng.choice(("S+1", "S-1")), x))
            elif o < 0.9: sc.append("op=GetChar v=11 i=%s" % i)
            elif o < 0.95: sc.append("op=%s s=1 q=0,0,%d,%d pad=%d" % (rng.choice(("DecU", "HexU", "DecS", "HexS")), rng.randrange(65536), rng.randrange(65536), rng.choice((0, 9))))
            else: sc.append("op=Fmt s=1 k=2 d=%d xs=65,66" % x)
        sc.append("op=Append s=1 v=1")
        if search:
            sc += ["op=View v=3 w=11", "op=ViewEx v=4 w=11 i=%d n=%s" % (rng.randrange(2), rng.choice(("2", "S", "S-1")))]
            for _ in range(12):
                k = rng.choice(("LPosEx", "LPosIEx", "RPosEx", "RPosIEx"))
                sc.append("op=%s v=%d w=%d i=%s n=%s" % (k, rng.choice((3, 11)), rng.choice((1, 2)), rng.choice(("0", "1", "S-1", "S-2")) if k[0] == "L" else "S", rng.choice(("S", "S-1", "2", "3"))))
            sc += ["op=GetChar v=3 i=%d" % rng.randrange(4), "op=GetChar v=4 i=0", "op=%s v=%d w=1" % (rng.choice(("RPos", "RPosI")), rng.choice((3, 11))), "op=%s v=%d w=1" % (rng.choice(("LPos", "LPosI")), rng.choice((3, 11)))]
        sc += [rng.choice(("op=DupEx s=2 v=11 cap=2 gf=1 thr=0", "op=DupBuf s=2 v=11 cap=S+2", "op=ConcatEx s=2 v=11 w=1 cap=0 gf=1 thr=0", "op=ConcatBuf s=2 v=11 w=1 cap=S+3"))]
        if search: sc += ["op=Compare v=11 w=12", "op=SetChar s=2 i=%s x=%d" % (rng.choice(("0", "S-1", "1")), rng.choice((33, 122))), "op=CompareI v=12 w=11"]
        if edit: sc += ["op=%s s=1" % rng.choice(("Lower", "Upper"))]
        sc += ["op=ShrinkToFit s=1", "op=Append s=1 v=1", "op=Destroy s=1", "op=Destroy s=2"]
        res.append(sc)
    return res
