"""ZyanString / ZyanStringView / number formatting: scripts, corruptions and plans for P10-P14, P18, P19."""
import random as _random
NAME = "string"; DRIVER = "string"; MC = "MCString"; TRACE = "TraceString"
START = None
from fam_vector import num
_rng = _random.Random(7)

def line(o):
    t = ["op=" + o["op"]]
    if o.get("s"): t.append("s=%d" % o["s"])
    for k in ("v", "w", "k", "term", "gf", "thr", "x", "pad", "d", "wd"):
        if k in o: t.append("%s=%d" % (k, o[k]))
    for k in ("i", "j", "n", "cap"):
        if k in o: t.append("%s=%s" % (k, num(o[k])))
    for k in ("up", "force"):
        if k in o: t.append("%s=%d" % (k, o[k]))
    for k in ("xs", "q"):
        if k in o: t.append("%s=%s" % (k, ",".join(map(str, o[k]))))
    if o["op"] == "Buf" and o.get("term") == 0 and _rng.random() < 0.6:
        t.append("tail=" + ",".join(str(x) for x in tail(_rng, o["xs"])))
    if o.get("inj"): t.append("f=1")
    if "undo" in o: t.append("\nop=Truncate s=1 i=%d" % o["undo"])
    return " ".join(t)
to_line = line

def tail(rng, xs):
    """what follows a view in memory: likely continuations of the text"""
    pool = list(xs) + [97, 98, 65, 0]
    return [rng.choice(pool) for _ in range(rng.choice((1, 2, 4)))]

def header(rng):
    return "op=Begin"

ALPH = [
    (97, 98), (97, 65), (97, 98, 65, 66), (97, 0, 98), (64, 96, 65, 97, 91, 123, 90, 122), (128, 255, 127, 0, 32, 223),
]
EDITS = ("Insert", "InsertEx", "Append", "AppendEx", "Delete", "Truncate", "SetChar", "SetCharM", "Lower", "Upper", "LowerEx", "UpperEx",
         "Resize", "Reserve", "ShrinkToFit", "Clear")
W = {"Append": 8, "AppendEx": 5, "Insert": 6, "InsertEx": 5, "Delete": 5, "Clear": 1, "Reserve": 2, "ShrinkToFit": 2, "DecU": 4, "DecS": 4, "HexU": 4, "HexS": 4, "Fmt": 4}
LOOKS = ("LPos", "LPosI", "RPos", "RPosI", "LPosEx", "LPosIEx", "RPosEx", "RPosIEx", "Compare", "CompareI", "GetChar", "GetCharM")
NUMS = ("DecU", "DecS", "HexU", "HexS")
BADPOS = ("S+1", "S+2", "M-0", "M-1", "M-7", "H-0", "Q+0")
BADCNT = ("S+1", "M-0", "M-1", "M-2", "M-5", "H-0", "0")

def rnd64(rng):
    k = rng.random()
    if k < 0.25: v = rng.getrandbits(rng.randrange(1, 65))
    elif k < 0.5: v = 10 ** rng.randrange(0, 20) + rng.choice((-1, 0, 1))
    elif k < 0.75: v = (1 << rng.randrange(0, 65)) + rng.choice((-1, 0, 1))
    else: v = rng.choice((0, 9, 10, 99, 100, 101, (1 << 63), (1 << 63) - 1, (1 << 64) - 1, 0xFFFFFFFF, 1 << 32))
    if rng.random() < 0.3: v = -v
    v &= (1 << 64) - 1
    return ",".join(str((v >> s) & 0xFFFF) for s in (48, 32, 16, 0))

def number(rng, o, s, v):
    pad = rng.choice((0, 0, 0, 1, 2, 3, 4, 8, 9, 10, 11, 16, 17, 20, 21))
    if rng.random() < 0.03: pad = rng.choice((255, 254, rng.randrange(256)))
    q = rnd64(rng)
    if rng.random() < 0.4:                              # near the number of digits
        x = 0
        for w in q.split(","): x = x << 16 | int(w)
        if o[3] == "S" and x >> 63: x = (1 << 64) - x
        pad = max(0, len("%x" % x if o[0] == "H" else "%d" % x) + rng.choice((-1, 0, 1, 2, 3)))
    t = "op=%s s=%d q=%s pad=%d" % (o, s, q, pad)
    if o[0] == "H": t += " up=%d" % rng.randrange(2)
    if o[3] == "S":
        t += " force=%d" % rng.randrange(2)
        if rng.random() < 0.4: t += " v=%d" % v
    return t

def gen(rng, n, length=50, ops=None, looks=0.1, views=0.15, faults=0.0, invalid=0.0, fixed=0.3, maxt=8, libc=True, big=0.15, second=0.2):
    ops = ops or EDITS
    if not libc: ops = tuple(o for o in ops if o != "Fmt")
    scripts = []
    for _ in range(n):
        sc = [header(rng)]
        al = rng.choice(ALPH + [tuple(rng.randrange(256) for _ in range(rng.choice((3, 20))))])
        large = rng.random() < big
        def text(m=None):
            m = rng.randrange(maxt + 1) if m is None else m
            if large and rng.random() < 0.3: m = rng.randrange(60)
            return [rng.choice(al) for _ in range(m)]
        def buf(v):
            xs = text()
            if rng.random() < 0.5 and 0 not in xs: return "op=Buf v=%d xs=%s term=1" % (v, ",".join(map(str, xs)))
            if not xs: xs = [al[0]]
            return "op=Buf v=%d xs=%s term=0 tail=%s" % (v, ",".join(map(str, xs)), ",".join(map(str, tail(rng, xs))))
        sc.append(buf(1)); sc.append(buf(2))
        nb = 2; alive = [False, False]
        def create(s):
            r = rng.random()
            cap = rng.choice((0, 1, 2, 5, 8, 31, 32, 33, 60))
            if rng.random() < fixed:
                if rng.random() < 0.7: return "op=InitBuf s=%d cap=%d" % (s, rng.choice((1, 2, 3, 5, 8, 10, 12, 17, 21, 22, 24, 40, 120)))
                return "op=DupBuf s=%d v=1 cap=S+%d" % (s, rng.choice((0, 1, 2, 5))) if rng.random() < 0.5 else "op=ConcatBuf s=%d v=1 w=2 cap=S+%d" % (s, rng.choice((0, 1, 2, 6)))
            gt = " gf=%d thr=%d" % (rng.choice((1, 2, 2, 3, 5, rng.randrange(1, 256))), rng.choice((0, 1, 2, 4, 4, 9, rng.randrange(256))))
            src = rng.choice((1, 2, 11 if s == 2 else 12))
            if r < 0.3 and libc: return "op=Init s=%d cap=%d" % (s, cap)
            if r < 0.65: return "op=InitEx s=%d cap=%d" % (s, cap) + gt
            if r < 0.8: return "op=%s s=%d v=%d cap=%d" % ("DupEx" if not libc or rng.random() < 0.6 else "Dup", s, src, cap) + gt
            return "op=%s s=%d v=%d w=%d cap=%d" % ("ConcatEx" if not libc or rng.random() < 0.6 else "Concat", s, src, rng.choice((1, 2)), cap) + gt
        L = length * (2 if large else 1)
        while len(sc) < L:
            s = 2 if (alive[1] and rng.random() < second) else 1
            f = " f=%d" % rng.choice((1, 1, 1, 2)) if rng.random() < faults else ""
            if not alive[s - 1] or (not alive[1] and rng.random() < 0.03):
                if alive[s - 1]: s = 2
                if invalid and rng.random() < 0.3:            # a capacity nothing can hold
                    sc.append("op=%s s=%d%s cap=%s gf=2 thr=4" % (*rng.choice((("InitEx", s, ""), ("Init" if libc else "InitEx", s, ""), ("DupEx", s, " v=1"), ("ConcatEx", s, " v=1 w=2"))), rng.choice(("M-0", "M-1", "M-2", "M-33", "H-0", "H-1"))))
                sc.append(create(s) + f); alive[s - 1] = True
                if f: sc.append("op=InitEx s=%d cap=2 gf=2 thr=4" % s)
                elif rng.random() < 0.5: sc.append("op=ShrinkToFit s=%d" % s)
                continue
            r = rng.random()
            if r < 0.01: sc.append("op=Destroy s=%d" % s); alive[s - 1] = False; continue
            bad = rng.random() < invalid
            def src(): return rng.choice((1, 2, 1, 2, 3, 4, 13 - s + 0 if alive[2 - s] else 1))
            def anyv(): return rng.choice((1, 2, 3, 4, 11, 11, 12 if alive[1] else 11))
            def pos(): return rng.choice(BADPOS) if bad and rng.random() < 0.6 else "%%%d" % rng.randrange(1000)
            def cnt(): return rng.choice(BADCNT) if bad and rng.random() < 0.6 else "%%%d" % rng.randrange(1000)
            if r < views and nb < 60:
                k = rng.random()
                if k < 0.3: sc.append(buf(rng.choice((1, 2)))); nb += 1
                elif k < 0.45: sc.append("op=View v=%d w=%d" % (rng.choice((3, 4)), anyv()))
                else: sc.append("op=ViewEx v=%d w=%d i=%s n=%s" % (rng.choice((3, 4)), anyv(), pos(), cnt()))
                continue
            if rng.random() < looks:
                o = rng.choice(LOOKS)
                if o == "GetCharM": sc.append("op=GetCharM s=%d i=%s" % (s, pos()))
                elif o == "GetChar": sc.append("op=GetChar v=%d i=%s" % (anyv(), pos()))
                else:
                    t = "op=%s v=%d w=%d" % (o, anyv(), anyv())
                    if o.endswith("Ex"): t += " i=%s n=%s" % (pos(), cnt())
                    sc.append(t)
                continue
            o = rng.choices(ops, [W.get(x, 3) for x in ops])[0]
            t = "op=%s s=%d" % (o, s)
            if o in NUMS: sc.append(number(rng, o, s, src()) + f); continue
            if o == "Fmt":
                k = rng.choice((0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9))
                d = rng.choice((0, 1, -1, 9, 10, 12345, -2147483647, 2147483647, rng.randrange(100000)))
                t += " k=%d d=%d wd=%d xs=%s" % (k, d if k != 8 else abs(d), rng.randrange(1, 30), ",".join(str(x or 33) for x in text()))
            elif o == "Insert": t += " i=%s v=%d" % (pos(), src())
            elif o == "Append": t += " v=%d" % src()
            elif o == "InsertEx": t += " i=%s v=%d j=%s n=%s" % (pos(), src(), pos(), cnt())
            elif o == "AppendEx": t += " v=%d j=%s n=%s" % (src(), pos(), cnt())
            elif o in ("Delete", "LowerEx", "UpperEx"): t += " i=%s n=%s" % (pos(), cnt())
            elif o == "Truncate": t += " i=%s" % pos()
            elif o in ("SetChar", "SetCharM"): t += " i=%s x=%d" % (pos(), rng.choice(al))
            elif o == "Resize": t += " n=%s x=%d" % (rng.choice(("M-0", "M-1", "M-2", "H-0")) if bad else str(rng.randrange(60 if large else 14)), rng.choice(al))
            elif o == "Reserve": t += " n=%s" % (rng.choice(("M-0", "M-1", "M-2", "H-0")) if bad else str(rng.randrange(150 if large else 40)))
            sc.append(t + f)
        if invalid and rng.random() < 0.5:
            for k in rng.sample(list(range(65)) + list(range(70, 76)), 12):
                if libc or k not in (64, 75): sc.append("op=Null k=%d" % k)
        sc += ["op=Destroy s=1", "op=Destroy s=2"]
        scripts.append(sc)
    return scripts

def search_gen(rng, n, length=40):
    """texts made of near misses: repetitive haystacks and needles, all windows"""
    scripts = []
    for z in range(n):
        sc = [header(rng)]
        al = rng.choice(ALPH + [tuple(rng.randrange(256) for _ in range(rng.choice((2, 20))))])
        nb = 0; m = 5 if z % 3 else rng.choice((10, 20, 45))
        while len(sc) < length:
            if nb % 7 == 0 or rng.random() < 0.15:
                nd = [rng.choice(al) for _ in range(rng.randrange(1, m))]
                if rng.random() < 0.3: nd = (nd[:rng.choice((1, 2, 3))] * len(nd))[:len(nd)]
                over = rng.random() < 0.3
                if over:    # an occurrence that begins within a longer partial match (in either direction)
                    q = rng.randrange(1, 8); per = [rng.choice(al) for _ in range(q)]; k = rng.randrange(2, 6)
                    e = [rng.choice(al) for _ in range(rng.randrange(1, 4))]
                    nd = per * k + e if rng.random() < 0.5 else e + per * k
                h = []
                if over:
                    for _ in range(rng.randrange(1, 3)):
                        g = per * (k + rng.randrange(3))
                        h += rng.choice((g + e, e + g, g, [c ^ 32 for c in g] + e, e + [c ^ 32 for c in g], e[:-1] + g + e[:1]))
                for _ in range(0 if over else rng.randrange(1, 5)):
                    h += nd[:rng.choice((rng.randrange(len(nd) + 1), len(nd), len(nd) - 1))]
                    if rng.random() < 0.3: h.append(rng.choice(al))
                    if rng.random() < 0.2: h = h + nd; h[-1 - rng.randrange(len(nd))] = rng.choice((rng.choice(al), rng.randrange(256)))
                if rng.random() < 0.3: h = [c ^ 32 if rng.random() < 0.3 else c for c in h]
                if not h: h = [97]
                sc.append("op=Buf v=1 xs=%s term=0 tail=%s" % (",".join(map(str, h)), ",".join(map(str, nd + h))))
                sc.append("op=Buf v=2 xs=%s term=0 tail=%s" % (",".join(map(str, nd)), ",".join(map(str, h))))
            nb += 1
            o = rng.choice(LOOKS[:8])
            v, w = rng.choice(((1, 2), (1, 2), (1, 2), (2, 1), (1, 3), (3, 2), (1, 1), (3, 4)))
            if rng.random() < 0.15: sc.append("op=ViewEx v=%d w=1 i=%%%d n=%%%d" % (rng.choice((3, 4)), rng.randrange(99), rng.randrange(99)))
            t = "op=%s v=%d w=%d" % (o, v, w)
            if o.endswith("Ex"): t += " i=%%%d n=%s" % (rng.randrange(99), rng.choice(("S", "S-1", "%%%d" % rng.randrange(99), "%%%d" % rng.randrange(99))))
            sc.append(t)
        scripts.append(sc[:length + 10])
    return scripts

def cmp_gen(rng, n, length=40):
    """texts that differ in one place only, anywhere, by case, by the sign bit or by any bit"""
    scripts = []
    for _ in range(n):
        sc = [header(rng)]
        al = rng.choice(ALPH + [tuple(range(256))] * 3)
        while len(sc) < length:
            m = rng.choice((1, 2, 3, 4, 7, 8, 9, 15, 16, 17, rng.randrange(1, 40), rng.randrange(1, 400)))
            a = [rng.choice(al) for _ in range(m)]; b = list(a)
            for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
                i = rng.choice((rng.randrange(m), m - 1, 0)); b[i] = rng.choice((b[i] ^ 32, b[i] ^ 128, b[i] ^ (1 << rng.randrange(8)), rng.randrange(256)))
            if rng.random() < 0.2: b = b[:rng.randrange(len(b)) + 1]
            if rng.random() < 0.1: b += [rng.choice(al)]
            if rng.random() < 0.2:      # one text is the beginning of the other
                b = list(a); c = rng.choice((1, 2, 8, 16, 32, 64, 128, 256, 512)); b += [rng.choice(al) for _ in range(c)]
                if rng.random() < 0.3: b = [x ^ 32 if 65 <= x <= 90 or 97 <= x <= 122 else x for x in b]
            for v, xs, ys in ((1, a, b), (2, b, a)):
                sc.append("op=Buf v=%d xs=%s term=0 tail=%s" % (v, ",".join(map(str, xs)), ",".join(str(x) for x in ys[-3:])))
            for _ in range(3):
                v, w = rng.choice(((1, 2), (2, 1), (1, 2), (2, 1), (1, 1)))
                sc.append("op=%s v=%d w=%d" % (rng.choice(("Compare", "CompareI")), v, w))
            if rng.random() < 0.3: sc.append("op=%s v=1 w=2" % rng.choice(("LPosI", "RPosI", "LPos", "RPos")))
        scripts.append(sc)
    return scripts

def case_fixed():
    """case conversion of every character, and the comparison of every character with its neighbours"""
    res = []
    allc = list(range(256))
    for op in ("Lower", "Upper"):
        sc = ["op=Begin"]
        for c0 in range(0, 256, 64):
            xs = ",".join(map(str, allc[c0:c0 + 64]))
            sc += ["op=Buf v=1 xs=%s term=0" % xs, "op=DupEx s=1 v=1 cap=0", "op=%s s=1" % op, "op=Destroy s=1",
                   "op=DupEx s=1 v=1 cap=0", "op=%sEx s=1 i=1 n=62" % op, "op=%sEx s=1 i=0 n=0" % op, "op=%sEx s=1 i=64 n=0" % op, "op=Destroy s=1"]
        res.append(sc)
    return res

EDGE = (0, 32, 64, 65, 77, 90, 91, 96, 97, 109, 122, 123, 127, 128, 165, 192, 193, 205, 218, 219, 225, 250, 251, 255)
def neighbours_fixed():
    """case conversion of every pair of neighbouring characters out of the edges, at every offset"""
    seq = [c for a in EDGE for b in EDGE for c in (a, b)]
    res = []
    for op in ("Lower", "Upper"):
        for i in range(8):
            xs = ",".join(map(str, seq[i * 5:] + seq[:i * 5]))
            res.append(["op=Begin", "op=Buf v=1 xs=%s term=0" % xs, "op=DupEx s=1 v=1 cap=0", "op=%sEx s=1 i=%d n=%d" % (op, i, len(seq) - i - (0, 1, 3, 7, 8, 9, 15, 16)[i]), "op=Destroy s=1"])
    return res

def pairs_fixed(step=1):
    res = []
    for c in range(0, 256, step):
        sc = ["op=Begin"]
        for d in range(256):
            if d and d % 25 == 0:
                res.append(sc); sc = ["op=Begin"]
            sc += ["op=Buf v=1 xs=%d term=0" % c, "op=Buf v=2 xs=%d term=0" % d, "op=Compare v=1 w=2", "op=CompareI v=1 w=2", "op=LPosI v=1 w=2", "op=RPosI v=1 w=2"]
        res.append(sc)
    return res

# ---- falsified observations ----
def slot(e):
    for p in e["str"]:
        if p["a"]: return p
def c_size(e, r, p):
    v = slot(e)
    if v: v["sz"] += 1; return True
def c_text(e, r, p):
    v = slot(e)
    if v and v["txt"]: v["txt"][r.randrange(len(v["txt"]))] ^= 1; return True
def c_term(e, r, p):
    v = slot(e)
    if v: v["term"] = 97; return True
def c_status(e, r, p):
    e["st"] = {"SUCCESS": "OUT_OF_RANGE", "TRUE": "FALSE", "FALSE": "TRUE", "OUT_OF_RANGE": "SUCCESS", "INVALID_ARGUMENT": "FAILED"}.get(e["st"], "NOT_FOUND"); return True
def c_val(e, r, p):
    if e["val"] != -7 and e["st"] in ("SUCCESS", "TRUE", "FALSE"): e["val"] += 1 if e["val"] != 1 else -1; return True
def c_view(e, r, p):
    for v in e["vw"]:
        if v["a"] and v["txt"]: v["txt"][-1] ^= 1; return True
def c_viewsz(e, r, p):
    for v in e["vw"]:
        if v["a"]: v["sz"] += 1; return True
def c_off(e, r, p):
    for v in e["vw"]:
        if v["a"]: v["off"] += 1; return True
def c_own(e, r, p): e["own"] += 1; return True
def c_buf(e, r, p): e["bufok"] = False; return True
def c_guard(e, r, p):
    v = slot(e)
    if v: v["guard"] = False; return True
def c_cap(e, r, p):
    v = slot(e)
    if v: v["cap"] -= v["cap"] - v["sz"] + 1; return True
CORRUPT = [("size", c_size), ("text", c_text), ("terminator", c_term), ("status", c_status), ("value", c_val), ("view text", c_view), ("view size", c_viewsz),
           ("view position", c_off), ("owned bytes", c_own), ("buffer modified", c_buf), ("guard", c_guard), ("capacity below size", c_cap)]

def consts(kinds, cfgs="CfgsNone", texts="TextsNone", src=(1,), chars=(97,), maxlen=3, faults=False, invalid=False, nums="NoneQ", pads="NoneQ", fmts="NoneQ", dst=(3, 4)):
    return {"Kinds": set(kinds), "Cfgs": "<- " + cfgs, "Texts": "<- " + texts, "Src": list(src), "Chars": list(chars), "MaxLen": maxlen,
            "Faults": faults, "Dst": list(dst), "Invalid": invalid, "Nums": "<- " + nums, "Pads": "<- " + pads, "Fmts": "<- " + fmts}
CREATE = ("Init", "InitEx", "InitBuf")
COPY = ("Dup", "DupEx", "DupBuf", "Concat", "ConcatEx", "ConcatBuf")
