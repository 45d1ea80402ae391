"""What the check of each property explores, replays and validates."""
from run import Part
import fam_vector as V
import big

PLANS = {}
def plan(pid):
    def deco(f):
        PLANS[pid] = f
        return f
    return deco

def tv(tier, quick, thorough):
    return quick if tier == "quick" else thorough

def giant(fam, gen, q):
    """Objects of more than 2^32 elements; too large for the sanitizers."""
    return Part(fam, rand=gen, nrand=2 if q else 24, variants=("o2",), name=fam.NAME + "-giant", corrupt=False)

@plan("P01")
def p01(tier):
    k = V.CREATE + V.READ + V.EDIT
    q = tier == "quick"
    models = [V.consts(k, "CfgsSeq", maxlen=3 if q else 4, maxcap=6 if q else 10)]
    k2 = V.CREATE + ("PushBack", "PopBack", "Set", "Delete", "Clear", "Dup", "DupEx", "DupBuf", "Destroy")
    models.append(V.consts(k2, "CfgsTwo", maxlen=1 if q else 2, maxcap=4, second=True))
    return [Part(V, models=models, rand=lambda r, n: V.gen(r, n, ops=V.READ + V.EDIT[:-1]) + big.vector(r, n // 20, n // 100), nrand=150 if q else 3000,
                 variants=("san",) if q else ("san", "o2", "dbg")),
            giant(V, big.vector_giant, q)]

@plan("P02")
def p02(tier):
    k = V.CREATE + V.READ + V.EDIT + V.SEARCH + ("Null", "InsertHuge")
    q = tier == "quick"
    return [Part(V, models=[V.consts(k, "CfgsBad", maxlen=2 if q else 3, maxcap=4 if q else 6, invalid=True)],
                 rand=lambda r, n: V.gen(r, n, ops=V.ALL + ("Null",), invalid=0.5) + big.vector(r, n // 20, n // 100), nrand=150 if q else 3000, variants=("san",) if q else ("san", "o2", "dbg")),
            giant(V, lambda r, n: big.vector_giant(r, n, invalid=True), q)]

@plan("P03")
def p03(tier):
    k = V.CREATE + ("PushBack", "InsertRange", "Emplace", "DeleteRange", "PopBack", "Clear", "Resize", "Reserve", "ShrinkToFit", "Dup", "DupEx", "DupBuf", "Destroy")
    q = tier == "quick"
    return [Part(V, models=[V.consts(k, "CfgsCap", maxlen=4 if q else 6, vals=1, maxcap=12 if q else 24)],
                 rand=lambda r, n: V.gen(r, n, ops=V.EDIT[:-1]) + big.vector(r, n // 20, n // 100), nrand=200 if q else 3000, variants=("san",) if q else ("san", "o2", "dbg"))]

@plan("P04")
def p04(tier):
    k = V.CREATE + V.EDIT
    q = tier == "quick"
    return [Part(V, models=[V.consts(k, "CfgsSeq", maxlen=2 if q else 3, maxcap=5 if q else 8, faults=True)],
                 rand=lambda r, n: V.gen(r, n, ops=V.EDIT[:-1], faults=0.3, cf=0.4) + big.vector(r, n // 20, n // 100), nrand=200 if q else 3000, variants=("san",) if q else ("san", "o2", "dbg"))]

@plan("P05")
def p05(tier):
    k = V.CREATE + ("PushBack", "Set", "Emplace", "Delete", "DeleteRange", "PopBack", "Clear", "Resize", "ResizeEx", "ShrinkToFit", "Reserve", "DupEx", "Destroy", "Swap", "Insert")
    q = tier == "quick"
    return [Part(V, models=[V.consts(k, "CfgsSeq", maxlen=3, maxcap=5 if q else 8, faults=True)],
                 rand=lambda r, n: V.gen(r, n, ops=V.EDIT[:-1], faults=0.1, cf=0.1, dtor=1) + big.vector(r, n // 20, n // 100), nrand=150 if q else 3000, variants=("san",) if q else ("san", "o2", "dbg"))]

@plan("P06")
def p06(tier):
    k = V.CREATE + ("PushBack", "Insert", "Delete") + V.SEARCH
    q = tier == "quick"
    return [Part(V, models=[V.consts(k, "CfgsSeq", maxlen=3 if q else 4, vals=3, maxcap=6)],
                 rand=lambda r, n: V.gen(r, n, ops=V.SEARCH + ("PushBack", "Insert", "Delete", "DeleteRange", "InsertRange", "Resize"), sorted_=0.6, probe=0.4) + big.runs(r, n // 4) + big.vector(r, n // 20, n // 100), nrand=150 if q else 3000,
                 variants=("san",) if q else ("san", "o2", "dbg")),
            giant(V, lambda r, n: big.vector_giant(r, n, search=True), q)]

import fam_list as L
STD = ("san",); DEEP = ("san", "o2", "dbg")

@plan("P07")
def p07(tier):
    q = tier == "quick"
    return [Part(L, models=[L.consts(L.ALL + ("Null",), "CfgsAll", maxlen=4 if q else 6)], rand=lambda r, n: L.gen(r, n) + big.list_(r, n // 20, n // 100), nrand=150 if q else 3000, variants=STD if q else DEEP)]

@plan("P08")
def p08(tier):
    q = tier == "quick"
    return [Part(L, models=[L.consts(L.ALL + ("Giant",), "CfgsBuf", maxlen=5 if q else 6)], rand=lambda r, n: L.gen(r, n, fixed=1.0, cf=0.2) + big.list_(r, n // 20, n // 100, fixed=True), nrand=200 if q else 3000, variants=STD if q else DEEP)]

@plan("P09")
def p09(tier):
    q = tier == "quick"
    return [Part(L, models=[L.consts(L.ALL + ("Giant",), "CfgsDyn", maxlen=3 if q else 4, faults=True)], rand=lambda r, n: L.gen(r, n, faults=0.3, cf=0.3, fixed=0.2) + big.list_(r, n // 20, n // 100), nrand=200 if q else 3000, variants=STD if q else DEEP)]


import fam_string as St
def variants(q): return STD if q else DEEP

@plan("P10")
def p10(tier):
    q = tier == "quick"
    k = St.CREATE + ("Destroy", "Buf", "GetCharM") + St.EDITS
    ms = [St.consts(k, "CfgsEdit", "TextsEditQ" if q else "TextsEdit", chars=(98,), maxlen=3 if q else 4),
          St.consts(("Buf", "Append", "Clear", "Destroy") + St.CREATE + St.COPY, "CfgsTwo", "TextsEdit", src=(1, 12), maxlen=2 if q else 4)]
    return [Part(St, models=ms, rand=lambda r, n: St.gen(r, n) + big.string(r, n // 20, n // 100), nrand=150 if q else 3000, variants=variants(q)),
            giant(St, big.string_giant, q)]

@plan("P11")
def p11(tier):
    q = tier == "quick"
    k = St.CREATE + ("Destroy", "Buf", "GetCharM", "Null", "GetChar") + St.EDITS
    ms = [St.consts(k, "CfgsBad", "TextsBadQ" if q else "TextsBad", maxlen=2 if q else 3, invalid=True),
          St.consts(St.CREATE + ("Destroy", "Buf", "Dup", "DupEx", "Concat", "ConcatEx") + St.EDITS, "CfgsFault", "TextsFault", maxlen=2 if q else 3, faults=True)]
    return [Part(St, models=ms, rand=lambda r, n: St.gen(r, n, ops=St.EDITS + St.NUMS + ("Fmt",), invalid=0.35, faults=0.2) + big.string(r, n // 20, n // 100), nrand=150 if q else 3000, variants=variants(q))]

@plan("P12")
def p12(tier):
    q = tier == "quick"
    k = ("Buf",) + St.LOOKS[:8]
    ms = [St.consts(k, texts="TextsSearch" if q else "TextsSearchX"), St.consts(k, texts="TextsWin", invalid=True)]
    return [Part(St, models=ms, rand=lambda r, n: St.search_gen(r, n) + big.string(r, n // 20, n // 100, edit=False), nrand=200 if q else 3000, variants=variants(q)),
            giant(St, lambda r, n: big.string_giant(r, n // 2, edit=False, search=True), q)]

@plan("P13")
def p13(tier):
    q = tier == "quick"
    k = ("Buf", "Compare", "CompareI")
    ms = [St.consts(k, texts="TextsCmp"), St.consts(k, texts="TextsCmp2" if q else "TextsCmp3"),
          St.consts(("Buf", "DupEx", "Destroy", "Lower", "Upper", "LowerEx", "UpperEx"), texts="TextsCase", maxlen=4, invalid=True)]
    return [Part(St, models=ms, rand=lambda r, n: St.gen(r, n, ops=("Append", "Insert", "Lower", "Upper", "LowerEx", "UpperEx", "SetChar", "Delete"), looks=0.4) + St.cmp_gen(r, n // 2) + big.string(r, n // 20, n // 100, views=False), nrand=100 if q else 3000,
                 variants=variants(q), fixed=St.case_fixed() + St.neighbours_fixed() + St.pairs_fixed(61 if q else 1)),
            giant(St, lambda r, n: big.string_giant(r, n // 2, edit=True, search=True), q)]

@plan("P14")
def p14(tier):
    q = tier == "quick"
    k = ("Buf", "View", "ViewEx", "GetChar", "InitEx", "InitBuf", "Append", "DupEx", "Compare", "LPos")
    ms = [St.consts(k, "CfgsTwo", "TextsView", src=(1, 3, 4), maxlen=2 if q else 3)] if not q else \
         [St.consts(("Buf", "View", "ViewEx", "GetChar"), texts="TextsViewQ", maxlen=2),
          St.consts(("Buf", "View", "ViewEx", "InitBuf", "Append"), "CfgsTwo", "TextsBad", src=(1, 3), maxlen=2, dst=(3,))]
    ms.append(St.consts(("Buf", "ViewEx", "GetChar"), texts="TextsBad", invalid=True))
    return [Part(St, models=ms, rand=lambda r, n: St.gen(r, n, ops=St.EDITS, views=0.5, looks=0.4) + big.string(r, n // 20, n // 100, edit=False, search=False), nrand=200 if q else 3000, variants=variants(q)),
            giant(St, lambda r, n: big.string_giant(r, n // 2, edit=False, search=True), q)]

@plan("P18")
def p18(tier):
    q = tier == "quick"
    k = ("Buf", "InitEx", "InitBuf", "Append", "ShrinkToFit") + St.NUMS
    ms = [St.consts(k, "CfgsTwo" if q else "CfgsNum", "TextsNum", maxlen=2, nums="NumsQ" if q else "NumsX", pads="PadsQ" if q else "PadsX")]
    return [Part(St, models=ms, rand=lambda r, n: St.gen(r, n, ops=St.NUMS + ("Delete", "Truncate", "ShrinkToFit", "Clear"), looks=0.0, views=0.05) + big.numbers(r, n // 20, n // 100), nrand=150 if q else 3000,
                 variants=variants(q)),
            Part(St, rand=lambda r, n: St.gen(r, n, ops=St.NUMS + ("Truncate", "ShrinkToFit"), looks=0.0, views=0.05) + big.numbers(r, n // 20), nrand=60 if q else 2000, variants=("x86",), name="string-u32")]

@plan("P19")
def p19(tier):
    q = tier == "quick"
    k = ("Buf", "Init", "InitEx", "InitBuf", "Append", "ShrinkToFit", "Fmt")
    ms = [St.consts(k, "CfgsFmt", "TextsFault", maxlen=4, fmts="FmtsQ", faults=True),
          St.consts(("Buf", "InitEx", "InitBuf", "ShrinkToFit", "Append") + St.NUMS, "CfgsNumQ" if q else "CfgsNum", "TextsFault", maxlen=2 if q else 4, nums="NumsF" if q else "NumsQ", pads="PadsF" if q else "PadsQ", faults=True)]
    return [Part(St, models=ms, rand=lambda r, n: St.gen(r, n, ops=St.NUMS + ("Fmt", "Fmt", "Truncate", "ShrinkToFit", "Clear"), looks=0.0, views=0.05, fixed=0.6, faults=0.15) + big.formats(r, n // 10, n // 100) + big.string(r, n // 20, n // 100, search=False, views=False, fmt=True), nrand=200 if q else 3000,
                 variants=variants(q))]


import fam_bitset as Bs

@plan("P15")
def p15(tier):
    q = tier == "quick"
    ms = [Bs.consts([k for k in Bs.ALL[:-1] if k not in ("Reserve", "ShrinkToFit")], "CfgsBits" if q else "CfgsOne", maxlen=9 if q else 17),
          Bs.consts(Bs.CREATE + Bs.MIX + (("Push", "Flip") if q else ("Push", "Flip", "Set")), "CfgsTwoQ" if q else "CfgsTwoX", maxlen=9 if q else 11, second=True)]
    return [Part(Bs, models=ms, rand=lambda r, n: Bs.gen(r, n) + big.bitset(r, n // 20, n // 100), nrand=200 if q else 4000, variants=variants(q)),
            giant(Bs, lambda r, n: big.bitset_giant(r, n // 2), q)]

@plan("P16")
def p16(tier):
    q = tier == "quick"
    ms = [Bs.consts(Bs.CREATE + ("Push", "Pop", "Set", "Reset", "Flip", "SetAll", "TestMSB", "TestLSB"), "CfgsOne", maxlen=17 if q else 26)]
    return [Part(Bs, models=ms, rand=lambda r, n: Bs.gen(r, n, size=0.45) + big.bitset(r, n // 20, n // 100), nrand=250 if q else 4000, variants=variants(q)),
            giant(Bs, lambda r, n: big.bitset_giant(r, n // 2), q)]

@plan("P17")
def p17(tier):
    q = tier == "quick"
    ms = [Bs.consts(Bs.CREATE + ("Destroy", "Push", "Pop", "Clear", "Reserve", "ShrinkToFit"), "CfgsCap", maxlen=9 if q else 18, faults=True, invalid=True, uniform=True),
          Bs.consts(Bs.CREATE + ("Destroy", "Set", "Toggle", "Test", "Reset", "Push", "Null"), "CfgsBits", maxlen=8, invalid=True, uniform=True)]
    return [Part(Bs, models=ms, rand=lambda r, n: Bs.gen(r, n, size=0.6, faults=0.25, bad=0.2, fixed=0.5) + big.bitset(r, n // 20, n // 100), nrand=250 if q else 4000, variants=variants(q))]


import fam_argparse as Ap
TOKS_A = ("-", "--", "-a", "-b", "-ab", "-ba", "x", "", "--l", "--lo", "-aab", "-abx", "--a")
TOKS_E = ("--", "-a", "-b", "-c", "-ab", "x", "--l", "--l=x", "-x")

@plan("P20")
def p20(tier):
    q = tier == "quick"
    ms = [Ap.consts("DefsGood", TOKS_A, "BoundsQ", 3 if q else 4, fronts=("x", "-a") if q else ("x", "-a", "--"))]
    return [Part(Ap, models=ms, rand=lambda r, n: Ap.gen(r, n, bad=0.05), nrand=150 if q else 4000, variants=variants(q))]

@plan("P21")
def p21(tier):
    q = tier == "quick"
    ms = [Ap.consts("DefsErr", TOKS_E, "BoundsE" if q else "BoundsX", 3 if q else 4, faults=not q),
          Ap.consts("DefsGood", ("-ab", "-aab", "x", "--l", "-a"), "BoundsQ", 3, faults=True)]
    return [Part(Ap, models=ms, rand=lambda r, n: Ap.gen(r, n, bad=0.5, faults=0.2), nrand=150 if q else 4000, variants=variants(q))]


import fam_sync as Sy

@plan("P22")
def p22(tier):
    q = tier == "quick"
    ms = [Sy.consts(3, 1, 3), Sy.consts(2, 2, 2)] if q else [Sy.consts(4, 1, 3), Sy.consts(3, 2, 2)]
    return [Part(Sy, models=ms, rand=lambda r, n: Sy.gen(r, n) + Sy.races(r, n // 2) + Sy.deep(r, 4 if q else 20), fixed=Sy.patient(1200 if q else 6000), nrand=60 if q else 600, variants=("san",) if q else ("san", "o2"),
                 live=[(Sy.consts(3, 1, 3), "GetsIn")] if q else [(Sy.consts(4, 1, 3), "GetsIn"), (Sy.consts(3, 2, 2), "GetsIn")]),
            Part(Sy, rand=lambda r, n: Sy.races(r, n), nrand=15 if q else 300, variants=("tsan",), name="sync-tsan", corrupt=False),
            Part(Sy, rand=lambda r, n: Sy.races(r, n, per=20), nrand=20 if q else 400, variants=("plain",), name="sync-race", corrupt=False)]


import fam_tls as Tl

@plan("P23")
def p23(tier):
    q = tier == "quick"
    ms = [Tl.consts(2, 1, 2, 2, False), Tl.consts(1, 2, 1, 1, False), Tl.consts(3, 0, 0, 0, True)] if q else [Tl.consts(2, 2, 1, 1, False), Tl.consts(3, 1, 2, 2, False), Tl.consts(4, 0, 0, 0, True)]
    return [Part(Tl, models=ms, rand=lambda r, n: Tl.gen(r, n) + Tl.exhaust(r, 2), nrand=120 if q else 2000, variants=("san",) if q else ("san", "o2")),
            Part(Tl, rand=lambda r, n: Tl.free(r, n) + Tl.exhaust(r, 1), nrand=12 if q else 300, variants=("tsan", "plain"), name="tls-free", corrupt=False)]


import fam_atomic as At

@plan("P24")
def p24(tier):
    q = tier == "quick"
    ms = [At.consts(32, 2), At.consts(64, 4), At.consts(0, 4)]
    return [Part(At, models=ms, rand=lambda r, n: At.gen(r, n) + At.races(r, n // 20), nrand=80 if q else 3000, variants=("san", "o2") if q else ("san", "o2", "dbg")),
            Part(At, rand=lambda r, n: At.gen(r, n) + At.races(r, n // 4), nrand=8 if q else 200, variants=("cxx", "plain"), name="atomic-c++", corrupt=False),
            Part(At, rand=lambda r, n: At.races(r, n), nrand=5 if q else 100, variants=("tsan",), name="atomic-tsan", corrupt=False)]


import fam_platform as Pf

@plan("P25")
def p25(tier):
    q = tier == "quick"
    ms = [Pf.consts(2, Pf.PROTS), Pf.consts(3, ("R", "RW")), Pf.consts(term=True)] if q else [Pf.consts(3, Pf.PROTS), Pf.consts(4, ("R", "RX")), Pf.consts(term=True)]
    return [Part(Pf, models=ms, rand=lambda r, n: Pf.gen(r, n), fixed=Pf.FIXED, nrand=100 if q else 3000, variants=("san", "o2") if q else ("san", "o2", "dbg"))]


import fam_libc as Lc

@plan("P26")
def p26(tier):
    q = tier == "quick"
    nl = ("nolibc",) if q else ("nolibc", "nolibc2")
    ms = [Lc.consts(2 if q else 3, (98, 200), "mem"), Lc.consts(2 if q else 3, (98, 200), "str"), Lc.consts(2 if q else 3, (98, 200), "strn"), Lc.consts(3 if q else 4, (97, 98, 200), "tok")]
    m = 40 if q else 1500
    return [Part(Lc, models=ms, rand=lambda r, n: Lc.gen(r, n) + [x for _ in range(n // 80) for x in Lc.wide(r)], nrand=80 if q else 3000, variants=("nolibc", "nolibc2")),
            Part(V, rand=lambda r, n: V.gen(r, n, ops=V.READ + V.EDIT[:-1] + V.SEARCH, faults=0.1, cf=0.1), nrand=m, variants=nl, name="vector-nolibc", corrupt=False),
            Part(L, rand=lambda r, n: L.gen(r, n), nrand=m, variants=nl, name="list-nolibc", corrupt=False),
            Part(St, rand=lambda r, n: St.gen(r, n, views=0.3, looks=0.4, libc=False) + St.gen(r, n // 2, ops=St.NUMS + ("Truncate", "ShrinkToFit"), looks=0.0, libc=False), nrand=m, variants=nl, name="string-nolibc", corrupt=False),
            Part(Bs, rand=lambda r, n: Bs.gen(r, n), nrand=m, variants=nl, name="bitset-nolibc", corrupt=False)]


import fam_helpers as He

@plan("P27")
def p27(tier):
    q = tier == "quick"
    ms = [He.consts(k, not q and k != "compare") for k in ("status", "compare", "arith")]
    return [Part(He, models=ms, rand=lambda r, n: He.gen(r, n), nrand=40 if q else 3000, variants=("san", "o2", "cxx") if q else ("san", "o2", "dbg", "cxx", "nolibc", "nolibc2"))]


import fam_alloc as Al

@plan("P28")
def p28(tier):
    q = tier == "quick"
    M, H, Q = 1000000000, 900000000, 800000001
    ms = [Al.consts((1, 8), (1, 3, M, Q), 2), Al.consts((3,), (1, 2, 5), 3)] if q else [Al.consts((1, 8, 16, Q), (1, 2, 5, M, Q, H), 2), Al.consts((3, 8), (1, 2, 5), 3)]
    return [Part(Al, models=ms, rand=lambda r, n: Al.gen(r, n), fixed=Al.FIXED, nrand=120 if q else 5000, variants=("san", "o2", "dbg")),
            Part(Al, fixed=Al.FIXED, variants=("nolibc",), name="alloc-nolibc", corrupt=False)]


import fam_argparse as Ap
import par

@plan("P29")
def p29(tier):
    q = tier == "quick"
    n = 1 if q else 30
    parts = []
    one, two = {"extra": ("-DZV_THREADS=1",)}, {"extra": ("-DZV_THREADS=2",)}
    vs = ("tsan", "o2") if q else ("tsan", "o2", "san")
    def own(f, gen, k, models=()):
        # different things at the same time, and the same at the same time (whatever is set up on first use)
        rand = lambda r, n: gen(r, n) + [x for x in gen(r, n // 4) for _ in range(par.T)]
        parts.append(Part(f, models=models, rand=rand, nrand=k * n, variants=vs, build=one, par=par.T, name=f.NAME + "-threads"))
    own(V, lambda r, n: V.gen(r, n, faults=0.05, cf=0.1), 48, [] if q else [V.consts(V.CREATE + V.READ + V.EDIT, "CfgsSeq", maxlen=2, maxcap=6)])
    own(L, lambda r, n: L.gen(r, n, faults=0.05, cf=0.1), 48, [L.consts(L.ALL, "CfgsAll", maxlen=2 if q else 3)])
    own(Bs, lambda r, n: Bs.gen(r, n, faults=0.05), 48, [Bs.consts(Bs.CREATE + ("Destroy", "Push", "Pop", "Set", "Flip"), "CfgsOne", maxlen=3 if q else 9)])
    own(St, lambda r, n: St.gen(r, n, views=0.2, looks=0.3) + St.gen(r, n, ops=St.NUMS + ("Fmt", "Truncate"), looks=0.0), 40)
    own(Ap, lambda r, n: Ap.gen(r, n, bad=0.2), 48)
    for f in (V, L, Bs, St):
        parts.append(Part(f, rand=lambda r, n, f=f: par.readers(f.NAME, r, n), nrand=10 * n, variants=("tsan", "o2") if not q else ("tsan",), build=two, par=par.T, name=f.NAME + "-readers", corrupt=False))
    return parts


import fam_types as Ty

@plan("P30")
def p30(tier):
    q = tier == "quick"
    return [Part(Ty, models=[Ty.consts(not q)], rand=lambda r, n: Ty.gen(r, n), nrand=20 if q else 2000, variants=("san", "o2", "nolibc", "nolibc2", "bare", "cxx", "cxxbare"))]

import fam_env as En
@plan("P31")
def p31(tier):
    q = tier == "quick"
    return [Part(En, models=[En.consts(not q)], rand=lambda r, n: En.gen(r, n), nrand=12 if q else 600, variants=("plain",))]
