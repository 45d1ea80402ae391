"""ZyanArgParse: scripts, corruptions for P20, P21."""
NAME = "argparse"; DRIVER = "argparse"; MC = "MCArgParse"; TRACE = "TraceArgParse"; START = None
def hx(t): return "".join("%02x" % c for c in t) or "."
def line(op, defs, toks, mn, mx, tok=1, f=0, nodefs=0):
    s = "op=%s min=%d max=%d tok=%d" % (op, mn, mx, tok)
    if toks: s += " toks=" + ",".join(hx(t) for t in toks)
    if defs: s += " defs=" + ",".join("%s:%s%s" % (hx(n), "b" if b else "v", "r" if r else "o") for n, b, r in defs)
    if f: s += " f=%d" % f
    if nodefs: s += " nodefs=1"
    return s
def to_line(o):
    return line(o["op"], [(d["n"], d["b"], d["r"]) for d in o["defs"]], o["toks"], o["min"], o["max"], o["tok"], o["f"], len(o["toks"]) % 2)
def header(rng): return "op=Begin"
def B(s): return [ord(c) for c in s]
NAMES = ["-a", "-b", "-c", "-n", "-x", "-1", "-=", "--a", "--b", "--help", "--hel", "--helper", "--out", "--out-file", "--n", "--=", "--o=1", "---", "----", "--\x7f", "-\xe9", "--\xfe\xff"]
BADN = ["", "-", "a", "ab", "-ab", "help", "-help", "a-", "-a=", "x--"]
WORDS = ["", "-", "x", "file", "a b", "1337", "\xff", "x-y", "=", "/"]
def rand_line(rng, bad, faults, libc=True, huge=False, long=False):
    pool = list(NAMES); rng.shuffle(pool)
    nd = rng.choice((0, 1, 2, 3, 4, 6, 9, 15))
    if rng.random() < (0.6 if long else 0.25):
        # long names that share prefixes, with each other and with the words on the command line
        base = "--" + "".join(rng.choice("abo-=1") for _ in range(rng.choice((1, 5, 14, 30, 62) + (253, 254, 255, 300) * long)))
        pool = [p for p in {base[:k] for k in range(3, len(base) + 1)} | {base + c for c in "abz"}]; rng.shuffle(pool); pool = pool[:9] + NAMES[:4]
        rng.shuffle(pool)
    if huge and rng.random() < 0.5:
        pool = ["--%s%d" % (rng.choice("xyz"), k) for k in range(rng.choice((257, 290)))] + NAMES; rng.shuffle(pool); nd = rng.choice((33, 34, 65, 66, 130, 256, 257, 270))
    defs = [(B(n), rng.random() < 0.5, rng.random() < (0.2 if bad else 0.1) * (15 / nd if nd > 15 else 1)) for n in pool[:nd]]
    if rng.random() < bad * 0.3: defs.insert(rng.randrange(len(defs) + 1), (B(rng.choice(BADN)), rng.random() < 0.5, rng.random() < 0.5))
    toks = [B("prog")]; n = rng.choice((0, 1, 2, 3, 5, 8, 20)) if not huge else rng.choice((100, 300))
    shorts = [d for d in defs if len(d[0]) == 2 and d[0][0] == 45]
    longs = [d for d in defs if d[0][:2] == B("--")]
    while len(toks) <= n:
        k = rng.random()
        if k < 0.3 and longs:
            d = rng.choice(longs); toks.append(list(d[0]))
            if not d[1] and rng.random() > bad * 0.1: toks.append(B(rng.choice(WORDS + NAMES + ["--"])))
        elif k < 0.62 and shorts:
            t = [45]
            for _ in range(rng.choice((1, 1, 2, 3, 6) + (255, 256, 257) * long)):
                d = rng.choice(shorts); t.append(d[0][1])
                if not d[1]:
                    if rng.random() < 0.5: t += B(rng.choice(WORDS)) * (rng.choice((1, 1, 128, 300)) if long else 1) + B("z")
                    break
            toks.append(t)
            if not d[1] and t[-1] == d[0][1] and rng.random() > bad * 0.1: toks.append(B(rng.choice(WORDS + NAMES)))
        elif k < 0.66: toks.append(B("--"))
        elif k < 0.68 + bad * 0.1: toks.append(B(rng.choice(NAMES + ["-ax", "-ba", "--helpx", "--he"])))
        elif k < 0.75: toks.append(B(rng.choice(pool)[:rng.choice((2, 3, 60, 260))] + rng.choice(("", "", "x", "=1"))) if rng.random() < 0.05 + bad / 3 else B(rng.choice(WORDS) * rng.choice((1, 3, 40) + (64, 256, 257) * long)))
        else: toks.append(B(rng.choice(WORDS)))
    if nd > 15 and rng.random() < 0.7:                  # all that is required
        for d in defs:
            if d[2] and rng.random() > bad / 3: toks += [list(d[0])] + ([] if d[1] else [B("v")])
    if rng.random() < 0.02: toks = []
    mx = rng.choice((0, 1, 2, 50, 50)) if rng.random() < bad else 1000; mn = rng.choice((0, 0, 1, 2, 3)) if rng.random() < bad else 0
    return line(rng.choice(("Parse", "ParseEx")), defs, toks, mn, mx, int(rng.random() < 0.9), rng.choice((1, 1, 2, 3)) if rng.random() < faults else 0, int(rng.random() < 0.5))
def gen(rng, n, length=50, bad=0.2, faults=0.0):
    res = []
    for k in range(n):
        sc = [header(rng)]
        while len(sc) < (length if k % 20 else 5): sc.append(rand_line(rng, bad, faults, huge=(k % 20 == 0), long=(k % 5 == 1)) if rng.random() < 0.99 else "op=Null")
        res.append(sc)
    return res
def c_st(e, r, p): e["st"] = "SUCCESS" if e["st"] != "SUCCESS" else "TOO_FEW_ARGS"; return True
def c_st2(e, r, p):
    if e["st"] == "ARG_NOT_UNDERSTOOD": e["st"] = "ARG_MISSES_VALUE"; return True
def c_tok(e, r, p):
    if e.get("tok") and e["st"] != "SUCCESS": e["tok"][-1] ^= 1; return True
def c_told(e, r, p):
    if e["told"]: e["told"] = False; return True
def c_drop(e, r, p):
    if e["out"]: e["out"].pop(r.randrange(len(e["out"]))); return True
def c_def(e, r, p):
    for x in e["out"]:
        if x["d"] > 0: x["d"] += 1; return True
def c_unn(e, r, p):
    for x in e["out"]:
        if x["d"] == 0: x["d"] = 1; return True
def c_hv(e, r, p):
    for x in e["out"]: x["hv"] = not x["hv"]; return True
def c_val(e, r, p):
    for x in e["out"]:
        if x["v"]: x["v"].pop(); return True
def c_at(e, r, p):
    for x in e["out"]:
        if x["hv"]: x["t"] += 1; return True
def c_left(e, r, p): e["left"] += 1; return True
CORRUPT = [("status", c_st), ("error class", c_st2), ("error token", c_tok), ("no error token", c_told), ("entry lost", c_drop), ("definition", c_def), ("unnamed", c_unn), ("has value", c_hv),
           ("value", c_val), ("value position", c_at), ("left memory", c_left)]
def consts(defs, toks, bounds, maxtoks, fronts=("x",), faults=False):
    return {"DefSets": "<- " + defs, "Toks": list(toks), "Bounds": "<- " + bounds, "MaxToks": maxtoks, "Fronts": list(fronts), "Faults": faults}
