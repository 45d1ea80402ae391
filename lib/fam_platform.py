"""Memory pages, cache flushing and standard streams for P25."""
NAME = "platform"; DRIVER = "platform"; MC = "MCPlatform"; TRACE = "TracePlatform"; START = None
def to_line(o): return " ".join("%s=%s" % (k, o[k]) for k in ("op", "p", "u", "n", "x", "prot", "g", "s", "e", "kind") if k in o)
def header(rng): return "op=Begin"
KINDS = ("tty", "tty", "pipe", "file", "null", "closed")
PROTS = ("R", "RW", "X", "RX", "RWX")
def gen(rng, n, length=50, term=0.4):
    res = []
    for _ in range(n):
        sc = [header(rng)]
        while len(sc) < length:
            if rng.random() < term:
                k = rng.random()
                if k < 0.3: sc.append("op=Stream s=%d kind=%s" % (rng.randrange(3), rng.choice(KINDS)))
                elif k < 0.75: sc.append("op=IsTTY s=%d e=%d" % (rng.randrange(3), rng.randrange(4)))
                elif k < 0.9: sc.append("op=VT s=%d e=%d" % (rng.choice((0, 1, 1, 2, 2, 3, -1, 77)), rng.randrange(4)))
                else: sc.append("op=Sgr k=%d" % rng.randrange(35))
            else:
                k = rng.random(); p = rng.randint(1, 8)
                r = "p=%d n=%d x=%d u=%d" % (p, rng.choice((0, 1, 1, 2, 3, 7)), rng.choice((0, 0, 0, -1, 1, 100, 4095, -4095)), rng.choice((0, 0, 0, 0, 0, 1, 8, 2048, 4095)))
                if k < 0.35: sc.append("op=Protect %s prot=%s" % (r, rng.choice(PROTS)))
                elif k < 0.42: sc.append("op=Free %s" % r)
                elif k < 0.52: sc.append("op=Flush %s" % r)
                elif k < 0.62: sc.append("op=Map p=%d" % p)
                elif k < 0.72: sc.append("op=Write p=%d g=%d" % (p, rng.randint(1, 100)))
                elif k < 0.97: sc.append("op=Probe p=%d" % p)
                elif k < 0.98: sc.append("op=Huge prot=%s" % rng.choice(PROTS))
                else: sc.append("op=Sizes")
        res.append(sc)
    return res
FIXED = [["op=Begin", "op=Sizes"] + ["op=Huge prot=%s" % p for p in PROTS] + ["op=Sgr k=%d" % k for k in range(35)]]
def c_st(e, r, p):
    if e["op"] in ("Protect", "Free", "VT"): e["st"] = "BAD_SYSTEMCALL" if e["st"] == "SUCCESS" else "SUCCESS"; return True
def c_tty(e, r, p):
    if e["op"] == "IsTTY": e["st"] = {"TRUE": "FALSE", "FALSE": "INVALID_ARGUMENT", "INVALID_ARGUMENT": "FALSE"}[e["st"]]; return True
def c_pg(e, r, p):
    if e["op"] in ("Protect", "Free", "Flush"): i = r.randrange(8); e["pg"][i] = "r--" if e["pg"][i] != "r--" else "rw-"; return True
def c_ct(e, r, p):
    if e["op"] in ("Protect", "Free", "Flush"):
        xs = [i for i in range(8) if e["ct"][i] > 0]
        if xs: e["ct"][r.choice(xs)] = 200; return True
def c_pr(e, r, p):
    if e["op"] == "Probe": k = r.choice("we"); e[k] = not e[k]; return True
def c_sz(e, r, p):
    if e["op"] == "Sizes": k = r.choice("ra"); e[k] *= 2; return True
def c_sgr(e, r, p):
    if e["op"] == "Sgr": e["b"][r.randrange(len(e["b"]))] ^= 1; return True
def c_out(e, r, p):
    if e["op"] in ("VT", "IsTTY"): e["out"] = 4; return True
def c_same(e, r, p):
    if e["op"] in ("VT", "IsTTY"): e["same"] = False; return True
def c_huge(e, r, p):
    if e["op"] == "Huge": e["at"][3] = "---"; return True
def c_guard(e, r, p):
    if "guard" in e: e["guard"] = False; return True
CORRUPT = [("status", c_st), ("terminal", c_tty), ("rights", c_pg), ("contents", c_ct), ("effective rights", c_pr), ("sizes", c_sz), ("sequence", c_sgr), ("output", c_out), ("settings", c_same), ("large range", c_huge), ("pages outside", c_guard)]
def consts(np=3, some=("R", "RW", "X"), term=False):
    return {"NP": np, "Some": set(some), "Term": term}
