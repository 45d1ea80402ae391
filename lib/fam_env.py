"""What compilers make of the headers and sources in other environments, for P31."""
NAME = "env"; DRIVER = "env"; MC = "MCEnv"; TRACE = "TraceEnv"; START = None
from fam_helpers import to_line, header, lst
CC = ("clang", "clangcl", "icx", "icc", "iccold", "iclwin", "gcc", "gxx", "gxxonly", "msvc", "borland", "tcc")
def gen(rng, n, length=40):
    """Further combinations of the dimensions the model goes through two or three at a time."""
    pre = predefined()
    res = []
    for _ in range(n):
        sc = [header(rng)]
        while len(sc) < length:
            o = dict(op="World", cc=rng.choice(CC), os=rng.choice(list(pre["os"])), arch=rng.choice(list(pre["arch"])), kernel=rng.choice(("no", "no", "windows", "apple", "linux")),
                     dbg=rng.choice(list(pre["dbg"])), link=rng.choice(list(pre["link"])))
            if o["os"] in ("emscripten", "wasi", "wasi2"): o["arch"] = rng.choice(("wasm", "wasm2"))
            d = list(pre["cc"][o["cc"]]) + list(pre["os"][o["os"]]) + list(pre["dbg"][o["dbg"]]) + list(pre["link"][o["link"]])
            gnu, ms = pre["arch"][o["arch"]]
            d += gnu + ms if o["cc"] == "clangcl" else ms if o["cc"] in ("iclwin", "msvc", "borland") else gnu
            if o["kernel"] != "no": d.append({"windows": "_KERNEL_MODE=1", "apple": "KERNEL=1", "linux": "__KERNEL__=1"}[o["kernel"]])
            o["defs"] = sorted(set(d), key=lambda x: (rng.random(), x))
            sc.append(to_line(o))
        res.append(sc)
    return res
def predefined():
    """The predefined macros, as the tables of Env.tla give them."""
    import os, re
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "Env.tla")).read()
    def table(name):
        b = re.search(name + r" == \[(.*?)\]\n", t, re.S).group(1)
        return {k: [re.findall(r'"([^"]+)"', s) for s in re.findall(r"\{([^}]*)\}", v)] for k, v in re.findall(r"(\w+)\s*\|->\s*((?:<<.*?>>)|(?:\{[^}]*\}))", b, re.S)}
    return {"cc": {k: v[0] for k, v in table("Compilers").items()}, "os": {k: v[0] for k, v in table("Systems").items()},
            "arch": {k: (v[0], v[1]) for k, v in table("Processors").items()}, "dbg": {k: v[0] for k, v in table("Debugs").items()}, "link": {k: v[0] for k, v in table("Links").items()}}
def c_m(e, r, p):
    if e.get("m"): e["m"].remove(r.choice(e["m"])); return True
def c_m2(e, r, p):
    if e.get("m") and "KERNEL" not in e["m"]: e["m"].append("KERNEL"); return True
def c_ok(e, r, p):
    if "ok" in e: e["ok"] = not e["ok"]; return True
def c_ty(e, r, p):
    if "ty" in e: e["ty"][r.choice(list(e["ty"]))][0] *= 2; return True
def c_lim(e, r, p):
    if "lim" in e: e["lim"][r.choice(list(e["lim"]))][0] += "0"; return True
def c_bad(e, r, p):
    if "bad" in e: e["bad"].append("x"); return True
def c_ex(e, r, p):
    if "ex" in e: e["ex"] = "import" if e["ex"] != "import" else "none"; return True
CORRUPT = [("missing name", c_m), ("additional name", c_m2), ("accepted", c_ok), ("width", c_ty), ("limit", c_lim), ("failing file", c_bad), ("export", c_ex)]
def consts(full): return {"Full": full}
