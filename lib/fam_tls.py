"""Threads and thread-local storage: controlled schedules and free running threads for P23."""
NAME = "tls"; DRIVER = "tls"; MC = "MCTls"; TRACE = "TraceTls"; START = None
def to_line(o): return " ".join("%s=%s" % (k, o[k]) for k in ("op", "t", "k", "v", "d") if k in o)
def header(rng): return "op=Begin"
def gen(rng, n, length=60, free=True):
    res = []
    for _ in range(n):
        sc = [header(rng)]; run = [0]; live = set(); nv = 0
        nk = rng.choice((2, 5, 5)); nt = rng.choice((2, 4))
        while len(sc) < length:
            k = rng.randint(1, nk); t = rng.choice(run); x = rng.random(); nv += 1
            if x < 0.10 and len(run) <= nt:
                u = rng.choice([u for u in range(1, nt + 1) if u not in run]); run.append(u); sc.append("op=Spawn t=%d" % u)
                sc += ["op=Id t=0", "op=Id t=%d" % u]
            elif x < 0.18 and len(run) > 1:
                u = rng.choice(run[1:]); run.remove(u); sc.append("op=Exit t=%d" % u)
            elif x < 0.30: sc.append("op=Alloc t=%d k=%d d=%d" % (t, k, rng.choice((0, 1, 1, 2, 3)))); live.add(k)
            elif x < 0.36: sc.append("op=Free t=%d k=%d" % (t, k)); live.discard(k)
            elif x < 0.62: sc.append("op=Set t=%d k=%d v=%d" % (t, k, rng.choice((0, nv, nv, nv, 7))))
            elif x < 0.86: sc.append("op=Get t=%d k=%d" % (t, k))
            elif x < 0.92: sc.append("op=Id t=%d" % t)
            elif x < 0.95: sc.append("op=Self t=%d" % t)
            elif x < 0.99 and free and len(run) > 2 and set(range(1, 3)) <= set(run):
                th = 2
                while th + 1 in run: th += 1
                sc.append("op=%s threads=%d n=%d seed=%d" % (rng.choice(("Burst", "Storm")), th, rng.choice((8, 25)), rng.randrange(1 << 20)))
            elif x > 0.995: sc.append("op=Exhaust")
        res.append(sc)
    return res
def exhaust(rng, n):
    res = []
    for _ in range(n):
        sc = [header(rng), "op=Spawn t=1", "op=Alloc t=0 k=1 d=1", "op=Set t=1 k=1 v=5", "op=Exhaust", "op=Get t=1 k=1", "op=Alloc t=1 k=2 d=0", "op=Get t=1 k=2", "op=Get t=0 k=2",
              "op=Exhaust", "op=Free t=0 k=1", "op=Exhaust", "op=Exit t=1"]
        res.append(sc)
    return res
def free(rng, n, per=8):
    res = []
    for _ in range(n):
        sc = [header(rng)] + ["op=Spawn t=%d" % t for t in (1, 2, 3, 4)] + ["op=Alloc t=%d k=%d d=%d" % (rng.randint(0, 4), k, rng.randint(0, 3)) for k in range(1, 6) if rng.random() < 0.8]
        for _ in range(per): sc.append("op=%s threads=%d n=%d seed=%d" % (rng.choice(("Burst", "Storm")), rng.choice((2, 4, 4)), rng.choice((10, 40)), rng.randrange(1 << 20)))
        sc += ["op=Id t=%d" % t for t in (0, 1, 2, 3, 4)] + ["op=Exit t=%d" % t for t in (1, 2, 3, 4)]
        res.append(sc)
    return res
def c_get(e, r, p):
    if e["op"] == "Get": e["r"] = 0 if e["r"] else 3; return True
def c_st(e, r, p):
    if e["op"] in ("Set", "Free", "Alloc", "Id"): e["st"] = "BAD_SYSTEMCALL" if e["st"] == "SUCCESS" else "SUCCESS"; return True
def c_fin(e, r, p):
    if e["fin"]: e["fin"] = e["fin"][1:]; return True
def c_fin2(e, r, p):
    if e["fin"]: e["fin"] = e["fin"] + [e["fin"][0]]; return True
def c_fin3(e, r, p):
    if e["fin"]: x = r.choice(e["fin"]); k = r.choice("dtv"); x[k] += 1; return True
def c_fin4(e, r, p):
    if e["op"] in ("Free", "Set", "Exit"): e["fin"] = e["fin"] + [{"d": 1, "t": e["t"], "v": 4711}]; return True
def c_id(e, r, p):
    if e["op"] == "Id" and p["op"] == "Id" and p["t"] != e["t"]: e["r"] = p["r"]; return True
def c_self(e, r, p):
    if e["op"] == "Self": e["r"] = False; return True
def c_ex(e, r, p):
    if e["op"] == "Exhaust":
        k = r.choice("abc"); e[k][r.randrange(e["n"])] = 99999; return True
def c_ex2(e, r, p):
    if e["op"] == "Exhaust": e["ixs"][3] = e["ixs"][r.randrange(4, e["n"])]; return True
def c_ex3(e, r, p):
    if e["op"] == "Exhaust": e["freed"] -= 1; return True
def c_log(e, r, p):
    if e["op"] in ("Burst", "Storm"):
        xs = [x for x in e["log"] if x["f"] == "Get"]
        if xs: r.choice(xs)["v"] += 1000; return True
def c_log2(e, r, p):
    if e["op"] == "Storm":
        xs = [k for k, x in enumerate(e["log"]) if x["f"] == "Alloc"]
        if len(xs) > 1:
            a, b = xs[0], xs[1]
            if not any(x["f"] == "Free" for x in e["log"][a:b]): e["log"][b]["k"] = e["log"][a]["k"]; return True
CORRUPT = [("value", c_get), ("status", c_st), ("destructor call missing", c_fin), ("destructor call twice", c_fin2), ("destructor call wrong", c_fin3), ("destructor call invented", c_fin4),
           ("identifier of another thread", c_id), ("handle", c_self), ("slots mixed up", c_ex), ("same slot twice", c_ex2), ("slot not released", c_ex3), ("free running value", c_log), ("slot shared", c_log2)]
def consts(nt=2, nk=2, nv=1, nd=1, ids=True): return {"NT": nt, "NK": nk, "NV": nv, "ND": nd, "Ids": ids}
