"""Critical sections: controlled schedules and free running histories for P22."""
NAME = "sync"; DRIVER = "sync"; MC = "MCSync"; TRACE = "TraceSync"; START = None
def to_line(o): return "op=%s t=%d s=%d" % (o["op"], o["t"], o["s"])
def header(rng): return "op=Begin"
def gen(rng, n, length=45, threads=4):
    """Random schedules that do not let threads wait in circles (tracked here only to keep the scripts useful)."""
    res = []
    for _ in range(n):
        sc = [header(rng), "op=Create s=1", "op=Create s=2"]
        own = {1: None, 2: None}; d = {1: 0, 2: 0}; wait = {1: [], 2: []}
        nt = rng.choice((2, 3, threads)); secs = rng.choice(((1,), (1, 2), (2,)))
        while len(sc) < length:
            free = [t for t in range(1, nt + 1) if t not in wait[1] + wait[2]]
            if not free: break
            t = rng.choice(free); s = rng.choice(secs); k = rng.random()
            if k < 0.5:
                for q in secs:
                    if own[q] == t and rng.random() < 0.5: s = q
                sc.append("op=Leave t=%d s=%d" % (t, s))
                if own[s] == t:
                    d[s] -= 1
                    if d[s] == 0:
                        own[s] = None
                        if wait[s]: own[s] = wait[s].pop(0); d[s] = 1
            elif k < 0.7:
                sc.append("op=Try t=%d s=%d" % (t, s))
                if own[s] in (None, t): own[s] = t; d[s] += 1
            else:
                if own[s] not in (None, t) and any(own[q] == t for q in (1, 2) if q != s): continue
                if d[s] > 5: continue
                sc.append("op=Enter t=%d s=%d" % (t, s))
                if own[s] in (None, t): own[s] = t; d[s] += 1
                else: wait[s].append(t)
        res.append(sc)
    return res
def races(rng, n, per=6, length=8, burst=2000):
    res = []
    for _ in range(n):
        sc = [header(rng), "op=Create s=1", "op=Create s=2"]
        for _ in range(per):
            sc.append("op=Race threads=%d n=%d seed=%d one=%d" % (rng.choice((2, 3, 3, 4)), rng.choice((length, 2 * length)), rng.randrange(1 << 20), rng.choice((0, 1, 1))))
        if burst: sc.append("op=Burst threads=%d n=%d seed=%d" % (rng.choice((2, 4)), burst, rng.randrange(1 << 20)))
        sc += ["op=Delete s=1", "op=Create s=1", "op=Burst threads=3 n=50 seed=%d" % rng.randrange(1 << 20), "op=Delete s=2", "op=Delete s=1"]
        res.append(sc)
    return res
def deep(rng, n, depth=300):
    """Deep recursion: the section is free only after as many releases as there were entries."""
    res = []
    for _ in range(n):
        d = rng.choice((70, 130, 260, depth)); s = rng.choice((1, 2))
        sc = [header(rng), "op=Create s=1", "op=Create s=2"] + ["op=%s t=1 s=%d" % (rng.choice(("Enter", "Try")), s) for _ in range(d)]
        sc += ["op=Try t=2 s=%d" % s, "op=Leave t=2 s=%d" % s, "op=Try t=3 s=%d" % (3 - s)] + ["op=Leave t=1 s=%d" % s] * (d - 2)
        sc += ["op=Enter t=2 s=%d" % s, "op=Leave t=1 s=%d" % s, "op=Enter t=3 s=%d" % s, "op=Leave t=1 s=%d" % s, "op=Try t=1 s=%d" % s, "op=Leave t=2 s=%d" % s, "op=Leave t=3 s=%d" % s, "op=Leave t=1 s=%d" % s, "op=Try t=4 s=%d" % s]
        res.append(sc)
    return res
def patient(ms):
    """A thread waits for a long time, the owner does not leave."""
    return [[header(None), "op=Create s=1", "op=Create s=2", "op=Enter t=1 s=1", "op=Enter t=1 s=1", "op=Enter t=2 s=1", "op=Wait ms=%d" % ms, "op=Try t=3 s=1", "op=Leave t=1 s=1", "op=Wait ms=%d" % (ms // 3), "op=Enter t=3 s=1", "op=Wait ms=%d" % (ms // 3),
             "op=Leave t=1 s=1", "op=Wait ms=50", "op=Try t=1 s=1", "op=Leave t=2 s=1", "op=Leave t=3 s=1", "op=Try t=1 s=1", "op=Leave t=1 s=1"]]
def c_st(e, r, p):
    if e["op"] in ("Enter", "Try", "Leave"):
        e["st"] = {"SUCCESS": "BLOCKED" if e["op"] == "Enter" else "INVALID_OPERATION", "BLOCKED": "SUCCESS", "TRUE": "FALSE", "FALSE": "TRUE", "INVALID_OPERATION": "SUCCESS"}[e["st"]]; return True
def c_back(e, r, p):
    if e["back"]: e["back"] = []; return True
def c_back2(e, r, p):
    if e["op"] in ("Enter", "Leave") and not e["back"]: e["back"] = [{"t": 5 - e["t"], "s": e["s"], "st": "SUCCESS"}]; return True
def c_cnt(e, r, p):
    if e["op"] in ("Race", "Burst"): e["c1"] -= 1; return True
def c_race(e, r, p):
    if e["op"] == "Race":
        xs = [x for x in e["log"] if not x["inv"] and x["f"] == "Leave"]
        if xs: x = r.choice(xs); x["r"] = "SUCCESS" if x["r"] != "SUCCESS" else "INVALID_OPERATION"; return True
def c_race2(e, r, p):
    if e["op"] == "Race":
        xs = [k for k, x in enumerate(e["log"]) if x["inv"] and x["f"] == "Enter"]
        if xs:
            k = xs[-1]; t = e["log"][k]["t"]; del e["log"][k]
            for j in range(k, len(e["log"])):
                if e["log"][j]["t"] == t: del e["log"][j]; break
            return True
CORRUPT = [("result", c_st), ("wake-up lost", c_back), ("wake-up invented", c_back2), ("entries counted", c_cnt), ("leave in a race", c_race), ("entry missing in a race", c_race2)]
def consts(nt=3, nsec=1, maxd=2): return {"NT": nt, "NSec": nsec, "MaxD": maxd}
