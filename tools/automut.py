#!/usr/bin/env python3
"""Systematic one-token changes of the library (operators, constants, conditions, dropped statements): which of them do
the scripts of the quick checks tell apart from the original, and does the specification reject what they record?
tools/automut.py capture PID...            keeps the scripts and recordings of the unchanged tree in /tmp/automut
tools/automut.py run FILE PID... [-jN]     mutates FILE (relative to the repository) and replays PID's scripts on each
Prints the survivors; a line-by-line look decides whether they are equivalent."""
import json, os, pickle, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
STORE = "/tmp/automut"

def capture(pids):
    import zv, run, plans
    os.makedirs(STORE, exist_ok=True)
    class Got(Exception): pass
    def steal(exe, scripts, procs=None, timeout=0): raise Got(scripts)
    orig = zv.run_driver
    for pid in pids:
        rng = random.Random("%s-1-quick" % pid); out = []
        for part in plans.PLANS[pid]("quick"):
            if part.par or getattr(part.family, "CONCURRENT", False): continue
            zv.run_driver = steal
            try: run.run_part(pid, part, rng, "quick", run.Result()); continue
            except Got as g: scripts = g.args[0]
            zv.run_driver = orig
            v = part.variants[0]
            exe = zv.build(part.driver, v, **(part.build or {}))
            a = zv.run_driver(exe, scripts); b = zv.run_driver(exe, scripts)
            keep = [i for i in range(len(scripts)) if a[i] == b[i]]
            print(pid, part.name, v, len(scripts), "scripts,", len(keep), "deterministic", flush=True)
            out.append({"driver": part.driver, "variant": v, "build": part.build or {}, "trace": part.trace, "consts": part.trace_consts,
                        "scripts": [scripts[i] for i in keep], "events": [a[i] for i in keep], "name": part.name})
        pickle.dump(out, open("%s/%s.pkl" % (STORE, pid), "wb"))

REPL = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<\-=>])<(?![<=])", ["<=", ">"]), (r"(?<![>\-=])>(?![>=])", [">=", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
        (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]), (r"(?<![+\w])\+(?![+=])|(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]),
        (r"(?<= )\*(?= )", ["/", "+"]), (r"(?<= )/(?= )", ["*"]), (r"(?<= )%(?= )", ["/"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<= )&(?= )", ["|"]), (r"(?<= )\|(?= )", ["&", "^"]), (r"(?<= )\^(?= )", ["|"]),
        (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["&=", "^="]), (r"&=", ["|="]), (r"\b0\b(?!x)", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b([2-9]|[1-9]\d+)\b", ["@+1", "@-1"]),
        (r"!(?=[\w(])", [""]), (r"ZYAN_STATUS_TRUE", ["ZYAN_STATUS_FALSE"]), (r"ZYAN_STATUS_FALSE", ["ZYAN_STATUS_TRUE"]), (r"ZYAN_STATUS_(?!TRUE|FALSE|SUCCESS)\w+", ["ZYAN_STATUS_SUCCESS", "ZYAN_STATUS_FAILED"]),
        (r"ZYAN_STATUS_SUCCESS", ["ZYAN_STATUS_TRUE"]), (r"ZYAN_TRUE", ["ZYAN_FALSE"]), (r"ZYAN_FALSE", ["ZYAN_TRUE"]), (r"\bcapacity\b", ["size"]), (r"->size\b", ["->capacity"]), (r"->next\b", ["->prev"]), (r"->prev\b", ["->next"]),
        (r"->head\b", ["->tail"]), (r"->tail\b", ["->head"]), (r"\bindex\b", ["(index + 1)", "0"]), (r"\bcount\b", ["(count + 1)", "(count - 1)"]), (r"ZYAN_MIN\(", ["ZYAN_MAX("]), (r"ZYAN_MAX\(", ["ZYAN_MIN("]),
        (r"\bsource\b", ["destination"]), (r"\bdestination\b", ["source"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"])]

def mutants(path):
    text = open(path).read(); lines = text.split("\n"); out = []
    comment = False; depth = 0
    for n, line in enumerate(lines):
        s = line.strip()
        if comment or s.startswith(("/*", "*", "//")):
            comment = ("/*" in s or comment) and "*/" not in s; continue
        macro = path.endswith(".h") and (s.startswith("#define") or n and lines[n - 1].endswith("\\"))
        if not s or s.startswith("#") and not macro:
            continue
        inside = depth > 0
        depth += line.count("{") - line.count("}")
        if not inside and not macro: continue
        if s.startswith("ZYAN_ASSERT"): continue
        code = line.split("//")[0]
        for pat, reps in REPL:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                for r in reps:
                    if r == "@+1": r = str(int(m.group(0)) + 1)
                    if r == "@-1": r = str(int(m.group(0)) - 1)
                    if macro and s.startswith("#define") and m.start() < len(re.match(r"\s*#define\s+\w+(\([^)]*\))?", code).group(0)): continue
                    new = code[:m.start()] + r + code[m.end():]
                    if line.endswith("\\") and not new.endswith("\\"): continue
                    if new != code: out.append((n, new))
        m = re.match(r"^(\s*)(else )?(if|while) \((.*)\)$", code)
        if m:
            for c in (("0", "1") if m.group(3) == "if" else ("0",)): out.append((n, "%s%s%s (%s)" % (m.group(1), m.group(2) or "", m.group(3), c)))
        if re.match(r"^\s+[\w(*+\-].*;$", code) and not re.match(r"^\s+(const )?Zyan\w+\*?\s+(const)?\s*\w+( = .*)?;$", code) and code.count("(") == code.count(")"):
            out.append((n, re.match(r"^\s*", code).group(0) + ("break;" if False else ";")))
    seen = set(); res = []
    for n, new in out:
        if (n, new) not in seen: seen.add((n, new)); res.append((n, new))
    return lines, res

def run(file, pids, jobs):
    import zv, glob
    repo = zv.REPO; path = os.path.join(repo, file)
    lines, muts = mutants(path)
    parts = []
    for pid in pids: parts += [dict(p, pid=pid) for p in pickle.load(open("%s/%s.pkl" % (STORE, pid), "rb"))]
    for p in parts:
        zv.build(p["driver"], p["variant"], **p["build"])      # compiled once; the mutated unit replaces one object
        p["dir"] = os.path.dirname(zv.build(p["driver"], p["variant"], **p["build"]))
        order = sorted(range(len(p["scripts"])), key=lambda i: (i * 7919) % 10007)
        p["order"] = order
    srcs = sorted(glob.glob(os.path.join(repo, "src", "**", "*.c"), recursive=True)); header = path not in srcs
    k = -1 if header else srcs.index(path)
    ENV = zv.ENV
    def one(job):
        num, (n, new) = job
        d = "%s/m%d" % (STORE, num); os.makedirs(d, exist_ok=True)
        src = os.path.join(os.path.dirname(path), "zv_mut_%d.c" % num)
        src = os.path.join(d, os.path.basename(path))
        open(src, "w").write("\n".join(lines[:n] + [new] + lines[n + 1:]))
        try:
            diffs = {}
            exes = {}
            for p in parts:
                cc, flags = zv.VARIANTS[p["variant"]]; key = p["dir"]
                if key not in exes and header:
                    extra = list(p["build"].get("extra", ())); inc = d + "/include"
                    if not os.path.isdir(inc): shutil.copytree(repo + "/include", inc); shutil.copy(src, os.path.join(d, file))
                    shim = ["-include", zv.DRIVERS + "/shim.h"] if p["build"].get("shim", True) else []
                    drv = zv.DRIVERS + "/" + p["driver"] + (".c")
                    base = [cc, "-std=c11", "-w", "-D_GNU_SOURCE", "-DZYCORE_STATIC_BUILD"] + flags + extra + ["-I" + inc, "-I" + repo + "/src", "-I" + zv.DRIVERS]
                    objs = []
                    for c in srcs + [drv]:
                        ob = "%s/h%d.o" % (d, len(objs)); objs.append(ob)
                        r = zv.sh(base + (shim if c != drv else []) + ["-c", c, "-o", ob])
                        if r.returncode: return num, "nocompile", None
                    if p["variant"].startswith("cxx"):
                        ob = d + "/hx.o"; objs.append(ob)
                        r = zv.sh(["g++", "-w", "-DZYCORE_STATIC_BUILD"] + flags + extra + ["-I" + inc, "-I" + zv.DRIVERS, "-c", zv.DRIVERS + "/" + p["driver"] + ".cpp", "-o", ob])
                        if r.returncode: return num, "nocompile", None
                    exe = d + "/x%d" % len(exes)
                    r = zv.sh([cc] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-g")] + objs + ["-lpthread", "-o", exe])
                    if r.returncode: return num, "nocompile", None
                    exes[key] = exe
                if key not in exes:
                    extra = list(p["build"].get("extra", ()))
                    r = zv.sh([cc, "-std=c11", "-w", "-D_GNU_SOURCE", "-DZYCORE_STATIC_BUILD"] + flags + extra + ["-I" + repo + "/include", "-I" + repo + "/src", "-I" + os.path.dirname(path), "-I" + zv.DRIVERS,
                               "-include", zv.DRIVERS + "/shim.h", "-c", src, "-o", d + "/m.o"])
                    if r.returncode: return num, "nocompile", None
                    objs = [o for o in sorted(glob.glob(key + "/*.o")) if os.path.basename(o) != "l%d.o" % k] + [d + "/m.o"]
                    exe = d + "/x%d" % len(exes)
                    r = zv.sh([cc] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-g")] + objs + ["-lpthread", "-o", exe])
                    if r.returncode: return num, "nocompile", None
                    exes[key] = exe
            # 300 scripts of each part first
            bad = []
            for lo, hi in ((0, 150), (150, 10 ** 9)):
                for p in parts:
                    ids = p["order"][lo:hi]
                    for c in range(0, len(ids), 3000):
                        chunk = ids[c:c + 3000]
                        inp = "".join(zv.script_text(p["scripts"][i], i) for i in chunk).encode()
                        with open(d + "/in", "wb") as f: f.write(inp)
                        try:
                            with open(d + "/in", "rb") as fi, open(d + "/out", "wb") as fo:
                                q = subprocess.run(["prlimit", "--fsize=600000000", "--cpu=60", exes[p["dir"]]], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, env=ENV, timeout=90, cwd=d); rc = q.returncode
                        except subprocess.TimeoutExpired: rc = -999
                        if rc == 0:
                            with open(d + "/out", "rb") as f: o = f.read()
                        if rc in (-999, -14, -9, -24, -25): return num, "timeout", p["pid"]
                        if rc != 0: return num, "crash", p["pid"]
                        got = {}; cur = None
                        for l in o.split(b"\n"):
                            if not l.strip(): continue
                            try: e = json.loads(l)
                            except ValueError: return num, "garbage", p["pid"]
                            if e["op"] == "Begin": cur = e["id"]; got[cur] = []
                            got[cur].append(e)
                        for i in chunk:
                            want = p["events"][i]
                            g = got.get(i)
                            # ids of the recorded run are the positions of the captured list
                            if g is None or [dict(e, id=0) for e in g] != [dict(e, id=0) for e in want]:
                                bad.append((p, g or []))
                                if len(bad) >= 6: return num, "differs", bad
                if bad: return num, "differs", bad
            return num, "SURVIVES", None
        finally:
            shutil.rmtree(d, ignore_errors=True)
    t0 = time.time(); res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for num, st, x in ex.map(one, list(enumerate(muts))):
            res[num] = (st, x)
            if num % 200 == 199: print("  %d of %d, %.0fs" % (num + 1, len(muts), time.time() - t0), flush=True)
    # does the specification reject what the different ones recorded?
    groups = {}
    for num, (st, bad) in res.items():
        if st != "differs": continue
        for p, ev in bad: groups.setdefault(p["trace"], (p, []))[1].append((num, ev))
    rejected = set()
    for tr, (p, lst) in groups.items():
        for c in range(0, len(lst), 4000):
            sub = lst[c:c + 4000]
            rej, _ = zv.validate(tr, [e for _, e in sub], p["consts"])
            for i in rej: rejected.add(sub[i][0])
    count = {}
    for num, (n, new) in enumerate(muts):
        st, x = res[num]
        if st == "differs" and num not in rejected: st = "ACCEPTED"
        count[st] = count.get(st, 0) + 1
        if st in ("SURVIVES", "ACCEPTED"):
            print("%s %s:%d\n  - %s\n  + %s" % (st, file, n + 1, lines[n].strip(), new.strip()))
    print(file, count, "%.0fs" % (time.time() - t0))

if __name__ == "__main__":
    a = sys.argv[1:]
    j = [int(x[2:]) for x in a if x.startswith("-j")]; a = [x for x in a if not x.startswith("-j")]
    if a[0] == "capture": capture(a[1:])
    else: run(a[1], a[2:], j[0] if j else 8)
