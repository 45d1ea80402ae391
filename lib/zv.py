"""Common machinery of all checks: builds the drivers from /repo's working tree, runs TLC on the
bounded models, turns the models' transitions into scripts, runs them on the real code, validates the
recorded behaviours against the TLA+ specifications and writes the evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, glob, atexit
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZV_REPO", "/repo")
SPECS = os.path.join(ROOT, "specs")
DRIVERS = os.path.join(ROOT, "drivers")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))

class ToolError(Exception):
    pass

class Violation:
    def __init__(self, family, variant, script, events, at, text=""):
        self.family, self.variant, self.script, self.events, self.at, self.text = family, variant, script, events, at, text

WORK = tempfile.mkdtemp(prefix="zv-", dir=os.environ.get("ZV_TMP", "/tmp"))
atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ building
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,function", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (compiler, flags)
    "san":      ("clang", ["-O1", "-g"] + SAN),
    "o2":       ("gcc",   ["-O2", "-DNDEBUG"]),
    "dbg":      ("gcc",   ["-O0", "-g"] + ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute", "-fno-sanitize-recover=all"]),
    "nolibc":   ("clang", ["-O1", "-g", "-DZYAN_NO_LIBC", "-fno-builtin"] + SAN),
    "nolibc2":  ("gcc",   ["-O2", "-DZYAN_NO_LIBC", "-fno-builtin"]),
    "tsan":     ("clang", ["-O0", "-g", "-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1"]),
    "plain":    ("gcc",   ["-O1", "-g"]),
    "x86":      ("clang", ["-O1", "-g", "-include", os.path.join(DRIVERS, "x86.h")] + SAN),
    "bare":     ("gcc",   ["-O1", "-g", "-DZYAN_NO_LIBC", "-fno-builtin", "-DZV_BARE"]),
    "cxxbare":  ("gcc",   ["-O1", "-g", "-DZYAN_NO_LIBC", "-DZV_BARE", "-DZV_CXX"]),
    "cxx":      ("gcc",   ["-O2", "-g", "-DZV_CXX"]),     # with <driver>.cpp compiled by g++
}

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

def generated_headers():
    """The headers CMake generates from templates; the drivers use the library statically."""
    return []

_built = {}
def build(driver, variant="san", extra=(), shim=True, sources=None, drv_extra=()):
    """Compiles /repo's library sources and a driver; returns the executable's path."""
    key = (driver, variant, tuple(extra), shim)
    if key in _built:
        return _built[key]
    cc, flags = VARIANTS[variant]
    d = os.path.join(WORK, "b-%s-%s-%d" % (driver, variant, len(_built)))
    os.makedirs(d)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + DRIVERS]
    base = [cc, "-std=c11", "-w", "-D_GNU_SOURCE", "-DZYCORE_STATIC_BUILD"] + flags + list(extra) + inc
    srcs = sources if sources is not None else sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, "l%d.o" % i)
        c = base + (["-include", os.path.join(DRIVERS, "shim.h")] if shim else []) + ["-c", s, "-o", o]
        jobs.append((c, o))
    o = os.path.join(d, "drv.o")
    jobs.append((base + list(drv_extra) + ["-c", os.path.join(DRIVERS, driver + ".c"), "-o", o], o))
    if variant.startswith("cxx"):
        o = os.path.join(d, "cxx.o")
        jobs.append((["g++", "-w", "-DZYCORE_STATIC_BUILD"] + flags + list(extra) + inc + ["-c", os.path.join(DRIVERS, driver + ".cpp"), "-o", o], o))
    def run(j):
        r = sh(j[0])
        if r.returncode:
            raise ToolError("compiling failed: %s\n%s" % (" ".join(j[0]), r.stderr.decode()[-3000:]))
        return j[1]
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(run, jobs))
    exe = os.path.join(d, driver)
    lk = [cc] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-g")] + objs + ["-lpthread", "-o", exe]
    r = sh(lk)
    if r.returncode:
        raise ToolError("linking failed: %s\n%s" % (" ".join(lk), r.stderr.decode()[-3000:]))
    _built[key] = exe
    return exe

# ------------------------------------------------------------------ running drivers
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="halt_on_error=1:report_bugs=1:report_mutex_bugs=0:report_destroy_locked=0")

def script_text(script, sid):
    lines = [script[0] + " id=%d" % sid] + script[1:]
    return "\n".join(lines) + "\n"

def _run_chunk(exe, chunk, timeout):
    """chunk: list of (sid, script). Returns {sid: [events]}; a crash ends the script with a Crash event."""
    res = {}
    todo = list(chunk)
    crashes = 0
    while todo:
        inp = "".join(script_text(s, sid) for sid, s in todo).encode()
        try:
            p = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout, cwd=WORK)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = -999, e.stdout or b"", e.stderr or b""
        cur = None
        for line in out.split(b"\n"):
            if not line.strip():
                continue
            try:
                e = json.loads(line)
            except ValueError:
                if rc == 0:
                    raise ToolError("driver wrote garbage: %r" % line[:200])
                continue
            if e["op"] == "Begin":
                cur = e["id"]; res[cur] = []
            if cur is not None:
                res[cur].append(e)
        if rc == 0:
            missing = [sid for sid, s in todo if sid not in res or len(res[sid]) != len(s)]
            if missing:
                raise ToolError("driver lost events of script %s" % missing[:3])
            return res
        if rc in (76, 77, 78, 79, 80):
            raise ToolError("driver error %d: %s" % (rc, err.decode(errors="replace")[-500:]))
        sid0 = cur if cur is not None else todo[0][0]
        if sid0 not in res:
            res[sid0] = [{"op": "Begin", "id": sid0}]
        sc = dict(todo)[sid0]
        nxt = sc[len(res[sid0])] if len(res[sid0]) < len(sc) else ""
        why = "timeout" if rc == -999 else ("signal %d" % -rc if rc < 0 else "exit %d" % rc)
        m = re.search(rb"(SUMMARY: .*|.*runtime error: .*|.*assert.*|WARNING: ThreadSanitizer.*)", err, re.I)
        res[sid0].append({"op": "Crash", "why": why, "during": nxt, "info": (m.group(1).decode(errors="replace")[:300] if m else "")})
        k = [i for i, (sid, _) in enumerate(todo) if sid == sid0][0]
        todo = todo[k + 1:]
        crashes += 7 if rc in (-999, -14) else 1
        if crashes > 20:
            for sid, s in todo:
                res.setdefault(sid, None)
            return {k: v for k, v in res.items() if v}
    return res

def run_driver(exe, scripts, timeout=240, procs=None):
    """Runs the scripts; returns the list of event lists (None: not run)."""
    procs = procs or NCPU
    items = list(enumerate(scripts))
    n = max(1, min(procs, len(items)))
    chunks = [items[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda c: _run_chunk(exe, c, timeout), chunks))
    res = {}
    for p in parts:
        res.update(p)
    return [res.get(i) for i in range(len(scripts))]

def _run_groups(exe, groups, timeout):
    """groups: lists of (sid, script) whose scripts run in threads of their own. `op=Fork` in a script: the lines up
    to there are the same in all scripts of the group and run once."""
    res = {}; todo = list(groups); crashes = 0
    while todo and crashes <= 6:
        inp = []
        for g in todo:
            inp.append("op=Group n=%d" % len(g))
            if "op=Fork" in g[0][1]:
                k = g[0][1].index("op=Fork")
                inp += [g[0][1][0] + " id=%d" % g[0][0]] + g[0][1][1:k]
                for _, s in g: inp += s[k:]
            else:
                for sid, s in g: inp += [s[0] + " id=%d" % sid] + s[1:]
        try:
            p = subprocess.run([exe], input=("\n".join(inp) + "\n").encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout, cwd=WORK)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = -999, e.stdout or b"", e.stderr or b""
        if rc in (76, 77, 78, 79, 80):
            raise ToolError("driver error %d: %s" % (rc, err.decode(errors="replace")[-500:]))
        parts = []                      # the recordings, in the order of the input
        for line in out.split(b"\n"):
            if not line.strip(): continue
            try: e = json.loads(line)
            except ValueError:
                if rc == 0: raise ToolError("driver wrote garbage: %r" % line[:200])
                continue
            if e["op"] in ("Begin", "Fork"): parts.append([])
            parts[-1].append(e)
        k = 0; done = 0
        for g in todo:
            fork = "op=Fork" in g[0][1]
            need = len(g) + (1 if fork else 0)
            if k + need > len(parts): break
            mine = parts[k:k + need]; k += need
            got = {sid: (mine[0] + mine[n + 1][1:] if fork else mine[n]) for n, (sid, s) in enumerate(g)}
            if any(len(got[sid]) != len([l for l in s if l != "op=Fork"]) for sid, s in g): break
            res.update(got); done += 1
        if rc == 0 and done == len(todo): return res
        if rc == 0: raise ToolError("the driver lost events of a group")
        m = re.search(rb"(SUMMARY: .*|.*runtime error: .*|.*assert.*|WARNING: ThreadSanitizer.*)", err, re.I)
        why = "timeout" if rc in (-999, -14) else ("signal %d" % -rc if rc < 0 else "exit %d" % rc)
        for n, (sid, s) in enumerate(todo[done]):
            res[sid] = [{"op": "Begin", "id": sid}] + ([] if n else [{"op": "Crash", "why": why, "during": "threads", "info": m.group(1).decode(errors="replace")[:300] if m else ""}])
        todo = todo[done + 1:]; crashes += 1
    for g in todo:
        for sid, s in g: res.setdefault(sid, [{"op": "Begin", "id": sid}])
    return res

def run_par(exe, scripts, par, timeout=240, procs=5):
    """Runs `par` scripts at a time in the threads of one process."""
    items = list(enumerate(scripts))
    groups = [items[i:i + par] for i in range(0, len(items), par)]
    n = max(1, min(procs, len(groups)))
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda c: _run_groups(exe, c, timeout), [groups[i::n] for i in range(n)]))
    res = {}
    for p in parts: res.update(p)
    return [res.get(i) for i in range(len(scripts))]

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, workers=4, env=None, timeout=800, heap="3g", extra=()):
    """Runs TLC on specs/<module>.tla with the given configuration text."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    for f in glob.glob(os.path.join(SPECS, "*.tla")):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    open(os.path.join(d, module + ".cfg"), "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d, "-cp", TLA_JARS, "tlc2.TLC", "-deadlock", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    out = p.stdout.decode(errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
    if p.returncode != 0 or "No error has been found" not in out or not m:
        tail = "\n".join(l for l in out.split("\n") if l.strip() and not l.startswith(('"{', "Parsing", "Semantic proc", "Running", "TLC2")))[-2500:]
        raise ToolError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, tail))
    return out, int(m[-1][0]), int(m[-1][1])

def cfg_text(constants, spec="Spec", props=(), invs=(), view=None):
    t = "SPECIFICATION %s\n" % spec
    for k, v in constants.items():
        if isinstance(v, str) and v.startswith("<-"):
            t += "CONSTANT %s %s\n" % (k, v)
        else:
            t += "CONSTANT %s = %s\n" % (k, tla(v))
    for p in props: t += "PROPERTY %s\n" % p
    for i in invs: t += "INVARIANT %s\n" % i
    if view: t += "VIEW %s\n" % view
    return t

def tla(v):
    if v is True: return "TRUE"
    if v is False: return "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (list, set, tuple)): return "{" + ", ".join(tla(x) for x in (sorted(v) if isinstance(v, set) else v)) + "}"
    raise ValueError(v)

# ------------------------------------------------------------------ model exploration -> scripts
class Graph:
    def __init__(self):
        self.out = {}      # state -> list of (op record, target, deterministic)
        self.n = 0
        self.first = None  # the initial state: source of the first transition printed

def explore(module, constants, props=("Lawful",), invs=("TypeInv",), view="View", workers=4, timeout=800):
    """Explores the bounded model; returns (graph of all transitions, generated, distinct)."""
    c = dict(constants, Emit=True)
    out, gen, dist = tlc(module, cfg_text(c, props=props, invs=invs, view=view), workers=workers, timeout=timeout)
    g = Graph(); seen = set()
    for line in out.split("\n"):
        if not line.startswith('"{'):
            continue
        e = json.loads(json.loads(line))
        e["s"] = json.dumps(e["s"], sort_keys=True); e["t"] = json.dumps(e["t"], sort_keys=True)
        key = (e["s"], json.dumps(e["o"], sort_keys=True), e["t"])
        if key in seen:
            continue
        seen.add(key)
        g.first = g.first or e["s"]
        g.out.setdefault(e["s"], []).append((e["o"], e["t"], e["n"] == 1))
        g.out.setdefault(e["t"], [])
        g.n += 1
    # the order in which TLC's workers find the transitions must not matter
    g.out = {k: sorted(g.out[k], key=lambda x: (json.dumps(x[0], sort_keys=True), x[1])) for k in sorted(g.out)}
    return g, gen, dist

def cover(g, start, to_line, header, rng, maxlen=60):
    """Scripts that together walk every transition of the graph (each operation in each state).
    After a transition with several allowed outcomes a script ends: the outcome is the code's choice."""
    # one uncovered entry per (state, op): different outcomes of one operation need one attempt only
    todo = {}
    for s, es in g.out.items():
        m = {}
        for o, t, det in es:
            k = json.dumps(o, sort_keys=True)
            m.setdefault(k, (o, t, det))
        lst = list(m.values()); rng.shuffle(lst)
        todo[s] = lst
    scripts = []
    remaining = sum(len(v) for v in todo.values())
    walked = attempted = 0
    # deterministic steps, for walking on to a nearby state that still has something to do
    step = {u: {t: o for o, t, d in es if d and t != u} for u, es in g.out.items()}
    def nearby(u, limit=800, depth=8):
        par = {u: None}; q = [u]; lvl = {u: 0}
        for x in q:
            if x != u and todo[x]:
                path = []
                while par[x]:
                    path.append((par[x][1], x)); x = par[x][0]
                return path[::-1]
            if lvl[x] == depth: continue
            for t, o in step[x].items():
                if t not in par:
                    par[t] = (x, o); lvl[t] = lvl[x] + 1; q.append(t)
                    if len(q) > limit: return None
        return None
    for phase in (1, 2):
        # phase 2: states only reachable through outcomes that are the code's choice: try each outcome
        parent = {start: None}; order = [start]
        for u in order:
            for o, t, d in g.out[u]:
                if t not in parent and (d or phase == 2):
                    parent[t] = (u, o); order.append(t)
        for target in order:
            while todo[target]:
                path = []; x = target
                while parent[x]:
                    path.append(parent[x][1]); x = parent[x][0]
                sc = [header]
                for o in reversed(path): sc += to_line(o).split("\n")
                cur = target
                while cur is not None and len(sc) < maxlen:
                    if not todo[cur]:
                        way = nearby(cur)
                        if not way: break
                        for o, x in way: sc += to_line(o).split("\n"); cur = x
                    # everything that stays here first, then one that leaves
                    k = next((i for i, e in enumerate(todo[cur]) if e[2] and e[1] == cur), None)
                    e = todo[cur].pop(k if k is not None else -1)
                    remaining -= 1
                    if phase == 1: walked += 1
                    else: attempted += 1
                    sc += to_line(e[0]).split("\n")
                    cur = e[1] if e[2] else None
                scripts.append(sc)
    return scripts, walked, attempted + remaining

# ------------------------------------------------------------------ trace validation
def validate(module, event_lists, constants=None, workers=2, jvms=4, timeout=800):
    """Validates event lists against the trace specification; returns {list index: event index rejected}."""
    idx = [i for i, e in enumerate(event_lists) if e]
    if not idx:
        return {}, 0
    total = sum(len(event_lists[i]) for i in idx)
    jvms = max(1, min(jvms, 1 + total // 4000))
    # balance by number of events
    groups = [[] for _ in range(jvms)]; load = [0] * jvms
    for i in sorted(idx, key=lambda i: -len(event_lists[i])):
        k = load.index(min(load)); groups[k].append(i); load[k] += len(event_lists[i])
    def one(k):
        if not groups[k]:
            return {}, 0
        f = os.path.join(WORK, "trace-%d-%d.ndjson" % (k, random.getrandbits(40)))
        pos = []
        with open(f, "w") as h:
            for i in groups[k]:
                for j, e in enumerate(event_lists[i]):
                    h.write(json.dumps(e) + "\n"); pos.append((i, j))
        out, gen, dist = tlc(module, cfg_text(constants or {}), workers=workers, env={"TRACE": f}, timeout=timeout)
        os.remove(f)
        rej = {}
        for m in re.finditer(r'<<"REJECT", (\d+)>>', out):
            i, j = pos[int(m.group(1)) - 1]
            rej[i] = min(j, rej.get(i, j))
        # every line of an accepted script is one state
        expect = sum((rej[i] + 1) if i in rej else len(event_lists[i]) for i in groups[k])
        if dist != expect:
            raise ToolError("trace validation of %s visited %d states, expected %d" % (module, dist, expect))
        return rej, dist
    rejected, states = {}, 0
    with ThreadPoolExecutor(jvms) as ex:
        for r, s in ex.map(one, range(jvms)):
            rejected.update(r); states += s
    return rejected, states

# ------------------------------------------------------------------ binding self-check
def corrupt_some(event_lists, corruptors, rng, per=6, maxlen=40):
    """Copies of recorded behaviours with one observation falsified; all of them must be rejected."""
    out = []
    cand = [e for e in event_lists if e and len(e) > 1]
    for name, fn in corruptors:
        tries, got = 0, 0
        while got < per and tries < 400 and cand:
            tries += 1
            ev = cand[rng.randrange(len(cand))]
            j = rng.randrange(1, min(len(ev), maxlen))
            e = json.loads(json.dumps(ev[j]))
            if e["op"] in ("Skip", "Crash", "Begin"):
                continue
            r = fn(e, rng, ev[j - 1])
            if r is None or r is False or e == ev[j]:
                continue
            out.append((name, ev[:j] + [e])); got += 1
    return out

# ------------------------------------------------------------------ reporting
def write_evidence(pid, ev):
    d = os.path.join(ROOT, "evidence"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as h:
        json.dump(ev, h, indent=1); h.write("\n")
    os.replace(p + ".tmp", p)

def known_findings(pid):
    """Entries `known: property=<id> <regular expression matching the report>` of KNOWN_FINDINGS."""
    res = []
    try:
        for line in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append(m.group(2))
    except OSError:
        pass
    return res

def save_replay(pid, n, v):
    d = os.path.join(ROOT, "out", pid); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "replay-%d.json" % n)
    json.dump({"property": pid, "family": v.family, "variant": v.variant, "script": v.script,
               "events": v.events, "rejected_event": v.at, "note": v.text}, open(p, "w"), indent=1)
    return p
