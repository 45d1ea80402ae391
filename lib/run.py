"""Runs one property's check: explores the bounded TLA+ model(s), replays every transition and seeded
random histories on the real code, and validates everything recorded against the specification."""
import json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import zv

class Part:
    """family: module with DRIVER, TRACE, MC, to_line(o), header(rng), CORRUPT
    models:  list of constant dictionaries for the bounded model (each is explored and replayed)
    rand:    function rng, n -> list of scripts
    """
    def __init__(self, family, models=(), rand=None, nrand=0, variants=("san",), build=None, mc=None, trace=None,
                 trace_consts=None, corrupt=True, driver=None, props=("Lawful",), invs=("TypeInv",), procs=None, name=None,
                 fixed=(), repeat=1, par=0, live=()):
        self.__dict__.update(locals()); del self.self
        self.mc = mc or getattr(family, "MC", None)
        self.trace = trace or getattr(family, "TRACE", None)
        self.driver = driver or family.DRIVER
        self.name = name or family.NAME

class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.mstates = self.mtrans = self.live = 0
        self.samples = []; self.ops = {}; self.violations = []; self.notes = []
        self.self_checks = 0; self.unwalked = 0; self.edges = 0

def short(e):
    return json.dumps(e, separators=(",", ":"))[:400]

def run_part(pid, part, seed, tier, res):
    fam = part.family
    # what one step draws does not depend on the others: the same seed gives the same histories
    def own(what): return random.Random("%s-%d-%s-%s-%s" % (pid, seed, tier, part.name, what))
    rng = own("cover")
    t0 = time.time()
    scripts = list(part.fixed)
    with ThreadPoolExecutor(8) as ex:
        # one build after the other compiles in parallel already
        fb = ex.submit(lambda: [zv.build(part.driver, v, **(part.build or {})) for v in part.variants])
        fm = [ex.submit(zv.explore, part.mc, dict(m), part.props, part.invs, "View", 4 if len(part.models) < 3 else 3) for m in part.models]
        fl = [ex.submit(zv.tlc, part.mc, zv.cfg_text(dict(m, Emit=False), spec="LiveSpec", props=(p,))) for m, p in part.live]
        graphs = [f.result() for f in fm]
        for f in fl:
            _, gen, dist = f.result(); res.live += dist
        exes = fb.result()
    start = getattr(fam, "START", None)
    for (g, gen, dist) in graphs:
        res.mstates += dist; res.mtrans += gen
        if os.environ.get("ZV_VERBOSE"): zv.log("    model: %d states, %d transitions, %d edges" % (dist, gen, g.n))
        if not g.out:
            raise zv.ToolError("the model of %s has no transitions" % part.name)
        st = [s for s in g.out if s not in {t for es in g.out.values() for _, t, _ in es}]
        init = g_start(g, start)
        sc, walked, left = zv.cover(g, init, fam.to_line, fam.header(rng), rng)
        # a fresh header for every script
        sc = [[fam.header(rng)] + s[1:] for s in sc]
        scripts += sc; res.edges += walked; res.unwalked += left
    t1 = time.time()
    if os.environ.get("ZV_VERBOSE"): zv.log("    explored and covered after %.1fs" % (t1 - t0))
    if part.par: own("mix").shuffle(scripts)
    nmodel = len(scripts)
    if part.rand and part.nrand:
        scripts += part.rand(own("rand"), part.nrand)
    all_ok_events = []
    for vi, (variant, exe) in enumerate(zip(part.variants, exes)):
        for rep in range(part.repeat):
            ev = zv.run_par(exe, scripts, part.par) if part.par else zv.run_driver(exe, scripts, procs=part.procs)
            t2 = time.time()
            rej, states = zv.validate(part.trace, ev, part.trace_consts)
            res.states += states
            if os.environ.get("ZV_VERBOSE"): zv.log("    %s: ran in %.1fs, validated in %.1fs" % (variant, t2 - t1, time.time() - t2))
            res.traces += len([e for i, e in enumerate(ev) if e and i not in rej])
            for e in ev:
                for x in e or ():
                    k = x["op"] + ":" + str(x.get("st", ""))
                    res.ops[k] = res.ops.get(k, 0) + 1
                res.events += len(e or ())
            for i in sorted(rej):
                if len(res.violations) >= 5:
                    break
                v = confirm(part, variant, exe, scripts[i], ev[i], rej[i])
                if v:
                    res.violations.append(v)
            if res.violations:
                return
            lost = [i for i, e in enumerate(ev) if e is None]
            if lost:
                raise zv.ToolError("%d scripts were not run" % len(lost))
            if not all_ok_events:
                all_ok_events = ev
    zv.log("  %s: model %d states %d transitions (%.1fs), %d scripts (%d from the model, %d transitions, %d not walked), %d events" % (
        part.name, sum(d for _, _, d in graphs), sum(n for _, n, _ in graphs), t1 - t0, len(scripts), nmodel, res.edges, res.unwalked, sum(len(e) for e in all_ok_events)))
    for e in (all_ok_events[0], all_ok_events[-1]) if all_ok_events else ():
        res.samples.append({"family": part.name, "behaviour": [short(x) for x in e[:6]]})
    # binding self-check: falsified recordings must be rejected
    if part.corrupt and getattr(fam, "CORRUPT", None):
        bad = zv.corrupt_some(all_ok_events, fam.CORRUPT, own("corrupt"))
        rej, _ = zv.validate(part.trace, [b for _, b in bad], part.trace_consts)
        missed = [(name, b) for i, (name, b) in enumerate(bad) if rej.get(i) != len(b) - 1]
        for name, b in missed:
            text = "self-check: falsified recording (%s) was not rejected: %s" % (name, short(b[-1]))
            # a falsification may happen to describe another allowed outcome; many of them mean a blind check
            if os.environ.get("ZV_STRICT") or len(missed) > max(3, len(bad) // 10):
                raise zv.ToolError(text)
            res.notes.append(text); zv.log("  " + text)
        res.self_checks += len(bad) - len(missed)
        kinds = {n for n, _ in bad}
        missing = [n for n, _ in fam.CORRUPT if n not in kinds]
        if missing:
            res.notes.append("self-check kinds without a candidate in %s: %s" % (part.name, ", ".join(missing)))

def g_start(g, start):
    if start is not None and start in g.out:
        return start
    return g.first

def confirm(part, variant, exe, script, events, at):
    """Runs the rejected script again; a rejection counts if it shows up again."""
    cut = script[:at + 1]
    if part.par:
        return zv.Violation(part.name, variant, script, events[:at + 1], at, "run in parallel with other scripts (groups of %d)" % part.par)
    if getattr(part.family, "CONCURRENT", False):
        return zv.Violation(part.name, variant, script, events[:at + 1], at)
    for k in range(3):
        ev = zv.run_driver(exe, [cut], procs=1)
        rej, _ = zv.validate(part.trace, ev, part.trace_consts)
        if rej:
            return zv.Violation(part.name, variant, cut, ev[0], rej[0])
    for k in range(2):
        ev = zv.run_driver(exe, [script], procs=1)
        rej, _ = zv.validate(part.trace, ev, part.trace_consts)
        if rej:
            return zv.Violation(part.name, variant, script, ev[0], rej[0])
    if events[at]["op"] == "Crash" and events[at].get("why") in ("timeout", "signal 14"):
        raise zv.ToolError("a timeout could not be reproduced: %s" % short(events[at]))
    return zv.Violation(part.name, variant, script, events[:at + 1], at, "not reproduced by running the script alone")

def run_check(pid, parts_fn, tier, seed):
    t0 = time.time()
    res = Result()
    try:
        parts = parts_fn(tier)
        for p in parts:
            run_part(pid, p, seed, tier, res)
            if res.violations:
                break
    except zv.ToolError as e:
        zv.log("ERROR property=%s %s" % (pid, e))
        return 2
    import re as _re
    known = zv.known_findings(pid)
    out = []
    for v in res.violations:
        text = json.dumps(v.events[v.at]) if v.at < len(v.events) else ""
        hit = [k for k in known if _re.search(k, text)]
        if hit:
            zv.log("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
        else:
            out.append(v)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": res.mstates, "transitions": res.mtrans,
                       "traces_validated_against_impl": res.traces, "samples": res.samples[:8],
                       "model_transitions_replayed": res.edges, "model_transitions_not_walked": res.unwalked, "liveness_states": res.live,
                       "trace_states": res.states, "events_validated": res.events,
                       "falsified_recordings_rejected": res.self_checks,
                       "operations": dict(sorted(res.ops.items()))},
          "assumptions": ["TLC and the JVM evaluate the specifications correctly", "the driver reports the observed results truthfully (checked in part by the falsified recordings)",
                          "behaviour outside of the bounded model is covered by seeded random histories only"] + res.notes,
          "wall_s": round(time.time() - t0, 2), "violations": len(out)}
    zv.write_evidence(pid, ev)
    if out:
        for n, v in enumerate(out):
            p = zv.save_replay(pid, n, v)
            zv.log("  rejected: %s" % short(v.events[v.at]) if v.at < len(v.events) else "  rejected")
            zv.log("  script:   %s" % " ; ".join(v.script[max(0, v.at - 6):v.at + 1]))
            zv.log("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    zv.log("OK property=%s tier=%s: %d model states, %d traces validated, %d events, %d falsified recordings rejected, %.1fs" % (
        pid, tier, res.mstates, res.traces, res.events, res.self_checks, time.time() - t0))
    return 0
