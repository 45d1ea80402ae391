#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies: tools/seedtest.py [--nocheck] [--nodemo] [--all-checks] ID...
A bug counts if it applies, builds, passes the stable tests and its demonstration tells the trees apart."""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedtest_lib import *
args = sys.argv[1:]; nocheck = "--nocheck" in args; nodemo = "--nodemo" in args; allc = "--all-checks" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
clean = None
for sid in ids:
    s = os.path.join(ROOT, "seeded", sid); meta = json.load(open(os.path.join(s, "meta.json")))
    d = copy(sid); msg = []
    r = sh("git apply %s/patch.diff" % s, d)
    if r.returncode: print(sid, "DOES NOT APPLY", r.stdout); shutil.rmtree(d); continue
    if not nodemo:
        r = build(d)
        if r.returncode: print(sid, "DOES NOT BUILD", r.stdout[-1500:]); shutil.rmtree(d); continue
        bad = tests(d)
        if bad: msg.append("TESTS FAIL " + str(bad[:3]))
        if clean is None: clean = copy("clean"); build(clean)
        c, o = demo(sid, clean)
        if c: msg.append("DEMO FAILS ON CLEAN %d %s" % (c, o))
        c, o = demo(sid, d)
        if not c: msg.append("DEMO PASSES WITH BUG")
    if not nocheck:
        props = [meta["property"]] if not allc else [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
        for p in props:
            r = sh("%s/bin/check %s quick" % (ROOT, p), ROOT, 900, dict(os.environ, ZV_REPO=d, VERIF_SEED="1"))
            v = "VIOLATION property=%s " % p in r.stdout
            if allc and not v and r.returncode == 0: continue
            msg.append("%s %s (exit %d)%s" % (p, "caught" if v and r.returncode == 1 else "MISSED", r.returncode, "" if v else " " + r.stdout[-300:]))
    print(sid, "; ".join(msg), flush=True)
    shutil.rmtree(d, ignore_errors=True)
if clean: shutil.rmtree(clean, ignore_errors=True)
