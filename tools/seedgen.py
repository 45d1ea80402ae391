#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seedsrc/seeds.py and checks that a planted bug changes lines of the original library only."""
import json, os, re, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(here, "seedsrc"))
ROOT = os.path.dirname(here)
from seeds import SEEDS
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
base = sh("git log --format=%H | tail -1", "/repo").stdout.strip()
_blame = {}
def blame(f):
    if f not in _blame:
        _blame[f] = [l.split()[0].lstrip("^") for l in sh("git blame -s -l HEAD -- %s" % f, "/repo").stdout.splitlines()]
    return _blame[f]
def main():
    sel = sys.argv[1:]
    for s in SEEDS:
        if sel and s["id"] not in sel: continue
        d = "/tmp/seedgen"; shutil.rmtree(d, ignore_errors=True); sh("git clone -q /repo %s" % d)
        bad = None
        for f, ctx, old, new in s["edits"]:
            p = os.path.join(d, f); t = open(p).read(); i = t.find(ctx); j = t.find(old, i) if i >= 0 else -1
            if j < 0: bad = "no %s in %s" % ("context" if i < 0 else "text: " + old, f); break
            open(p, "w").write(t[:j] + new + t[j + len(old):])
        if bad: print(s["id"], bad); continue
        diff = sh("git diff", d).stdout
        f = None; ln = 0; mine = []; nminus = 0
        for l in diff.splitlines():
            if l.startswith("--- "): f = l[6:]
            elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("+++ ") or l.startswith("diff") or l.startswith("index"): pass
            elif l.startswith("-"):
                nminus += 1
                if not base.startswith(blame(f)[ln - 1][:39]): mine.append((f, ln, l))
                ln += 1
            elif l.startswith(" "): ln += 1
        if mine: print(s["id"], "touches lines of fix commits:", mine)
        if not nminus: print(s["id"], "only adds lines")
        o = os.path.join(ROOT, "seeded", s["id"]); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.c", "w").write("#include \"demo.h\"\n" + s["demo"].strip() + "\n")
        shutil.copy(os.path.join(here, "seedsrc", "demo.h"), o)
        open(o + "/demo.sh", "w").write(open(os.path.join(here, "seedsrc", "demo.sh")).read().replace("@FLAGS@", s.get("flags", "")))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print(s["id"], "ok")
    shutil.rmtree("/tmp/seedgen", ignore_errors=True)
main()
