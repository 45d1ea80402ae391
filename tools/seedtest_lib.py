"""Scratch copies of the library."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def build(d):
    r = sh("CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DZYCORE_BUILD_TESTS=ON -DZYCORE_BUILD_EXAMPLES=ON "
           "-DCMAKE_REQUIRE_FIND_PACKAGE_GTest=ON -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON && ninja -C _build", d)
    return r
def tests(d):
    r = sh("python3 /opt/vp/run_gtests.py _build report.txt", d)
    ok = {l.split()[1] for l in open(os.path.join(d, "report.txt")) if l.startswith("PASS")}
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - ok)
def copy(name):
    d = "/tmp/seed-" + name
    shutil.rmtree(d, ignore_errors=True)
    sh("git clone -q /repo %s" % d)
    return d
def demo(sid, d):
    t = "/tmp/demo-" + sid
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(os.path.join(ROOT, "seeded", sid), t)
    for f in os.listdir(t):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(t, f))
    try: r = sh("bash %s/demo.sh" % t, d, 300); return r.returncode, r.stdout[-200:]
    finally: shutil.rmtree(t, ignore_errors=True)
