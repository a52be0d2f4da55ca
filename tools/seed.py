#!/usr/bin/env python3
"""seed.py ID: builds seeded/ID from the scratch definition /verif/tools/seedlib (demo skeleton)
and confirms it: patch applies, builds, stable tests pass with it, demo 0 without / nonzero with it.
usage: seed.py make ID PROPERTY MAIN.rs EDITS.py NEEDS BREAKS ; seed.py confirm ID..."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def confirm(i):
    d = f"{V}/seeded/{i}"
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    r0 = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
    a = sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
    try:
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout[-2000:] + b.stderr[-3000:]
        t = sh("bash /opt/vp/test.sh /tmp/seed.json")
        res = json.load(open("/tmp/seed.json")); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(res.get("passed", [])); bad = [s for s in stable if s not in passed]
        r1 = sh(f"timeout 300 bash {d}/demo.sh", cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    print(i, "demo clean rc", r0.returncode, "patched rc", r1.returncode, "tests failing:", bad[:5])
    if r0.returncode: print(r0.stdout[-800:], r0.stderr[-2500:])
    else: print("   ", (r1.stdout + r1.stderr).strip().split("\n")[-3:])
    return r0.returncode == 0 and r1.returncode != 0 and not bad
ok = all([confirm(i) for i in sys.argv[1:]])
sh("bash /opt/vp/build.sh")
sys.exit(0 if ok else 1)
