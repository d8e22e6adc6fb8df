#!/usr/bin/env python3
"""Tries the planted bugs of /verif/seeded: for each, apply to /repo, build, run the stable tests, its
demonstration and the check of its property, and undo.  plant.py [--no-check] [ID ...]
A development tool: no check uses it."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
check = "--no-check" not in sys.argv


def sh(cmd, cwd="/repo"):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


for i in args or sorted(os.listdir(f"{V}/seeded")):
    d = os.path.abspath(f"{V}/seeded/{i}")
    prop = json.load(open(f"{d}/meta.json"))["property"]
    clean = sh(f"bash {d}/demo.sh")
    r = sh(f"git apply {d}/patch.diff")
    if r.returncode:
        print(i, "does not apply", r.stderr)
        continue
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        n = json.load(open("/tmp/plant.json")) if os.path.exists("/tmp/plant.json") else {}
        bug = sh(f"bash {d}/demo.sh")
        out = ""
        if check:
            c = sh(f"python3 check.py {prop}", V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out = f"check {'CAUGHT' if c.returncode == 1 and v else 'MISSED ' + str(c.returncode)}"
            keys = [l.strip()[:150] for l in c.stdout.splitlines() if l.startswith(" ")][:2]
        print(i, prop, "build", b.returncode, t.stdout.strip().splitlines()[-1:], "demo clean", clean.returncode, "bug", bug.returncode, out, flush=True)
        if clean.returncode or not bug.returncode:
            print((clean if clean.returncode else bug).stdout[-800:], (clean if clean.returncode else bug).stderr[-1500:])
    finally:
        sh("git checkout -- .")
sh("bash /opt/vp/build.sh")
