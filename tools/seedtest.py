#!/usr/bin/python3
"""Apply each planted bug to /repo, run demonstration, tests and its check, and restore /repo.

seedtest.py [-a] [-d] [ids...]: -a runs all checks, -d only the demonstration (no check)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
allc, demo_only = "-a" in sys.argv, "-d" in sys.argv


def sh(cmd, cwd="/repo", timeout=900):
    t = time.time()
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), time.time() - t
    except subprocess.TimeoutExpired:
        return -9, "timeout", time.time() - t


assert sh("git status --short")[1].strip() == "", "/repo is not clean"
rc, o, _ = sh("bash /opt/vp/build.sh")
assert rc == 0, o[-500:]
clean = {i: sh(f"bash {S}/{i}/demo.sh", timeout=300) for i in ids}
checks = [c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
for i in ids:
    meta = json.load(open(f"{S}/{i}/meta.json"))
    try:
        rc, o, _ = sh(f"git apply {S}/{i}/patch.diff")
        if rc:
            print(i, "PATCH DOES NOT APPLY", o); continue
        rc, o, _ = sh("bash /opt/vp/build.sh")
        if rc:
            print(i, "DOES NOT BUILD", o[-400:]); continue
        d = sh(f"bash {S}/{i}/demo.sh", timeout=300)
        trc, tout, _ = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        fails = tout.count(":FAIL")
        line = f"{i} {meta['property']}: demo clean {clean[i][0]} patched {d[0]} ({d[2]:.0f} s) tests failing {fails}"
        if clean[i][0] != 0:
            line += " [clean: " + clean[i][1][-300:].replace("\n", " | ") + "]"
        if demo_only:
            print(line, flush=True); continue
        for c in checks:
            if c["property"] == meta["property"] or allc:
                rc, o, t = sh(c["quick_cmd"], cwd=V)
                if rc == 1 or c["property"] == meta["property"]:
                    line += f"; {c['property']} exit {rc} in {t:.0f} s"
                    if rc not in (0, 1):
                        line += " " + o[-300:]
        if not any(c["property"] == meta["property"] for c in checks):
            line += "; NO CHECK"
        print(line, flush=True)
    finally:
        sh("git checkout -- .")
sh("bash /opt/vp/build.sh")
if os.path.exists("/tmp/seedtest.json"):
    os.remove("/tmp/seedtest.json")
