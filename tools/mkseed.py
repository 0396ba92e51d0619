#!/usr/bin/python3
"""Write seeded/<id> from specifications: mkseed.py SPEC.py MINI.py (run on a clean /repo)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = """#!/bin/bash
# Run from the repository after a build: exit 0 if the property holds for this case.
d=$(cd "$(dirname "$0")" && pwd)
exec /usr/bin/python3 "$d/demo.py" "$PWD/bin"
"""


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[3:]
    assert not subprocess.run(["git", "-C", REPO, "status", "--short"], stdout=subprocess.PIPE).stdout.strip()
    for s in spec["SEEDS"]:
        if only and s["id"] not in only:
            continue
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        try:
            for f, old, new in edits:
                p = os.path.join(REPO, f)
                t = open(p).read()
                if t.count(old) != 1:
                    sys.exit(f"{s['id']}: text occurs {t.count(old)} times in {f}:\n{old}")
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "--", "."], stderr=subprocess.DEVNULL)
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        shutil.copy(sys.argv[2], os.path.join(d, "mini.py"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", s["id"])


main()
