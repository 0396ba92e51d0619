#!/usr/bin/python3
"""Source of properties.jsonl and MANIFEST.json (run this file to regenerate both)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HL = "src/modules/higher-level/"
CL = "src/modules/cross-level/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, **check):
    a = {"files": files, "mechanism": [{"name": mech}]}
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, check))


WHY = ("The existing unit tests only call a few allocation and helper functions; "
       "nothing runs the programs, let alone over every ")

exec(open(os.path.join(V, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p, ensure_ascii=True) + "\n")
    checks, na = [], []
    for p, c in P:
        i = p["id"]
        if c.get("na"):
            na.append({"property": i, "reason": c["na"]})
            continue
        script = os.path.join("checks", i.lower() + ".py")
        if not os.path.exists(os.path.join(V, script)):
            na.append({"property": i, "reason": "machinery not built yet"})
            continue
        checks.append({"property": i,
                       "quick_cmd": f"/usr/bin/python3 {script} quick",
                       "thorough_cmd": f"/usr/bin/python3 {script} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": c["technique"], "level": c["level"],
                       "level_note": c["note"]})
    m = {"version": 1, "setup_cmd": "/usr/bin/python3 tools/setup.py", "checks": checks,
         "not_applicable": na,
         "hooks": HOOKS,
         "notes": NOTES}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
