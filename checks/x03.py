#!/usr/bin/python3
"""X03: image operators on all small images."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fl, vlib


def check(c):
    h = vlib.harness("harness/x03.cpp", extra=("-fopenmp",))
    tot = dict(states=0, transitions=0, compared_values=0)
    parts = 0
    rs = fl.pmap(lambda p: fl.run([h, "thorough" if c.thorough else "quick", str(p)], timeout=600), range(9))
    for p, r in enumerate(rs):
        m = re.search(r"DONE states=(\d+) ops=(\d+) compared=(\d+)", r.stdout)
        for line in r.stdout.splitlines():
            if line.startswith("FAIL"):
                c.violation(line[5:], {"part": p, "what": line})
        if not m:
            if r.rc == -999:
                raise vlib.ProgramError(f"part {p} timed out")
            c.violation(f"the image operators crashed in part {p}: exit {r.rc} {r.stdout[-300:]}", {"part": p, "out": r.stdout[-2000:]})
            continue
        parts += 1
        for k, v in zip(tot, m.groups()):
            tot[k] += int(v)
    c.sample("all binary images up to 4 x 4, 2 x 9, 3 x 6; all 3-valued images up to 4 x 3")
    c.coverage = dict(tot, traces_validated_against_impl=parts, exhaustive=True,
                      rule="state = one image; transition = one operator applied to it by the real code; trace = one uninterrupted run of the real code over one part of the images")


vlib.main(check, "X03", "model_checking")
