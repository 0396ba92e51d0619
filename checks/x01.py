#!/usr/bin/python3
"""X01: calendar conversions for every day of every year."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fl, vlib


def check(c):
    h = vlib.harness("harness/x01.cpp")
    y0, y1 = (1, 4000) if c.thorough else (1900, 2099)
    r = fl.run([h, str(y0), str(y1)], timeout=600)
    for line in r.stdout.splitlines():
        if line.startswith("FAIL"):
            c.violation(line[5:], {"what": line})
    m = re.search(r"DONE states=(\d+) ops=(\d+) compared=(\d+) traces=(\d+)", r.stdout)
    if not m:
        if r.rc == -999:
            raise vlib.ProgramError("timed out")
        c.violation(f"the calendar functions crashed: exit {r.rc} {r.stdout[-300:]}", {"out": r.stdout[-2000:]})
    n = [int(v) for v in m.groups()] if m else [1, 1, 1, 1]
    c.sample(f"every day of the years {y0} to {y1}; every pair of days, week, month, quarter set on every day")
    c.coverage = dict(states=n[0], transitions=n[1], compared_values=n[2], traces_validated_against_impl=n[3], exhaustive=True,
                      rule="state = a day, or a day followed by one setting; transition = one conversion or setting by the real code")


vlib.main(check, "X01", "model_checking")
