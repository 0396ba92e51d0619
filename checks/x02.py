#!/usr/bin/python3
"""X02: quality bits for every 16-bit quality word."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib

BITS = [("valid data", 0, 1), ("cloud state", 1, 2), ("cloud shadow", 3, 1), ("snow", 4, 1), ("water", 5, 1), ("aerosol state", 6, 2),
        ("subzero", 8, 1), ("saturation", 9, 1), ("high sun zenith", 10, 1), ("illumination", 11, 2), ("slope", 13, 1), ("water vapor", 14, 1)]


def inflate(c, nx, ny, tot):
    d = os.path.join(c.scratch, f"inf{nx}")
    os.makedirs(d)
    word = np.arange(65536, dtype=np.uint16).view(np.int16).reshape(ny, nx)
    src = os.path.join(d, "20180615_LEVEL2_LND08_QAI.tif")
    fl.write_tif(src, word[None], (0, 0), 30)
    r = fl.run([fl.exe("force-qai-inflate"), src, d], timeout=120)
    dst = os.path.join(d, "20180615_LEVEL2_LND08_QIM.tif")
    if r.rc != 0 or not os.path.exists(dst):
        return c.violation(f"quality image could not be inflated: exit {r.rc}", {"nx": nx, "out": r.stdout[-1000:]})
    a = fl.read_tif(dst)
    if a.shape != (len(BITS), ny, nx):
        return c.violation(f"inflated image has shape {a.shape}", {"nx": nx})
    w = word.astype(np.int64) & 0xffff
    for b, (name, bit, width) in enumerate(BITS):
        e = (w >> bit) & ((1 << width) - 1)
        bad = np.argwhere(a[b] != e)
        tot[0] += e.size
        if len(bad):
            y, x = bad[0]
            c.violation(f"inflated {name} of quality word {w[y, x]} is {a[b][y, x]} instead of {e[y, x]} ({len(bad)} words)", {"word": int(w[y, x]), "band": name})


def check(c):
    h = vlib.harness("harness/x02.cpp")
    r = fl.run([h], timeout=600)
    for line in r.stdout.splitlines():
        if line.startswith("FAIL"):
            c.violation(line[5:], {"what": line})
    m = re.search(r"DONE states=(\d+) ops=(\d+) compared=(\d+)", r.stdout)
    if not m:
        if r.rc == -999:
            raise vlib.ProgramError("timed out")
        if r.rc == 3:
            raise vlib.CheckError(r.stdout[-300:])
        c.violation(f"the quality functions crashed: exit {r.rc} {r.stdout[-300:]}", {"out": r.stdout[-2000:]})
    n = [int(v) for v in m.groups()] if m else [1, 1, 1]
    tot = [0]
    for nx in (256, 64, 1024):
        inflate(c, nx, 65536 // nx, tot)
    c.sample("all 65536 quality words, 12 fields, all field values; inflated as 256 x 256, 64 x 1024 and 1024 x 64 images")
    c.coverage = dict(states=n[0], transitions=n[1] + tot[0], compared_values=n[2] + tot[0], traces_validated_against_impl=3 + n[1], exhaustive=True,
                      rule="state = quality word; transition = one field read, set or inflated by the real code")


vlib.main(check, "X02", "model_checking")
