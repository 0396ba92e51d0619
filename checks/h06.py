#!/usr/bin/python3
"""H06: which acquisitions a run uses - date range, season, sensor and Landsat 7 cut-off windows."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, refs, vlib


def iso(s):
    return f"{s[:4]}-{s[4:6]}-{s[6:]}"


def datestr(year, d):
    m = refs.month(d)
    return f"{year}{m:02d}{d - int(refs.CUM[m-1]):02d}"


def check(c):
    days = [1, 2, 59, 60, 90, 91, 181, 364, 365]
    if c.thorough:
        days = sorted(set(days + [31, 32, 89, 120, 121, 180, 182, 200, 273, 274, 300, 334, 335, 363] + list(range(5, 365, 14))))
    acq = [(datestr(y, d), "LND08") for y in (2018, 2019) for d in days]
    acq += [("20180301", "LND07"), ("20190302", "LND07"), ("20190303", "LND07"), ("20190303", "SEN2A"), ("20180701", "SEN2A")]
    acq = sorted(set(acq))
    cube = fl.Cube(os.path.join(c.scratch, "l2"), 2, 2)
    for i, (d, s) in enumerate(acq):
        nb = 10 if s == "SEN2A" else 6
        cube.ard(0, 0, d, s, np.full((nb, 2, 2), 1000 + i), np.zeros((2, 2)))
        cube.put(0, 0, f"{d}_LEVEL2_{s}_TOA.tif", np.full((nb, 2, 2), 7, np.int16), -9999)   # other product types are not input
    val = {a: 1000 + i for i, a in enumerate(acq)}

    full = ("20180101", "20191231")
    cfgs = [(full, (a, b), ("LND08",), "20991231") for a in days for b in days]
    bd = ["20180101", "20180102", "20180301", "20180630", "20180701", "20181230", "20181231", "20190101", "20190302", "20190303", "20191231"]
    cfgs += [((a, b), (1, 365), ("LND07", "LND08", "SEN2A"), "20991231") for a in bd for b in bd if a <= b]
    cfgs += [((a, b), s, ("LND08",), "20991231") for a in bd[::2] for b in bd[::2] if a <= b for s in ((60, 91), (364, 2))]
    sens = ["LND07", "LND08", "SEN2A"]
    for n in (1, 2, 3):
        for sub in itertools.permutations(sens, n):
            for ign in ("20991231", "20180301", "20180302", "20190302", "20170101"):
                cfgs.append((full, (1, 365), sub, ign))
    cfgs = list(dict.fromkeys(cfgs))

    def one(cfg):
        (d0, d1), (a, b), sub, ign = cfg
        want = []
        for d, s in acq:
            y = refs.doy(d)
            if s in sub and d0 <= d <= d1 and (a <= y <= b if a <= b else y >= a or y <= b):
                if not (s == "LND07" and d > ign):
                    want.append((d, s))
        with fl.Work(c) as w:
            p = fl.tsa(w, cube, DATE_RANGE=f"{iso(d0)} {iso(d1)}", DOY_RANGE=f"{a} {b}", SENSORS=" ".join(sub), TARGET_SENSOR="SEN2L" if sub == ("SEN2A",) else "LNDLG",
                       DATE_IGNORE_LANDSAT_7=iso(ign), OUTPUT_TSS="TRUE")
            r, o = fl.products(w, p, must=False)
            if r.rc != 0:
                return f"program failed: {r.stdout[-300:]}", 0
            names = []
            for k, v in o.items():
                n = fl.band_names(os.path.join(w, "hl", k))
                names = [tuple(x.split("_")) for x in n]
                for x, band in zip(names, v):
                    if x in val and (band != val[x]).any():
                        return f"{x}: values {band.ravel().tolist()} are not those of the acquisition ({val[x]})", 0
        got = sorted(names)
        if got != sorted(want):
            return f"missing {[x for x in want if x not in got][:5]} surplus {[x for x in got if x not in want][:5]}", 0
        if [x[0] for x in names] != sorted(x[0] for x in names):
            return f"bands not in chronological order: {names}", 0
        return None, len(want)
    sel = decided = 0
    distinct = set()
    for cfg, (bad, n) in zip(cfgs, fl.pmap(one, cfgs)):
        sel += n
        decided += 0 if bad else len(acq)
        if bad:
            (d0, d1), (a, b), sub, ign = cfg
            c.violation(f"DATE_RANGE={iso(d0)} {iso(d1)} DOY_RANGE={a} {b} SENSORS={' '.join(sub)} DATE_IGNORE_LANDSAT_7={iso(ign)}: {bad}", {"config": cfg, "what": bad})
    c.sample(f"{len(acq)} acquisitions {acq[:3]}..., windows {cfgs[:3]}")
    c.coverage = dict(states=len(cfgs), transitions=decided, traces_validated_against_impl=len(cfgs), selected_acquisitions=sel, exhaustive=True,
                      rule="state = one window configuration; transition = the selection decision for one acquisition, read off the bands of the written series")


vlib.main(check, "H06", "model_checking")
