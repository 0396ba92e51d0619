#!/usr/bin/python3
"""H12: clear-sky observation statistics for all clear/cloudy patterns and window lengths."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, refs, vlib

STA = ["NUM", "MIN", "MAX", "RNG", "AVG", "STD", "SKW", "KRT", "Q25", "Q50", "Q90", "IQR"]
MORE = STA + ["Q75", "Q01", "Q99"]
# month borders, same-day acquisitions of two sensors, gaps longer than a year, first and last days
ACQ = [("20180101", "LND08"), ("20180102", "LND08"), ("20180131", "LND08"), ("20180201", "LND08"), ("20180315", "LND07"),
       ("20180315", "LND08"), ("20180630", "LND08"), ("20180701", "LND07"), ("20181130", "LND08"), ("20181201", "LND08"),
       ("20181231", "LND07"), ("20181231", "LND08"), ("20190101", "LND08"), ("20200410", "LND08"), ("20200731", "LND08")]


def windows(y0, m0, y1, m1, step):
    """window starts as (year, month), the last one being only a right border"""
    w = [(y0, m0)]
    while True:
        y, m = w[-1]
        if (y, m) > (y1, m1):
            return w
        m += step
        w.append((y + (m - 1) // 12, (m - 1) % 12 + 1))


def check(c):
    acq = ACQ if c.thorough else ACQ[:14]
    tree = fl.Tree([None, 1], len(acq))
    cube = fl.Cube(os.path.join(c.scratch, "l2"), tree.nx, tree.ny)
    for t, (d, s) in enumerate(acq):
        boa = np.full((6, tree.ny, tree.nx), 1000 + t)
        cube.ard(0, 0, d, s, boa, np.where(tree.valid[t], 0, 1))
    ces = np.array([refs.ce(d) for d, _ in acq])
    confs = []
    for r in [((2018, 1), (2018, 12)), ((2018, 1), (2020, 12)), ((2018, 2), (2019, 1)), ((2019, 1), (2019, 12)), ((2018, 11), (2020, 4))]:
        for step in range(1, 13):
            for doy in [(1, 365), (32, 181), (335, 31)]:
                confs.append((r, step, doy, STA))
    # every statistic alone, every ordered pair, the reversed list
    for sta in [[s] for s in MORE] + [list(q) for q in itertools.permutations(MORE, 2)] + [MORE, MORE[::-1]]:
        confs.append((((2018, 1), (2018, 12)), 3, (1, 365), sta))

    def one(cf):
        ((y0, m0), (y1, m1)), step, doy, sta = cf
        inw = [i for i, (d, s) in enumerate(acq)
               if (y0, m0) <= (int(d[:4]), int(d[4:6])) <= (y1, m1)
               and ((doy[0] <= refs.doy(d) <= doy[1]) if doy[0] <= doy[1] else (refs.doy(d) >= doy[0] or refs.doy(d) <= doy[1]))]
        with fl.Work(c) as w:
            p = fl.base("CSO", w, cube, SENSORS="LND07 LND08", TARGET_SENSOR="LNDLG", SCREEN_QAI="NODATA", MONTH_STEP=step,
                        DATE_RANGE=f"{y0}-{m0:02d}-01 {y1}-{m1:02d}-{refs.MLEN[m1-1]:02d}", DOY_RANGE=f"{doy[0]} {doy[1]}", CSO=" ".join(sta))
            try:
                r, o = fl.products(w, p)
            except fl.Failed as e:
                return cf, f"program failed: {e}", 0
            out = {k.split("_")[-1][:-4]: (v, fl.band_names(os.path.join(w, "hl", k))) for k, v in o.items()}
        if not inw:     # nothing to read: no products
            return cf, None if not out else f"products {sorted(out)} without any acquisition", 0
        if sorted(out) != sorted(sta):
            return cf, f"products {sorted(out)}", 0
        ws = windows(y0, m0, y1, m1, step)
        want = [f"{y:04d}{m:02d}01" for y, m in ws[:-1]]
        cnt = 0
        for s in sta:
            a, names = out[s]
            if names != want:
                return cf, f"{s} has windows {names} instead of {want}", cnt
        for k, (a, b) in enumerate(zip(ws[:-1], ws[1:])):
            lo, hi = (refs.ce(f"{y:04d}{m:02d}01") for y, m in (a, b))
            sel = [i for i in inw if lo <= ces[i] < hi]
            num = tree.valid[sel].sum(0) if sel else np.zeros((tree.ny, tree.nx), int)
            # borders plus distinct clear days -> gaps
            days = sorted({int(ces[i]) for i in sel if ces[i] > lo})
            gap, ok = [], []
            last = np.full((tree.ny, tree.nx), lo)
            for d in days + [hi]:
                clear = np.ones((tree.ny, tree.nx), bool) if d == hi else tree.valid[[i for i in sel if ces[i] == d]].any(0)
                gap.append(np.where(clear, d - last, 0))
                ok.append(clear)
                last = np.where(clear, d, last)
            st = refs.Stats(np.array(gap), np.array(ok))
            for s in sta:
                v, tol = (num.astype(float), 0) if s == "NUM" else st.get(s)
                if s == "STD":
                    v = np.where(st.n == 1, np.nan, v)
                bad, n = refs.compare(out[s][0][k], v, tol, np.zeros(num.shape, bool))
                cnt += n
                if bad.any():
                    y, x = np.argwhere(bad)[0]
                    h = [acq[i][0] + acq[i][1] for i in sel if tree.valid[i][y, x]]
                    return cf, f"{s} of window {want[k]}: clear dates {h} give {out[s][0][k][y, x]}, expected {v[y, x]} ({int(bad.sum())} patterns wrong)", cnt
        return cf, None, cnt
    tot = 0
    for cf, bad, n in fl.pmap(one, confs):
        tot += n
        if bad:
            c.violation(f"range {cf[0]}, MONTH_STEP {cf[1]}, DOY {cf[2]}, {" ".join(cf[3])}: {bad}", {"config": str(cf), "what": bad})
    c.sample(f"{[a[0] for a, v in zip(acq, tree.valid[:, tree.ny//2, tree.nx//3]) if v]}")
    c.coverage = dict(states=tree.states, transitions=tree.transitions, traces_validated_against_impl=tree.n * len(confs), configurations=len(confs),
                      compared_values=tot, exhaustive=True,
                      rule="state = prefix of a clear/cloudy pattern; every full pattern runs in the real program under every window configuration")


vlib.main(check, "H12", "model_checking")
