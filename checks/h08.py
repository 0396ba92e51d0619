#!/usr/bin/python3
"""H08: spectral temporal metrics over all observation histories."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, refs, vlib

MOM = ["NUM", "MIN", "MAX", "RNG", "IQR", "AVG", "STD", "SKW", "KRT"]
QXX = [f"Q{i:02d}" for i in range(1, 100)]


def check(c):
    shapes = [([None, -2000, 0, 777, 10001], 7 if not c.thorough else 8), ([None, 5, 6], 9 if not c.thorough else 10)]
    tot = dict(states=0, transitions=0, traces_validated_against_impl=0, compared_values=0, runs=0)
    for si, (alpha, depth) in enumerate(shapes):
        tree = fl.Tree(alpha, depth)
        dates = ["20180105", "20180106", "20180301", "20180630", "20180701", "20181101", "20181231", "20190401", "20190402", "20191231"][:depth]
        cube = tree.cube(os.path.join(c.scratch, f"l2-{si}"), dates, missing=("qai", "boa")[si])
        ref = refs.Stats(tree.values, tree.valid)
        n = ref.n
        sets = [MOM + QXX, QXX[::-1] + MOM[::-1]] + [[m] for m in MOM] + [["Q01"], ["Q25"], ["Q50"], ["Q75"], ["Q99"]]
        sets += [list(p) for p in itertools.permutations(["IQR", "Q25", "Q75"])]
        sets += [["IQR", "Q25"], ["Q75", "IQR"], ["IQR", "Q50"]]
        sets += [list(p) for p in itertools.combinations(MOM, 2)]
        if c.thorough:
            sets += [list(p) for p in itertools.permutations(MOM, 3)]

        def one(ms):
            with fl.Work(c) as w:
                p = fl.tsa(w, cube, DATE_RANGE="2018-01-01 2019-12-31", OUTPUT_STM="TRUE", STM=" ".join(ms))
                try:
                    r, o = fl.products(w, p)
                except fl.Failed as e:
                    return ms, f"program failed: {e}", 0
                f = [k for k in fl.outputs(os.path.join(w, "hl")) if k.endswith("_STM.tif")]
                if len(f) != 1:
                    return ms, f"products written: {sorted(o)}", 0
                names = fl.band_names(os.path.join(w, "hl", f[0]))
                a = o[f[0]]
            if sorted(names) != sorted(ms):
                return ms, f"bands {names}", 0
            cnt = 0
            for b, m in enumerate(names):
                v, tol = ref.get(m)
                bad, k = refs.compare(a[b], v, tol, n == 0)
                cnt += k
                if bad.any():
                    y, x = np.argwhere(bad)[0]
                    return ms, (f"{m}: history {tree.history(y, x)} gives {a[b][y, x]}, expected "
                                f"{'nodata' if n[y, x] == 0 else v[y, x]} ({int(bad.sum())} histories wrong)"), cnt
            return ms, None, cnt
        for ms, bad, cnt in fl.pmap(one, sets):
            tot["compared_values"] += cnt
            tot["runs"] += 1
            tot["traces_validated_against_impl"] += tree.n
            if bad:
                c.violation(f"STM = {' '.join(ms)[:120]}: {bad}", {"STM": ms, "alphabet": alpha, "dates": dates, "what": bad})
        tot["states"] += tree.states
        tot["transitions"] += tree.transitions
        c.sample(f"{dates}: {tree.history(tree.ny//2, tree.nx//3)} -> AVG {ref.get('AVG')[0][tree.ny//2, tree.nx//3]:.1f}")
    c.coverage = dict(tot, exhaustive=True, rule="state = prefix of an observation history; every leaf history is executed by the real program in every metric set")


vlib.main(check, "H08", "model_checking")
