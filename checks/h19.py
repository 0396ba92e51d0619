#!/usr/bin/python3
"""H19: centred and normalised time series for all histories and products."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib

KINDS = ("NONE", "NORMALIZE", "CENTER")
FOLDS = ("FBY", "FBQ", "FBM", "FBW", "FBD")


def check(c):
    trees = [([None, -2000, 100, 1500, 9000], ["20170301", "20170620", "20180115", "20180220", "20180615", "20181020"]),
             ([None, 0, 3000], ["20170105", "20170301", "20170620", "20171231", "20180115", "20180220", "20180615", "20181020", "20181220"])]
    # one value of fourteen different from all others leaves the range of 16 bit numbers when normalised
    trees.append(([0, 9000], ["20170105", "20170301", "20170420", "20170511", "20170620", "20170822", "20171231", "20180115", "20180220",
                              "20180317", "20180615", "20180730", "20181020", "20181220"]))
    if c.thorough:
        trees.append(([None, -2000, 100, 1500, 9000, 32000], trees[0][1]))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, compared_values=0, runs=0)
    for ti, (alpha, dates) in enumerate(trees):
        tree = fl.Tree(alpha, len(dates))
        cube = tree.cube(os.path.join(c.scratch, f"l2-{ti}"), dates)

        def get(opt):
            with fl.Work(c) as w:
                p = fl.tsa(w, cube, DATE_RANGE="2017-01-01 2018-12-31", INTERPOLATE="LINEAR", INT_DAY=40, INDEX=opt.pop("INDEX", "NIR"), **opt)
                r, o = fl.products(w, p)
            return {k.split("_")[-2] + "_" + k.split("_")[-1][:-4]: v.astype(int) for k, v in o.items()}

        full = {"OUTPUT_TSS": "TRUE", "OUTPUT_TSI": "TRUE", "OUTPUT_STM": "TRUE", "STM": "AVG STD NUM", "OUTPUT_TRY": "TRUE", "OUTPUT_CAM": "TRUE"}
        full.update({f"OUTPUT_{f}": "TRUE" for f in FOLDS})
        sets = [("every product", full), ("two indices", dict(full, INDEX="NIR NDVI"))]
        sets += [(f, {f"OUTPUT_{f}": "TRUE"}) for f in ("TSS", "TSI") + FOLDS]
        sets += [("NIR, masked", dict(full, DIR_MASK=os.path.join(c.scratch, f"mask-{ti}"), BASE_MASK="M.tif"))]
        y, x = np.mgrid[0:tree.ny, 0:tree.nx]
        mk = fl.Cube(os.path.join(c.scratch, f"mask-{ti}"), tree.nx, tree.ny)
        mk.put(0, 0, "M.tif", ((x + 2 * y) % 3 > 0).astype(np.uint8))
        jobs = [(n, s, k) for n, s in sets for k in (itertools.product(KINDS, repeat=3) if n == "every product" else [(a,) * 3 for a in KINDS])]

        def one(j):
            n, s, (tss, tsi, fold) = j
            try:
                return get(dict(s, STANDARDIZE_TSS=tss, STANDARDIZE_TSI=tsi, STANDARDIZE_FOLD=fold))
            except fl.Failed as e:
                return f"program failed: {e}"
        out = list(fl.pmap(one, jobs))
        plain = {j[0]: o for j, o in zip(jobs, out) if j[2] == ("NONE",) * 3}
        for j, o in zip(jobs, out):
            n, s, kinds = j
            ref = plain[n]
            cov["runs"] += 1
            cov["traces_validated_against_impl"] += tree.n
            bad = o if isinstance(o, str) else None if not isinstance(ref, dict) or set(o) == set(ref) else f"products {sorted(o)} instead of {sorted(ref)}"
            if not bad and isinstance(ref, dict):
                for p, a in o.items():
                    kind = dict(TSS=kinds[0], TSI=kinds[1]).get(p[-3:], kinds[2] if p[-3:] in FOLDS else "NONE")
                    r = ref[p]
                    w = r != -9999
                    k = w.sum(0)
                    m = np.where(w, r, 0).sum(0) / np.maximum(k, 1)
                    d = np.where(w, r - m, 0)
                    sd = np.sqrt((d ** 2).sum(0) / np.maximum(k - 1, 1))
                    e = d if kind == "CENTER" else d / np.where(sd > 0, sd, 1) * 10000
                    e = np.clip(e, -32768, 32767)
                    lo, hi = np.trunc(e - 2e-3), np.minimum(np.trunc(e + 2e-3), 32767)
                    same = (k < 2) | (kind == "NONE") | ~w
                    skip = (k > 1) & (sd == 0) & (kind == "NORMALIZE") & w
                    wrong = ~skip & np.where(same, a != r, (a < lo) | (a > hi))
                    cov["compared_values"] += int((~skip).sum())
                    if wrong.any():
                        b, yy, xx = np.argwhere(wrong)[0]
                        bad = (f"{p}, {kind}: the series {r[:, yy, xx][w[:, yy, xx]].tolist()[:12]} has {a[b, yy, xx]} in band {b + 1} instead of "
                               f"{r[b, yy, xx] if same[b, yy, xx] else round(e[b, yy, xx], 2)} ({wrong.sum()} values)")
                        break
            if bad:
                c.violation(f"{n}, standardisation {kinds}: {bad}", {"products": n, "kinds": kinds, "dates": dates})
        cov["states"] += tree.states
        cov["transitions"] += tree.transitions
        c.sample(f"{dates}: {tree.history(tree.ny//2, tree.nx//3)}")
    c.coverage = dict(cov, exhaustive=True, rule="state = prefix of a history of values; every complete history is processed by the real program with every standardisation of every product")


vlib.main(check, "H19", "model_checking")
