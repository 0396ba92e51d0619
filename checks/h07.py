#!/usr/bin/python3
"""H07: interpolation methods over all observation histories (gap patterns)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib
from refs import ce

def linear(tree, x, xi):
    out = np.full((len(xi),) + tree.valid.shape[1:], np.nan)
    for i, q in enumerate(xi):
        lx = np.full(tree.valid.shape[1:], np.nan); ly = lx.copy(); rx = lx.copy(); ry = lx.copy()
        for t, xt in enumerate(x):
            v = tree.valid[t]
            if xt <= q:
                lx[v] = xt; ly[v] = tree.values[t][v]
            if xt >= q:
                s = v & np.isnan(rx)
                rx[s] = xt; ry[s] = tree.values[t][s]
        with np.errstate(all="ignore"):
            y = ly + (ry - ly) * (q - lx) / np.where(rx == lx, 1, rx - lx)
        y = np.where(np.isnan(lx), ry, np.where(np.isnan(rx), ly, y))
        out[i] = y
    return out


def weighted(tree, x, xi, kernels):
    """kernels: list of (half width in days, weight(d), norm)"""
    out = np.full((len(xi),) + tree.valid.shape[1:], np.nan)
    val = np.where(tree.valid, tree.values, 0).astype(float)
    for i, q in enumerate(xi):
        num = np.zeros(tree.valid.shape[1:]); den = num.copy()
        for half, wf, norm in kernels:
            for t, xt in enumerate(x):
                d = xt - q
                if abs(d) <= half:
                    w = wf(d) / norm
                    num += val[t] * w
                    den += tree.valid[t] * w
        with np.errstate(all="ignore"):
            out[i] = np.where(den > 0, num / den, np.nan)
    return out


def rbf_kernels(sigmas, cutoff):
    ks = []
    nbin = 8 * sigmas[-1]
    if nbin % 2 == 0:
        nbin += 1
    hb = (nbin - 1) // 2
    for s in sigmas:
        w = [np.exp(-0.5 * d * d / (s * s)) / (np.sqrt(2 * np.pi) * s) for d in range(hb + 1)]
        tot, half, norm = 0.0, 0, 0.0
        for d in range(hb + 1):
            tot += w[d]
            if tot <= cutoff / 2:
                half, norm = d, norm + w[d]
        ks.append((half, (lambda d, s=s: np.exp(-0.5 * d * d / (s * s)) / (np.sqrt(2 * np.pi) * s)), 2 * norm))
    return ks


def check(c):
    depth = 7
    trees = [([None, 0, 1000, -500, 3001], ["20180102", "20180117", "20180202", "20180204", "20180601", "20180602", "20181231"], "qai"),
             ([None, 100, 2000], ["20180101", "20180116", "20180118", "20180303", "20180304", "20180305", "20180820", "20181130", "20181217"], "boa")]
    if c.thorough:
        trees.append(([None, 7, 5000, 9000, 20000, -3000], trees[0][1], "qai"))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, compared_values=0, runs=0)
    for ti, (alpha, dates, miss) in enumerate(trees):
        tree = fl.Tree(alpha, len(dates))
        cube = tree.cube(os.path.join(c.scratch, f"l2-{ti}"), dates, missing=miss)
        x = [ce(d) for d in dates]
        cfgs = [("NONE", {})]
        for step in (16, 30, 1) if not c.thorough else (16, 30, 5, 1):
            if step == 1 and not c.thorough and ti == 0:
                continue
            cfgs.append(("LINEAR", dict(INT_DAY=step)))
            for m in (1, 2, 15, 16, 60):
                cfgs.append(("MOVING", dict(INT_DAY=step, MOVING_MAX=m)))
            for s, cut in (("8 16 32", 0.95), ("4", 0.6), ("16", 0.9), ("10 20", 0.5)):
                cfgs.append(("RBF", dict(INT_DAY=step, RBF_SIGMA=s, RBF_CUTOFF=cut)))

        def one(cfg):
            m, kw = cfg
            with fl.Work(c) as w:
                p = fl.tsa(w, cube, INTERPOLATE=m, OUTPUT_TSI="TRUE", **kw)
                try:
                    r, o = fl.products(w, p)
                except fl.Failed as e:
                    return f"program failed: {e}", 0
                f = [k for k in o if k.endswith("_TSI.tif")]
                if len(f) != 1:
                    return f"products written: {sorted(o)}", 0
                names = [n.split("_")[0] for n in fl.band_names(os.path.join(w, "hl", f[0]))]
                a = o[f[0]]
            if m == "NONE":
                if names != dates:
                    return f"bands {names}", 0
                want, tol = np.where(tree.valid, tree.values, np.nan).astype(float), 0
            else:
                xi = [ce(n) for n in names]
                step, x0 = int(kw["INT_DAY"]), ce("20180101")
                if [(q - x0) for q in xi] != [i * step for i in range(len(xi))] or len(xi) not in (365 // step, -(-365 // step)):
                    return f"interpolation dates {names[:4]}..{names[-1]}", 0
                tol = 1
                if m == "LINEAR":
                    want = linear(tree, x, xi)
                elif m == "MOVING":
                    want = weighted(tree, x, xi, [(kw["MOVING_MAX"], lambda d: 1.0, 1.0)])
                else:
                    want = weighted(tree, x, xi, rbf_kernels([int(s) for s in kw["RBF_SIGMA"].split()], kw["RBF_CUTOFF"]))
            nd = np.isnan(want)
            bad = nd & (a != fl.NODATA)
            with np.errstate(invalid="ignore"):
                bad |= ~nd & ((np.abs(a - want) > tol + 2e-3 * tol) if tol else (a != want))
            if bad.any():
                i, y, xx = np.argwhere(bad)[0]
                return (f"acquisitions {dates} with values {tree.history(y, xx)}: {names[i]} gives {a[i, y, xx]}, expected "
                        f"{'nodata' if nd[i, y, xx] else round(want[i, y, xx], 2)} ({int(bad.any(0).sum())} histories wrong)"), bad.size
            return None, bad.size
        for cfg, (bad, cnt) in zip(cfgs, fl.pmap(one, cfgs)):
            cov["compared_values"] += cnt
            cov["runs"] += 1
            cov["traces_validated_against_impl"] += tree.n
            if bad:
                c.violation(f"INTERPOLATE={cfg[0]} {cfg[1]}: {bad}", {"config": cfg, "what": bad})
        cov["states"] += tree.states
        cov["transitions"] += tree.transitions
        c.sample(f"{dates}: {tree.history(tree.ny//2, tree.nx//3)}")
    c.coverage = dict(cov, exhaustive=True,
                      rule="state = prefix of an observation history; every leaf history runs through the real program under every method setting")


vlib.main(check, "H07", "model_checking")
