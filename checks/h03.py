#!/usr/bin/python3
"""H03: texture and landscape metrics for all tilings, blockings and sets of present tiles."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np, cv2
import fl, vlib

RES = 10
N = 12          # mosaic of N x N pixels
TXT = {"ERO": cv2.MORPH_ERODE, "DIL": cv2.MORPH_DILATE, "OPN": cv2.MORPH_OPEN, "CLS": cv2.MORPH_CLOSE,
       "GRD": cv2.MORPH_GRADIENT, "THT": cv2.MORPH_TOPHAT, "BHT": cv2.MORPH_BLACKHAT}
LSM = ["AVG", "STD", "GEO", "MAX", "ARE", "EDD", "EMS"]
FAR = 24        # margin of nodata around the mosaic in the reference


def mosaic(kind):
    y, x = np.mgrid[0:N, 0:N]
    if kind == 0:    # all different
        a = (y * 37 + x * 101 + (x * y) % 7 * 53) % 997 + 100
    else:            # blobs and holes
        a = np.where(((x // 2 + y // 3) % 3 == 0) | ((x + 2 * y) % 7 == 0), 800 + (3 * x + y) % 5, 150 + (x * y) % 11)
        a[5, 5] = a[0, 0] = a[7, 2] = -9999
    return a.astype(np.int16)


def ref_txt(a, r, it):
    p = np.pad(a, FAR, constant_values=-9999)
    k = cv2.getStructuringElement(cv2.MORPH_ELLIPSE, (2 * r + 1, 2 * r + 1), (r, r))
    return {m: cv2.morphologyEx(p, op, k, iterations=it)[FAR:-FAR, FAR:-FAR] for m, op in TXT.items()}


def ref_lsm(a, r, thr, circle, allpx):
    p = np.pad(a, FAR, constant_values=-9999)
    valid = p != -9999
    act = valid & (p > thr)
    off = [(i, j) for i in range(-r, r + 1) for j in range(-r, r + 1) if not circle or np.hypot(i, j) <= r]

    def sh(m, i, j):
        return np.roll(np.roll(m, -i, 0), -j, 1)
    V = np.array([np.where(sh(act, i, j), sh(p, i, j), 0).astype(float) for i, j in off])
    A = np.array([sh(act, i, j) for i, j in off])
    n = A.sum(0)
    with np.errstate(all="ignore"):
        mean = V.sum(0) / n
        std = np.sqrt((np.where(A, V - mean, 0) ** 2).sum(0) / (n - 1))
        geo = np.exp(np.where(A, np.log(np.maximum(V, 1)), 0).sum(0) / n)
    edge = np.zeros(p.shape)
    for i, j in off:    # inner edges of the (square) extent of the kernel
        for di, dj in ((1, 0), (-1, 0), (0, 1), (0, -1)):
            if abs(i + di) <= r and abs(j + dj) <= r:
                edge += sh(act, i, j) & (sh(act, i, j) != sh(act, i + di, j + dj))
    ks = (2 * r + 1) ** 2
    z = np.where(n == 0, 0, 1)
    o = {"AVG": (np.where(n == 0, 0, mean), 1), "STD": (np.where(n == 0, 0, np.where(n == 1, np.nan, std)), 1.1), "GEO": (np.where(n == 0, np.nan, geo), 1.1),
         "MAX": (V.max(0), 0), "ARE": (n.astype(float), 0), "EDD": (edge / ks * 10000, 1.5), "EMS": ((n / ks) ** 2 * 10000, 1.5)}
    show = valid if allpx else act
    s = slice(FAR, -FAR)
    return {m: (v[s, s], t) for m, (v, t) in o.items()}, show[s, s]


def div(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def pick(ms, j):
    """All products for few blocks, two of them for many."""
    mod, kind, tx, ty, bx, by, present, _ = j
    nb = N * N // (bx * by)
    if nb <= 16 and present is None:
        return list(ms)
    k = (bx * 5 + by * 3 + tx + kind) % len(ms)
    return [ms[k], ms[(k + 1) % len(ms)]][:1 if present is not None else 2]


def check(c):
    cubes = {}

    def cube(kind, tx, ty, present=None):
        k = (kind, tx, ty, present)
        if k not in cubes:
            a = mosaic(kind).copy()
            cb = fl.Cube(os.path.join(c.scratch, f"l2-{len(cubes)}"), tx, ty, RES)
            for i, j in itertools.product(range(N // tx), range(N // ty)):
                sl = (slice(j * ty, j * ty + ty), slice(i * tx, i * tx + tx))
                if present is not None and (i, j) not in present:
                    a[sl] = -9999
                    continue
                cb.put(i, j, "FTR.tif", np.array([a[sl], np.where(a[sl] == -9999, -9999, a[sl] // 2)]), -9999)
            cubes[k] = (cb, a)
        return cubes[k]

    jobs = []
    # every tiling times every blocking whose blocks can hold the neighbourhood
    tilings = [(3, 3), (4, 4), (6, 6), (12, 12), (3, 12), (12, 4), (6, 4), (4, 6)]
    if c.thorough:
        tilings = list(itertools.product([3, 4, 6, 12], repeat=2))
    for tx, ty in tilings:
        for bx, by in itertools.product(div(tx), div(ty)):
            for r, it in [(1, 1), (2, 1), (1, 2), (3, 1)] + ([(4, 1), (2, 2), (1, 3), (6, 1)] if c.thorough else []):
                for kind in (0, 1) if c.thorough else ((bx + by + r) % 2,):
                    for comp in (0, 1):     # openings and closings reach twice as far
                        if r * it * (2 if comp else 1) <= min(bx, by):
                            jobs.append(("TXT", kind, tx, ty, bx, by, None, (r, it, comp, 1)))
                    if it == 1 and r <= min(bx, by):
                        jobs.append(("LSM", kind, tx, ty, bx, by, None, (r, 1, 0, 1)))
    # every set of present tiles
    tiles = list(itertools.product(range(3), range(3)))
    for k in range(1, 10):
        for present in itertools.combinations(tiles, k):
            jobs.append(("TXT", 0, 4, 4, 4, 4, present, (2, 1, 1, 1)))
            jobs.append(("LSM", 0, 4, 4, 4, 4, present, (2, 1, 0, 1)))
            if c.thorough:
                jobs.append(("TXT", 0, 4, 4, 2, 2, present, (1, 1, 1, 1)))
                jobs.append(("LSM", 0, 4, 4, 2, 4, present, (2, 1, 0, 1)))
    for kind in (0, 1):     # pixels without data kept
        for bx, by in itertools.product(div(6), div(6)):
            if min(bx, by) >= 2:
                jobs.append(("TXT", kind, 6, 6, bx, by, None, (2, 1, 0, 0)))
                jobs.append(("LSM", kind, 6, 6, bx, by, None, (2, 1, 1, 1)))
    for j in jobs:
        cube(j[1], j[2], j[3], j[6])

    def one(j):
        mod, kind, tx, ty, bx, by, present, (r, it, comp, excl) = j
        cb, a = cube(kind, tx, ty, present)
        kw = dict(X_TILE_RANGE=f"0 {N//tx-1}", Y_TILE_RANGE=f"0 {N//ty-1}", INPUT_FEATURE="FTR.tif 1 2", CHUNK_SIZE=f"{bx*RES} {by*RES}",
                  FEATURE_EXCLUDE="TRUE" if excl else "FALSE")
        if mod == "TXT":
            ms = pick(("OPN", "CLS", "THT", "BHT") if comp else ("ERO", "DIL", "GRD"), j)
            kw.update(TXT_RADIUS=r * RES, TXT_ITERATION=it, TXT=" ".join(ms), TXT_BASE="B")
        else:
            ms = pick(LSM, j)
            kw.update(LSM_RADIUS=r * RES, LSM_MIN_PATCHSIZE=1, LSM_KERNEL_SHAPE="SQUARE" if kind else "CIRCLE", LSM_THRESHOLD_TYPE="GT GT",
                      LSM_THRESHOLD="500 250", LSM_ALL_PIXELS="TRUE" if comp else "FALSE", LSM=" ".join(ms), LSM_BASE="B")
        with fl.Work(c) as w:
            try:
                rr, o = fl.products(w, fl.base(mod, w, cb, **kw))
            except fl.Failed as e:
                return j, f"program failed: {e}", 0
        got = {m: np.full((2, N, N), -9999, np.int16) for m in ms}
        seen = {m: set() for m in ms}
        for k, v in o.items():
            d, f = k.split("/")
            i, jj = int(d[1:5]), int(d[7:11])
            m = f[:-4].split("_")[-1]
            if m not in got or v.shape != (2, ty, tx):
                return j, f"unexpected product {k} {v.shape}", 0
            got[m][:, jj * ty:jj * ty + ty, i * tx:i * tx + tx] = v
            seen[m].add((i, jj))
        want_tiles = set(present) if present is not None else set(itertools.product(range(N // tx), range(N // ty)))
        cnt = 0
        for b in (0, 1):
            ab = a if b == 0 else np.where(a == -9999, -9999, a // 2).astype(np.int16)
            if mod == "TXT":
                ref = {m: (v, 0) for m, v in ref_txt(ab, r, it).items()}
                show = ab != -9999 if excl else np.ones(ab.shape, bool)
                if not excl:
                    for i, jj in set(itertools.product(range(N // tx), range(N // ty))) - want_tiles:
                        show[jj * ty:jj * ty + ty, i * tx:i * tx + tx] = False
            else:
                ref, show = ref_lsm(ab, r, 500 if b == 0 else 250, kind == 0, comp)
            for m in ms:
                if seen[m] != want_tiles:
                    return j, f"{m} was written for tiles {sorted(seen[m])} instead of {sorted(want_tiles)}", cnt
                v, tol = ref[m]
                v = np.asarray(v, float)
                with np.errstate(invalid="ignore"):
                    bad = np.where(show, ~np.isnan(v) & (np.abs(got[m][b] - v) > tol), got[m][b] != -9999)
                cnt += bad.size
                if bad.any():
                    y, x = np.argwhere(bad)[0]
                    return j, f"{m} of feature {b+1} at mosaic pixel row {y} column {x} is {got[m][b][y, x]}, expected {v[y, x] if show[y, x] else 'nodata'} ({int(bad.sum())} wrong)", cnt
        return j, None, cnt
    tot = 0
    for j, bad, n in fl.pmap(one, jobs):
        tot += n
        if bad:
            mod, kind, tx, ty, bx, by, present, rr = j
            c.violation(f"{mod} tiles {tx}x{ty}, blocks {bx}x{by}, radius {rr[0]} x {rr[1]}, present {present}: {bad}", {"config": str(j), "what": bad})
    c.sample(f"{jobs[0]} ... {jobs[-1]}")
    c.coverage = dict(states=len(cubes), transitions=tot, traces_validated_against_impl=len(jobs), exhaustive=True,
                      rule="state = division into tiles with a set of present tiles; transition = one value of a product compared; trace = one block layout, radius and product set run by the real program")


vlib.main(check, "H03", "model_checking")
