#!/usr/bin/python3
"""H14: sampling at every position of a half-pixel lattice, for all block layouts, feature validity patterns and masks."""
import collections, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import osr
import fl, vlib

T, RES = 4, 10          # tile of T x T pixels
TILES = range(-1, 2)    # 3 x 3 tiles around the origin tile
NF = 3


def tr_geo():
    a, b = osr.SpatialReference(), osr.SpatialReference()
    a.ImportFromWkt(fl.WKT)
    b.ImportFromEPSG(4326)
    for s in (a, b):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return osr.CoordinateTransformation(a, b)


def check(c):
    lo, hi = TILES[0] * T, (TILES[-1] + 1) * T      # pixel range of all tiles
    n = hi - lo
    cubes, feats, masks = [], [], []
    gy, gx = np.mgrid[lo:hi, lo:hi]
    for k in range(2 ** NF):
        cube = fl.Cube(os.path.join(c.scratch, f"l2-{k}"), T, T, RES)
        # pixel (y, x) has validity pattern (y*5 + x*3 + k) mod 8
        pat = (gy * 5 + gx * 3 + k) % 2 ** NF
        f = np.array([np.where(pat >> b & 1, -9999, 1000 * (b + 1) + (gy - lo) * n + gx - lo) for b in range(NF)]).astype(np.int16)
        m = ((gy + gx * 2 + k) % 3 > 0).astype(np.uint8)
        md = fl.Cube(os.path.join(c.scratch, f"mask-{k}"), T, T, RES)
        for tx, ty in itertools.product(TILES, TILES):
            s = (slice(ty * T - lo, ty * T - lo + T), slice(tx * T - lo, tx * T - lo + T))
            cube.put(tx, ty, "A.tif", f[:2][:, s[0], s[1]], -9999)
            cube.put(tx, ty, "B.tif", f[2][s], -9999)
            md.put(tx, ty, "M.tif", m[s], 255)
        cubes.append((cube, md))
        feats.append(f)
        masks.append(m)
    # half-pixel lattice: pixel borders, tile borders, pixel centres; one pixel beyond the tiles on each side
    lat = [v / 2 for v in range(2 * lo - 2, 2 * hi + 3)]
    pts = [(x, y) for y in lat for x in lat]
    pts += pts[::7]        # several samples at one place
    off = [(x + dx, y + dy) for x in range(lo - 1, hi + 1) for y in range(lo - 1, hi + 1) for dx, dy in ((.25, .25), (.75, .75), (.02, .98), (.98, .02))]
    geo = tr_geo()

    def tofile(pt, projected, w):
        p = os.path.join(w, "pts.txt")
        with open(p, "w") as f:
            for i, (x, y) in enumerate(pt):
                X, Y = fl.ORIGIN[0] + x * RES, fl.ORIGIN[1] - y * RES
                if not projected:
                    X, Y, _ = geo.TransformPoint(X, Y)
                f.write(f"{X:.9f} {Y:.9f} {i} {i * 2}\n")
        return p
    ranges = [((-1, 1), (-1, 1)), ((0, 1), (0, 1)), ((-1, 0), (0, 0)), ((1, 1), (-1, 0)), ((0, 0), (0, 0))]
    lay = [(bx, by) for bx in (1, 2, 4) for by in (1, 2, 4)]
    jobs = [(k, l, r, ex, mk, True) for k in range(8) for l in lay for r in ranges[:1] for ex in ("TRUE", "FALSE") for mk in (False, True)]
    jobs += [(k, l, r, "TRUE", mk, True) for k in (0, 5) for l in lay for r in ranges[1:] for mk in (False, True)]
    jobs += [(k, l, r, "TRUE", False, False) for k in ((0, 3) if not c.thorough else range(8)) for l in lay for r in ranges]

    def one(job):
        k, (bx, by), ((x0, x1), (y0, y1)), ex, mk, proj = job
        pt = pts if proj else off
        with fl.Work(c) as w:
            out = {n: os.path.join(w, n) for n in ("ftr", "rsp", "xy")}
            kw = dict(DIR_MASK=cubes[k][1].d, BASE_MASK="M.tif") if mk else {}
            p = fl.base("SMP", w, cubes[k][0], CHUNK_SIZE=f"{bx*RES} {by*RES}", X_TILE_RANGE=f"{x0} {x1}", Y_TILE_RANGE=f"{y0} {y1}",
                        FEATURE_EXCLUDE=ex, FEATURE_NODATA="-9999", FILE_POINTS=tofile(pt, proj, w), FILE_SAMPLE=out["ftr"], FILE_RESPONSE=out["rsp"], FILE_COORDINATES=out["xy"],
                        PROJECTED="TRUE" if proj else "FALSE", INPUT_FEATURE="A.tif 1 2\nINPUT_FEATURE = B.tif 1", **kw)
            r, _ = fl.products(w, p, must=False)
            if r.rc != 0:
                return f"program failed: {r.stdout[-200:]}", 0
            tab = {n: [tuple(float(v) for v in l.split()) for l in open(p)] if os.path.exists(p) else [] for n, p in out.items()}
            src = [tuple(float(v) for v in l.split()) for l in open(os.path.join(w, "pts.txt"))]
        if len({len(t) for t in tab.values()}) != 1:
            return f"number of lines differs: {[(n, len(t)) for n, t in tab.items()]}", 0
        want = {}
        for i, (x, y) in enumerate(pt):
            px, py = int(np.floor(x)), int(np.floor(y))
            if not (x0 * T <= px < (x1 + 1) * T and y0 * T <= py < (y1 + 1) * T):
                continue
            if mk and not masks[k][py - lo, px - lo]:
                continue
            v = feats[k][:, py - lo, px - lo]
            if ex == "TRUE" and (v == -9999).any():
                continue
            want[i] = tuple(float(q) for q in v)
        got = collections.Counter(int(t[0]) for t in tab["rsp"])
        dup = [i for i, m in got.items() if m > 1]
        if dup:
            return f"sample at pixel position {pt[dup[0]]} is written {got[dup[0]]} times", 0
        for i in want:
            if i not in got:
                return f"sample at pixel position {pt[i]} (tile {int(pt[i][0]//T)}/{int(pt[i][1]//T)}) is missing", 0
        for f, q, xy in zip(tab["ftr"], tab["rsp"], tab["xy"]):
            i = int(q[0])
            if i not in want:
                return f"sample at pixel position {pt[i]} is written but not inside or not valid", 0
            if q != (i, 2 * i) or abs(xy[0] - src[i][0]) > 1e-5 or abs(xy[1] - src[i][1]) > 1e-5:
                return f"lines out of step: response {q} with coordinates {xy} of point {src[i]}", 0
            if f != want[i]:
                return f"sample at pixel position {pt[i]}: features {f}, expected {want[i]}", 0
        return None, len(want)
    tot = 0
    for job, (bad, m) in zip(jobs, fl.pmap(one, jobs)):
        tot += m
        if bad:
            k, b, r, ex, mk, proj = job
            c.violation(f"block {b} tiles {r} FEATURE_EXCLUDE={ex} mask={mk} PROJECTED={proj} validity {k}: {bad}", {"job": job, "what": bad})
    c.sample(f"point {pts[33]} in pixels from the grid origin, job {jobs[17]}")
    c.coverage = dict(states=len(set(pts)) + len(off), transitions=sum(len(pts if j[5] else off) for j in jobs), traces_validated_against_impl=len(jobs), samples_written=tot, exhaustive=True,
                      rule="state = one point position; transition = the decision to write it or not in one configuration; trace = one program run compared line by line")


vlib.main(check, "H14", "model_checking")
