#!/usr/bin/python3
"""H15: all mask patterns of a 3x3 pixel group, for all block layouts that cut or keep the groups, for the pixel-wise submodules."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal
import fl, mods, vlib

G = 24                  # groups per row: G*G >= 512 patterns
N = 3 * G
MODS = ["TSA", "POL", "LEVEL3", "CSO", "RFC", "SVR", "UDF-CHUNK"]


def nodata(path):
    ds = gdal.Open(path)
    return [ds.GetRasterBand(i + 1).GetNoDataValue() for i in range(ds.RasterCount)]


def check(c):
    tiles = ((0, 0), (1, 0), (2, 0))
    cube = mods.level2(os.path.join(c.scratch, "l2"), N, N, tiles, dates=mods.DATES[-5:])
    aux = mods.models(os.path.join(c.scratch, "aux"))
    mods.udf(aux)
    # tile 0: every pattern once; tile 1: the same shifted by one pixel; tile 2: nothing selected
    y, x = np.mgrid[0:N, 0:N]
    pat = ((y // 3) * G + x // 3) % 512
    m0 = (pat >> (y % 3 * 3 + x % 3) & 1).astype(np.uint8)
    m1 = np.roll(m0, (1, 1), (0, 1))
    masks = {(0, 0): m0, (1, 0): m1, (2, 0): np.zeros_like(m0)}
    md = fl.Cube(os.path.join(c.scratch, "mask"), N, N)
    for t, m in masks.items():
        md.put(*t, "M.tif", m, 255)
    lay = [(3, 3), (N, 3), (3, N), (N, N), (12, 12), (8, 8), (N, 1)]
    few = {(3, 3), (N, 1)}

    def run(mod, b, mask):
        with fl.Work(c) as w:
            kw = dict(DIR_MASK=md.d, BASE_MASK="M.tif") if mask else {}
            if mod == "TSA" and b in few:       # many blocks: fewer products
                kw.update({k: "FALSE" for k in mods.ALL_TSA if k not in ("OUTPUT_TSS", "OUTPUT_STM")}, INDEX="NDVI", INTERPOLATE="NONE")
            p = mods.prm(mod, w, cube, aux, X_TILE_RANGE="0 2", Y_TILE_RANGE="0 0", CHUNK_SIZE=f"{b[0]*10} {b[1]*10}", **kw)
            try:
                r, o = fl.products(w, p, timeout=300)
            except fl.Failed as e:
                return str(e)
            return {k: (v, nodata(os.path.join(w, "hl", k)), fl.band_names(os.path.join(w, "hl", k))) for k, v in o.items()}
    jobs = [(m, b, True) for m in MODS for b in (lay if m in ("TSA", "CSO", "RFC") or c.thorough else lay[1:6])]
    refs_ = {m: r for m, r in zip(MODS, fl.pmap(lambda m: run(m, (N, N), False), MODS))}
    tot = 0
    for (m, b, _), o in zip(jobs, fl.pmap(lambda j: run(*j), jobs)):
        ref, what = refs_[m], None
        if isinstance(o, str) or isinstance(ref, str):
            c.violation(f"{m} block {b}: program failed: {o if isinstance(o, str) else ref}", {"job": (m, b)})
            continue
        want = {k for k in ref if not k.startswith("X0002")}
        if m == "TSA" and b in few:
            want = {k for k in want if k.endswith(("NDVI_TSS.tif", "NDVI_STM.tif"))}
        if set(o) != want:
            c.violation(f"{m} block {b}: products missing {sorted(want - set(o))[:3]} surplus {sorted(set(o) - want)[:3]}", {"job": (m, b)})
            continue
        for k in sorted(o):
            a, nd, names = o[k]
            r = ref[k][0]
            if names != ref[k][2]:
                what = f"{k}: bands {names} instead of {ref[k][2]}"
                break
            if m == "TSA" and b in few and k.endswith("STM.tif"):
                r = None        # other interpolation: only the masked part is compared
            mk = masks[(int(k[1:5]), 0)].astype(bool)
            for i in range(len(a)):
                tot += a[i].size
                bad = (mk & (a[i] != r[i])) if r is not None else np.zeros_like(mk)
                if bad.any():
                    q = np.argwhere(bad)[0]
                    what = f"{k} band {names[i] or i+1}: selected pixel {q[1]}/{q[0]} is {a[i][tuple(q)]}, without mask {r[i][tuple(q)]} ({int(bad.sum())} pixels)"
                    break
                if m == "UDF-CHUNK":        # what a user function makes of nodata is its own business
                    continue
                bad = ~mk & (a[i] != nd[i])
                if bad.any():
                    q = np.argwhere(bad)[0]
                    what = f"{k} band {names[i] or i+1}: pixel {q[1]}/{q[0]} outside the mask is {a[i][tuple(q)]} instead of nodata ({nd[i]}) ({int(bad.sum())} pixels)"
                    break
            if what:
                break
        if what:
            c.violation(f"{m} block {b[0]}x{b[1]}: {what}", {"job": (m, b), "what": what})
    c.sample(f"pattern {bin(int(pat[30, 30]))}, {jobs[3]}")
    c.coverage = dict(states=len(np.unique(pat)), transitions=tot, traces_validated_against_impl=len(jobs), layouts=len(lay), exhaustive=True,
                      rule="state = mask pattern of a 3x3 pixel group; transition = one value of a product (patterns aligned with the blocks and shifted by one pixel) compared; trace = one run of one submodule in one block layout")


vlib.main(check, "H15", "model_checking")
