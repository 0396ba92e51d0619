#!/usr/bin/python3
"""A04: mosaics of a datacube in which every non-empty set of tiles occurs as the tiles of some product."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal
import fl, vlib

NX, NY, NB = 3, 2, 2
TILES = [(3, 1), (4, 1), (-1, 2), (5, -2)]
ND = -9999


def value(k, i):
    """Bands of product k in tile i; every value occurs once, one pixel per band is nodata."""
    v = (np.arange(NB * NY * NX).reshape(NB, NY, NX) + k * 100 + i * 20 + 1).astype(np.int16)
    v[0, i % NY, k % NX] = ND
    v[1, k % NY, i % NX] = ND
    return v


def names(scheme, ext):
    """Names of the 15 products; k = set of tiles as bits."""
    if scheme == "plain":
        return {k: f"P{k:02d}.{ext}" for k in range(1, 16)}
    if scheme == "nested":  # each name is a tail or a head of others
        return {k: f"{'A' * k}_NDV.{ext}" if k % 2 else f"{'A' * (k - 1)}_NDV-{'B' * k}.{ext}" for k in range(1, 16)}
    # names that match each other when a dot stands for any character
    return {k: f"{k // 4}{'._-x'[k % 4]}TSS.{ext}" for k in range(1, 16)}


def build(d, scheme, ext):
    cube = fl.Cube(d, NX, NY)
    nm = names(scheme, ext)
    for i, (tx, ty) in enumerate(TILES):
        cube.tiledir(tx, ty)
        for k, n in nm.items():
            if k >> i & 1:
                p = os.path.join(cube.tiledir(tx, ty), n)
                fl.write_tif(p + ".x", value(k, i), cube.ul(tx, ty), cube.res, ND)
                if ext == "tif":
                    os.rename(p + ".x", p)
                else:
                    gdal.Translate(p, p + ".x", format="ENVI")
                    os.unlink(p + ".x")
                ds = gdal.Open(p, gdal.GA_Update)
                for b in range(NB):
                    ds.GetRasterBand(b + 1).SetDescription(f"band-{k}-{b}")
                    ds.GetRasterBand(b + 1).SetMetadata({"Domain": f"dom-{k}-{b}"}, "FORCE")
                ds = None
        # files that are no products of the requested kind
        with open(os.path.join(cube.tiledir(tx, ty), "notes.txt"), "w") as f:
            f.write("x\n")
        if ext != "tif":
            cube.put(tx, ty, "other.tif", value(0, i), ND)
    cube.tiledir(6, 6)  # a tile without products
    os.makedirs(os.path.join(d, "log"))
    fl.write_tif(os.path.join(d, "log", nm[1] if ext == "tif" else "P.tif"), value(1, 0), (0, 0), 10, ND)
    return cube, nm


def expect(cube, k):
    t = [(i, TILES[i]) for i in range(4) if k >> i & 1]
    x0, x1 = min(p[0] for _, p in t), max(p[0] for _, p in t)
    y0, y1 = min(p[1] for _, p in t), max(p[1] for _, p in t)
    a = np.full((NB, (y1 - y0 + 1) * NY, (x1 - x0 + 1) * NX), ND, np.int16)
    for i, (tx, ty) in t:
        a[:, (ty - y0) * NY:(ty - y0 + 1) * NY, (tx - x0) * NX:(tx - x0 + 1) * NX] = value(k, i)
    return a, cube.ul(x0, y0)


def compare(cube, nm, ext, out, seen):
    got = sorted(os.listdir(out))
    want = sorted(n[:-len(ext)] + "vrt" for n in nm.values())
    if got != want:
        return f"the mosaic directory has {sorted(set(got) - set(want))[:4]} too much, {sorted(set(want) - set(got))[:4]} missing"
    for k, n in nm.items():
        ds = gdal.Open(os.path.join(out, n[:-len(ext)] + "vrt"))
        a, ul = expect(cube, k)
        tl = [fl.tilename(*TILES[i]) for i in range(4) if k >> i & 1]
        if ds is None:
            return f"the mosaic of {n} cannot be opened"
        gt = ds.GetGeoTransform()
        if (gt[0], gt[3], gt[1], gt[5]) != (ul[0], ul[1], cube.res, -cube.res) or (ds.RasterXSize, ds.RasterYSize) != (a.shape[2], a.shape[1]):
            return f"the mosaic of {n} (tiles {tl}) starts at {(gt[0], gt[3])} with {ds.RasterXSize} x {ds.RasterYSize} pixels, expected {ul} with {a.shape[2]} x {a.shape[1]}"
        if ds.RasterCount != NB:
            return f"the mosaic of {n} has {ds.RasterCount} bands"
        g = ds.ReadAsArray()
        if g is None:
            return f"the mosaic of {n} cannot be read"
        if (g != a).any():
            b, y, x = np.argwhere(g != a)[0]
            return f"the mosaic of {n} (tiles {tl}) has {g[b, y, x]} in band {b + 1}, row {y}, column {x}, expected {a[b, y, x]}"
        for b in range(NB):
            r = ds.GetRasterBand(b + 1)
            m = (r.GetNoDataValue(), r.GetDescription(), r.GetMetadata("FORCE"))
            w = (ND, f"band-{k}-{b}", {"Domain": f"dom-{k}-{b}"} if ext == "tif" else {})
            if m != w:
                return f"the mosaic of {n} has nodata, name, metadata {m} in band {b + 1}, expected {w}"
        seen.append((n, k))
    return None


def check(c):
    jobs = [(*j, "14"[i % 2 ^ i // 4 % 2]) for i, j in enumerate(itertools.product(("plain", "nested", "dots"), ("tif", "dat"), ("default", "relative", "absolute", "deep")))]
    if c.thorough:
        jobs = [(*j[:3], n) for j in jobs for n in "14"]

    def one(j):
        seen, runs = [], []
        return run(j, seen, runs), seen, len(runs)

    def run(j, seen, runs):
        scheme, ext, where, cpu = j
        with fl.Work(c) as w:
            top = os.path.join(w, "top")
            os.makedirs(os.path.join(top, "cwd"))
            cube, nm = build(os.path.join(top, "cube"), scheme, ext)
            before = snapshot(cube.d)
            m, out = {"default": ([], os.path.join(cube.d, "mosaic")), "relative": (["-m", "out"], os.path.join(top, "cwd", "out")),
                      "absolute": (["-m", os.path.join(top, "out")], os.path.join(top, "out")),
                      "deep": (["-m", "../out/a/b"], os.path.join(top, "out", "a", "b"))}[where]
            arg = "../cube" if cpu == "4" else cube.d
            cmd = [fl.exe("force-mosaic"), "-j", cpu] + m + ([] if ext == "tif" else ["-e", ext]) + [arg]
            for turn in ("", "second run: "):
                r = fl.run(cmd, cwd=os.path.join(top, "cwd"))
                runs.append(turn)
                if r.rc:
                    return f"{turn}exit code {r.rc}: {r.stdout[-200:]}"
                if not os.path.isdir(out):
                    return f"{turn}nothing was written to the mosaic directory"
                bad = compare(cube, nm, ext, out, seen)
                if bad:
                    return turn + bad
                if os.listdir(os.path.join(top, "cwd")) not in ([], ["out"]):
                    return f"{turn}files left in the working directory: {os.listdir(os.path.join(top, 'cwd'))}"
                after = snapshot(cube.d)
                if before != after:
                    return f"{turn}the datacube was changed: {sorted(set(before.items()) ^ set(after.items()))[:2]}"
            # the paths are relative: datacube and mosaics can be moved together
            os.rename(top, top + "2")
            cube.d = cube.d.replace(top, top + "2")
            bad = compare(cube, nm, ext, out.replace(top, top + "2"), seen)
            return "after moving datacube and mosaics together: " + bad if bad else None
    states, trans, traces = set(), 0, 0
    for j, (bad, seen, runs) in zip(jobs, fl.pmap(one, jobs)):
        states.update(seen)
        trans += len(seen)
        traces += runs
        if bad:
            scheme, ext, where, cpu = j
            c.violation(f"product names {list(names(scheme, ext).values())[:4]}..., extension {ext}, mosaic directory {where}, {cpu} jobs: {bad}", {"config": j, "what": bad})
    # directories without anything to mosaic are refused
    with fl.Work(c) as w:
        os.makedirs(os.path.join(w, "empty"))
        cube = fl.Cube(os.path.join(w, "noprod"), NX, NY)
        cube.tiledir(0, 0)
        for d in ("empty", "noprod", "missing"):
            r = fl.run([fl.exe("force-mosaic"), "-m", os.path.join(w, "o-" + d), os.path.join(w, d)], cwd=w)
            traces += 1
            if r.rc == 0:
                c.violation(f"a directory without products ({d}) is mosaicked with exit code 0", {"dir": d})
    c.sample(f"{jobs[5]}")
    c.coverage = dict(states=len(states), transitions=trans, traces_validated_against_impl=traces, exhaustive=True,
                      rule="state = one set of tiles a product exists in, under one name; transition = one mosaic compared (first run, second run, after moving); trace = one program run")


def snapshot(d):
    o = {}
    for p, _, fs in os.walk(d):
        if "mosaic" in os.path.relpath(p, d).split(os.sep)[0]:
            continue
        for f in fs:
            if f.endswith(".aux.xml"):
                continue
            with open(os.path.join(p, f), "rb") as h:
                o[os.path.relpath(os.path.join(p, f), d)] = hash(h.read())
    return o


vlib.main(check, "A04", "model_checking")
