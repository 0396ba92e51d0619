#!/usr/bin/python3
"""L02: every pixel of a level 1 scene ends at its place on the ground, in the tile that covers this place; which tiles there
are does not depend on anything but the scene, the grid and the allow-list."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import itertools, math
import numpy as np
from osgeo import osr
import vlib, fl, l2

ORD = [10000, 9500, 9000, 8500, 18000, 5100, 14000, 10000, 25000]
SRC = 32632


def planes(ny, nx, hole):
    """row and column of each pixel are legible from its reflectance"""
    y, x = np.mgrid[0:ny, 0:nx]
    dn = np.stack([np.full((ny, nx), v) for v in ORD])
    dn[2] = 8000 + 12 * x
    dn[3] = 8000 + 12 * y
    dn[4] = 17000 + 12 * ((x * 7 + y * 3) % 50)
    if hole == "wedge":          # like the slanted border of a real frame
        dn[:, (x + 2 * y) % (nx + ny) < (nx + ny) // 6] = 0
        dn[:, x > nx - 3 - y // 4] = 0
    elif hole == "dots":
        dn[:, (x % 5 == 2) & (y % 7 == 3)] = 0
    return dn


def xform(a, b):
    s = []
    for e in (a, b):
        q = osr.SpatialReference()
        q.ImportFromEPSG(e)
        q.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        s.append(q)
    return osr.CoordinateTransformation(*s)


def reference(c, w, dn, ul, **kw):
    s = l2.scene(os.path.join(w, "l1", "LC08_R"), dn, ul, l2.wkt(SRC))
    wr = os.path.join(w, "ref")
    os.makedirs(wr)
    r = l2.process(wr, s, l2.prm(wr, DO_REPROJ="FALSE", DO_TILE="FALSE", **kw))
    t = l2.tiles(os.path.join(wr, "l2")).get("195023", {})
    if r.rc != 0 or len(t) < 2:
        raise vlib.ProgramError(f"reference run: exit {r.rc} {t} {r.stdout[-300:]}")
    a = {k.rsplit("_", 1)[1]: fl.read_tif(p).astype(int) for k, p in t.items()}
    g = l2.geo(list(t.values())[0])
    if g != ((ul[0], 30, 0, ul[1], 0, -30), dn.shape[2], dn.shape[1]):
        return s, a, f"the scene kept in its own grid has grid {g} instead of {ul}"
    return s, a, None


def compare(path, prod, ref, ul, epsg, gt, nx, ny):
    """None or text; pixel centres of the product looked up in the reference"""
    a = fl.read_tif(path).astype(int)
    if prod == "QAI":
        a = a & 0xffff
    x = gt[0] + gt[1] * (np.arange(nx) + 0.5)
    y = gt[3] + gt[5] * (np.arange(ny) + 0.5)
    X, Y = np.meshgrid(x, y)
    eps = 1e-6
    if epsg != SRC:
        t = xform(epsg, SRC)
        q = np.array(t.TransformPoints(np.stack([X.ravel(), Y.ravel()], 1).tolist()))
        X, Y = q[:, 0].reshape(X.shape), q[:, 1].reshape(Y.shape)
        eps = 0.14         # the warper approximates the transformation to an eighth of a pixel
    fx, fy = (X - ul[0]) / 30, (ul[1] - Y) / 30
    nb, sy, sx = ref.shape
    void = 1 if prod == "QAI" else -9999
    good = np.zeros(X.shape, bool)
    src = ref & 0xffff if prod == "QAI" else ref
    for dx in (-eps, eps):
        for dy in (-eps, eps):
            j, i = np.floor(fx + dx).astype(int), np.floor(fy + dy).astype(int)
            inside = (j >= 0) & (j < sx) & (i >= 0) & (i < sy)
            v = np.where(inside[None], src[:, np.clip(i, 0, sy - 1), np.clip(j, 0, sx - 1)], void)
            good |= (v == a).all(0)
    if good.all():
        return None
    i, j = np.argwhere(~good)[0]
    return f"{prod} pixel ({i}, {j}) holds {a[:, i, j].tolist()}, its centre lies at ({fy[i, j]:.3f}, {fx[i, j]:.3f}) of the scene; {(~good).sum()} such pixels"


def one(c, job):
    (ny, nx), ul, hole, size, res, epsg, allow, tiled, lonlat = job
    bad = []
    npix = 0
    with fl.Work(c) as w:
        dn = planes(ny, nx, hole)
        s, ref, err = reference(c, w, dn, ul, OUTPUT_HOT="TRUE")
        if err:
            return [err], 0, 0
        t = xform(4326, epsg)
        ox, oy, _ = t.TransformPoint(*lonlat)

        # tiles the valid pixels lie in
        valid = (ref["QAI"][0] & 1) == 0
        iy, ix = np.nonzero(valid)
        kw = {}
        if allow is not None:
            kw["FILE_TILE"] = os.path.join(w, "allow.txt")
            with open(kw["FILE_TILE"], "w") as f:
                f.write(f"{len(allow)}\n" + "".join(fl.tilename(*q) + "\n" for q in allow))
        p = l2.prm(w, PROJECTION=l2.wkt(epsg), TILE_SIZE="%d %d" % size, RESOLUTION_LANDSAT=res, ORIGIN_LON=lonlat[0], ORIGIN_LAT=lonlat[1],
                   OUTPUT_HOT="TRUE", DO_TILE="TRUE" if tiled else "FALSE", **kw)
        r = l2.process(w, s, p)
        if r.rc != 0:
            return [f"exit {r.rc}: {r.stdout[-300:]}"], 0, 0
        out = l2.tiles(os.path.join(w, "l2"))
        if tiled:
            # expected tiles: those in which some product pixel centre falls on a valid scene pixel
            T = xform(epsg, SRC)
            cx = np.array(xform(SRC, epsg).TransformPoints([[ul[0] + a * 30 * nx, ul[1] - b * 30 * ny] for a in np.linspace(0, 1, 9) for b in np.linspace(0, 1, 9)]))
            tx0, tx1 = (int(math.floor((v - ox) / size[0])) for v in (cx[:, 0].min(), cx[:, 0].max()))
            ty0, ty1 = (int(math.floor((oy - v) / size[1])) for v in (cx[:, 1].max(), cx[:, 1].min()))
            must, may = set(), set()
            eps = 1e-6 if epsg == SRC else 0.14
            for tx, ty in itertools.product(range(tx0 - 1, tx1 + 2), range(ty0 - 1, ty1 + 2)):
                if allow is not None and (tx, ty) not in allow:
                    continue
                n, m = int(size[0] // res), int(size[1] // res)
                X, Y = np.meshgrid(ox + tx * size[0] + res * (np.arange(n) + 0.5), oy - ty * size[1] - res * (np.arange(m) + 0.5))
                if epsg != SRC:
                    q = np.array(T.TransformPoints(np.stack([X.ravel(), Y.ravel()], 1).tolist()))
                    X, Y = q[:, 0].reshape(X.shape), q[:, 1].reshape(Y.shape)
                fx, fy = (X - ul[0]) / 30, (ul[1] - Y) / 30
                hits = []
                for dx in (-eps, eps):
                    for dy in (-eps, eps):
                        j, i = np.floor(fx + dx).astype(int), np.floor(fy + dy).astype(int)
                        inside = (j >= 0) & (j < nx) & (i >= 0) & (i < ny)
                        hits.append(inside & valid[np.clip(i, 0, ny - 1), np.clip(j, 0, nx - 1)])
                if np.logical_and.reduce(hits).any():
                    must.add((tx, ty))
                if np.logical_or.reduce(hits).any():
                    may.add((tx, ty))
            names = {fl.tilename(*q): q for q in may}
            got = set(out)
            if not {fl.tilename(*q) for q in must} <= got or not got <= set(names):
                bad.append(f"tiles written: {sorted(got)}, expected {sorted(fl.tilename(*q) for q in must)}")
        else:
            if list(out) != ["195023"]:
                bad.append(f"untiled output lies in {sorted(out)}")
        files = 0
        for tile, prods in out.items():
            if sorted(k.rsplit("_", 1)[1] for k in prods) != ["HOT", "QAI", "TOA"]:
                bad.append(f"{tile} holds {sorted(prods)}")
            for k, path in prods.items():
                prod = k.rsplit("_", 1)[1]
                gt, gx, gy = l2.geo(path)
                if tiled and tile in names:
                    tx, ty = names[tile]
                    want = (ox + tx * size[0], res, 0, oy - ty * size[1], 0, -res)
                    if max(abs(a - b) for a, b in zip(gt, want)) > 1e-3 or (gx, gy) != (size[0] // res, size[1] // res):
                        bad.append(f"{tile}/{k} covers {gt} {gx}x{gy} instead of {want}")
                        continue
                e = compare(path, prod, ref[prod], ul, epsg, gt, gx, gy)
                if e:
                    bad.append(f"{tile}: {e}")
                files += 1
                npix += gx * gy
            if not tiled:
                # nothing of the scene may be cut off
                x, y, _ = zip(*xform(SRC, epsg).TransformPoints([[ul[0] + 30 * (b + .5), ul[1] - 30 * (a + .5)] for a, b in zip(iy, ix)]))
                if min(x) < gt[0] - res or max(x) > gt[0] + gx * res + res or max(y) > gt[3] + res or min(y) < gt[3] - gy * res - res:
                    bad.append(f"untiled product covers {gt} {gx}x{gy}, part of the scene lies outside")
    return bad, npix, files


def check(c):
    fl.exe("force-l2ps")
    jobs = []
    sizes = [(3000, 3000), (1500, 1500), (1500, 3000), (3000, 1500), (600, 900)]
    lls = (9, 52)
    # positions of the scene against the pixel and tile grid (map origin 500000 / 5761038.21 and, for 9.01/52.003, arbitrary)
    offs = (0, 10, 15, 29.5)
    for dx, dy in itertools.product(offs, offs):
        jobs.append(((70, 90), (500000 + dx, 5760000 - dy), "wedge", (1500, 1500), 30, SRC, None, True, lls))
        jobs.append(((45, 40), (498000 + dx, 5763000 - dy), None, (3000, 3000), 30, SRC, None, True, (9.01, 52.003)))
    for size in sizes:
        for ulx, uly in itertools.product((500000 - 3000, 500000 - 30, 500000 + 2970, 500000 + 1485), (5761038.2126 + 30, 5761038.2126 - 1500, 5761038.2126 - 2985)):
            jobs.append(((60, 64), (round(ulx), round(uly)), "dots", size, 30, SRC, None, True, lls))
    for res in (15, 20, 60, 90):
        for size in ((1800, 1800), (3600, 1800)):
            jobs.append(((70, 90), (500015, 5760012), "wedge", size, res, SRC, None, True, lls))
    for epsg, ll in ((3035, (9, 52)), (32633, (9, 52)), (3035, (8.987, 51.97)), (32631, (9.2, 52.1))):
        for size in ((3000, 3000), (1200, 1500)):
            jobs.append(((70, 90), (500000, 5760000), "wedge", size, 30, epsg, None, True, ll))
            jobs.append(((64, 40), (500010, 5760020), None, size, 30, epsg, None, True, ll))
    # every allow-list over the four tiles at a grid crossing
    four = [(0, 0), (1, 0), (0, 1), (1, 1)]
    for m in range(1, 16):
        jobs.append(((60, 60), (502100, 5758938), None, (3000, 3000), 30, SRC, [q for k, q in enumerate(four) if m >> k & 1], True, lls))
    jobs.append(((60, 60), (502100, 5758938), None, (3000, 3000), 30, SRC, [(5, 5), (1, 0), (-1, 0)], True, lls))
    for epsg in (SRC, 3035):
        for ulx in (500000, 500010, 500015):
            jobs.append(((50, 70), (ulx, 5760000), "wedge", (3000, 3000), 30, epsg, None, False, lls))
    if c.thorough:
        for dx, dy in itertools.product(np.arange(0, 30, 2.5), repeat=2):
            jobs.append(((45, 40), (498000 + dx, 5763000 - dy), "dots", (900, 1200), 30, SRC, None, True, (9.01, 52.003)))
    res = fl.pmap(lambda j: one(c, j), jobs, 7)
    pix = files = 0
    for j, (bad, a, b) in zip(jobs, res):
        pix += a
        files += b
        for t in bad:
            c.violation(f"scene {j[0]} at {j[1]} ({j[2]}), tiles {j[3]}, resolution {j[4]}, EPSG {j[5]}, allow-list {j[6]}, tiled {j[7]}, origin {j[8]}: {t}", dict(job=j), key=None)
    c.coverage.update(states=pix, transitions=files, exhaustive=True, traces_validated_against_impl=len(jobs),
                      bounds="16 subpixel positions of the scene times 2 grids, 12 positions at tile borders times 5 tile shapes, 4 further resolutions, "
                             "3 further projections, all allow-lists over four tiles, untiled output; nearest neighbour resampling")
    c.sample(f"{pix} product pixels looked up at their ground position in {files} files")


if __name__ == "__main__":
    vlib.main(check, "L02", "model_checking")
