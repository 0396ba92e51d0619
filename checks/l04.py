#!/usr/bin/python3
"""L04: cloud, cirrus, shadow, snow and nodata areas grow by exactly the buffers asked for; distance, erased clouds and the
area of interest follow from the flags."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import itertools, math
import numpy as np
from osgeo import gdal, ogr, osr
import cv2
import vlib, fl, l2

ORD = [10000, 9500, 9000, 8500, 18000, 5100, 14000, 10000, 25000]
UL = (500000, 5760000)


def patterns(m, y0, x0, step, ncols, which):
    """3 by 3 patterns number `which`, one per cell"""
    for k, w in enumerate(which):
        y, x = y0 + step * (k // ncols), x0 + step * (k % ncols)
        for b in range(9):
            if w >> b & 1:
                m[y + b // 3, x + b % 3] = True


def scene_a(N=300):
    """clouds of all 3 by 3 shapes of at least four pixels, a few large ones with shadows, at all borders and corners;
    cirrus and snow of all 3 by 3 shapes; void pixels inside and at the border"""
    dn = np.stack([np.full((N, N), v) for v in ORD])
    y, x = np.mgrid[0:N, 0:N]
    dn[8] += (x * 5 + y * 3) % 200
    z = lambda: np.zeros((N, N), bool)
    cloud, cirrus, snow, dark, void = z(), z(), z(), z(), z()
    shapes = [w for w in range(512) if bin(w).count("1") >= 5]
    patterns(cloud, 60, 12, 14, 19, shapes[::2][:133])
    for a, b in ((0, 0), (0, N - 5), (N - 5, 0), (N - 5, N - 5), (1, 100), (2, 150), (100, 0), (160, N - 6), (N - 6, 120), (N - 8, 60)):
        cloud[a:a + 5, b:b + 5] = True
    cloud[20:40, 100:120] = True
    cloud[30:44, 200:214] = True
    dark[4:24, 92:112] = True
    dark[14:28, 192:206] = True
    dark[0:10, 40:60] = True
    dark &= ~cloud
    patterns(cirrus, 170, 8, 12, 24, list(range(1, 512, 5)))
    cirrus[N - 1, 200:210] = cirrus[230:236, N - 1] = cirrus[200, 0] = cirrus[0, 250] = True
    patterns(snow, 232, 9, 13, 22, list(range(1, 512, 8)))
    snow[N - 2:, 170:172] = snow[260:263, :2] = snow[0, 270:272] = True
    patterns(void, 280, 220, 6, 12, [1, 2, 16, 186, 511, 21, 84, 257, 273, 495])
    void[140, 0] = void[0, 70:73] = void[N - 1, 30] = void[245:250, N - 1] = True
    cirrus &= ~cloud & ~snow
    for b, v in ((4, 9400), (6, 7500), (7, 6500)):
        dn[b][dark] = v
    for b in (0, 1, 2, 3, 4, 6, 7):
        dn[b][cloud] = 30000
    dn[1][cloud] = 65535
    dn[8][cloud] = 20000
    dn[5][cirrus] = 8000
    for b, v in zip(range(9), [35000, 34000, 33000, 32000, 30000, 5100, 9000, 8000, 22000]):
        dn[b][snow] = v
    dn[:, void] = 0
    return dn, dict(cloud=cloud, cirrus=cirrus & ~void, snow=snow & ~void, void=void)


def distance(m):
    """pixel distance to the nearest set pixel"""
    if not m.any():
        return np.full(m.shape, 1e9)
    return cv2.distanceTransform((~m).astype(np.uint8), cv2.DIST_L2, cv2.DIST_MASK_PRECISE).astype(float)


def grown(m, metres):
    """(certainly in, possibly in) after buffering by a number of metres"""
    r = int(metres // 30)
    if r == 0:
        return m, m
    d = distance(m)
    return d <= r + 1e-3, d <= r + 0.3


class Result:
    pass


def run(c, dn, sub, **kw):
    with fl.Work(c) as w:
        s = l2.scene(os.path.join(w, "l1", "LC08_A"), dn, UL, l2.wkt(32632))
        if "aoi" in kw:
            kw["FILE_AOI"] = os.path.join(w, "aoi.gpkg")
            ds = ogr.GetDriverByName("GPKG").CreateDataSource(kw["FILE_AOI"])
            sr = osr.SpatialReference()
            sr.ImportFromEPSG(32632)
            lay = ds.CreateLayer("aoi", sr, ogr.wkbPolygon)
            for y0, y1, x0, x1 in kw.pop("aoi"):
                X0, X1, Y0, Y1 = UL[0] + 30 * x0, UL[0] + 30 * x1, UL[1] - 30 * y0, UL[1] - 30 * y1
                f = ogr.Feature(lay.GetLayerDefn())
                f.SetGeometry(ogr.CreateGeometryFromWkt(f"POLYGON(({X0} {Y0},{X1} {Y0},{X1} {Y1},{X0} {Y1},{X0} {Y0}))"))
                lay.CreateFeature(f)
            ds = lay = None
        r = l2.process(w, s, l2.prm(w, DO_REPROJ="FALSE", DO_TILE="FALSE", OUTPUT_DST="TRUE", **kw))
        t = l2.tiles(os.path.join(w, "l2")).get("195023", {})
        if r.rc != 0 or len(t) != 3:
            return f"exit {r.rc}, {sorted(t)}: {r.stdout[-300:]}"
        o = Result()
        q = {k.rsplit("_", 1)[1]: fl.read_tif(p).astype(int) for k, p in t.items()}
        o.toa, o.qai, o.dst = q["TOA"], q["QAI"][0] & 0xffff, q["DST"][0]
        o.off = (o.qai & 1) != 0
        o.cloud, o.shadow, o.snow = (o.qai >> 1) & 3, ((o.qai >> 3) & 1) != 0, ((o.qai >> 4) & 1) != 0
        return o


def where(m, text, o):
    y, x = np.argwhere(m)[0]
    return f"{text} at {(int(y), int(x))}, quality {o.qai[y, x]:#x}; {int(m.sum())} pixels"


def judge(o, want, base, kw):
    """want: planted sets; base: same scene without buffers other than the snow buffer"""
    bad = []
    on = ~o.off
    b = {k: kw.get(k + "_BUFFER", 0) for k in ("CLOUD", "CIRRUS", "SHADOW", "SNOW")}
    inner = np.ones(on.shape, bool)

    def sets(name, got, lo, hi):
        if (m := lo & ~got & on & inner).any():
            bad.append(where(m, f"{name} missing", o))
        if (m := got & ~hi & on & inner).any():
            bad.append(where(m, f"{name} too many", o))

    if (o.off & (o.qai != 1)).any():
        bad.append(where(o.off & (o.qai != 1), "nodata with further flags", o))
    c0 = base.cloud == 2
    lo, hi = grown(c0, b["CLOUD"])
    sets("opaque cloud", o.cloud == 2, c0, c0)
    sets("cloud buffer", o.cloud == 1, lo & ~c0, hi & ~c0)
    slo, shi = grown(want["snow"], b["SNOW"])
    sets("snow", o.snow, slo, shi)
    ci_lo, ci_hi = want["cirrus"] & ~shi, want["cirrus"] & ~slo
    glo, ghi = grown(ci_lo, b["CIRRUS"])[0], grown(ci_hi, b["CIRRUS"])[1]
    sets("cirrus", o.cloud == 3, glo & ~hi, ghi & ~lo)
    lo, hi = grown(base.shadow, b["SHADOW"])
    sets("shadow", o.shadow, lo, hi)
    # distance to the nearest cloud, shadow or snow pixel
    d = distance((o.cloud > 0) | o.shadow | o.snow)
    m = on & (np.abs(o.dst - np.minimum(d * 30, 32767)) >= 30.5)
    if m.any():
        y, x = np.argwhere(m)[0]
        bad.append(where(m, f"distance {o.dst[y, x]} instead of {d[y, x] * 30:.1f}", o))
    if (o.off & (o.dst != -9999)).any():
        bad.append(where(o.off & (o.dst != -9999), "distance in nodata", o))
    if (on & ((o.dst == 0) != ((o.cloud > 0) | o.shadow | o.snow))).any():
        bad.append("distance zero elsewhere than in cloud, shadow and snow")
    gone = (o.toa == -9999).all(0)
    part = (o.toa == -9999).any(0) & ~gone
    if part.any():
        bad.append(where(part, "some bands nodata", o))
    expect = o.off | ((o.cloud == 2) if kw.get("ERASE_CLOUDS") == "TRUE" else False)
    if (gone != expect).any():
        bad.append(where(gone != expect, "reflectance and flags disagree on nodata", o))
    keep = ~gone & ~(base.toa == -9999).all(0)
    if (o.toa != base.toa)[:, keep].any():
        bad.append("buffers changed reflectance")
    return bad


def check(c):
    fl.exe("force-l2ps")
    dn, want = scene_a()
    N = dn.shape[1]
    snowbufs = (0, 30, 60, 100)
    base = {}
    for k, r in zip(snowbufs, fl.pmap(lambda s: run(c, dn, 0, SNOW_BUFFER=s), snowbufs, 4)):
        if isinstance(r, str):
            c.violation(f"snow buffer {k}: {r}", dict(snow=k))
            c.coverage.update(states=1, transitions=1, exhaustive=False, traces_validated_against_impl=1)
            return
        base[k] = r
    b0 = base[0]
    if not b0.shadow.any() or (b0.cloud == 2).sum() < 0.8 * want["cloud"].sum():
        raise vlib.ProgramError("the scene shows no shadow or too few clouds")
    jobs = []
    for r in (0, 29, 30, 45, 60, 75, 90, 120, 150, 210, 300):
        for k in ("CLOUD", "CIRRUS", "SHADOW"):
            jobs.append({k + "_BUFFER": r})
    for s in snowbufs:
        jobs.append(dict(SNOW_BUFFER=s))
    top = (0, 60, 100) if c.thorough else (0, 60)
    for a, b, d, e in itertools.product(top, (0, 90), (0, 60), snowbufs):
        jobs.append(dict(CLOUD_BUFFER=a, CIRRUS_BUFFER=b, SHADOW_BUFFER=d, SNOW_BUFFER=e))
    for n in (2, 3, 8):
        jobs.append(dict(CLOUD_BUFFER=90, CIRRUS_BUFFER=30, SHADOW_BUFFER=60, SNOW_BUFFER=30, NTHREAD=n))
    for e in (0, 90):
        jobs.append(dict(ERASE_CLOUDS="TRUE", CLOUD_BUFFER=e))
    res = fl.pmap(lambda kw: run(c, dn, 0, **kw), jobs, 7)
    pix = 0
    for kw, o in zip(jobs, res):
        bad = [o] if isinstance(o, str) else judge(o, want, base[kw.get("SNOW_BUFFER", 0)], kw)
        pix += N * N
        if not isinstance(o, str) and (o.off != want["void"]).any():
            bad.append(where(o.off != want["void"], "nodata wrong", o))
        for t in bad:
            c.violation(f"{kw}: {t}", dict(parameters=kw))
    # nodata buffer and areas of interest
    nd = run(c, dn, 0, BUFFER_NODATA="TRUE")
    v = want["void"]
    g = v.copy()
    g[1:] |= v[:-1]; g[:-1] |= v[1:]; g[:, 1:] |= v[:, :-1]; g[:, :-1] |= v[:, 1:]
    if isinstance(nd, str):
        c.violation(f"nodata buffer: {nd}", {})
    elif (nd.off != frame(g)).any():
        c.violation(where(nd.off != frame(g), "nodata buffer wrong", nd), dict(parameters="BUFFER_NODATA"))
    areas = [[(0, N, 0, N)], [(10, 200, 20, 150)], [(0, 1, 0, N)], [(50, 60, 50, 60), (100, 200, 0, 300)], [(N - 1, N, N - 1, N), (0, 2, 0, 2)],
             [(-50, 100, -50, N + 50)], [(20, 120, 20, 120), (80, 220, 80, 220)]]
    areas += [[(y, y + 60, x, x + 90)] for y in range(0, 300, 60) for x in range(0, 300, 90)]
    for a, o in zip(areas, fl.pmap(lambda a: run(c, dn, 0, aoi=a), areas, 7)):
        pix += N * N
        m = np.zeros((N, N), bool)
        for y0, y1, x0, x1 in a:
            m[max(y0, 0):max(y1, 0), max(x0, 0):max(x1, 0)] = True
        if isinstance(o, str):
            c.violation(f"area of interest {a}: {o}", dict(aoi=a))
            continue
        bad = []
        if (o.off != (v | ~m)).any():
            bad.append(where(o.off != (v | ~m), "nodata does not match the area", o))
        if (o.qai != b0.qai)[~o.off].any():
            bad.append(where((o.qai != b0.qai) & ~o.off, "flags inside the area changed", o))
        if (o.toa != np.where(o.off, -9999, b0.toa)).any():
            bad.append("reflectance inside the area changed or outside kept")
        for t in bad:
            c.violation(f"area of interest {a}: {t}", dict(aoi=a))
    c.coverage.update(states=pix, transitions=len(jobs) * 4 + len(areas), exhaustive=True, traces_validated_against_impl=len(jobs) + len(areas) + 5,
                      bounds="one 300x300 scene with cloud, cirrus, snow and void patterns over 3x3 pixels and at all borders; 11 radii per buffer, all combinations of "
                             "2x2x2x4 buffers, 1 to 8 threads, erased clouds, 27 areas of interest")
    c.sample(f"flags of {pix} pixels compared with the sets grown by {len(jobs)} combinations of buffers")


def frame(g):
    """the outermost pixels share the fate of their inner neighbours"""
    g = g.copy()
    g[:, 0] |= g[:, 1]
    g[:, -1] |= g[:, -2]
    g[0] |= g[1]
    g[-1] |= g[-2]
    return g


if __name__ == "__main__":
    vlib.main(check, "L04", "model_checking")
