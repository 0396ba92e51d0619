#!/usr/bin/python3
"""L01: level 1 digital numbers become reflectance by the scene's own calibration, band by band; void, saturated and
low-sun pixels are flagged as such."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import itertools, math
import numpy as np
from osgeo import osr
import vlib, fl, l2

OFF, SATBIT, SUNLOW = 0x1, 1 << 9, 1 << 10

ORDINARY = {k: [10000, 9500, 9000, 8500, 18000, 5100, 14000, 10000, 25000] if k >= 8 else [60, 50, 45, 80, 70, 40, 130] for k in (4, 5, 7, 8, 9)}


def planes_values(lid, turn):
    """every digital number of every band; in `turn` each band takes them in another order"""
    nb, top = len(l2.BANDS[lid]), l2.SAT[lid] + 1
    ny, nx = (256, 256) if top > 256 else (64, 64)
    i = np.arange(ny * nx)
    dn = np.empty((nb, ny * nx), int)
    for b in range(nb):
        dn[b] = (i * (2 * (b * 7 + turn * 13) + 1) + 911 * b) % top
    return dn.reshape(nb, ny, nx)


def planes_flags(lid):
    """every combination of void / ordinary / saturated over the bands"""
    nb = len(l2.BANDS[lid])
    combos = np.array(list(itertools.product((0, 1, 2), repeat=nb)), np.uint8)
    n = len(combos)
    nx = int(math.ceil(math.sqrt(n)))
    ny = -(-n // nx)
    combos = combos[np.arange(nx * ny) % n]
    base = ORDINARY[lid]
    dn = np.empty((nb, nx * ny), int)
    for b in range(nb):
        dn[b] = np.choose(combos[:, b], (0, base[b], l2.SAT[lid]))
    return dn.reshape(nb, ny, nx)


def centre(ul, ny, nx, epsg):
    s, g = osr.SpatialReference(), osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    g.ImportFromEPSG(4326)
    for q in (s, g):
        q.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    lon, lat, _ = osr.CoordinateTransformation(s, g).TransformPoint(ul[0] + 15 * nx, ul[1] - 15 * ny)
    return lat, lon


def one(c, job):
    lid, what, turn, date, time, ul, nthread = job
    dn = planes_flags(lid) if what == "flags" else planes_values(lid, turn)
    # a frame of ordinary pixels: the outermost pixels of a scene share the fate of their inner neighbours
    dn = np.stack([np.pad(q, 1, constant_values=v) for q, v in zip(dn, ORDINARY[lid])])
    nb, ny, nx = dn.shape
    gain = l2.gains(lid)
    if turn < 0:                    # positive offsets: a void band is not betrayed by its reflectance
        gain = [(g, abs(o) + 0.01) for g, o in gain]
    with fl.Work(c) as w:
        s = l2.scene(os.path.join(w, "l1", "LC0%d_X" % lid), dn, ul, l2.wkt(32632), lid, date, time, gain)
        p = l2.prm(w, DO_REPROJ="FALSE", DO_TILE="FALSE", OUTPUT_HOT="TRUE", NTHREAD=nthread)
        r = l2.process(w, s, p)
        t = l2.tiles(os.path.join(w, "l2"))
        tag = f"{lid}/{what}/{turn} {date} {time} at {ul} with {nthread} threads"
        stem = f"{date.replace('-', '')}_LEVEL2_LND{lid:02d}_"
        if r.rc != 0 or list(t) != ["195023"] or sorted(t["195023"]) != [stem + q for q in ("HOT", "QAI", "TOA")]:
            return [f"{tag}: exit {r.rc}, output {t}: {r.stdout[-300:]}"], 0, 0
        toa, qai, hot = (fl.read_tif(t["195023"][stem + q]).astype(int) for q in ("TOA", "QAI", "HOT"))
        gt = l2.geo(t["195023"][stem + "TOA"])
    bad = []
    if gt != ((ul[0], 30, 0, ul[1], 0, -30), nx, ny):
        bad.append(f"{tag}: grid {gt}")
        return bad, 0, 0
    lat, lon = centre(ul, ny, nx, 32632)
    hh, mm, ss = time.rstrip("Z").split(":")
    zen = l2.sunzenith(lat, lon, *map(int, date.split("-")), int(hh) + int(mm) / 60 + float(ss) / 3600)
    qai = qai[0] & 0xffff
    th, ci = l2.THERMAL[lid], l2.CIRRUS[lid]
    void = np.zeros((ny, nx), bool)
    sat = np.zeros((ny, nx), bool)
    refl = {}
    near = np.ones((ny, nx), bool)      # pixels not compared: the frame,
    near[1:-1, 1:-1] = False        # and reflectance so close to zero that its sign is a matter of rounding
    for b in range(nb):
        if b != ci:
            void |= dn[b] == 0
        if b == th:
            continue
        sat |= dn[b] >= l2.SAT[lid]
        refl[b] = (gain[b][1] + gain[b][0] * dn[b]) / math.cos(zen)
        if b != ci:
            void |= refl[b] <= 0
            near |= np.abs(gain[b][1] + gain[b][0] * dn[b]) < 1e-7
    off = (qai & OFF) != 0

    def report(mask, text):
        if mask.any():
            y, x = np.argwhere(mask)[0]
            bad.append(f"{tag}: {text} at {(y, x)}, digital numbers {dn[:, y, x].tolist()}, TOA {toa[:, y, x].tolist()}, QAI {qai[y, x]:#x}; {mask.sum()} pixels")

    report((off != void) & ~near, "void pixel not marked, or valid pixel marked void")
    report(off & (qai != 1), "void pixel carries further flags")
    report(off & ((toa != -9999).any(0) | (hot[0] != -9999)), "void pixel carries data")
    ok = ~off & ~near
    # the sun is computed once per 5 km cell; within a cell the ratio of written to expected reflectance is a constant,
    # which a sun position within 0.15 degree of the almanac's explains
    expected = np.stack([refl[b] * 10000 for b in l2.OUT[lid]])
    tol = math.tan(zen) * math.radians(0.15) + 2e-4
    cell = (np.arange(ny) * 30 // 5000)[:, None] * 100 + (np.arange(nx) * 30 // 5000)[None]
    e = np.empty_like(expected)
    for g in np.unique(cell):
        m = cell == g
        pick = ok[None] & m[None] & (expected > 3000) & (expected < 30000)
        k = np.median(toa[pick] / expected[pick]) if pick.any() else 1.0
        if abs(k - 1) > tol + 3e-4 or not pick.any():
            bad.append(f"{tag}: reflectance is {k:.4f} times what calibration and sun position give ({pick.sum()} values)")
        e[:, m] = expected[:, m] * k
    e = np.minimum(e, 32767)
    report((ok[None] & ((toa > e + 1 + 1e-4 * e) | (toa < e - 2 - 1e-4 * e))).any(0), "reflectance does not follow the calibration")
    report(ok & (np.abs(hot[0] - (toa[0] - 0.5 * toa[2] - 800)) > 2.5), "haze measure does not follow from blue and red")
    bright = (toa > 10000).any(0)
    edge = (np.abs(toa - 10000) < 2).any(0) & ~sat
    report(ok & ~edge & (((qai & SATBIT) != 0) != (sat | bright)), "saturation flag wrong")
    report(ok & (((qai & SUNLOW) != 0) != (zen > math.radians(75))), f"low sun flag wrong (zenith {math.degrees(zen):.2f})")
    return bad, int(ok.sum()), int((~ok).sum())


def check(c):
    fl.exe("force-l2ps")
    jobs = []
    suns = [("2018-06-15", "10:15:30.1234560Z", (500000, 5760000)), ("2016-02-29", "10:15:59.9999990Z", (300000, 5200000))]
    low = ("2018-12-21", "10:00:00.0000000Z", (600000, 6300000))     # the sun is more than 75 degrees from zenith
    for lid in (4, 5, 7, 8, 9):
        for k, s in enumerate(suns + [low]):
            jobs.append((lid, "values", k, *s, 1))
        jobs.append((lid, "flags", 0, *suns[0], 1))
        jobs.append((lid, "flags", 0, *low, 4))
        jobs.append((lid, "flags", -1, *suns[1], 1))
    if c.thorough:
        for lid in (5, 8):
            for month in range(1, 13):
                for hour in (9, 11, 13):
                    jobs.append((lid, "values", month, f"2020-{month:02d}-{month + 10}", f"{hour:02d}:30:00.0000000Z", (500000, 5000000 + 20000 * month), 2))
    res = fl.pmap(lambda j: one(c, j), jobs, 7)
    valid = void = 0
    for j, (bad, a, b) in zip(jobs, res):
        valid += a
        void += b
        for t in bad:
            c.violation(t, dict(job=j), key=None)
    c.coverage.update(states=valid + void, transitions=valid * 6 + void, exhaustive=True,
                      traces_validated_against_impl=len(jobs),
                      bounds="Landsat 4, 5, 7, 8, 9; every digital number of every band in three orders and sun positions (one with low sun); "
                             "every combination of void/ordinary/saturated over the 7 or 9 bands")
    c.sample(f"{valid} valid and {void} void pixels compared in {len(jobs)} scenes")


if __name__ == "__main__":
    vlib.main(check, "L01", "model_checking")
