#!/usr/bin/python3
"""A03: stratified samples: all small classifications, with every sequence of extreme random numbers."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import ogr
import fl, sched, vlib

ND = -9999
UL, RES = (4000, 9000), 10


def sample(c, so, w, img, table, seq, out="s.geojson", fmt="GeoJSON", band=1, nb=1, col="n", args=None):
    """One run; (result, points as {(row, column): class} or error text, number of random numbers used)."""
    a = np.full((nb,) + img.shape, ND, np.int16)
    a[band - 1] = img
    for b in range(nb):
        if b != band - 1:
            a[b] = 5
    fl.write_tif(os.path.join(w, "c.tif"), a, UL, RES, ND)
    with open(os.path.join(w, "t.csv"), "w") as f:
        f.write("class,other,count,n\n" + "".join(f"{k},{99},{cnt},{n}\n" for k, cnt, n in table))
    if args is None:
        args = ["-o", os.path.join(w, out), "-f", fmt] + (["-b", str(band)] if band > 1 else [])
    log = os.path.join(w, "log")
    r = fl.run([fl.exe("force-stratified-sample")] + args + [os.path.join(w, "c.tif"), os.path.join(w, "t.csv"), col], cwd=w, env=dict(LD_PRELOAD=so, RAND_SEQ=seq, RAND_LOG=log))
    used = os.path.getsize(log) if os.path.exists(log) else 0
    if r.rc:
        return r, f"exit code {r.rc}: {r.stdout[-200:]}", used
    ds = ogr.Open(os.path.join(w, out))
    if ds is None:
        return r, "no sample was written", used
    pts = {}
    for f in ds.GetLayer(0):
        g = f.GetGeometryRef()
        x, y = (g.GetX() - UL[0]) / RES - 0.5, (UL[1] - g.GetY()) / RES - 0.5
        k = (round(y), round(x))
        if abs(x - k[1]) > 1e-6 or abs(y - k[0]) > 1e-6 or not (0 <= k[0] < img.shape[0] and 0 <= k[1] < img.shape[1]):
            return r, f"the point {g.GetX()} {g.GetY()} is not the centre of a pixel", used
        if k in pts:
            return r, f"the pixel {k} was sampled twice", used
        pts[k] = f.GetField("label_map")
    return r, pts, used


def judge(img, table, pts):
    if isinstance(pts, str):
        return pts
    req = {k: (cnt, n) for k, cnt, n in table}
    for p, k in pts.items():
        if img[p] == ND:
            return f"the nodata pixel {p} was sampled"
        if img[p] != k:
            return f"the pixel {p} of class {img[p]} was sampled as class {k}"
        if k not in req:
            return f"the pixel {p} of class {k}, which is not in the table, was sampled"
    for k, (cnt, n) in req.items():
        have, got = int((img == k).sum()), sum(v == k for v in pts.values())
        if got > n:
            return f"{got} instead of {n} points of class {k}"
        if 2 * n >= cnt and got != min(n, have):  # every pixel is a candidate
            return f"{got} points of class {k}, although {min(n, have)} are requested and available"
    return None


def check(c):
    so = sched.preload(c.scratch, "harness/rand.c")
    jobs = []
    shape = (2, 2)
    for px in itertools.product((1, 2, 9, ND), repeat=4):
        img = np.array(px, np.int16).reshape(shape)
        valid = int((img != ND).sum())
        if not ((img == 1) | (img == 2)).any() and valid == 0:
            continue
        for n1, n2 in ((1, 1), (2, 1)) + (((0, 3), (4, 4)) if c.thorough else ()):
            table = [(k, int((img == k).sum()) or 1, n) for k, n in ((1, n1), (2, n2))]
            for s in itertools.product("09", repeat=valid):
                jobs.append((img, table, "".join(s), {}))
    # more pixels than candidates are expected: a long row, the first m random numbers are small
    for first in (1, 2):
        for m in range(0, 25):
            img = np.array([[first] + [1] * 23], np.int16)
            table = [(1, int((img == 1).sum()), 1)] + ([(2, 1, 1)] if first == 2 else [])
            jobs.append((img, table, "0" * m + ("9" if m < 24 else ""), {}))
            jobs.append((img, table, "0" * (24 - m) + "9" * m, {}))
    # bands, formats, columns
    img = np.array([[1, 2], [2, 1]], np.int16)
    for nb in (1, 2, 3):
        for band in range(1, nb + 1):
            for out, fmt in (("s.gpkg", "GPKG"), ("s.shp", "ESRI Shapefile"), ("s.geojson", "GeoJSON")):
                jobs.append((img, [(1, 2, 1), (2, 2, 1)], "0909", dict(out=out, fmt=fmt, band=band, nb=nb)))
    jobs.append((img, [(1, 2, 2), (2, 2, 1)], "0909", dict(out="sample.gpkg", args=[])))
    reach, full = {}, {}

    def one(j):
        img, table, seq, kw = j
        with fl.Work(c) as w:
            r, pts, used = sample(c, so, w, img, table, seq, **kw)
        return judge(img, table, pts), pts, used
    used = 0
    for j, (bad, pts, u) in zip(jobs, fl.pmap(one, jobs)):
        img, table, seq, kw = j
        used += u
        what = f"classification {img.tolist()}, table (class, count, requested) {table}, random numbers {seq}{', ' + str(kw) if kw else ''}"
        if bad:
            c.violation(f"{what}: {bad}", {"image": img.tolist(), "table": table, "random": seq, "options": str(kw), "what": bad})
        elif not kw and img.shape == shape:
            reach.setdefault((img.tobytes(), str(table)), [img, table, set()])[2].update(pts)
        # everything is a candidate if all random numbers are the smallest (or largest) one
        if not kw and not isinstance(pts, str) and len(set(seq)) == 1:
            e = full.setdefault((img.tobytes(), str(table)), [img, table, {}])[2]
            for k, _, n in table:
                e[k] = max(e.get(k, 0), sum(v == k for v in pts.values()))
    for img, table, e in full.values():
        for k, _, n in table:
            if used and e[k] != min(n, int((img == k).sum())):
                c.violation(f"classification {img.tolist()}, table {table}: {e[k]} points of class {k} when all pixels are candidates", {"image": img.tolist(), "table": table, "what": "too few"})
    # every pixel of a requested class is in the sample for some random numbers
    if used:
        for img, table, s in reach.values():
            for k, _, n in table:
                miss = [tuple(map(int, p)) for p in np.argwhere(img == k) if n and tuple(p) not in s]
                if miss:
                    c.violation(f"classification {img.tolist()}, table {table}: pixel {miss[0]} is never sampled", {"image": img.tolist(), "table": table, "what": "never sampled"})
    # refusals leave an existing sample as it is
    with fl.Work(c) as w:
        img = np.array([[1, 2], [2, 1]], np.int16)
        tb = [(1, 2, 1), (2, 2, 1)]
        for name, kw in (("unknown column", dict(col="m")), ("class as size column", dict(col="class")), ("band too high", dict(args=["-o", "x.gpkg", "-b", "2"])),
                         ("format without file", dict(args=["-f", "GPKG"]))):
            r, pts, _ = sample(c, so, w, img, tb, "0", **kw)
            if r.rc == 0:
                c.violation(f"{name} is accepted with exit code 0", {"what": name})
        with open(os.path.join(w, "s.geojson"), "w") as f:
            f.write("old")
        r, pts, _ = sample(c, so, w, img, tb, "0")
        if r.rc == 0 or open(os.path.join(w, "s.geojson")).read() != "old":
            c.violation("an existing sample is overwritten", {"what": "overwritten"})
    c.sample(f"{jobs[500][0].tolist()} {jobs[500][1]} {jobs[500][2]}")
    c.coverage = dict(states=len(reach), transitions=used, traces_validated_against_impl=len(jobs) + 5, exhaustive=True,
                      rule="state = one classification with one table; transition = one random number handed to the program; trace = one program run with one sequence of random numbers")


vlib.main(check, "A03", "model_checking")
