#!/usr/bin/python3
"""L07: option combinations of the level 2 processor with the address-sanitised program; every run repeated with another
number of threads must give the same products."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal
import fl, l2, vlib

TF = ("TRUE", "FALSE")
UL = (500000, 5760000)
PRODUCTS = ("DST", "AOD", "WVP", "VZN", "HOT", "OVV")
PHYSICS = ("DO_ATMO", "DO_TOPO", "DO_BRDF", "ADJACENCY_EFFECT", "MULTI_SCATTERING")


def landsat(lid, n=150):
    """land, water, dark forest, snow, a cloud with its shadow, and void corners"""
    y, x = np.mgrid[0:n, 0:n]
    lo = {8: [9000, 8600, 8300, 7900, 17000, 5050, 12500, 9000, 27000], 5: [70, 32, 28, 80, 70, 30, 140]}[lid]
    dn = np.stack([np.full((n, n), v) for v in lo]).astype(int)
    dn += ((y * 5 + x * 3) % 7) * (30 if lid == 8 else 1)
    hi = {8: [30000, 30000, 30000, 30000, 31000, 5600, 28000, 25000, 20000], 5: [200, 120, 130, 140, 180, 140, 90]}[lid]
    water = {8: [9300, 8500, 7700, 6600, 5900, 5040, 5300, 5200, 27000], 5: [65, 27, 20, 12, 8, 4, 142]}[lid]
    snow = {8: [30000, 30500, 30000, 29000, 27000, 5050, 7000, 6500, 21500], 5: [200, 110, 120, 100, 20, 12, 100]}[lid]
    dark = {8: [8500, 7800, 7300, 6700, 12500, 5040, 8000, 6500, 26500], 5: [55, 23, 18, 50, 35, 12, 135]}[lid]
    for v, m in ((water, (y > 100) & (x < 50)), (snow, (y > 110) & (x > 110)), (dark, (y < 40) & (x > 90)),
                 (hi, (y - 60) ** 2 + (x - 60) ** 2 < 160), (hi, (y == 20) & (x == 20))):
        for b in range(len(lo)):
            dn[b][m] = v[b]
    dn[:, (x + y < 12) | (x + y > 2 * n - 14)] = 0
    return dn


def sentinel(n=1):
    dn = []
    for k in range(13):
        s = n * 5000 // l2.S2RES[k]
        y, x = np.mgrid[0:s, 0:s]
        a = [1500, 1300, 1200, 1000, 1500, 2300, 2600, 2800, 2900, 900, 12, 1800, 1100][k] + (y * 5 + x * 3) % 7 * 10
        hi = [5000, 5000, 5000, 5000, 5000, 5100, 5100, 5200, 5200, 2000, 300, 4000, 3500][k]
        wa = [1400, 1100, 800, 500, 450, 400, 380, 350, 320, 200, 10, 120, 80][k]
        a[(y > .7 * s) & (x < .4 * s)] = wa
        a[(y - .4 * s) ** 2 + (x - .4 * s) ** 2 < (.1 * s) ** 2] = hi
        a[x + y < .08 * s] = 0
        dn.append(a)
    return dn


def raster(path, a, ul, res, nodata=None):
    ds = gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], 1, gdal.GDT_Int16)
    ds.SetGeoTransform((ul[0], res, 0, ul[1], 0, -res))
    ds.SetProjection(l2.wkt(32632))
    ds.GetRasterBand(1).WriteArray(a)
    if nodata is not None:
        ds.GetRasterBand(1).SetNoDataValue(nodata)
    ds = None
    return path


def inputs(d):
    o = {}
    for lid in (4, 5, 7, 8, 9):
        o[f"L{lid}"] = l2.scene(os.path.join(d, f"LX0{lid}_A"), landsat(8 if lid > 7 else 5), UL, l2.wkt(32632), lid)
    o["S2"] = l2.granule(os.path.join(d, "s2"), sentinel(), UL, l2.wkt(32632), 1)
    o["S2big"] = l2.granule(os.path.join(d, "s2b"), sentinel(3), UL, l2.wkt(32632), 3)
    o["cloudy"] = l2.scene(os.path.join(d, "LC08_C"), np.repeat(np.repeat(landsat(8)[:, 60:61, 60:61], 60, 1), 60, 2), UL, l2.wkt(32632))
    o["void"] = l2.scene(os.path.join(d, "LC08_V"), np.zeros((9, 60, 60), int), UL, l2.wkt(32632))
    o["tiny"] = l2.scene(os.path.join(d, "LC08_T"), landsat(8)[:, 50:53, 50:53], UL, l2.wkt(32632))
    y, x = np.mgrid[0:400, 0:400]
    dem = (300 + 200 * np.sin(x / 23.) + 150 * np.cos(y / 17.)).astype(np.int16)
    o["@dem"] = raster(os.path.join(d, "dem.tif"), dem, (UL[0] - 900, UL[1] + 900), 30, -32767)
    dem[100:140, 100:140] = -32767
    o["@hole"] = raster(os.path.join(d, "hole.tif"), dem[:, :120], (UL[0] - 900, UL[1] + 900), 30, -32767)
    o["@allow"] = os.path.join(d, "allow.txt")
    with open(o["@allow"], "w") as f:
        f.write("1\nX0000_Y0001\n")
    return o


def jobs(thorough):
    for inp, dem in itertools.product(("L8", "L5", "S2"), ("NULL", "@dem", "@hole")):
        for v in itertools.product(TF, repeat=5):
            kw = dict(zip(PHYSICS, v))
            if dem == "NULL" and kw["DO_TOPO"] == "TRUE":
                continue
            if kw["DO_ATMO"] == "FALSE" and (kw["ADJACENCY_EFFECT"], kw["MULTI_SCATTERING"]) != ("TRUE", "TRUE"):
                continue
            if dem == "@hole" and v.count("FALSE") > 1:
                continue
            if inp == "S2" and kw["DO_ATMO"] == "TRUE":        # slow; water vapour is estimated for blocks of 60 m: see S2big
                continue
            yield inp, dict(kw, FILE_DEM=dem)
    yield "S2big", dict(zip(PHYSICS, ("TRUE",) * 5), FILE_DEM="@dem", OUTPUT_WVP="TRUE", OUTPUT_AOD="TRUE", TILE_SIZE="30000 30000")
    yield "S2big", dict(zip(PHYSICS, ("TRUE", "FALSE", "FALSE", "FALSE", "FALSE")), RES_MERGE="IMPROPHE", OUTPUT_WVP="TRUE", TILE_SIZE="6000 9000")
    full = dict(zip(PHYSICS, ("TRUE",) * 5), FILE_DEM="@dem")
    for inp, s in itertools.product(("L8", "S2"), [s for n in (1, 2, 6) for s in itertools.combinations(PRODUCTS, n)]):
        if inp == "S2" and len(s) == 2:
            continue
        yield inp, dict(full, DO_ATMO="TRUE" if inp == "L8" else "FALSE", **{f"OUTPUT_{k}": "TRUE" for k in s})
    for inp, a, b, m in itertools.product(("L8", "S2"), TF, TF, ("NN", "BL", "CC")):
        yield inp, dict(DO_REPROJ=a, DO_TILE=b, RESAMPLING=m, OUTPUT_DST="TRUE")
        yield inp, dict(dict(full, DO_ATMO="TRUE" if inp == "L8" else "FALSE"), DO_REPROJ=a, DO_TILE=b, RESAMPLING=m, OUTPUT_OVV="TRUE", PROJECTION=l2.wkt(3035), ORIGIN_LON=-25, ORIGIN_LAT=60)
    for m, at in itertools.product(("IMPROPHE", "REGRESSION", "STARFM", "NONE"), TF):
        yield "S2", dict(RES_MERGE=m, ERASE_CLOUDS=at)
    for inp, e, i, b, f in itertools.product(("L5", "L8"), TF, TF, TF, ("GTiff", "ENVI", "COG")):
        yield inp, dict(ERASE_CLOUDS=e, IMPULSE_NOISE=i, BUFFER_NODATA=b, OUTPUT_FORMAT=f, OUTPUT_DST="TRUE")
    for inp, a, b, s in itertools.product(("L8", "L5", "S2"), (0, 30, 10000), (0, 90, 3000), ("3000 3000", "900 1500", "12000 12000")):
        if inp == "L8" or s == "3000 3000":
            yield inp, dict(CLOUD_BUFFER=a, SHADOW_BUFFER=b, SNOW_BUFFER=a, CIRRUS_BUFFER=b, TILE_SIZE=s, OUTPUT_DST="TRUE")
            yield inp, dict(CLOUD_BUFFER=b, SHADOW_BUFFER=a, SNOW_BUFFER=b, CIRRUS_BUFFER=a, TILE_SIZE=s, OUTPUT_DST="TRUE")
    for inp, at in itertools.product(("L4", "L7", "L9"), TF):
        yield inp, dict(full, DO_ATMO=at, OUTPUT_DST="TRUE", OUTPUT_HOT="TRUE", OUTPUT_AOD=at, OUTPUT_WVP=at)
        yield inp, dict(CLOUD_BUFFER=0, SHADOW_BUFFER=0, SNOW_BUFFER=0, CIRRUS_BUFFER=60, ERASE_CLOUDS=at)
    for inp, tile, cc in itertools.product(("L8", "cloudy", "void", "tiny"), ("NULL", "@allow"), (1, 50, 100)):
        yield inp, dict(full, FILE_TILE=tile, MAX_CLOUD_COVER_FRAME=cc, MAX_CLOUD_COVER_TILE=cc, OUTPUT_OVV="TRUE", OUTPUT_DST="TRUE")
        yield inp, dict(FILE_TILE=tile, MAX_CLOUD_COVER_FRAME=cc, MAX_CLOUD_COVER_TILE=cc)
    for inp, wv, r in itertools.product(("L8", "L5"), (0, 1.5, 15), (10, 30, 45, 60)):
        yield inp, dict(full, WATER_VAPOR=wv, RESOLUTION_LANDSAT=r, TILE_SIZE="5400 5400")
    for inp, ct, st in itertools.product(("L8", "L5", "S2", "cloudy"), (0, 0.2, 1), (0, 0.2, 1)):
        yield inp, dict(CLOUD_THRESHOLD=ct, SHADOW_THRESHOLD=st)


def check(c):
    ins = inputs(c.scratch)
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=86:malloc_context_size=1:quarantine_size_mb=16:detect_odr_violation=0", "MALLOC_TOP_PAD_": "131072"}
    all_ = sorted(jobs(c.thorough), key=lambda j: j[0] != "S2big")       # slow ones first
    fl.exe("force-l2ps", "asan")
    fl.exe("force-l2ps", "opt")

    def run(j):
        inp, kw = j
        kw = {k: ins.get(v, v) if isinstance(v, str) else v for k, v in kw.items()}
        got = []
        # sanitised with one thread; the plain program with one and with three threads
        for variant, nt, ra in (("asan", 1, "FALSE"), ("opt", 1, "FALSE"), ("opt", 3, "TRUE")):
            with fl.Work(c) as w:
                r = l2.process(w, ins[inp], l2.prm(w, NTHREAD=nt, PARALLEL_READS=ra, **kw), 300, variant, env if variant == "asan" else None)
                o = fl.outputs(os.path.join(w, "l2"))
                d = {}
                for k, p in o.items():
                    if k.endswith((".tif", ".dat")):
                        a = gdal.Open(p)
                        d[k] = None if a is None else a.ReadAsArray()
                got.append((r, d))
        return got
    acc = files = 0
    seen = {}
    for j, got in zip(all_, fl.pmap(run, all_, 8)):
        what = None
        for r, d in got:
            refused = j[0] in ("void", "tiny") and r.rc == 1 and "failed" in r.stdout
            if r.rc != 0 and not refused and what is None:
                m = re.search(r"ERROR: AddressSanitizer: ([\w-]+).*?(#\d+ 0x\w+ in ([\w.]+) /?\S*src/\S+)", r.stdout, re.S)
                what = f"{m.group(1)} in {m.group(3)}" if m else f"exit {r.rc}: {r.stdout[-200:]}"
                i = max(r.stdout.find("==ERROR"), 0)
                text = r.stdout[i:i + 3000]
            if any(v is None for v in d.values()) and what is None:
                what, text = f"unreadable product {sorted(d)}", ""
        a, b = got[1][1], got[2][1]
        if what is None and (sorted(a) != sorted(b) or any((a[k] != b[k]).any() for k in a)):
            what, text = "products depend on the number of threads", str([k for k in a if k not in b or (a[k] != b[k]).any()] or (sorted(a), sorted(b)))
        if what is None:
            acc += 1
            files += len(a)
        else:
            seen.setdefault((j[0], what), []).append((j, text))
    for (inp, what), l in seen.items():
        c.violation(f"{inp} with {l[0][0][1]}: {what} ({len(l)} configurations)", {"jobs": [x[0] for x in l[:20]], "output": l[0][1]})
    c.sample(f"{all_[5]}")
    c.coverage.update(states=len(all_), transitions=files, traces_validated_against_impl=3 * len(all_), exhaustive=True,
                      rule="state = one input and configuration; transition = product compared between one and three threads; every configuration also runs address-sanitised")


if __name__ == "__main__":
    vlib.main(check, "L07", "model_checking")
