#!/usr/bin/python3
"""H22: every output layout of every submodule: georeference, names, dates, nodata and the same values in every format."""
import datetime, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal, osr
import fl, mods, vlib

gdal.UseExceptions()
N = 6
EXT = {"GTiff": "tif", "COG": "tif", "ENVI": "dat", "CUSTOM": "tiff"}
DRIVER = {"GTiff": "GTiff", "COG": "GTiff", "ENVI": "ENVI", "CUSTOM": "GTiff"}
FOLD = dict(FBY="YEAR", FBQ="QUARTER", FBM="MONTH", FBW="WEEK", FBD="DOY")


def info(path):
    ds = gdal.Open(path)
    b = [ds.GetRasterBand(i + 1) for i in range(ds.RasterCount)]
    force = [x.GetMetadata("FORCE") for x in b]
    return dict(size=(ds.RasterXSize, ds.RasterYSize), geo=ds.GetGeoTransform(), srs=ds.GetProjection(), driver=ds.GetDriver().ShortName,
                names=[x.GetDescription() for x in b], nodata=[x.GetNoDataValue() for x in b], type=[gdal.GetDataTypeName(x.DataType) for x in b],
                date=[f.get("Date", "")[:10].replace("-", "") for f in force], sensor=[f.get("Sensor") for f in force],
                product=ds.GetMetadata("FORCE").get("FORCE_product"), a=ds.ReadAsArray().reshape(ds.RasterCount, ds.RasterYSize, ds.RasterXSize))


def check(c):
    tiles = ((0, 0), (2, 1))
    cube = mods.level2(os.path.join(c.scratch, "l2"), N, N, tiles)
    aux = mods.models(os.path.join(c.scratch, "aux"))
    mods.models_rfr(aux)
    mods.udf(aux)
    with open(os.path.join(aux, "lib0.txt"), "w") as f:
        f.write("".join(f"{i*317%900} {i*531%900} {i*211%900}\n" for i in range(1, 5)))
    opt = os.path.join(c.scratch, "options.txt")
    with open(opt, "w") as f:
        f.write("DRIVER = GTiff\nEXTENSION = tiff\nCOMPRESS = DEFLATE\nPREDICTOR = 2\n")
    ref_srs = osr.SpatialReference(wkt=gdal.Open(cube.tiledir(0, 0) + "/FTR.tif").GetProjection())

    PERIODS = [("2017-01-01 2018-12-31", "1 365"), ("2017-03-01 2018-06-30", "1 365"), ("2017-01-01 2018-12-31", "60 300"), ("2017-01-01 2018-12-31", "300 90"), ("2018-02-01 2018-12-31", "1 365")]
    MODS = {"TSA": dict(INDEX="NDVI NIR"), "POL": {}, "LEVEL3": {}, "CSO": dict(CSO="NUM AVG", MONTHS=3), "RFC": {}, "SVR": {}, "TXT": {}, "LSM": dict(LSM="AVG STD MAX ARE"), "LIB": {}, "UDF-CHUNK": {}}
    jobs = []
    for m in MODS:
        for fmt, ex, sub, ch in itertools.product(EXT, ("FALSE", "TRUE"), ("FALSE", "TRUE"), (1, 2)):
            if fmt == "COG" and ch == 2:       # documented: blocks have to be whole tiles
                continue
            if ex == "TRUE" and fmt == "COG" and m in ("TSA", "POL") and not c.thorough:
                continue
            jobs.append((m, fmt, ex, sub, ch, PERIODS[0]))
    jobs += [(m, "GTiff", "FALSE", "FALSE", 1, p) for m in ("TSA", "POL", "CSO", "UDF-CHUNK") for p in PERIODS[1:] if m != "POL" or p[0][:4] == "2017"]

    def run(j):
        m, fmt, ex, sub, ch, (dr, doy) = j
        kw = {k: v for k, v in MODS[m].items() if k != "MONTHS"}
        if m in ("TSA", "POL", "CSO", "UDF-CHUNK"):
            kw.update(DATE_RANGE=dr, DOY_RANGE=doy)
        if m == "TSA" and (dr, doy) != PERIODS[0]:
            kw.update(OUTPUT_FBW="TRUE", OUTPUT_FBD="TRUE")
        with fl.Work(c) as w:
            p = mods.prm(m, w, cube, aux, X_TILE_RANGE="0 2", Y_TILE_RANGE="0 1", OUTPUT_FORMAT=fmt, OUTPUT_EXPLODE=ex, OUTPUT_SUBFOLDERS=sub,
                         CHUNK_SIZE=f"{N*10} {N*10//ch}", **({"FILE_OUTPUT_OPTIONS": opt} if fmt == "CUSTOM" else {}), **kw)
            r = fl.hl(p, os.path.join(w, "run.prm"))
            if r.rc:
                return f"exit code {r.rc}: {r.stdout[-300:]}"
            o = {}
            for rel, f in fl.outputs(os.path.join(w, "hl")).items():
                if rel.startswith("X") and not rel.endswith((".hdr", ".aux.xml")):
                    if not rel.endswith("." + EXT[fmt]):
                        return f"unexpected file {rel}"
                    o[rel] = info(f)
            return o

    def describe(m, rel, i, dr, doy):
        """Problems of one image file on its own."""
        tx, ty = int(rel[1:5]), int(rel[7:11])
        ul = cube.ul(tx, ty)
        if i["size"] != (N, N) or not np.allclose(i["geo"], (ul[0], 10, 0, ul[1], 0, -10)):
            return f"size {i['size']}, geotransform {i['geo']} instead of upper left {ul}"
        if not osr.SpatialReference(wkt=i["srs"]).IsSame(ref_srs):
            return f"projection {i['srs'][:60]}"
        base = os.path.basename(rel).rsplit(".", 1)[0]
        a, b = dr.replace("-", "").split()
        d0, d1 = map(int, doy.split())
        if m in ("TSA", "POL") and not base.startswith(f"{a}-{b}_{d0:03d}-{d1:03d}_HL_TSA_LND08_"):
            return "file name does not carry the requested period"
        if m in ("CSO", "UDF-CHUNK") and not base.startswith(f"{a[:4]}-{b[:4]}_{d0:03d}-{d1:03d}"):
            return "file name does not carry the requested period"
        return None

    def bands(m, prod, i, dr, doy):
        """Bands of a multi-band product: order of periods and dates."""
        a, b = [datetime.datetime.strptime(x, "%Y-%m-%d").date() for x in dr.split()]
        n = i["names"]
        if len(set(n)) != len(n) and m not in ("RFC",):
            return f"band names repeat: {n}"
        if prod == "TSS":
            want = [d for d in mods.DATES if a.strftime("%Y%m%d") <= d <= b.strftime("%Y%m%d")]
            if [x.split("_")[0] for x in n] != i["date"] or not set(i["date"]) <= set(want) or i["date"] != sorted(i["date"]) or any(x.split("_")[1] != s for x, s in zip(n, i["sensor"])):
                return f"bands {n} have dates {i['date']} and sensors {sorted(set(i['sensor']))}; acquisitions are {want}"
        elif prod in ("TSI", "PCX", "PCY", "NUM", "AVG") and m in ("TSA", "POL", "CSO"):
            if n != i["date"] or n != sorted(n) or n[0] != a.strftime("%Y%m01" if m == "CSO" else "%Y%m%d") or n[-1] > b.strftime("%Y%m%d"):
                return f"bands {n} have dates {i['date']}"
        elif prod in FOLD:
            k = [int(x.split("-")[1]) for x in n]
            f = FOLD[prod]
            full = list(range(a.year, b.year + 1)) if prod == "FBY" else list(range(1, dict(FBQ=4, FBM=12, FBW=52, FBD=365)[prod] + 1))
            if any(x.split("-")[0] != f for x in n) or (k != full if doy == "1 365" else k != [x for x in full if x in k]):
                return f"bands {n[:3]}...{n[-1]}"
            want = {"FBY": lambda v: f"{v}0101", "FBQ": lambda v: f"{v*3-2:02d}01", "FBM": lambda v: f"{v:02d}01"}.get(prod)
            if want and any(not d.endswith(want(v)) for d, v in zip(i["date"], k)):
                return f"bands {n} have dates {i['date']}"
        elif prod.endswith("-POL"):
            if n != [f"YEAR-{y}" for y in range(a.year, b.year + 1)] or [d[:4] for d in i["date"]] != [x[5:] for x in n]:
                return f"bands {n} have dates {i['date']}"
        elif m == "LEVEL3":
            d = set(i["date"])
            if len(d) != 1:
                return f"dates {d}"
        return None

    res = dict(zip(jobs, fl.pmap(run, jobs)))
    files = vals = 0
    for j, o in res.items():
        m, fmt, ex, sub, ch, (dr, doy) = j
        name = f"{m} {fmt} explode {ex} subfolders {sub} blocks {ch} period {dr} days {doy}"
        if isinstance(o, str) or not o:
            c.violation(f"{name}: {o or 'no products'}", {"job": j})
            continue
        ref = res[(m, "GTiff", "FALSE", "FALSE", 1, (dr, doy))]
        if isinstance(ref, str):
            continue
        what = None
        expected = {}
        for rel, i in ref.items():
            tile, f = rel.split("/")
            base = f[:-4]
            prod = base.split("_")[-1]
            # composites stay together
            for bi, bn in enumerate(i["names"]) if ex == "TRUE" and prod not in ("BAP", "OVV") else [(None, "")]:
                d = f"{tile}/{prod}" if sub == "TRUE" else tile
                fn = f"{d}/{base}{'_' + bn if bn else ''}.{EXT[fmt]}"
                expected.setdefault(fn, []).append((i, bi))
        if {r.split("/")[0] for r in ref} != {f"X{x:04d}_Y{y:04d}" for x, y in tiles}:
            what = f"products in {sorted({r.split('/')[0] for r in ref})}"
        elif sorted(expected) != sorted(o):
            what = f"files missing {sorted(set(expected)-set(o))[:3]} surplus {sorted(set(o)-set(expected))[:3]}"
        else:
            for fn, i in o.items():
                files += 1
                r, bi = expected[fn][-1]
                s = slice(None) if bi is None else slice(bi, bi + 1)
                what = describe(m, fn, i, dr, doy)
                if what is None and i["driver"] != DRIVER[fmt]:
                    what = f"is a {i['driver']} image"
                for k in ("names", "nodata", "type") + (("date", "sensor") if fmt != "ENVI" else ()):
                    if what is None and i[k] != r[k][s]:
                        what = f"{k} {i[k]} instead of {r[k][s]}"
                if what is None and fmt != "ENVI" and i["product"] != r["product"]:
                    what = f"product {i['product']} instead of {r['product']}"
                if what is None and len(expected[fn]) == 1:
                    vals += i["a"].size
                    if i["a"].shape != r["a"][s].shape or (i["a"] != r["a"][s]).any():
                        what = "values differ from those in the plain multi-band image"
                if what is None and bi is None and fmt != "ENVI":
                    what = bands(m, os.path.basename(fn).rsplit(".", 1)[0].split("_")[-1], i, dr, doy)
                if what:
                    what = f"{fn}: {what}"
                    break
        if what:
            c.violation(f"{name}: {what}", {"job": j, "what": what})
    c.sample(f"{jobs[5]}, {jobs[-2]}")
    c.coverage = dict(states=len(jobs), transitions=files, traces_validated_against_impl=len(jobs), compared_values=vals, exhaustive=True,
                      rule="state = one output layout of one submodule; transition = one image file written by the program and compared")


vlib.main(check, "H22", "model_checking")
