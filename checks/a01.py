#!/usr/bin/python3
"""A01: stacks, metadata copies and histograms of images."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal
import fl, vlib

NX, NY = 3, 2


def image(path, arr, nodata=-9999, names=None, meta=None, bmeta=None):
    fl.write_tif(path, arr, (1000, 2000), 10, nodata)
    ds = gdal.Open(path, gdal.GA_Update)
    if meta:
        ds.SetMetadata(meta, "FORCE")
    for i, n in enumerate(names or []):
        b = ds.GetRasterBand(i + 1)
        b.SetDescription(n)
        if bmeta:
            b.SetMetadata(bmeta[i], "FORCE")
    ds = None


def read(path):
    ds = gdal.Open(path)
    b = [ds.GetRasterBand(i + 1) for i in range(ds.RasterCount)]
    return dict(values=[x.ReadAsArray().tolist() for x in b], names=[x.GetDescription() for x in b], meta=ds.GetMetadata("FORCE"), bmeta=[x.GetMetadata("FORCE") for x in b],
                nodata=[x.GetNoDataValue() for x in b], grid=ds.GetGeoTransform(), size=(ds.RasterXSize, ds.RasterYSize))


def check(c):
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, stacks=0, copies=0, histograms=0)
    src = os.path.join(c.scratch, "src")
    os.makedirs(src)

    # images with one to three bands, two of each; every value occurs once, one pixel is nodata
    A = {}
    for nb in (1, 2, 3):
        for k in range(2):
            n = f"i{nb}{'ab'[k]}.tif"
            v = (np.arange(nb * NX * NY).reshape(nb, NY, NX) * 7 + nb * 1000 + k * 300).astype(np.int16)
            v[nb - 1, k, 1] = -9999
            v[0, 1, 2] = 0
            image(os.path.join(src, n), v, -9999, [f"{n}-{b}" for b in range(nb)], {"Scene": n}, [{"Band": f"{n}/{b}", "Date": f"2018{b}{k}"} for b in range(nb)])
            A[n] = nb
    image(os.path.join(src, "wide.tif"), np.ones((1, NY, NX + 1), np.int16))
    image(os.path.join(src, "high.tif"), np.ones((1, NY + 1, NX), np.int16))
    ref = {n: read(os.path.join(src, n)) for n in A}
    seqs = [s for n in (2, 3) for s in itertools.product(A, repeat=n)] + list(itertools.permutations(("i1a.tif", "i1b.tif", "i2a.tif", "i3a.tif")))
    if c.thorough:
        seqs += list(itertools.product(A, repeat=4))

    def stack(j):
        i, s = j
        out = os.path.join(src, f"s{i}.vrt")
        r = fl.run([fl.exe("force-stack"), "-o", out] + [os.path.join(src, n) for n in s])
        if r.rc:
            return f"exit code {r.rc}: {r.stdout[-300:]}"
        o = read(out)
        os.remove(out)
        if len({A[n] for n in s}) == 1:
            e = [(n, b) for b in range(A[s[0]]) for n in s]
        else:
            e = [(n, b) for n in s for b in range(A[n])]
        for k in ("values", "names", "bmeta", "nodata"):
            x = [ref[n][k][b] for n, b in e]
            if o[k] != x:
                w = [i for i, (p, q) in enumerate(zip(o[k], x)) if p != q]
                return f"{k} of {len(o[k])} bands, {len(x)} expected; band {w and w[0] + 1}: {w and o[k][w[0]]} instead of {w and x[w[0]]}"
        if o["grid"] != ref[s[0]]["grid"] or o["size"] != (NX, NY) or o["meta"] != ref[s[0]]["meta"]:
            return f"grid or metadata: {o['grid']} {o['size']} {o['meta']}"

    for s, bad in zip(seqs, fl.pmap(stack, enumerate(seqs))):
        cov["stacks"] += 1
        cov["transitions"] += len(s)
        if bad:
            c.violation(f"stack of {' '.join(s)}: {bad}", {"files": s})
    cov["states"] += len({s[:i] for s in seqs for i in range(len(s) + 1)})
    # refused: another size anywhere, a single image, wrong extension, existing output (which stays)
    keep = os.path.join(src, "keep.vrt")
    open(keep, "w").write("x")
    for s, out in [((a, b), "r.vrt") for a, b in itertools.permutations(("i1a.tif", "wide.tif", "high.tif"), 2)] + [
            (("i1a.tif", "i1b.tif", "wide.tif"), "r.vrt"), (("i1a.tif", "high.tif", "i1b.tif"), "r.vrt"), (("i1a.tif",), "r.vrt"), (("i1a.tif", "i1b.tif"), "r.tif"),
            (("i1a.tif", "i1b.tif"), "keep.vrt"), (("i1a.tif", "absent.tif"), "r.vrt"), (("absent.tif", "i1a.tif"), "r.vrt")]:
        r = fl.run([fl.exe("force-stack"), "-o", os.path.join(src, out)] + [os.path.join(src, n) for n in s])
        cov["stacks"] += 1
        if r.rc <= 0 or os.path.exists(os.path.join(src, "r.vrt")) or os.path.exists(os.path.join(src, "r.tif")) or open(keep).read() != "x":
            c.violation(f"stack of {' '.join(s)} to {out} is not refused (exit code {r.rc})", {"files": s, "output": out})

    # metadata
    def copy(j):
        i, (a, b) = j
        d = os.path.join(c.scratch, f"m{i}")
        os.makedirs(d)
        dst = os.path.join(d, "dst.tif")
        image(dst, np.array(ref[b]["values"], np.int16), -9999, [f"old{k}" for k in range(A[b])], {"Scene": "old", "More": "old"}, [{"Band": "old", "Rest": "old"}] * A[b])
        before = read(dst)
        r = fl.run([fl.exe("force-mdcp"), os.path.join(src, a), dst])
        o = read(dst)
        shutil.rmtree(d)
        if A[a] != A[b]:
            return None if r.rc > 0 and o == before else f"images of {A[a]} and {A[b]} bands: exit code {r.rc}, {'changed' if o != before else 'unchanged'}"
        if r.rc:
            return f"exit code {r.rc}: {r.stdout[-300:]}"
        for k in ("names", "meta", "bmeta"):
            if o[k] != ref[a][k]:
                return f"{k}: {o[k]} instead of {ref[a][k]}"
        for k in ("values", "grid", "nodata", "size"):
            if o[k] != before[k]:
                return f"{k} changed: {o[k]} instead of {before[k]}"

    pairs = list(itertools.product(A, repeat=2))
    for p, bad in zip(pairs, fl.pmap(copy, enumerate(pairs))):
        cov["copies"] += 1
        cov["transitions"] += 1
        if bad:
            c.violation(f"metadata of {p[0]} to an image like {p[1]}: {bad}", {"files": p})
    cov["states"] += len(pairs)

    # histograms: all images of up to four pixels over the values next to the limits, one image with all values
    alpha = [-32768, -9999, -1, 0, 7, 32767]
    imgs = [((v,), nd, 1) for n in (1, 2, 3, 4) for v in itertools.combinations_with_replacement(alpha, n) for nd in (-9999, 0)]
    imgs += [((v, v[::-1][:1] * len(v)), -9999, b) for v in itertools.permutations(alpha, 3) for b in (1, 2)]
    imgs += [((v, v), -9999, b) for v in ((1, 2),) for b in (3, 0, -1)] + [(((5, 6),), None, 1)]
    imgs += [((tuple(range(-32768, 32768)) + tuple(range(-300, 300)) * 2,), nd, 1) for nd in (-9999, 32767, -32768, 0)]

    def hist(j):
        i, (bands, nd, b) = j
        d = os.path.join(c.scratch, f"h{i}")
        os.makedirs(d)
        n = len(bands[0])
        w = next(k for k in (4, 2, 1) if n % k == 0)
        image(os.path.join(d, "i.tif"), np.array(bands, np.int16).reshape(len(bands), n // w, w), nd)
        r = fl.run([fl.exe("force-hist"), "-b", str(b), "-o", os.path.join(d, "h.csv"), os.path.join(d, "i.tif")])
        t = open(os.path.join(d, "h.csv")).read().split() if os.path.exists(os.path.join(d, "h.csv")) else None
        shutil.rmtree(d)
        if b < 1 or b > len(bands) or nd is None:
            return None if r.rc > 0 and t is None else f"accepted (exit code {r.rc})"
        if r.rc or t is None:
            return f"exit code {r.rc}: {r.stdout[-300:]}"
        v, k = np.unique([x for x in bands[b - 1] if x != nd], return_counts=True)
        got = [tuple(float(x) for x in l.split(",")) for l in t[1:]]
        if t[0].replace('"', "") != "class,count" or got != list(zip(v.tolist(), k.tolist())):
            e = list(zip(v.tolist(), k.tolist()))
            return f"{len(got)} classes {[g for g in got if g not in e][:4]} instead of {len(e)} classes {[x for x in e if x not in got][:4]}"

    for (bands, nd, b), bad in zip(imgs, fl.pmap(hist, enumerate(imgs))):
        cov["histograms"] += 1
        cov["transitions"] += len(bands[0])
        if bad:
            c.violation(f"histogram of band {b} of {[list(x[:6]) for x in bands]}, nodata {nd}: {bad}", {"bands": [list(x[:10]) for x in bands], "nodata": nd, "band": b})
    cov["states"] += len({(tuple(x[:i] for x in bands), nd, b) for bands, nd, b in imgs for i in range(min(len(bands[0]), 8) + 1)})
    cov["traces_validated_against_impl"] = cov["stacks"] + cov["copies"] + cov["histograms"]
    c.sample("stack of " + " ".join(seqs[len(seqs) // 2]))
    c.coverage = dict(cov, exhaustive=True, rule="state = prefix of a list of images or of the pixels of an image; every complete one is given to the real program")


vlib.main(check, "A01", "model_checking")
