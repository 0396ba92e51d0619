#!/usr/bin/python3
"""L06: Sentinel-2 granules: reflectance from quantification value and offsets, bands of three resolutions on one grid,
void and saturated pixels, and the part of the granule the swath covers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import itertools
import numpy as np
import vlib, fl, l2

OFF, SUBZERO, SATBIT = 0x1, 1 << 8, 1 << 9
Y0 = 5761038.212590415           # northing of the grid origin (9 E, 52 N) in UTM 32
ORDINARY = [1500, 1400, 1300, 1200, 1500, 2000, 2200, 2400, 2500, 900, 12, 1800, 1100]
CELL = 60


def spread(a, res, n):
    """plane of 60 m cells as a plane of resolution res"""
    return np.repeat(np.repeat(a, CELL // res, 0), CELL // res, 1)


def planes_values(n):
    """every digital number of every band; bands of different resolution vary independently within each other's pixels"""
    dn = []
    for k in range(13):
        s = n * 5000 // l2.S2RES[k]
        i = np.arange(s * s)
        dn.append(((i * (2 * k * 7 + 1) * 1 + 911 * k) % 65536).reshape(s, s))
    return dn


def planes_flags(n):
    """void in every subset of the bands, saturated in every subset of the bands, one of each in every pair of bands"""
    s = n * 5000 // CELL
    rows = [[(0 if m >> b & 1 else 1) for b in range(13)] for m in range(1 << 13)]
    rows += [[(2 if m >> b & 1 else 1) for b in range(13)] for m in range(1 << 13)]
    for a, b in itertools.permutations(range(13), 2):
        rows.append([0 if k == a else 2 if k == b else 1 for k in range(13)])
    rows = np.array(rows, np.uint8)
    rows = rows[np.arange(s * s) % len(rows)].reshape(s, s, 13)
    return [spread(np.choose(rows[:, :, k], (0, ORDINARY[k], 65535)), l2.S2RES[k], n) for k in range(13)]


def planes_plain(n):
    """values that identify the position"""
    dn = []
    for k in range(13):
        s = n * 5000 // l2.S2RES[k]
        y, x = np.mgrid[0:s, 0:s]
        dn.append(ORDINARY[k] + (y * 31 + x * 17) % 200 if k != 10 else np.full((s, s), 12))
    return dn


PLANES = dict(values=planes_values, flags=planes_flags, plain=planes_plain)


def one(c, job):
    what, n, sat, quant, offset, view, grid, nthread = job
    dn = PLANES[what](n)
    view = np.array(view, bool)
    tag = f"{what} {n} cells, S{sat}, quantification {quant}, offsets {offset}, view nodes {view.astype(int).tolist()}, {'own' if grid else 'tile'} grid, {nthread} threads"
    N = n * 500
    ul = (500000, Y0 - 600)
    with fl.Work(c) as w:
        g = l2.granule(w, dn, ul, l2.wkt(32632), n, sat, quant=quant, offset=offset, view=view)
        own = dict(DO_REPROJ="FALSE", DO_TILE="FALSE") if grid else dict(TILE_SIZE="15000 15000", BLOCK_SIZE=3000)
        own = {k: v for k, v in own.items() if k in fl.Prm("LEVEL2")}
        r = l2.process(w, g, l2.prm(w, NTHREAD=nthread, **own))
        t = l2.tiles(os.path.join(w, "l2"))
        if r.rc != 0:
            return [f"{tag}: exit {r.rc}: {r.stdout[-300:]}"], 0, 0
        toa = np.full((10, N, N), -9999, np.int32)
        qai = np.ones((N, N), np.int32)
        stem = f"20180615_LEVEL2_SEN{sat}_"
        for d, fs in t.items():
            if sorted(fs) != [stem + "QAI", stem + "TOA"] or (grid and d != "T32UNC"):
                return [f"{tag}: wrong products {sorted(fs)} in {d}"], 0, 0
            (x0, rx, _, y0, _, ry), _, _ = l2.geo(fs[stem + "TOA"])
            a, q = fl.read_tif(fs[stem + "TOA"]), fl.read_tif(fs[stem + "QAI"])[0] & 0xffff
            i, j = (ul[1] - y0) / 10, (x0 - ul[0]) / 10
            if a.shape[0] != 10 or (rx, ry) != (10, -10) or abs(i - round(i)) > 1e-6 or abs(j - round(j)) > 1e-6:
                return [f"{tag}: grid {(x0, rx, y0, ry)} or {a.shape[0]} bands in {d}"], 0, 0
            i, j = round(i), round(j)
            a0, b0 = max(0, -i), max(0, -j)
            a1, b1 = min(a.shape[1], N - i), min(a.shape[2], N - j)
            toa[:, i + a0:i + a1, j + b0:j + b1] = a[:, a0:a1, b0:b1]
            qai[i + a0:i + a1, j + b0:j + b1] = q[a0:a1, b0:b1]
            rest = np.ones(q.shape, bool)
            rest[a0:a1, b0:b1] = False
            if (a[:, rest] != -9999).any() or (q[rest] != 1).any():
                return [f"{tag}: data outside the granule in {d}"], 0, 0
    bad = []
    cov = np.zeros((n, n), bool)
    for a, b in itertools.product((0, 1), repeat=2):
        cov |= view[a:n + a, b:n + b]
    void = ~np.repeat(np.repeat(cov, 500, 0), 500, 1)
    satd = np.zeros((N, N), bool)
    full = []
    for k in range(13):
        f = l2.S2RES[k] // 10
        side = np.arange(N) // f
        # 60 m bands do not divide the granule evenly; they are stretched by less than a pixel
        side = np.minimum(side, dn[k].shape[0] - 1)
        full.append(dn[k][side][:, side])
        if k != 10:
            void |= full[k] == 0
        satd |= full[k] >= 65535
    skip = np.zeros((N, N), bool)
    skip[[0, -1], :] = skip[:, [0, -1]] = True           # outermost pixels share the fate of their inner neighbours
    if not cov.all():                                    # as do those at the border of the part covered
        ys, xs = np.where(~void)
        skip |= ~np.pad(np.ones((N - 2, N - 2), bool), 1)
        for y in (ys.min(), ys.max()):
            skip[y] = True
        for x in (xs.min(), xs.max()):
            skip[:, x] = True
        for m in range(500, N, 500):
            skip[m - 2:m + 2] = True
            skip[:, m - 2:m + 2] = True
    off = (qai & OFF) != 0

    def report(mask, text):
        mask = mask & ~skip
        if mask.any():
            y, x = np.argwhere(mask)[0]
            bad.append(f"{tag}: {text} at {(int(y), int(x))}, digital numbers {[int(q[y, x]) for q in full]}, TOA {toa[:, y, x].tolist()}, QAI {qai[y, x]:#x}; {mask.sum()} pixels")

    report(off != void, "void pixel not marked, or valid pixel marked void")
    report(off & (qai != 1), "void pixel carries further flags")
    report(off & (toa != -9999).any(0), "void pixel carries data")
    ok = ~off & ~void & ~skip
    wrong, bright, edge = np.zeros((N, N), bool), np.zeros((N, N), bool), np.zeros((N, N), bool)
    for o, k in enumerate(l2.S2OUT):
        e = np.clip((full[k] + (offset[k] if offset else 0)) / quant * 10000, -32768, 32767)
        wrong |= (toa[o] > e + np.where(e < 0, 2.01, 1)) | (toa[o] < e - 2.01)
        bright |= toa[o] > 10000
        edge |= np.abs(toa[o] - 10000) < 2
    report(ok & wrong, "reflectance does not follow quantification value and offset")
    report(ok & ~edge & (((qai & SATBIT) != 0) != (satd | bright)), "saturation flag wrong")
    report(ok & (((qai & SUBZERO) != 0) != (toa < 0).any(0)) & ~(toa == 0).any(0), "flag of negative reflectance wrong")
    return bad, int(ok.sum()), int((~ok & ~skip).sum())


def jobs(thorough):
    n = 3
    every = [[1] * (n + 1)] * (n + 1)
    offs = [-1000 + 13 * b for b in range(13)]
    for sat, quant, off in (("2A", 10000, None), ("2B", 10000, offs), ("2C", 10000, [-1000] * 13), ("2D", 1000, None)):
        yield "values", n, sat, quant, off, every, True, 1
    for grid, nt in ((True, 4), (False, 1)):
        yield "flags", n, "2A", 10000, None, every, grid, nt
        yield "flags", n, "2B", 10000, [100] * 13, every, grid, nt
    n = 4
    spans = list(itertools.combinations(range(n + 2), 2))
    for grid in (True, False):
        for a, b in spans:
            m = np.zeros((n + 1, n + 1), int)
            m[a:b] = 1
            yield "plain", n, "2A", 10000, None, m.tolist(), grid, 1
            if (a, b) != (0, n + 1):
                yield "plain", n, "2A", 10000, None, m.T.tolist(), grid, 1
        for k in range(-n + 1, n) if thorough else (-2, 1):                    # oblique swaths
            yield "plain", n, "2A", 10000, None, np.tri(n + 1, k=k).astype(int).tolist(), grid, 2
            yield "plain", n, "2A", 10000, None, np.tri(n + 1, k=k).astype(int)[::-1].T.tolist(), grid, 2
        if thorough:
            for (a, b), (d, e) in itertools.product(spans, spans):
                m = np.zeros((n + 1, n + 1), int)
                m[a:b, d:e] = 1
                yield "plain", n, "2A", 10000, None, m.tolist(), grid, 1


def check(c):
    fl.exe("force-l2ps")
    js = list(jobs(c.thorough))
    valid = void = 0
    for j, (bad, a, b) in zip(js, fl.pmap(lambda j: one(c, j), js, 7)):
        valid += a
        void += b
        for t in bad:
            c.violation(t, dict(job=j), key=None)
    c.coverage.update(states=valid + void, transitions=valid * 10 + void, exhaustive=True, traces_validated_against_impl=len(js),
                      bounds="every digital number of every band for four satellites, two quantification values and three sets of offsets; void or saturated in every "
                             "subset of the 13 bands; every span of rows or columns with view angles of a granule of 4 x 4 cells, and oblique swaths")
    c.sample(f"{valid} valid and {void} void pixels compared in {len(js)} granules")


if __name__ == "__main__":
    vlib.main(check, "L06", "model_checking")
