#!/usr/bin/python3
"""H24: spectral unmixing over enumerated spectra, endmember sets, constraints and sensors, against all active sets."""
import datetime, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib

LIB = {6: np.array([[320, 560, 450, 3670, 1700, 710], [730, 1450, 2240, 2750, 4020, 3220], [2620, 3100, 3340, 4700, 7240, 5490], [610, 540, 380, 120, 60, 30]], float).T,
       10: np.array([[320, 560, 450, 900, 2700, 3300, 3550, 3670, 1700, 710], [730, 1450, 2240, 2400, 2550, 2650, 2700, 2750, 4020, 3220],
                     [2620, 3100, 3340, 3600, 3900, 4300, 4600, 4700, 7240, 5490], [610, 540, 380, 330, 210, 180, 150, 120, 60, 30]], float).T}
LIB["zero"] = np.column_stack([LIB[6][:, :3], np.zeros(6)])
LIB["mix"] = LIB[6]
DATES = ["20180501", "20180620"]


def unmix(X, Z, sto, pos):
    """Least squares fractions of all spectra (bands x n): minimum over all sets of endmembers that may be used."""
    A, B = Z, X
    if sto:
        A, B = np.vstack([A, np.ones(A.shape[1])]), np.vstack([B, np.ones(B.shape[1])])
    m = A.shape[1]
    if not pos:
        d = np.linalg.lstsq(A, B, rcond=None)[0]
        return d, np.sqrt(((B - A @ d) ** 2).mean(0))
    best, bd = (B ** 2).sum(0), np.zeros((m, B.shape[1]))
    for k in range(1, m + 1):
        for s in itertools.combinations(range(m), k):
            if np.linalg.matrix_rank(A[:, s]) < k:
                continue
            d = np.zeros_like(bd)
            d[list(s)] = np.linalg.lstsq(A[:, s], B, rcond=None)[0]
            e = ((B - A @ d) ** 2).sum(0)
            take = (d >= 0).all(0) & (e < best - 1e-13)
            best, bd = np.where(take, e, best), np.where(take, d, bd)
    return bd, np.sqrt(best / A.shape[0])


def spectra(nb, thorough):
    """First date: every combination of dark, medium, bright per band (up to 6 bands vary);
    second date: every mixture of the endmembers, with every sign of a residual in two bands."""
    alpha = [(0, 700 + 60 * b, 5200 - 130 * b, -120) if thorough or b < 2 else (0, 700 + 60 * b, 5200 - 130 * b) for b in range(6)]
    g = np.array(list(itertools.product(*alpha)), float).T
    idx = np.linspace(0, 5, nb).round().astype(int)
    first = g[idx]
    lib = LIB[nb]
    fr = np.array(list(itertools.product((0, 0.25, 0.5, 1, -0.3), repeat=lib.shape[1])), float).T
    mix = lib @ fr
    res = [np.zeros(nb)] + [r * (np.arange(nb) == i) for i in (0, nb // 2) for r in (150, -150)]
    second = np.concatenate([mix + r[:, None] for r in res], 1)
    n = max(first.shape[1], second.shape[1])
    nx = int(np.ceil(np.sqrt(n)))
    out = [np.round(v[:, np.arange(nx * nx) % v.shape[1]]).clip(-3000, 16000).reshape(nb, nx, nx) for v in (first, second)]
    return out, nx


def LONG(v, n):
    """First row: pixel p of date t has the spectrum p + 13 t, every pixel sees a long sequence of different spectra;
    second row: pixel p has the spectrum p on all dates, whatever a spectrum needs adds up."""
    k = v.shape[1] // 2
    return [np.stack([v[:, (np.arange(k) + 13 * t) % v.shape[1]], v[:, :k]], 1) for t in range(n)]


def check(c):
    cubes = {}
    for key, nb, sen in ((6, 6, "LND08"), (10, 10, "SEN2A"), ("mix", 6, "LND08 SEN2A")):
        v, nx = spectra(nb, c.thorough)
        cube = fl.Cube(os.path.join(c.scratch, f"cube{key}"), nx, nx)
        miss = [(np.arange(nx * nx) % 19 == 4 + t).reshape(nx, nx) for t in range(2)]
        for t, (d, a, q) in enumerate(zip(DATES, v, miss)):
            b = a
            if key == "mix" and t == 1:  # the six bands both sensors have, stored in the ten band product
                b = np.full((10, nx, nx), 77)
                b[[0, 1, 2, 7, 8, 9]] = a
            cube.ard(0, 0, d, sen if key != "mix" else sen.split()[t], b, q)
        mask = fl.Cube(os.path.join(c.scratch, f"mask{key}"), nx, nx)
        mk = (np.arange(nx * nx) % 7 != 2).reshape(nx, nx)
        mask.put(0, 0, "M.tif", mk.astype(np.int16)[None], nodata=255)
        cubes[key] = (cube, v, miss, mask, mk, sen)
    # long series: the spectra of both dates, changing and unchanging
    n = 140
    lv = LONG(np.concatenate([cubes[6][1][i].reshape(6, -1)[:, ::(1 if c.thorough else 2)] for i in (0, 1)], 1), n)
    long = fl.Cube(os.path.join(c.scratch, "long"), *lv[0].shape[:0:-1])
    days = [(datetime.date(2018, 1, 1) + datetime.timedelta(2 * i)).strftime("%Y%m%d") for i in range(n)]
    for d, a in zip(days, lv):
        long.ard(0, 0, d, "LND08", a, np.zeros(a.shape[1:]))
    cubes["long"] = (long, lv, [np.zeros(lv[0].shape[1:], bool)] * n, None, np.ones(lv[0].shape[1:], bool), "LND08")
    LIB["long"] = LIB[6]
    jobs = [("long", m, sto, True, False, e, False, "") for m in (2, 3, 4) for sto in (True, False) for e in (1, m)]
    for key, m in [(6, 1), (6, 2), (6, 3), (6, 4), ("zero", 4), (10, 3), (10, 4), ("mix", 3), ("mix", 4)]:
        for sto, pos, shn in itertools.product((True, False), (True, False), (False, True)):
            if not sto and not pos or shn and m == 1:
                continue
            for emb in range(1, m + 1):
                for mask, extra in ((False, ""), (True, ""), (False, "NDVI")):
                    if (mask or extra) and not (emb == 1 and not shn):
                        continue
                    jobs.append((key, m, sto, pos, shn, emb, mask, extra))

    def one(j):
        key, m, sto, pos, shn, emb, mask, extra = j
        Z = LIB[key][:, :m]
        cube, v, miss, mcube, mk, sen = cubes[6 if key == "zero" else key]
        with fl.Work(c) as w:
            em = os.path.join(w, "endmember.txt")
            with open(em, "w") as f:
                f.write("".join(" ".join(f"{x:.0f}" for x in r) + "\n" for r in Z))
            kw = dict(DIR_MASK=mcube.d, BASE_MASK="M.tif") if mask else {}
            p = fl.tsa(w, cube, SENSORS=sen, TARGET_SENSOR="SEN2L" if key == 10 else "LNDLG", INDEX=f"{extra} SMA".strip(), FILE_ENDMEM=em, SMA_SUM_TO_ONE=str(sto).upper(),
                       SMA_NON_NEG=str(pos).upper(), SMA_SHD_NORM=str(shn).upper(), SMA_ENDMEMBER=emb, OUTPUT_TSS="TRUE", OUTPUT_RMS="TRUE", **kw)
            r, o = fl.products(w, p, must=False)
            if r.rc != 0:
                return f"program failed: {r.stdout[-200:]}", 0
            f = [k for k in o if "_SMA_" in k]
            if len(f) != 2 or not any(k.endswith("_TSS.tif") for k in f) or not any(k.endswith("_RMS.tif") for k in f):
                return f"products {sorted(o)}", 0
            prod = [(a, o[a], fl.band_names(os.path.join(w, "hl", a))) for a in sorted(f, reverse=True)]
        cnt = 0
        for t, d in enumerate(days if key == "long" else DATES):
            fr, rms = unmix(v[t].reshape(len(Z), -1) / 1e4, Z / 1e4, sto, pos)
            if shn:
                with np.errstate(all="ignore"):
                    f = np.where(np.abs(1 - fr[-1]) < 0.05, np.nan, 1 / (1 - fr[-1]))  # unstable where nearly everything is shade
                fr = fr * f
                fr[-1] = 0
            e = {"TSS": fr[emb - 1] * 1e4, "RMS": rms * 1e4}
            for name, a, bn in prod:
                k = name[-7:-4]
                if len(bn) != len(v) or not bn[t].startswith(d):
                    return f"{k} has bands {bn}", cnt
                gone = miss[t] | (~mk if mask else False)
                want = e[k].reshape(mk.shape)
                free = ~gone & (np.isnan(want) | (np.abs(want) > 32700))
                ok = np.where(gone, a[t] == -9999, np.abs(a[t] - np.nan_to_num(want)) <= 1.05 + 1e-5 * np.abs(np.nan_to_num(want))) | free
                cnt += int((~free).sum())
                if not ok.all():
                    y, x = np.argwhere(~ok)[0]
                    return (f"{'fraction' if k == 'TSS' else 'residual'} of spectrum {v[t][:, y, x].astype(int).tolist()} is {a[t][y, x]}, expected "
                            f"{'nodata' if gone[y, x] else round(float(want[y, x]), 2)} ({int((~ok).sum())} pixels)"), cnt
        return None, cnt
    tot = 0
    for j, (bad, n) in zip(jobs, fl.pmap(one, jobs)):
        tot += n
        if bad:
            key, m, sto, pos, shn, emb, mask, extra = j
            what = (f"{m} endmembers of {LIB[key].shape[0]} bands, sum to one {sto}, non-negative {pos}, shade normalisation {shn}, "
                    f"fraction {emb}{', processing mask' if mask else ''}{', with ' + extra if extra else ''}: {bad}")
            c.violation(what, {"endmembers": LIB[key][:, :m].tolist(), "config": j, "what": bad})
    c.sample(f"{jobs[7]}")
    c.coverage = dict(states=sum(np.unique(np.concatenate([t.reshape(t.shape[0], -1) for t in v[1]], 1), axis=1).shape[1] for k, v in cubes.items() if k != "long"), transitions=tot, traces_validated_against_impl=len(jobs), exhaustive=True,
                      rule="state = one enumerated spectrum of one sensor; transition = one value of a fraction or residual product compared; trace = one program run with one endmember set and one set of constraints")


vlib.main(check, "H24", "model_checking")
