#!/usr/bin/python3
"""H20: harmonic interpolation and near-real-time residuals for every pattern of observations of exactly harmonic series."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib
from refs import ce

FIT = ["20160301", "20160402", "20160517", "20160711", "20160830", "20161102", "20161215", "20170208", "20170525", "20170918", "20171231"]
BEFORE = ["20160110", "20160228"]
AFTER = ["20180101", "20180620"]
OFFSETS = [None, 0, 700]            # what comes after the fitted period: missing, as predicted, higher
COEF = [2500, 0.9, 900, -600, 350, 280, -210, 160]


def design(x, modes, trend):
    x = np.asarray(x, float)
    c0 = ce("20170101")
    cols = [np.ones(len(x))] + ([x - c0] if trend else [])
    for m in range(1, modes + 1):
        cols += [np.cos(2 * m * np.pi / 365 * x), np.sin(2 * m * np.pi / 365 * x)]
    return np.stack(cols, 1)


def coef(modes, trend):
    return np.array([COEF[0]] + ([COEF[1]] if trend else []) + COEF[2:2 + 2 * modes])


def check(c):
    nf = len(FIT)
    pat = np.array(list(itertools.product((0, 1), repeat=nf)), bool)
    post = list(itertools.product(range(3), repeat=len(AFTER)))
    n = len(pat) * len(post)
    ny, nx = 128, n // 128
    tot, runs = 0, 0
    work = []
    for modes, trend, early in itertools.product((1, 2, 3), (True, False), (False, True)):
        dates = BEFORE + FIT + AFTER
        y = np.rint(design([ce(d) for d in dates], modes, trend) @ coef(modes, trend)).astype(int)
        cube = fl.Cube(os.path.join(c.scratch, f"l2-{modes}{trend}{early}"), nx, ny)
        valid, value = [], []
        for t, d in enumerate(dates):
            v, a = np.ones(n, bool), np.full(n, y[t])
            if t < len(BEFORE):         # lies before the fitted period and far off; absent in one of the two variants
                v[:] = early
                a += 3000
            elif t < len(BEFORE) + nf:
                v = np.repeat(pat[:, t - len(BEFORE)], len(post))
            else:
                k = np.tile([p[t - len(BEFORE) - nf] for p in post], len(pat))
                v = k > 0
                a = a + np.where(k == 2, OFFSETS[2], 0)
            valid.append(v)
            value.append(a)
            if v.any():
                cube.ard(0, 0, d, "LND08", np.repeat(a.reshape(1, ny, nx), 6, 0), np.where(v, 0, 1).reshape(ny, nx))
        used = [d for d, v in zip(dates, valid) if v.any()]
        for step, nrt in ((16, True), (45, False), (45, True)):
            work.append((cube, modes, trend, early, used, dates, np.array(valid), np.array(value), step, nrt))

    def one(j):
        cube, modes, trend, early, used, dates, valid, value, step, nrt = j
        with fl.Work(c) as w:
            p = fl.tsa(w, cube, DATE_RANGE="2016-01-01 2018-12-31", INTERPOLATE="HARMONIC", INT_DAY=step, HARMONIC_TREND=str(trend).upper(), HARMONIC_MODES=modes,
                       HARMONIC_FIT_RANGE="2016-03-01 2017-12-31", OUTPUT_TSI="TRUE", OUTPUT_NRT=str(nrt).upper())
            try:
                r, o = fl.products(w, p)
            except fl.Failed as e:
                return [f"program failed: {e}"], 0, 0
            got = {}
            for k, v in o.items():
                got[k.split("_")[-1][:-4]] = (v.reshape(v.shape[0], -1).astype(int), [q.split("_")[0] for q in fl.band_names(os.path.join(w, "hl", k))])
        if sorted(got) != (["NRT", "TSI"] if nrt else ["TSI"]):
            return [f"products {sorted(got)}"], 0, 0
        bad, cnt, skipped = [], 0, 0
        a, names = got["TSI"]
        xi = [ce(q) for q in names]
        if xi[0] != ce("20160101") or any(q - p != step for p, q in zip(xi, xi[1:])) or len(xi) not in (1095 // step, -(-1095 // step)):
            return [f"interpolation dates {names[:3]}..{names[-1]}"], 0, 0
        if nrt and got["NRT"][1] != AFTER:
            return [f"residuals are given for {got['NRT'][1]}"], 0, 0
        b = coef(modes, trend)
        X = design([ce(d) for d in FIT], modes, trend)
        Xi, Xa = design(xi, modes, trend), design([ce(d) for d in AFTER], modes, trend)
        yi, ya = Xi @ b, Xa @ b
        m = len(post)
        for k, s in enumerate(pat):
            px = slice(k * m, (k + 1) * m)
            if s.sum() < len(b):
                t = (a[:, px] != fl.NODATA).any()
                if nrt:
                    t |= (got["NRT"][0][:, px] != fl.NODATA).any()
                cnt += 1
                if t:
                    bad.append((k, "nodata", a[:, px][:, 0].tolist()[:4], got["NRT"][0][:, px][:, 0].tolist() if nrt else None))
                continue
            # rounding of the observations moves an ordinary fit by no more than this
            P = np.linalg.pinv(X[s])
            tol, tola = (3 + 8 * 0.5 * np.abs(Q @ P).sum(1) for Q in (Xi, Xa))
            sure, surea = tol < 150, tola < 150
            cnt += int(sure.sum()) * m
            skipped += int((~sure).sum()) * m
            if (np.abs(a[sure, px] - yi[sure, None]) > tol[sure, None]).any():
                i = np.argwhere((np.abs(a[:, px] - yi[:, None]) > tol[:, None]) & sure[:, None])[0]
                bad.append((k, names[i[0]], int(a[:, px][i[0], i[1]]), round(yi[i[0]], 1)))
            if nrt:
                for i in range(len(AFTER)):
                    if not surea[i]:
                        continue
                    v = valid[len(BEFORE) + nf + i][px]
                    g = got["NRT"][0][i, px]
                    e = value[len(BEFORE) + nf + i][px] - ya[i]
                    cnt += m
                    t = np.where(v, np.abs(g - e) > tola[i], g != fl.NODATA)
                    if t.any():
                        q = np.argwhere(t)[0][0]
                        bad.append((k, "residual " + AFTER[i], int(g[q]), round(e[q], 1) if v[q] else "nodata"))
        return [f"observations {[d for d, u in zip(FIT, pat[x[0]]) if u]}: {x[1:]} ({len(bad)} patterns)" for x in bad[:1]], cnt, skipped
    skip = 0
    for j, (bad, n_, s_) in zip(work, fl.pmap(one, work)):
        tot += n_
        skip += s_
        runs += 1
        if bad:
            c.violation(f"modes {j[1]}, trend {j[2]}, earlier observations {j[3]}, step {j[8]}, residuals {j[9]}: {bad[0]}", {"modes": j[1], "trend": j[2], "early": j[3], "step": j[8]})
    c.sample(f"{[d for d, u in zip(FIT, pat[1234]) if u]}")
    c.coverage = dict(states=n, transitions=n * (nf + len(AFTER)), traces_validated_against_impl=n * runs, runs=runs, compared_values=tot, not_determined=skip, exhaustive=True,
                      rule="state = pattern of present observations of a harmonic series; transition = one observation of it; trace = one pattern fitted by the program in one setting")


vlib.main(check, "H20", "model_checking")
