#!/usr/bin/python3
"""H10: trend and change products over all histories of yearly/quarterly/monthly values."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, refs, vlib

TRD = ["MEAN", "OFFSET", "SLOPE", "PCT_GAIN", "ABS_GAIN", "R2", "SIG", "RMSE", "MAE", "MAX_RESID", "NUM", "LENGTH"]


def tcdf(t, df, n=4000):
    """one-sided CDF of Student's t by Simpson's rule on x = sqrt(df) tan(u)"""
    u1 = math.atan(abs(t) / math.sqrt(df))
    h = u1 / n
    s = sum((1 if i in (0, n) else 4 if i % 2 else 2) * math.cos(i * h) ** (df - 1) for i in range(n + 1)) * h / 3
    k = math.gamma((df + 1) / 2) / (math.sqrt(math.pi) * math.gamma(df / 2))
    return 0.5 + math.copysign(k * s, t)


def tcrit(p_one, df):
    lo, hi = 0.0, 1e5
    for _ in range(60):
        m = (lo + hi) / 2
        if 1 - tcdf(m, df) > p_one:
            lo = m
        else:
            hi = m
    return hi


_crit = {}


def crit(p, df):
    if (p, df) not in _crit:
        _crit[(p, df)] = tcrit(p, df)
    return _crit[(p, df)]


def fit(vals, valid, x, tail, conf, nf):
    """reference regression; vals/valid: (nf, ...) -> {name: (value, tol)}, k"""
    w = valid.astype(float)
    k = w.sum(0)
    X = x.reshape((-1,) + (1,) * (vals.ndim - 1)).astype(float)
    Y = np.where(valid, vals, 0).astype(float)
    with np.errstate(all="ignore"):
        mx, my = (X * w).sum(0) / k, Y.sum(0) / k
        dx, dy = (X - mx) * w, (Y - my) * w
        sxx, syy, sxy = (dx ** 2).sum(0), (dy ** 2).sum(0), (dx * dy).sum(0)
        slp = sxy / sxx
        off = my - slp * mx
        rsq = np.where(syy > 0, sxy ** 2 / (sxx * np.where(syy > 0, syy, 1)) * 10000, np.nan)
        e = (Y - (off + slp * X)) * w
        sse = (e ** 2).sum(0)
        se = np.sqrt(sse / (k - 2)) / np.sqrt(sxx)
        t = np.where(sse > 1e-6, slp / np.where(sse > 1e-6, se, 1), np.where(np.abs(slp) < 1e-9, np.nan, np.sign(slp) * np.inf))
        sig = np.full(k.shape, np.nan)
        for kk in range(3, nf + 1):
            m = k == kk
            if not m.any():
                continue
            p = (1 - conf) / (2 if tail == "TWO" else 1)
            tc = crit(round(p, 6), kk - 2)
            near = np.abs(np.abs(t) - tc) < 0.02 * tc
            r = np.zeros(k.shape)
            if tail in ("TWO", "LEFT"):
                r = np.where(t <= -tc, -1, r)
            if tail in ("TWO", "RIGHT"):
                r = np.where(t >= tc, 1, r)
            sig[m] = np.where(near | np.isnan(t), np.nan, r)[m]
        gain = np.where(off > 1e-6, slp * nf / off * 100, np.where(off < -1e-6, 0, np.nan))
        gain = np.where(np.abs(gain) > 32000, np.nan, gain)
    return {"MEAN": (my, 1), "OFFSET": (off, 1), "SLOPE": (slp, 1), "PCT_GAIN": (gain, 1), "ABS_GAIN": (slp * nf, 1),
            "R2": (rsq, 1), "SIG": (sig, 0), "RMSE": (np.sqrt(sse / k), 1), "MAE": (np.abs(e).sum(0) / k, 1),
            "MAX_RESID": (np.abs(e).max(0), 1), "NUM": (k, 0), "LENGTH": (np.full(k.shape, float(nf)), 0)}, k


def check(c):
    trees = [([None, 100, 1000, 1500], ["2012", "2013", "2014", "2015", "2016", "2017", "2018"], "Y"),
             ([None, -500, 300, 4000], ["20180115", "20180520", "20180815", "20181220"], "Q"),
             ([None, 200, 900], ["20180115", "20180220", "20180615", "20180720", "20180820", "20181020", "20181101", "20181230"], "M")]
    if not c.thorough:
        trees.append(([None, 200, 900], ["20180101", "20180108", "20180301", "20181220", "20181231"], "W"))
        trees.append(([None, 200, 900], ["20180101", "20180102", "20180301", "20181220", "20181231"], "D"))
    else:
        trees[0] = ([None, 100, 1000, 1500, 3000], trees[0][1], "Y")
        trees.append(([None, 200, 900, 7000], ["20180101", "20180108", "20180115", "20180122", "20180301", "20181220", "20181231"], "W"))
        trees.append(([None, 200, 900, 7000], ["20180101", "20180102", "20180115", "20180122", "20180301", "20181220", "20181231"], "D"))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, compared_values=0, runs=0)
    for ti, (alpha, dates, by) in enumerate(trees):
        if by == "Y":
            dates = [d + "0701" for d in dates]
        tree = fl.Tree(alpha, len(dates))
        cube = tree.cube(os.path.join(c.scratch, f"l2-{ti}"), dates)
        rng = f"{dates[0][:4]}-01-01 {dates[-1][:4]}-12-31"
        # the folded series (one acquisition per period)
        if by == "Y":
            x = np.arange(len(dates)); nf = len(dates); pos = list(range(nf))
        else:
            nf = {"Q": 4, "M": 12, "W": 52, "D": 365}[by]
            f = {"Q": refs.quarter, "M": refs.month, "W": refs.week, "D": lambda d: d}[by]
            pos = [f(refs.doy(d)) - 1 for d in dates]
            x = np.arange(nf)
        vals = np.zeros((nf,) + tree.values.shape[1:], int)
        valid = np.zeros(vals.shape, bool)
        for i, q in enumerate(pos):
            vals[q], valid[q] = tree.values[i], tree.valid[i]
        cfgs = [(tail, conf, prod) for tail in ("LEFT", "TWO", "RIGHT") for conf in (0.9, 0.95, 0.99, 0.6) for prod in ("TR", "CA")]
        cfgs += [("TWO", 0.95, "CA-penalty")]
        if by in "WD" and not c.thorough:
            cfgs = [g for g in cfgs if g[:2] == ("TWO", 0.95)]

        def one(cfg):
            tail, conf, prod = cfg
            penalty, prod = prod[2:], prod[:2]
            with fl.Work(c) as w:
                p = fl.tsa(w, cube, DATE_RANGE=rng, TREND_TAIL=tail, TREND_CONF=conf, CHANGE_PENALTY="TRUE" if penalty else "FALSE", **{f"OUTPUT_{prod}{by}": "TRUE"})
                try:
                    r, o = fl.products(w, p)
                except fl.Failed as e:
                    return f"program failed: {e}", 0
                if len(o) != 1 or not list(o)[0].endswith(f"_{prod}{by}.tif"):
                    return f"products written: {sorted(o)}", 0
                a = list(o.values())[0]
            ref, k = fit(vals, valid, x, tail, conf, nf)
            cnt = 0

            def cmp(b, name, v, tol, nd):
                if penalty:
                    v, nd = np.where(one_, v, np.nan), nd & (one_ | (k < 2))
                bad, n = refs.compare(a[b], v, tol, nd)
                if bad.any():
                    y, xx = np.argwhere(bad)[0]
                    return (f"{name}: acquisitions {dates} with values {tree.history(y, xx)} give {a[b][y, xx]}, expected "
                            f"{'nodata' if nd[y, xx] else round(float(v[y, xx]), 3)} ({int(bad.sum())} histories wrong)"), n
                return None, n
            if prod == "TR":
                if a.shape[0] != 12:
                    return f"{a.shape[0]} bands", 0
                for b, m in enumerate(TRD):
                    v, tol = ref[m]
                    bad, n = cmp(b, m, v, tol, k < 3)
                    cnt += n
                    if bad:
                        return bad, cnt
            else:
                if a.shape[0] != 39:
                    return f"{a.shape[0]} bands", 0
                # largest drop between consecutive valid periods; the first one on ties
                best = np.full(k.shape, -np.inf); when = np.full(k.shape, np.nan); last = np.full(k.shape, np.nan)
                fchg = np.full(k.shape, -1)
                lab = [int(d[:4]) for d in dates] if by == "Y" else list(range(1, nf + 1))
                for f_ in range(nf):
                    d = np.where(valid[f_], last - vals[f_], np.nan)
                    s = d > best
                    best[s] = d[s]; when[s] = lab[f_]; fchg[s] = f_
                    last = np.where(valid[f_], vals[f_], last)
                nd = k < 2
                if penalty:     # weighted with the drop to the next valid period; compared where this singles out one drop
                    best[:], second = 0, np.zeros(k.shape)
                    chg = np.full(k.shape, np.nan); when[:] = np.nan; fchg[:] = -1
                    nxt = np.full(vals.shape, np.nan); pre = nxt.copy()
                    for f_ in range(1, nf):
                        pre[f_] = np.where(valid[f_ - 1], vals[f_ - 1], pre[f_ - 1])
                        nxt[nf - 1 - f_] = np.where(valid[nf - f_], vals[nf - f_], nxt[nf - f_])
                    for f_ in range(nf):
                        d = np.where(valid[f_], pre[f_] - vals[f_], np.nan)
                        e = np.where(d > 0, d * (pre[f_] - nxt[f_]), 0)
                        e[np.isnan(e)] = 0
                        s = e > best
                        second = np.where(s, best, np.maximum(second, np.where(e < best, e, np.where(e > 0, best, 0))))
                        best[s] = e[s]; when[s] = lab[f_]; fchg[s] = f_; chg[s] = d[s]
                    one_ = (best > 0) & (second < best)
                    when[~one_] = np.nan
                    best = np.where(one_, chg, np.nan)
                    fchg[~one_] = nf
                for b, m, v, tol in ((0, "CHANGE", best, 0), (2, "TIME-OF-CHANGE", when, 0)):
                    bad, n = cmp(b, m, np.where(nd, np.nan, v), tol, nd)
                    cnt += n
                    if bad:
                        return bad, cnt
                for b, m in enumerate(TRD):
                    v, tol = ref[m]
                    lim = nd if m in ("MEAN", "NUM", "LENGTH") else nd | (k < 3)
                    bad, n = cmp(3 + b, "TOTAL-" + m, v, tol, lim)
                    cnt += n
                    if bad:
                        return bad, cnt
                off = ref["OFFSET"][0]
                with np.errstate(all="ignore"):
                    loss = np.where(off > 2, best / off * 100, np.where(off < -2, 0, np.nan))
                    loss[(k < 3) | (np.abs(loss) > 32000)] = np.nan
                    bad, n = cmp(1, "RELATIVE-CHANGE", np.where(nd, np.nan, loss), 1 + np.where(off > 2, np.abs(loss) / np.maximum(off - 1, 1) * 1.1, 0), nd)
                cnt += n
                if bad:
                    return bad, cnt
                # after the change: from the change period to the end
                aft = np.arange(nf).reshape((-1, 1, 1)) >= fchg
                ra, ka = fit(vals, valid & aft, x, tail, conf, nf)
                la = nf - fchg          # offset, gains and length are those of this part
                with np.errstate(all="ignore"):
                    o1 = ra["OFFSET"][0] + ra["SLOPE"][0] * fchg
                    gain = np.where(o1 > 1e-6, ra["SLOPE"][0] * la / o1 * 100, np.where(o1 < -1e-6, 0, np.nan))
                    ra.update(OFFSET=(o1, 1), LENGTH=(np.where(fchg < nf, la, np.nan).astype(float), 0), ABS_GAIN=(ra["SLOPE"][0] * la, 1), PCT_GAIN=(np.where(np.abs(gain) > 32000, np.nan, gain), 1))
                for b, m in enumerate(TRD):
                    v, tol = ra[m]
                    lim = nd if m in ("MEAN", "NUM", "LENGTH") else nd | (ka < 3)
                    bad, n = cmp(27 + b, "AFTER-" + m, v, tol, lim)
                    cnt += n
                    if bad:
                        return bad, cnt
            return None, cnt
        for cfg, (bad, cnt) in zip(cfgs, fl.pmap(one, cfgs)):
            cov["compared_values"] += cnt
            cov["runs"] += 1
            cov["traces_validated_against_impl"] += tree.n
            if bad:
                c.violation(f"{cfg[2]}{by} tail {cfg[0]} confidence {cfg[1]}: {bad}", {"config": cfg, "what": bad})
        cov["states"] += tree.states
        cov["transitions"] += tree.transitions
        c.sample(f"{dates}: {tree.history(tree.ny//2, tree.nx//3)}")
    c.coverage = dict(cov, exhaustive=True,
                      rule="state = prefix of a folded series; every leaf series is fitted by the real program under every tail/confidence")


vlib.main(check, "H10", "model_checking")
