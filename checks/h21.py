#!/usr/bin/python3
"""H21: outlier removal and restoration in time series for all histories of clear, masked and missing observations."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, refs, vlib

NO = -9999


def sides(v, m, days, t):
    """index of the nearest valid observation before and after t (-1: none), and whether these are the first/last"""
    nt, n = v.shape
    l, r = np.full(n, -1), np.full(n, -1)
    for i in range(t):
        l = np.where(m[i], i, l)
    for i in range(nt - 1, t, -1):
        r = np.where(m[i], i, r)
    first = m[:t].sum(0) == 1
    last = m[t + 1:].sum(0) == 1
    return l, r, first, last


def residual(v, days, t, l, r):
    ix = np.arange(v.shape[1])
    vl, vr = v[l, ix].astype(float), v[r, ix].astype(float)
    gap = days[r] - days[l]
    e = np.where(gap == 0, (vl + vr) / 2, vl + (vr - vl) / np.where(gap == 0, 1, gap) * (days[t] - days[l]))
    return np.abs(v[t] - e), vl, vr


def screen(v, clear, days, above, below, chain):
    """reference for n series (nt, n); returns used observations and a mask of histories too close to call"""
    nt, n = v.shape
    m = clear.copy()
    doubt = np.zeros(n, bool)
    removed = np.zeros(m.shape, bool)
    noise = np.full(n, np.nan)
    todo = np.ones(n, bool)
    while todo.any():
        R = np.full((nt, n), np.nan)
        blame = np.zeros((nt, n), int)
        for t in range(nt):
            l, r, first, last = sides(v, m, days, t)
            ok = m[t] & (l >= 0) & (r >= 0)
            res, vl, vr = residual(v, days, t, l, r)
            R[t] = np.where(ok, res, np.nan)
            at_first = first & (np.abs(vl - vr) > np.abs(v[t] - vr))
            at_last = last & (np.abs(vl - vr) > np.abs(v[t] - vl))
            blame[t] = np.where(at_first, l, np.where(at_last, r, t))
        k = (~np.isnan(R)).sum(0)
        z = np.where(np.isnan(R), -1, R)
        mx = z.max(0)
        top = z >= mx * (1 - 1e-6) - 1e-9
        who = blame[z.argmax(0), np.arange(n)]
        tie = (top & (blame != who) & (z > 0)).any(0)
        go = todo & (k >= 2)
        with np.errstate(all="ignore"):
            nz = np.sqrt(np.where(np.isnan(R), 0, R ** 2).sum(0) / k)
            rel = mx / nz
        noise[go] = nz[go]
        out = go & (rel > above)
        doubt |= go & (np.abs(rel - above) < 1e-3) | out & tie
        w, ix = who[out], np.where(out)[0]
        m[w, ix] = False
        removed[w, ix] = True
        todo = out & (k > 2) & ~doubt
    have = ~np.isnan(noise)
    flat = have & (noise == 0)
    base = m.copy()
    for t in range(1, nt - 1):
        l, r, _, _ = sides(v, m if chain else base, days, t)
        cand = have & ~flat & ~base[t] & ~removed[t] & (v[t] != NO) & (l >= 0) & (r >= 0)
        res, _, _ = residual(v, days, t, l, r)
        with np.errstate(all="ignore"):
            rel = res / noise
        m[t] |= cand & (rel < below)
        doubt |= cand & (np.abs(rel - below) < 1e-3)
    if below > 0:           # nothing to compare with: an observation on the line may or may not be restored
        doubt |= flat
    return m, doubt


def check(c):
    A = [(1000, 1), (1060, 1), (1500, 1), (4000, 1), (1000, 0), (1510, 0), (4000, 0), (NO, 0)]
    B = [(1000, 1), (4010, 1), (1203, 0), (NO, 0)]
    D1 = ["20180101", "20180104", "20180120", "20180315", "20180316", "20180601"]
    D2 = ["20171230", "20180101", "20180111", "20180121", "20180228", "20180301", "20180905", "20181231"]
    trees = [(A, D1, ["LND08"] * 6), (B, D2, ["LND08"] * 8), (A[:2] + A[3:4] + A[5:], ["20180105"] * 3 + D1[1:4], ["LND07", "LND08", "LND09"] + ["LND08"] * 3)]
    if c.thorough:
        trees.append((A[:1] + A[2:6] + A[7:], D2[:7], ["LND08"] * 7))
    levels = [(a, b) for a in (1.1, 1.5, 2, 3) for b in (0, 0.5, 1, 3)]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, compared_values=0, too_close=0, runs=0)
    for ti, (alpha, dates, sensors) in enumerate(trees):
        order = sorted(range(len(dates)), key=lambda i: (dates[i], sensors[i]))
        dates, sensors = [dates[i] for i in order], [sensors[i] for i in order]
        tree = fl.Tree(range(len(alpha)), len(dates))
        val = np.array([a[0] for a in alpha])[tree.digits]
        ok = np.array([a[1] for a in alpha], bool)[tree.digits]
        cube = fl.Cube(os.path.join(c.scratch, f"l2-{ti}"), tree.nx, tree.ny)
        for t, (d, s) in enumerate(zip(dates, sensors)):
            cube.ard(0, 0, d, s, np.repeat(val[t][None], 6, 0).astype(np.int16), np.where(ok[t], 0, np.where(val[t] == NO, 1, 4)))
        days = np.array([refs.ce(d) for d in dates])
        V, K = val.reshape(len(dates), -1), ok.reshape(len(dates), -1)
        mod = [dict(), dict(INDEX="BLUE")] + [dict(NTHREAD_COMPUTE=3)] * c.thorough

        def one(j):
            (above, below), kw = j
            with fl.Work(c) as w:
                p = fl.tsa(w, cube, DATE_RANGE="2017-01-01 2018-12-31", SENSORS=" ".join(sorted(set(sensors))), SCREEN_QAI="NODATA CLOUD_OPAQUE", ABOVE_NOISE=above, BELOW_NOISE=below, OUTPUT_TSS="TRUE", **kw)
                try:
                    r, o = fl.products(w, p)
                except fl.Failed as e:
                    return f"program failed: {e}", 0, 0
            a = list(o.values())[0].reshape(-1, V.shape[1])
            if len(o) != 1 or len(a) != len(dates):
                return f"products {[(k, len(v)) for k, v in o.items()]}", 0, 0
            m, doubt = screen(V, K, days, above, below, True)
            m2, d2 = screen(V, K, days, above, below, False)
            doubt |= d2 | (m != m2).any(0)
            bad = ((a != np.where(m, V, NO)) & ~doubt).any(0)
            txt = None
            if bad.any():
                i = np.argwhere(bad)[0][0]
                txt = (f"observations {[('clear' if k else 'masked', int(v)) if v != NO else 'missing' for k, v in zip(K[:, i], V[:, i])]} on {dates} give "
                       f"{a[:, i].tolist()} instead of {np.where(m, V, NO)[:, i].tolist()} ({bad.sum()} histories)")
            return txt, int((~doubt).sum()) * len(dates), int(doubt.sum())
        jobs = [(l, k) for l in levels for k in mod]
        for j, (bad, n, d) in zip(jobs, fl.pmap(one, jobs)):
            cov["runs"] += 1
            cov["compared_values"] += n
            cov["too_close"] += d
            cov["traces_validated_against_impl"] += tree.n
            if bad:
                c.violation(f"remove above {j[0][0]}, restore below {j[0][1]}, {j[1]}: {bad}", {"job": j, "dates": dates, "sensors": sensors})
        cov["states"] += tree.states
        cov["transitions"] += tree.transitions
        c.sample(f"{dates}: {[alpha[i] for i in tree.history(tree.ny // 2, tree.nx // 3)]}")
    c.coverage = dict(cov, exhaustive=True, rule="state = prefix of a history of clear, masked and missing observations; every complete history is screened by the real program at every pair of levels")


vlib.main(check, "H21", "model_checking")
