#!/usr/bin/python3
"""H11: every history of observation states around the target day, for all compositing settings."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib

DATES = [("20170710", 2017, 191), ("20180330", 2018, 89), ("20180605", 2018, 156), ("20180629", 2018, 180), ("20180730", 2018, 211), ("20190625", 2019, 176)]
WATER = 1 << 5
# symbol: (valid, cloud distance, haze, view zenith, water)
SYM = [None, (3000, -300, 100, 0), (0, -300, 300, 0), (2900, 0, -9999, 0), (1600, -160, 700, 0), (2500, -250, 500, 1)]
AUX = ("DST", "HOT", "VZN")


def spectra(t, s):
    """Bands of date t in state s; all distinct, of different shape."""
    b = np.arange(6)
    v = 300 + 40 * t + (b * (7 + 3 * t + 5 * s) * 37) % 900 + 11 * s
    if SYM[s] is not None and SYM[s][3]:
        v[3], v[5] = [(400, 300), (200, 350), (150, 120), (90, 80), (500, 60), (30, 20)][t]
    return v


def oracle(cfg, dig, learned):
    """Scores and eligibility: arrays (date, pixel)."""
    nt = len(DATES)
    val = dig > 0
    par = np.array([(0, 0, 0, 0) if s is None else s for s in SYM], float)
    dst, hot, vzn, wat = (par[dig][..., k] for k in range(4))
    w = cfg["w"]
    if learned is not None:
        d1, y1 = learned
    else:
        d1, y1 = temporal(cfg)
    d = np.where(val, np.array(d1)[:, None], 0.0) * (w["DOY"] > 0)
    y = np.where(val, np.array(y1)[:, None], 0.0) * (w["YEAR"] > 0)
    c = (1 / (1 + np.exp(-10 / 3000 * (dst - 1500)))) * (w["CLOUD"] > 0)
    h = (1 / (1 + np.exp(0.05 * (hot + 150)))) * (w["HAZE"] > 0)
    v = np.where(vzn < 0, 0, 1 / (1 + np.exp(10 / 7.5 * (np.maximum(vzn, 0) * 0.01 - 3.75)))) * (w["VZEN"] > 0)     # unknown view angle scores 0
    r = np.zeros(dig.shape)
    spec = np.array([[spectra(t, s) for s in range(len(SYM))] for t in range(nt)], float)
    spec -= spec.mean(2, keepdims=True)
    nrm = np.sqrt((spec ** 2).sum(2))
    if w["CORREL"] > 0:
        for t in range(nt):
            sm, n = np.zeros(dig.shape[1]), np.zeros(dig.shape[1])
            for u in range(nt):
                if u == t:
                    continue
                cc = np.abs(spec[t] @ spec[u].T) / np.outer(nrm[t], nrm[u])
                ok = val[t] & val[u]
                sm += np.where(ok, cc[dig[t], dig[u]], 0)
                n += ok
            m = np.where(n > 0, sm / np.maximum(n, 1), 0)
            r[t] = 1 / (1 + np.exp(-30 * (m - 2 / 3)))
    sc = dict(DOY=d, YEAR=y, CLOUD=c, HAZE=h, CORREL=r, VZEN=v)
    if cfg["COMBINE_SCORES"] == "ADDITIVE":
        tot = sum(w[k] * sc[k] for k in sc if w[k] > 0) / sum(w.values())
    else:
        tot = np.ones(dig.shape)
        for k in sc:
            if w[k] > 0:
                tot = tot * w[k] * sc[k]
    tot = np.where(val, tot, 0)
    nval = val.sum(0)
    water = (nval > 0) & ((wat * val).sum(0) > 0.9 * nval)
    sp = np.array([[spectra(t, s) for s in range(len(SYM))] for t in range(nt)], float)
    tt = np.arange(nt)[:, None]
    nir, sw2 = sp[tt, dig, 3], sp[tt, dig, 5]
    tot = np.where(water & val, (10000 - sw2) / 10000 * np.where(nir < sw2, 0.5, 1), tot)
    sea = val & ((d >= 0.01) | (cfg["OFF_SEASON"] == "TRUE"))
    n = sea.sum(0)
    hm = np.where(n > 0, (h * sea).sum(0) / np.maximum(n, 1), -1)
    hs = np.sqrt(np.where(n > 1, (((h - hm) * sea) ** 2).sum(0) / np.maximum(n - 1, 1), 0))
    el = sea.copy()
    if cfg["USE_HAZY"] == "FALSE" and w["HAZE"] > 0:
        el &= ~((h < 0.01) & (hm > 0.01) & (hs > 0.01))
    if cfg["USE_CLOUDY"] == "FALSE" and w["CLOUD"] > 0:
        el &= ~(c < 0.01)
    return sc, tot, el, water


def targets(cfg):
    a, b, e = cfg["DOY_STATIC"]
    o = []
    for y in range(2018 - cfg["YEAR_NUM"], 2018 + cfg["YEAR_NUM"] + 1):
        o.append(((y - 1 if a > b else y) * 365 + a, y * 365 + b, (y + 1 if e < b else y) * 365 + e))
    return o


def closest(cfg):
    """Per date: target of the closest year."""
    tg = targets(cfg)
    return [min(tg, key=lambda q: abs(y * 365 + doy - q[1])) for _, y, doy in DATES]


def temporal(cfg):
    """Gaussian scores of day and year."""
    s0, s1, s2 = cfg["DOY_SCORE"]
    d, yy = [], []
    for (_, y, doy), q in zip(DATES, closest(cfg)):
        ce, dy = y * 365 + doy, abs(y - 2018)
        left = ce < q[1]
        sig = (q[1] - q[0]) / np.sqrt(-2 * np.log(s0 / s1)) if left else (q[2] - q[1]) / np.sqrt(-2 * np.log(s2 / s1))
        sl = int((q[1] - q[0] if left else q[2] - q[1]) / ((cfg["YEAR_NUM"] + 1) * 0.75))
        d.append(s1 * np.exp(-(ce - q[1]) ** 2 / (2 * sig * sig)))
        yy.append(s1 * np.exp(-(dy * sl) ** 2 / (2 * sig * sig)))
    return d, yy


def check(c):
    nt, k = len(DATES), len(SYM)
    tr = fl.Tree(range(k), nt)
    dig = tr.digits.reshape(nt, -1)
    cube = fl.Cube(os.path.join(c.scratch, "l2"), tr.nx, tr.ny)
    one = fl.Cube(os.path.join(c.scratch, "one"), nt, 1)     # pixel t: only date t is valid
    for t, (dt, _, _) in enumerate(DATES):
        for cb, dg in ((cube, tr.digits[t]), (one, (np.arange(nt)[None] == t).astype(int))):
            boa = np.moveaxis(np.array([spectra(t, s) for s in range(k)])[dg], 2, 0)
            cb.ard(0, 0, dt, "LND08", boa, np.where(dg == 0, 1, np.array([0 if s is None else s[3] * WATER for s in SYM])[dg]))
            for i, a in enumerate(AUX):
                cb.put(0, 0, f"{dt}_LEVEL2_LND08_{a}.tif", np.array([-9999 if s is None else s[i] for s in SYM])[dg].astype(np.int16), -9999)

    def prm(w, cb, cfg, **kw):
        aux = " ".join(a for a, b in zip(AUX, ("CLOUD", "HAZE", "VZEN")) if cfg["w"][b] > 0) or "NULL"
        d = dict(SENSORS="LND08", TARGET_SENSOR="LND08", DATE_RANGE="2017-01-01 2019-12-31", YEAR_NUM=cfg["YEAR_NUM"], SCREEN_QAI="NODATA",
                 BASE_LSP="NULL NULL NULL", REQUIRE_AUX_PRODUCTS=aux, OUTPUT_SCR="TRUE", SELECT=cfg["SELECT"], COMBINE_SCORES=cfg["COMBINE_SCORES"],
                 DOY_SCORE=" ".join(map(str, cfg["DOY_SCORE"])), DOY_STATIC=" ".join(map(str, cfg["DOY_STATIC"])),
                 OFF_SEASON=cfg["OFF_SEASON"], USE_CLOUDY=cfg["USE_CLOUDY"], USE_HAZY=cfg["USE_HAZY"], NTHREAD_COMPUTE=1)
        d.update({f"SCORE_{a}_WEIGHT": b for a, b in cfg["w"].items()})
        d.update(kw)
        return fl.base("LEVEL3", w, cb, **d)

    def run(cb, cfg):
        with fl.Work(c) as w:
            r, o = fl.products(w, prm(w, cb, cfg))
            return [fl.pick(o, x).astype(int) for x in ("BAP.tif", "INF.tif", "SCR.tif")]

    def W(d=0, y=0, c=0, h=0, r=0, v=0):
        return dict(DOY=d, YEAR=y, CLOUD=c, HAZE=h, CORREL=r, VZEN=v)
    TF = ("TRUE", "FALSE")
    shapes = [((0.01, 0.99, 0.01), (120, 180, 240)), ((0.2, 0.9, 0.05), (150, 181, 215)), ((0.01, 0.99, 0.01), (300, 60, 200)),
              ((0.99, 0.5, 0.01), (120, 180, 240)), ((0.01, 0.5, 0.99), (120, 180, 240))]
    cfgs = []
    for (sc, st), comb, off, cl, hz, sel in itertools.product(shapes, ("ADDITIVE", "MULTIPLICATIVE"), TF, TF, TF, TF):
        for w in (W(1, 1, 0.4, 0.3, 0.2, 0.6), W(1), W(1, 0.5, 0, 0.7), W(0.6, 0, 1, 0, 0.5)):
            if cl == "TRUE" and not w["CLOUD"] or hz == "TRUE" and not w["HAZE"]:
                continue
            for yn in (0, 1):
                if not c.thorough and (yn == 0 and sc[0] != 0.2 or comb == "MULTIPLICATIVE" and w["HAZE"] == 0.7 or w["CLOUD"] == 0.4 and (cl == "TRUE") != (hz == "TRUE")):
                    continue
                cfgs.append(dict(DOY_SCORE=sc, DOY_STATIC=st, COMBINE_SCORES=comb, OFF_SEASON=off, USE_CLOUDY=cl, USE_HAZY=hz, SELECT=sel, w=w, YEAR_NUM=yn))

    # sigmoidal scores are fitted by the program: read them off single observations
    learned = {}
    edges = [((0.99, 0.5, 0.01), (89, 180, 271)), ((0.99, 0.5, 0.01), (90, 180, 270)), ((0.01, 0.5, 0.99), (149, 180, 211)), ((0.01, 0.5, 0.99), (150, 180, 210))]
    for (sc, st), yn in itertools.product(shapes + edges, (0, 1)):      # edges: a date exactly on and just beyond the limit
        cfg = dict(DOY_SCORE=sc, DOY_STATIC=st, COMBINE_SCORES="ADDITIVE", OFF_SEASON="TRUE", USE_CLOUDY="TRUE", USE_HAZY="TRUE", SELECT="TRUE", w=W(1, 1), YEAR_NUM=yn)
        s = run(one, cfg)[2][:, 0, :] / 10000
        if sc[1] == max(sc):
            e = np.abs(np.array(temporal(cfg)) - s[1:3]).max()
            if e > 2e-4:
                c.violation(f"scores of day and year for DOY_SCORE={sc} DOY_STATIC={st} YEAR_NUM={yn}: {s[1:3].tolist()} instead of {np.round(temporal(cfg), 4).tolist()}", {"cfg": cfg})
        else:
            learned[sc, st, yn] = s[1], s[2]
            ce = [y * 365 + doy for _, y, doy in DATES]
            q = closest(cfg)
            for t in range(nt):
                rel = ce[t] - q[t][1]
                # anchors of the fitted curve: roughly the requested values
                k_ = np.log(98) / (st[1] - st[0]) * (1 if sc[0] > sc[2] else -1)
                want = 0.99 / (1 + np.exp(k_ * rel))
                if sc[0] > sc[2] and ce[t] < q[t][0] or sc[2] > sc[0] and ce[t] > q[t][2]:
                    want = 0
                if abs(want - s[1][t]) > 0.1:
                    c.violation(f"day score for DOY_SCORE={sc}: {s[1][t]} for {DATES[t][0]}, expected about {want:.2f}", {"cfg": cfg})
    tot = 0

    def judge(cfg):
        b, i, s = run(cube, cfg)
        le = learned.get((cfg["DOY_SCORE"], cfg["DOY_STATIC"], cfg["YEAR_NUM"]))
        eps = 1e-6 if le is None else 3e-4
        sc, tot_, el, water = oracle(cfg, dig, le)
        b, i, s = (x.reshape(x.shape[0], -1) for x in (b, i, s))
        npx = dig.shape[1]
        n = el.sum(0)
        none = n == 0
        doubt = np.zeros(none.shape, bool)
        if cfg["SELECT"] == "FALSE":        # scores that vanish numerically: average not defined
            doubt = ~none & ((tot_ * el).sum(0) < 1e-6)
        sp = np.array([[spectra(t, q) for q in range(k)] for t in range(nt)])[np.arange(nt)[:, None], dig]    # date, pixel, band
        bad = np.zeros(npx, object)
        bad[:] = None

        def fail(m, txt):
            for p in np.flatnonzero(m & ~doubt)[:1]:
                if bad[p] is None:
                    bad[p] = txt
        fail(none & ((b != -9999).any(0) | (i[1] != 0) | (i[2] != -9999)), "pixel without eligible observation is not nodata")
        fail(~none & (i[1] != n), "number of observations is wrong")
        ok = ~none
        names = ["DOY", "YEAR", "CLOUD", "HAZE", "CORREL", "VZEN"]
        if cfg["SELECT"] == "TRUE":
            # the acquisition named by the composite information
            named = np.full(npx, -1)
            for t, (_, y, doy) in enumerate(DATES):
                named[(i[2] == doy) & (i[3] == y)] = t
            fail(ok & (named < 0), "information names no acquisition")
            m = np.maximum(named, 0)
            px = np.arange(npx)
            fail(ok & ~el[m, px], "selected acquisition is not eligible")
            fail(ok & (b.T != sp[m, px]).any(1), "spectra are not those of the acquisition named")
            best = np.where(el, tot_, -1).max(0)
            fail(ok & (tot_[m, px] < best - eps), "an eligible acquisition has a higher score")
            fail(ok & (np.abs(s[0] - 1e4 * tot_[m, px]) > 1.01 + 1e4 * eps), "total score differs")
            for j, q in enumerate(names):
                fail(ok & ~water & (np.abs(s[j + 1] - 1e4 * sc[q][m, px]) > 1.01 + 1e4 * eps), f"score {q} differs")
            g = [1, 0, 2][0 if cfg["DOY_SCORE"][1] == max(cfg["DOY_SCORE"]) else 1 if cfg["DOY_SCORE"][0] > cfg["DOY_SCORE"][2] else 2]
            diff = np.array([y * 365 + doy - q[g] for (_, y, doy), q in zip(DATES, closest(cfg))])
            fail(ok & (i[4] != diff[m]), "difference to the target day is wrong")
            qai = np.array([1 if q is None else q[3] * WATER for q in SYM])[dig][m, px]
            fail(ok & (i[0] != qai), "quality flags are not those of the acquisition")
        else:
            ws = (tot_ * el).sum(0)
            want = (sp * (tot_ * el)[..., None]).sum(0) / np.where(ws > 0, ws, 1)[:, None]
            tol = 1.01 + (0 if le is None else 0.2 * n / np.maximum(ws, 1e-4))
            fail(ok & (np.abs(b.T - want).max(1) > tol), "spectra are not the weighted average")
            fail(ok & (np.abs(s[0] - 1e4 * ws / np.maximum(n, 1)) > 1.01 + 1e4 * eps), "total score differs")
            for j, q in enumerate(names):
                fail(ok & ~water & (np.abs(s[j + 1] - 1e4 * (sc[q] * el).sum(0) / np.maximum(n, 1)) > 1.01 + 1e4 * eps), f"score {q} differs")
        out = [(p, bad[p]) for p in range(npx) if bad[p]]
        return [(t, dig[:, p].tolist(), int(n[p]), i[:, p].tolist(), s[:, p].tolist(), b[:, p].tolist(), np.round(tot_[:, p], 4).tolist()) for p, t in out]
    for cfg, out in zip(cfgs, fl.pmap(judge, cfgs)):
        tot += dig.shape[1] * 19
        for t, h, n, i, s, b, sc in out[:1]:
            c.violation(f"{cfg}: {t}; history {h}: information {i}, scores {s}, spectra {b}, expected {n} eligible, total scores {sc}", {"cfg": cfg, "history": h, "what": t})
    c.sample(f"history {dig[:, 12345].tolist()} with {cfgs[7]}")
    c.coverage = dict(states=tr.states, transitions=tr.transitions * len(cfgs), traces_validated_against_impl=len(cfgs) * tr.n, configurations=len(cfgs), compared_values=tot, exhaustive=True,
                      rule="state = prefix of a history of six acquisitions, each missing, clear, near clouds, hazy, intermediate or water; transition = one acquisition appended, under each configuration; every full history is one pixel of a real run")


vlib.main(check, "H11", "model_checking")
