#!/usr/bin/python3
"""H13: spectral indices over enumerated band values, alone, in all ordered pairs, all together, for several sensors."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib

L8 = ["BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2"]
S2 = ["BLUE", "GREEN", "RED", "REDEDGE1", "REDEDGE2", "REDEDGE3", "BROADNIR", "NIR", "SWIR1", "SWIR2"]
ND = {"NDVI": ("NIR", "RED"), "NBR": ("NIR", "SWIR2"), "NDTI": ("SWIR1", "SWIR2"), "NDBI": ("SWIR1", "NIR"), "NDWI": ("GREEN", "NIR"),
      "MNDWI": ("GREEN", "SWIR1"), "NDMI": ("NIR", "SWIR1"), "NDSI": ("GREEN", "SWIR1"), "CCI": ("GREEN", "RED"),
      "NDRE1": ("REDEDGE2", "REDEDGE1"), "NDRE2": ("REDEDGE3", "REDEDGE1"),
      "NDVIre1": ("BROADNIR", "REDEDGE1"), "NDVIre2": ("BROADNIR", "REDEDGE2"), "NDVIre3": ("BROADNIR", "REDEDGE3"),
      "NDVIre1n": ("NIR", "REDEDGE1"), "NDVIre2n": ("NIR", "REDEDGE2"), "NDVIre3n": ("NIR", "REDEDGE3")}
TC = {"TC-BRIGHT": (0.2043, 0.4158, 0.5524, 0.5741, 0.3124, 0.2303), "TC-GREEN": (-0.1603, -0.2819, -0.4934, 0.7940, -0.0002, -0.1446),
      "TC-WET": (0.0315, 0.2021, 0.3102, 0.1594, -0.6806, -0.6109)}
TC["TC-DI"] = tuple(b - (g + w) for b, g, w in zip(*TC.values()))
RATIO = {"CIre": ("REDEDGE3", "REDEDGE1"), "MSRre": ("BROADNIR", "REDEDGE1"), "MSRren": ("NIR", "REDEDGE1")}
OTHER = {"EVI": ("NIR", "RED", "BLUE"), "ARVI": ("NIR", "RED", "BLUE"), "SAVI": ("NIR", "RED", "BLUE"), "SARVI": ("NIR", "RED", "BLUE"),
         "EVI2": ("NIR", "RED"), "kNDVI": ("NIR", "RED"), "ContRemSWIR": ("SWIR1", "NIR", "SWIR2")}
NEEDS = {**ND, **{k: tuple(L8) for k in TC}, **RATIO, **OTHER, **{b: (b,) for b in S2}}


def value(ix, v):
    """Documented formula; nan = undefined. v: band name -> float array."""
    with np.errstate(all="ignore"):
        if ix in S2:
            return v[ix]
        if ix in ND:
            a, b = (v[x] for x in ND[ix])
            i = (a - b) / (a + b)
            return np.where((a + b == 0) | (np.abs(i) > 1), np.nan, i * 1e4)
        if ix in TC:
            return sum(k * v[b] for k, b in zip(TC[ix], L8))
        if ix == "CIre":
            a, b = (v[x] for x in RATIO[ix])
            return np.where(b == 0, np.nan, (a / b - 1) * 1e3)
        if ix in RATIO:
            a, b = (v[x] for x in RATIO[ix])
            q = np.where(b == 0, np.nan, a / b)
            return np.where(q > -1, (q - 1) / np.sqrt(np.maximum(q + 1, 1e-30)) * 1e4, np.nan)
        n, r = v["NIR"] / 1e4, v["RED"] / 1e4
        if ix == "kNDVI":
            k = np.exp(-(n - r) ** 2 / (2 * (0.5 * (n + r)) ** 2))
            return np.where((n <= 0) | (r <= 0), np.nan, (1 - k) / (1 + k) * 1e4)
        if ix == "EVI2":
            num, den = 2.4 * (n - r), n + r + 1
        elif ix == "ContRemSWIR":
            s1, s2 = v["SWIR1"], v["SWIR2"]
            return s1 - (v["NIR"] * (2.186 - 1.610) + s2 * (1.610 - 0.864)) / (2.186 - 0.864)
        else:
            b = v["BLUE"] / 1e4
            rb = r - (b - r)
            if ix == "EVI":
                num, den = 2.5 * (n - r), n + 6 * r - 7.5 * b + 1
            elif ix == "ARVI":
                num, den = n - rb, n + rb
            elif ix == "SAVI":
                num, den = 1.5 * (n - r), n + r + 0.5
            elif ix == "SARVI":
                num, den = 1.5 * (n - rb), n + rb + 0.5
        return np.where(np.abs(den) < 1e-12, np.nan, num / den * 1e4)


def pixels(alpha, bands):
    """All combinations of values, one per pixel."""
    g = np.array(list(itertools.product(*alpha)), float)
    nx = int(np.ceil(np.sqrt(len(g))))
    ny = -(-len(g) // nx)
    g = np.concatenate([g, g[:nx * ny - len(g)]])
    return g.T.reshape(len(bands), ny, nx), nx, ny


def check(c):
    # alphabets per acquisition: values in general position, zero, negative, bright
    alphas = [lambda b: (0, 300 + 101 * b, 4100 - 73 * b), lambda b: (-250 - b, 40 + 7 * b, 9000 + b)]
    if c.thorough:
        alphas += [lambda b: (1, 2, 10000), lambda b: (-1, 1500 + 11 * b, 16000 - b)]
    dates = ["20180501", "20180620", "20180810", "20181015"]
    big, small = {}, {}
    for s, bands in (("LND08", L8), ("SEN2A", S2)):
        for kind, store in (("big", big), ("small", small)):
            vals = []
            for t, al in enumerate(alphas):
                a = [al(b) if (kind == "big" or b < 4 and t == 0) else al(b)[1:] if t == 0 else (al(b)[1],) if b > 5 else al(b)[:2] for b in range(len(bands))]
                if kind == "big" and len(bands) == 6:
                    a = [x + (2000 + 13 * i,) for i, x in enumerate(a)]
                vals.append(pixels(a, bands))
            nx, ny = max(v[1] for v in vals), max(v[2] for v in vals)
            vals = [np.resize(v[0].reshape(len(bands), -1), (len(bands), v[0][0].size))[:, np.arange(nx * ny) % v[0][0].size].reshape(len(bands), ny, nx) for v in vals]
            cube = fl.Cube(os.path.join(c.scratch, f"{kind}-{s}"), nx, ny)
            for d, v in zip(dates, vals):
                cube.ard(0, 0, d, s, v, (np.arange(nx * ny) % 17 == 3).reshape(ny, nx))
            miss = (np.arange(nx * ny) % 17 == 3).reshape(ny, nx)
            store[s] = (cube, [dict(zip(bands, v)) for v in vals], miss)
    # two sensors in one cube (bands at different positions)
    s8, s2 = small["LND08"], small["SEN2A"]
    mix = fl.Cube(os.path.join(c.scratch, "mix"), 40, 40)
    mixv = {}
    y, x = np.mgrid[0:40, 0:40]
    for k, (d, s, bands) in enumerate([("20180501", "LND08", L8), ("20180501", "SEN2A", S2), ("20180620", "SEN2A", S2), ("20180701", "LND08", L8)]):
        v = np.array([((y * (31 + 2 * b) + x * (17 + 3 * b) + 977 * b + 411 * k) % 4999) - 20 for b in range(len(bands))])
        mix.ard(0, 0, d, s, v, np.zeros((40, 40)))
        mixv[(d, s)] = dict(zip(bands, v.astype(float)))

    jobs = []
    for s, bands in (("LND08", L8), ("SEN2A", S2)):
        av = [i for i in NEEDS if set(NEEDS[i]) <= set(bands)]
        jobs += [(big[s], s, (s,), (i,)) for i in av]
        jobs += [(small[s], s, (s,), p) for p in itertools.permutations(av, 2)]
        jobs += [(small[s], s, (s,), tuple(av)), (small[s], s, (s,), tuple(reversed(av)))]
    av = [i for i in NEEDS if set(NEEDS[i]) <= set(L8)]
    for sub in (("LND08", "SEN2A"), ("SEN2A", "LND08")):
        jobs += [("mix", "LNDLG", sub, (i,)) for i in av] + [("mix", "LNDLG", sub, tuple(av))]
        jobs += [("mix", "LNDLG", sub, p) for p in (itertools.permutations(av, 2) if c.thorough else zip(av, av[1:] + av[:1]))]

    def one(job):
        src, s, sub, inds = job
        with fl.Work(c) as w:
            p = fl.tsa(w, mix if src == "mix" else src[0], SENSORS=" ".join(sub), TARGET_SENSOR="SEN2L" if sub == ("SEN2A",) else "LNDLG",
                       INDEX=" ".join(inds), OUTPUT_TSS="TRUE")
            r, o = fl.products(w, p, must=False)
            if r.rc != 0:
                return f"program failed: {r.stdout[-200:]}", 0
            got = {k.split("_")[-2]: (v, fl.band_names(os.path.join(w, "hl", k))) for k, v in o.items()}
        if sorted(got) != sorted(inds):
            return f"products for {sorted(got)}", 0
        cnt = 0
        for ix in inds:
            a, names = got[ix]
            want = [f"{d}_{t}" for d, t in mixv] if src == "mix" else [f"{d}_{s}" for d in dates[:len(alphas)]]
            if sorted(names) != sorted(want):
                return f"{ix} has bands {names} instead of {want}", cnt
            for n, band in zip(names, a):
                if src == "mix":
                    v, miss = mixv[tuple(n.split("_"))], False
                else:
                    v, miss = src[1][dates.index(n.split("_")[0])], src[2]
                e = value(ix, v)
                fits = np.isnan(e) | (np.abs(e) < 32760)
                e = np.where(miss, np.nan, e)
                # the undefined/defined border of |index| > 1 within rounding, and values beyond 16 bit, are not compared
                ok = np.where(np.isnan(e), band == -9999, np.abs(band - np.nan_to_num(e)) <= 1.01 + np.abs(np.nan_to_num(e)) * 2e-6)
                ok |= ~fits & ~np.broadcast_to(miss, e.shape)
                cnt += int(fits.sum())
                if not ok.all():
                    y, x = np.argwhere(~ok)[0]
                    return (f"{ix} ({n}) of {({b: float(v[b][y, x]) for b in NEEDS[ix]})} is {band[y, x]}, expected {'nodata' if np.isnan(e[y, x]) else round(float(e[y, x]), 2)}"
                            f" ({int((~ok).sum())} pixels)"), cnt
        return None, cnt
    tot = 0
    for job, (bad, n) in zip(jobs, fl.pmap(one, jobs)):
        tot += n
        if bad:
            c.violation(f"SENSORS={' '.join(job[2])} INDEX={' '.join(job[3][:6])}{'...' if len(job[3]) > 6 else ''}: {bad}", {"sensors": job[2], "indices": job[3], "what": bad})
    npx = sum(b[0].nx * b[0].ny * len(alphas) for b in big.values())
    c.sample(f"{jobs[100][1:]}")
    c.coverage = dict(states=npx, transitions=tot, traces_validated_against_impl=len(jobs), indices=len(NEEDS), exhaustive=True,
                      rule="state = one combination of band values; transition = one index evaluated on it by the program; trace = one program run with one set of requested indices and sensors")


vlib.main(check, "H13", "model_checking")
