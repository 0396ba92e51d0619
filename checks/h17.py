#!/usr/bin/python3
"""H17: predictions of machine learning models for every combination of feature values, sets of models and products."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np, cv2
import fl, vlib

# -9999 is nodata; the others lie inside, at and beyond the training range
VALUES = [-9999, -300, 0, 100, 350, 600, 850, 1100, 1350, 1600, 1850, 2100, 2350, 2600, 2850, 3100, 3350, 3500, 5000, 10000]


def train(d):
    """forests of few trees (ties are frequent) with different classes, and support vector machines"""
    os.makedirs(d)
    rng = np.random.RandomState(5)
    X = rng.rand(80, 3).astype(np.float32) * 0.35

    def forest(name, y, trees):
        rf = cv2.ml.RTrees_create()
        rf.setTermCriteria((cv2.TERM_CRITERIA_MAX_ITER, trees, 0))
        rf.setActiveVarCount(2)
        rf.train(X, cv2.ml.ROW_SAMPLE, y)
        rf.save(os.path.join(d, name))

    def machine(name, y, typ, gamma):
        sv = cv2.ml.SVM_create()
        sv.setType(typ)
        sv.setKernel(cv2.ml.SVM_RBF)
        sv.setGamma(gamma)
        sv.setC(2)
        sv.setP(0.01)
        sv.train(X, cv2.ml.ROW_SAMPLE, y)
        sv.save(os.path.join(d, name))
    for i in range(4):
        cl = ((X[:, 0] * 7 + X[:, 1] * (5 + i)).astype(int) % 3)
        forest(f"rfc{i}.xml", np.array([2, 5, 9], np.int32)[cl], 4 + i)
        machine(f"svc{i}.xml", np.array([2, 5, 9], np.int32)[cl], cv2.ml.SVM_C_SVC, 20 + 9 * i)
        y = (np.sin(X[:, 0] * 9) + X[:, 2] * (1 + i * 0.3)).astype(np.float32)
        forest(f"rfr{i}.xml", y, 4 + i)
        machine(f"svr{i}.xml", y, cv2.ml.SVM_EPS_SVR, 3 + i)
    forest("rfc9.xml", np.array([1, 3, 4, 7, 8], np.int32)[(X.sum(1) * 11).astype(int) % 5], 6)


def check(c):
    aux = os.path.join(c.scratch, "aux")
    train(aux)
    V = np.array(list(itertools.product(VALUES, repeat=3)), np.int16)
    ny, nx = 80, 100
    cube = fl.Cube(os.path.join(c.scratch, "l2"), nx, ny)
    cube.put(0, 0, "FTR.tif", V.T.reshape(3, ny, nx).copy(), -9999)
    S = (V / 10000.0).astype(np.float32)
    has = (V == -9999).any(1)
    pred, votes = {}, {}
    for f in sorted(os.listdir(aux)):
        if f[0] == "s":
            pred[f] = cv2.ml.SVM_load(os.path.join(aux, f)).predict(S)[1][:, 0].astype(np.float64)
        else:
            m = cv2.ml.RTrees_load(os.path.join(aux, f))
            pred[f] = m.predict(S)[1][:, 0].astype(np.float64)
            if f[:3] == "rfc":
                v = m.getVotes(S, 0)
                votes[f] = (v[0], v[1:])
    jobs = []
    for method in ("RFC", "SVC", "RFR", "SVR"):
        l = method.lower()
        sets = [[[l + "0"]], [[l + "0", l + "1"]], [[l + "3", l + "1", l + "0"]], [[l + f"{i}" for i in range(4)]],
                [[l + "0", l + "1", l + "2"], [l + "3"], [l + "2", l + "0"]]]
        if method == "RFC":
            sets += [[["rfc9"]], [["rfc0"], ["rfc9"], ["rfc1", "rfc2"]], [["rfc9"], ["rfc1", "rfc2", "rfc3"]]]
        outs = ["MLP", "MLI", "MLU"] + (["RFP", "RFM"] if method == "RFC" else [])
        convs = (0, 0.02, 0.2) if method[2] == "R" else (0,)
        for s, conv, ex in itertools.product(sets, convs, ("TRUE", "FALSE")):
            jobs.append((method, s, conv, ex, 1000, outs))
        for n in range(1, len(outs)):
            for o in itertools.combinations(outs, n):
                jobs.append((method, sets[4], convs[-1], "TRUE", 1000, list(o)))
                jobs.append((method, sets[-1], convs[0], "TRUE", 1000, list(o)))
        for scale in (1, 100, 1000000):
            jobs.append((method, sets[4], convs[-1], "TRUE", scale, outs))

    def run(j):
        method, sets, conv, ex, scale, outs = j
        with fl.Work(c) as w:
            p = fl.base("ML", w, cube, INPUT_FEATURE="FTR.tif 1 2 3", FEATURE_EXCLUDE=ex, DIR_MODEL=aux, ML_METHOD=method, ML_CONVERGENCE=conv, ML_SCALE=scale,
                        FILE_MODEL="\nFILE_MODEL = ".join(" ".join(m + ".xml" for m in s) for s in sets), **{f"OUTPUT_{o}": "TRUE" for o in outs})
            try:
                r, o = fl.products(w, p)
            except fl.Failed as e:
                return f"program failed: {e}", 0
            for k in o:
                b = fl.band_names(os.path.join(w, "hl", k))
                if [x for x, _ in itertools.groupby(b)] != [m[0] for m in sets]:
                    return f"bands of {k} are named {b}", 0
        got = {k.split("_")[-1][:-4]: v.reshape(-1, ny * nx).astype(int) for k, v in o.items()}
        if sorted(got) != sorted(outs):
            return f"products {sorted(got)}", 0
        off = has if ex == "TRUE" else np.zeros(len(V), bool)
        n, rfp = 0, []

        def compare(name, band, lo, hi, skip=None):
            """lo <= value <= hi; off pixels are nodata"""
            nonlocal n
            a = got[name][band]
            bad = np.where(off, a != -9999, (a < lo) | (a > hi))
            if skip is not None:
                bad &= ~skip
            n += len(a)
            if bad.any():
                i = np.argwhere(bad)[0][0]
                return f"{name} of model set {band + 1} is {a[i]} instead of {lo[i]:.0f} for the features {V[i].tolist()} ({bad.sum()} combinations)"
        for s, ms in enumerate(sets):
            P = np.array([pred[m + ".xml"] for m in ms])
            used = np.full(len(V), len(ms))
            doubt = np.zeros(len(V), bool)
            t = []
            if method[2] == "R":
                open_ = np.ones(len(V), bool)
                for m in range(2, len(ms)):
                    d = np.abs(P[:m + 1].mean(0) - P[:m].mean(0))
                    doubt |= open_ & (np.abs(d - conv) < 1e-9) & (conv > 0)
                    stop = open_ & (d < conv)
                    used[stop] = m + 1
                    open_ &= ~stop
                mean = np.array([P[:used[i], i].mean() for i in range(len(V))])
                std = np.array([P[:used[i], i].std(ddof=1) if used[i] > 1 else 0 for i in range(len(V))])
                e = np.clip(mean * scale, -32768, 32767)
                if "MLP" in outs:
                    t.append(compare("MLP", s, np.trunc(e - 2e-3), np.trunc(e + 2e-3), doubt))
                if "MLU" in outs and len(ms) > 1:
                    e = np.clip(std * 10000, 0, 32767)
                    t.append(compare("MLU", s, np.trunc(e - 2e-2), np.trunc(e + 2e-2), doubt))
            else:
                if "MLP" in outs:
                    cnt = np.array([(P == P[k]).sum(0) for k in range(len(ms))])
                    a = got["MLP"][s]
                    # any of the classes most models voted for
                    best = np.array([[a[i] in P[:, i][cnt[:, i] == cnt[:, i].max()]] for i in range(len(V))])[:, 0]
                    t.append(compare("MLP", s, np.where(best, a, P[0]), np.where(best, a, P[0])))
                if votes and ("RFP" in outs or "RFM" in outs):
                    v = sum(votes[m + ".xml"][1].astype(float) for m in ms)
                    v = v / v.sum(1, keepdims=True) * 10000
                    rfp.append(v)
                    if "RFM" in outs:
                        q = np.sort(v, 1)
                        d = q[:, -1] - q[:, -2]
                        t.append(compare("RFM", s, np.floor(d) - 1, np.ceil(d) + 1))
            if "MLI" in outs:
                t.append(compare("MLI", s, used, used, doubt))
            t = [x for x in t if x]
            if t:
                return t[0], n
        if "RFP" in outs:
            v = np.concatenate(rfp, 1)
            if got["RFP"].shape[0] != v.shape[1]:
                return f"{got['RFP'].shape[0]} bands of probabilities instead of {v.shape[1]}", n
            for b in range(v.shape[1]):
                t = compare("RFP", b, np.trunc(v[:, b] - 1e-6), np.trunc(v[:, b] + 1e-6))
                if t:
                    return t, n
        return None, n
    tot = 0
    for j, (bad, n) in zip(jobs, fl.pmap(run, jobs)):
        tot += n
        if bad:
            c.violation(f"{j[0]} models {j[1]}, convergence {j[2]}, exclude {j[3]}, scale {j[4]}, products {j[5]}: {bad}", {"job": j})
    c.sample(f"features {V[4321].tolist()}: {[(k, float(v[4321])) for k, v in list(pred.items())[:3]]}")
    c.coverage = dict(states=len(V), transitions=tot, traces_validated_against_impl=len(jobs), exhaustive=True,
                      rule="state = combination of feature values; transition = value of a product for it compared in one configuration of models and products; trace = one program run")


vlib.main(check, "H17", "model_checking")
