#!/usr/bin/python3
"""H18: distance to spectral libraries for every combination of feature values, libraries and options."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib

# -9999 is nodata
VALUES = [-9999, -500, -1, 0, 1, 250, 499, 1000, 1500, 2222, 3000, 5000]
ROWS = [1, 2, 3, 4, 5, 8, 9, 17]


def check(c):
    aux = os.path.join(c.scratch, "aux")
    os.makedirs(aux)
    rng = np.random.RandomState(3)
    libs = {}
    for nf in range(1, 6):
        for rows in ROWS:
            a = rng.randint(-300, 4000, (rows, nf)) / np.array([1, 4, 2, 1, 8])[:nf]
            name = f"s{rows}f{nf}.txt"
            sep = [" ", "\t", ",", "  "][rows % 4]
            with open(os.path.join(aux, name), "w") as f:
                for r in a:
                    f.write(sep.join(repr(float(x)) for x in r) + "\n")
            libs[rows, nf] = a
    ny, nx, nb = 108, 192, 5
    V = np.array(list(itertools.product(VALUES, repeat=4)), np.int16)
    V = np.column_stack([V, np.roll(V[:, 0], 7)])
    cube = fl.Cube(os.path.join(c.scratch, "l2"), nx, ny)
    cube.put(0, 0, "FTR.tif", V.T.reshape(nb, ny, nx).copy(), -9999)
    jobs = []
    for nf in range(1, 6):
        order = [list(range(nf)), list(range(nf))[::-1]][:1 + (nf > 1)]
        sets = [(r,) for r in ROWS] + [(2, 5), (5, 2), (17, 8, 3), (3, 17, 9, 8)]
        for fs, s, resc, ex in itertools.product(order, sets, ("FALSE", "TRUE"), ("FALSE", "TRUE")):
            if resc == "TRUE" and 1 in s:       # no spread
                continue
            jobs.append((fs, s, resc, ex))
    wrong = [([0, 1], [(5, 2), (5, 3)]), ([0, 1], [(5, 3)]), ([0, 1, 2], [(5, 2)]), ([0, 1, 2], [(5, 3), (4, 3), (2, 2)])]

    def prm(w, fs, names, resc, ex):
        return fl.base("LIB", w, cube, INPUT_FEATURE="FTR.tif " + " ".join(str(f + 1) for f in fs), FEATURE_EXCLUDE=ex, DIR_LIBRARY=aux, FILE_LIBRARY=" ".join(names), LIB_RESCALE=resc)

    def run(j):
        fs, s, resc, ex = j
        with fl.Work(c) as w:
            try:
                r, o = fl.products(w, prm(w, fs, [f"s{r}f{len(fs)}.txt" for r in s], resc, ex))
            except fl.Failed as e:
                return f"program failed: {e}", 0
        if len(o) != 1:
            return f"products {sorted(o)}", 0
        a = list(o.values())[0].reshape(-1, ny * nx).astype(int)
        if len(a) != len(s) + 1:
            return f"{len(a)} bands for {len(s)} libraries", 0
        F = V[:, fs].astype(float)
        ok = F != -9999
        k = ok.sum(1)
        off = (k == 0) | ((k < len(fs)) & (ex == "TRUE"))
        alls = np.full(len(F), np.inf)
        n = 0
        for b in range(len(s) + 1):
            if b < len(s):
                L = libs[s[b], len(fs)]
                G = F
                if resc == "TRUE":
                    m, sd = L.mean(0), L.std(0, ddof=1)
                    L, G = (L - m) / sd, (F - m) / sd
                d = np.full(len(F), np.inf)
                for row in L:
                    d = np.minimum(d, np.where(ok, np.abs(row - G), 0).sum(1) / np.maximum(k, 1))
                alls = np.minimum(alls, d)
            else:
                d = alls
            e = d * (1000 if resc == "TRUE" else 1)
            big = e > 32766
            bad = np.where(off, a[b] != -9999, ~big & ((a[b] < np.trunc(e - 1e-6)) | (a[b] > np.trunc(e + 1e-6))))
            n += int((~big).sum())
            if bad.any():
                i = np.argwhere(bad)[0][0]
                return (f"distance to {'the closest library' if b == len(s) else f'library {b + 1}'} is {a[b][i]} instead of {'nodata' if off[i] else round(e[i], 3)} "
                        f"for the features {V[i, fs].tolist()} ({bad.sum()} combinations)"), n
        return None, n
    tot = 0
    for j, (bad, n) in zip(jobs, fl.pmap(run, jobs)):
        tot += n
        if bad:
            c.violation(f"features {j[0]}, libraries of {j[1]} samples, rescale {j[2]}, exclude {j[3]}: {bad}", {"job": j})

    def refuse(j):
        with fl.Work(c) as w:
            r, o = fl.products(w, prm(w, j[0], [f"s{a}f{b}.txt" for a, b in j[1]], "FALSE", "TRUE"), must=False)
        return r, o
    for j, (r, o) in zip(wrong, fl.pmap(refuse, wrong)):
        if o or r.rc < 0:
            c.violation(f"{len(j[0])} features and libraries of {[b for _, b in j[1]]} features: exit {r.rc}, products {sorted(o)}", {"wrong": j})
    c.sample(f"features {V[4321].tolist()}")
    c.coverage = dict(states=len(V), transitions=tot, traces_validated_against_impl=len(jobs) + len(wrong), exhaustive=True,
                      rule="state = combination of feature values; transition = value of a product for it compared in one configuration of libraries and options; trace = one program run")


vlib.main(check, "H18", "model_checking")
