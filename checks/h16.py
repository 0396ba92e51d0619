#!/usr/bin/python3
"""H16: option combinations of all submodules on degenerate and ordinary input, with the address-sanitised program."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, mods, vlib

N, R = 4, 75
TF = ("TRUE", "FALSE")
TSA_OUT = "TSS RMS NRT TSI PYP STM FBY FBQ FBM FBW FBD TRY TRQ TRM TRW TRD CAY CAQ CAM CAW CAD PCT POL TRO CAO".split()
METHODS = ("NONE", "LINEAR", "MOVING", "RBF", "HARMONIC")


def subsets(names):
    for n in range(1, len(names) + 1):
        yield from itertools.combinations(names, n)


def singles_pairs(names):
    yield from ((a,) for a in names)
    yield from itertools.combinations(names, 2)


def cubes(c):
    """name: (cube, number of tiles)"""
    o = {}
    o["normal"] = mods.level2(os.path.join(c.scratch, "normal"), N, N, res=R)
    o["single"] = mods.level2(os.path.join(c.scratch, "single"), N, N, dates=mods.DATES[4:5], res=R)
    o["absent"] = fl.Cube(os.path.join(c.scratch, "absent"), N, N, R)
    q = mods.level2(os.path.join(c.scratch, "void"), N, N, dates=mods.DATES[::2], res=R)
    for d in mods.DATES[::2]:
        q.ard(0, 0, d, "LND08", np.full((6, N, N), -9999), np.ones((N, N)))
    q.put(0, 0, "FTR.tif", np.full((3, N, N), -9999, np.int16), -9999)
    o["void"] = q
    for q in o.values():
        q.put(0, 0, "M.tif", np.zeros((N, N), np.uint8), 255) if q.d.endswith("normal") else None
    return o


def jobs(thorough):
    """(module, input, settings)"""
    def off(names):
        return {f"OUTPUT_{k}": "FALSE" for k in names}

    def tsa(outs, **kw):
        d = off(TSA_OUT)
        d.update({f"OUTPUT_{k}": "TRUE" for k in outs}, INDEX="NDVI", FILE_PYTHON="@udf", PYTHON_TYPE="CHUNK", STM="AVG STD Q25 MIN MAX NUM IQR RNG SKW KRT", HARMONIC_FIT_RANGE="2017-01-01 2017-12-31",
                 POL="VSS VPS VES VSA RMR IGS DSS", INT_DAY=30)
        d.update(kw)
        return d
    for o in TSA_OUT:                                   # every product alone: method x input
        for m, i in itertools.product(METHODS, ("normal", "single", "void", "masked", "absent")):
            if i == "absent" and m != "LINEAR":
                continue
            yield "TSA", i, tsa([o], INTERPOLATE=m)
    for p in itertools.combinations(TSA_OUT, 2):        # every pair
        yield "TSA", "normal", tsa(p, INTERPOLATE="LINEAR" if "NRT" not in p and "RMS" not in p else "HARMONIC")
        if thorough:
            for m, i in itertools.product(METHODS, ("normal", "single")):
                yield "TSA", i, tsa(p, INTERPOLATE=m)
    every = TSA_OUT
    for fold in "MIN Q10 Q25 Q50 Q75 Q90 MAX AVG STD RNG IQR SKW KRT NUM".split():
        yield "TSA", "normal", tsa(every, CHUNK_SIZE=f"{N*R} {N*R}", INT_DAY=60, INTERPOLATE="HARMONIC", FOLD_TYPE=fold)
    for a in singles_pairs("MIN Q01 Q50 Q99 MAX AVG STD RNG IQR SKW KRT NUM".split()):
        yield "TSA", "normal", tsa(["STM"], STM=" ".join(a))
    for a, b, e, f in itertools.product(("NONE", "NORMALIZE", "CENTER"), repeat=4):
        yield "TSA", "normal", tsa(every, CHUNK_SIZE=f"{N*R} {N*R}", INT_DAY=60, INTERPOLATE="LINEAR" if a != "CENTER" else "HARMONIC", STANDARDIZE_TSS=a, STANDARDIZE_TSI=b, STANDARDIZE_FOLD=e, STANDARDIZE_POL=f, INDEX="NDVI NIR" if a == b else "NDVI")
    for t, p, ad, ht, hm in itertools.product(("LEFT", "TWO", "RIGHT"), TF, TF, TF, (1, 2, 3)):
        yield "TSA", "normal", tsa(every, CHUNK_SIZE=f"{N*R} {N*R}", INT_DAY=60, INTERPOLATE="HARMONIC", TREND_TAIL=t, CHANGE_PENALTY=p, POL_ADAPTIVE=ad, HARMONIC_TREND=ht, HARMONIC_MODES=hm)
    for pol in "DEM DLM DPS DSS DMS DES DEV DAV DLV LTS LGS LGV VEM VSS VPS VMS VES VEV VAV VLV VGA VBL VGM VGV VSA VPA IST IBL IBT IGS IRR IFR RAR RAF RMR RMF".split():
        yield "TSA", "normal", tsa(["POL", "TRO", "CAO"], INTERPOLATE="RBF", POL=pol)
    for day, fmt, ex, sub in itertools.product((1, 16, 365, 3000), ("GTiff", "ENVI", "COG"), TF, TF):
        yield "TSA", "normal", tsa(["TSI", "TSS", "STM", "FBY"] if day > 1 else ["TSI"], INTERPOLATE="LINEAR", INT_DAY=day, OUTPUT_FORMAT=fmt, OUTPUT_EXPLODE=ex, OUTPUT_SUBFOLDERS=sub)
    for m, a, b, r in itertools.product(METHODS if thorough else METHODS[:2], (0, 1, 3), (0, 1, 3), ("1 365", "300 60", "100 100")):
        yield "TSA", "normal", tsa(["TSS", "TSI", "STM", "FBM"], INTERPOLATE=m, ABOVE_NOISE=a, BELOW_NOISE=b, DOY_RANGE=r)
    for idx in singles_pairs("BLUE GREEN RED NIR SWIR1 SWIR2 NDVI EVI NBR TC-BRIGHT TC-DI SAVI NDTI CCI".split()):
        yield "TSA", "normal", tsa(["TSS", "STM"], INDEX=" ".join(idx))
    L3 = ("BAP", "INF", "SCR", "OVV")
    for s, sel, comb, i in itertools.product(list(subsets(L3)), TF, ("ADDITIVE", "MULTIPLICATIVE"), ("normal", "single", "void", "masked")):
        yield "LEVEL3", i, dict(off(L3), **{f"OUTPUT_{k}": "TRUE" for k in s}, SELECT=sel, COMBINE_SCORES=comb, SCORE_CORREL_WEIGHT=0.5)
    for s in ("0.01 0.99 0.01", "0.99 0.5 0.01", "0.01 0.5 0.99", "0.5 0.5 0.5", "0 1 0", "1 1 0", "0 0.5 0"):
        for o, yn, d in itertools.product(TF, (0, 2), ("60 150 300", "300 60 120", "60 300 20", "100 100 100")):
            yield "LEVEL3", "normal", dict(DOY_SCORE=s, OFF_SEASON=o, YEAR_NUM=yn, DOY_STATIC=d)
    for s, i, m in itertools.product(singles_pairs("NUM MIN Q01 Q50 MAX AVG STD RNG IQR SKW KRT".split()), ("normal", "single", "void", "masked"), (6,)):
        if i == "normal" or len(s) == 1:
            yield "CSO", i, dict(CSO=" ".join(s), MONTH_STEP=m)
    for m, ex in itertools.product((1, 2, 3, 4, 6, 12), TF):
        yield "CSO", "normal", dict(MONTH_STEP=m, OUTPUT_EXPLODE=ex)
    ML = ("MLP", "MLI", "MLU", "RFP", "RFM")
    for meth, s, x, i in itertools.product(("RFC", "SVR", "SVC", "RFR"), list(subsets(ML)), TF, ("normal", "void")):
        if i == "void" and x == "FALSE" and not thorough:
            continue
        yield "RFC", i, dict(off(ML), **{f"OUTPUT_{k}": "TRUE" for k in s}, ML_METHOD=meth, FEATURE_EXCLUDE=x, FILE_MODEL={"R": "rfc0.xml rfc1.xml", "S": "svr0.xml svr1.xml"}[meth[0]] if meth[2] != "R" or meth[0] == "S" else "rfr0.xml rfr1.xml")
    for s, r, i, x in itertools.product(list(singles_pairs("DIL ERO OPN CLS GRD BHT THT".split())), (R, 2 * R), ("normal", "void"), TF):
        if i == "normal" and x == "TRUE" or len(s) == 1:
            yield "TXT", i, dict(TXT=" ".join(s), TXT_RADIUS=r, FEATURE_EXCLUDE=x)
    for s, i in itertools.product(list(singles_pairs("UCI MPA FDI EDD NBR EMS AVG GEO STD MAX ARE".split())), ("normal", "void")):
        for t, sh, al in itertools.product(("GT", "LT", "EQ"), ("CIRCLE", "SQUARE"), TF):
            if i == "void" and sh == "SQUARE" and not thorough:
                continue
            if len(s) == 2 and not thorough and (t != "GT" or al == "FALSE" or sh == "SQUARE"):
                continue
            yield "LSM", i, dict(LSM=" ".join(s), LSM_THRESHOLD_TYPE=f"{t} {t} {t}", LSM_THRESHOLD="1500 1700 900", LSM_KERNEL_SHAPE=sh, LSM_ALL_PIXELS=al, LSM_RADIUS=R)
    for x, re_, i, n in itertools.product(TF, TF, ("normal", "void", "masked"), (1, 2)):
        yield "LIB", i, dict(FEATURE_EXCLUDE=x, LIB_RESCALE=re_, FILE_LIBRARY=" ".join(["lib0.txt", "lib1.txt"][:n]))
    for x, pr, i in itertools.product(TF, TF, ("normal", "void", "masked", "absent")):
        yield "SMP", i, dict(FEATURE_EXCLUDE=x, PROJECTED=pr)


def check(c):
    cb = cubes(c)
    aux = mods.models(os.path.join(c.scratch, "aux"))
    mods.models_rfr(aux)
    mods.udf(aux)
    for i in range(2):
        with open(os.path.join(aux, f"lib{i}.txt"), "w") as f:
            f.write("".join(f"{300+50*k+i} {700-30*k} {900+k}\n" for k in range(4)))
    with open(os.path.join(aux, "pts.csv"), "w") as f:
        f.write("".join(f"{fl.ORIGIN[0]+R*k+5} {fl.ORIGIN[1]-R*k-5} {k}\n" for k in range(-2, 6)))
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=86:malloc_context_size=1:quarantine_size_mb=16:detect_odr_violation=0", "MALLOC_TOP_PAD_": "131072"}
    all_ = list(jobs(c.thorough))
    exe = fl.exe("force-higher-level", "asan")

    def run(j):
        mod, inp, kw = j
        with fl.Work(c) as w:
            kw = {k: v.replace("@udf", os.path.join(aux, "udf.py")) if isinstance(v, str) else v for k, v in kw.items()}
            if inp == "masked":
                kw = dict(kw, DIR_MASK=cb["normal"].d, BASE_MASK="M.tif")
            q = cb["normal" if inp == "masked" else inp]
            kw.setdefault("CHUNK_SIZE", f"{N*R} {N*R//2}")
            p = mods.prm(mod, w, q, aux, **kw)
            p.write(os.path.join(w, "r.prm"))
            r = fl.run([exe, os.path.join(w, "r.prm")], 300, env=env)
            rejected = "Reading parameter file failed" in r.stdout or "Reading aux file failed" in r.stdout
            n = sum(x.endswith((".tif", ".dat", ".csv", ".txt")) for x in fl.outputs(os.path.join(w, "hl")))
            return r, rejected, n
    acc = rej = files = 0
    seen = {}
    res = fl.pmap(run, all_)
    for j, (r, rejected, n) in zip(all_, res):
        files += n
        if r.rc == 0:
            acc += 1
        elif rejected and "Sanitizer" not in r.stdout and r.rc > 0:
            rej += 1
        else:
            m = re.search(r"ERROR: AddressSanitizer: ([\w-]+).*?(#\d+ 0x\w+ in ([\w.]+) /?\S*src/\S+)", r.stdout, re.S)
            what = f"{m.group(1)} in {m.group(3)}" if m else f"exit {r.rc}: {r.stdout[-300:]}"
            k = (j[0], what)
            i = max(r.stdout.find('==ERROR'), 0)
            seen.setdefault(k, []).append((j, r.stdout[i:i+3000] if i else r.stdout[-1500:]))
    for (mod, what), l in seen.items():
        j = l[0][0]
        c.violation(f"{mod} on {j[1]} input with {j[2]}: {what} ({len(l)} configurations)", {"jobs": [x[0] for x in l[:20]], "output": l[0][1]})
    if acc < 0.7 * len(all_):
        raise vlib.ProgramError(f"only {acc} of {len(all_)} configurations accepted")
    c.sample(f"{all_[100]}")
    c.coverage = dict(states=len(set(map(str, all_))), transitions=acc, traces_validated_against_impl=acc + rej, rejected=rej, product_files=files, exhaustive=True,
                      rule="state = one configuration and input; transition = configuration accepted and run to completion")


vlib.main(check, "H16", "model_checking")
