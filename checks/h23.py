#!/usr/bin/python3
"""H23: what user-defined code receives, and what becomes of the values it returns."""
import datetime, itertools, os, subprocess, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib

CODE = '''
import zlib
import numpy as np
REVERSE = %d
def txt(s):
    return s.decode() if isinstance(s, bytes) else str(s)
def labels(dates, sensors, bandnames):
    n = ["%%d|%%s|%%s" %% (d, txt(s), txt(b)) for d, s in zip(dates, sensors) for b in bandnames]
    return n[::-1] if REVERSE else n
def code(dates, sensors, bandnames, nodata):
    return zlib.crc32(repr((labels(dates, sensors, bandnames), int(nodata))).encode()) %% 30000
def forcepy_init(dates, sensors, bandnames):
    return labels(dates, sensors, bandnames) + ["code%%d" %% code(dates, sensors, bandnames, -9999), "processes", "untouched"]
def fill(a, o, dates, sensors, bandnames, nodata, nproc):
    n = a.shape[0] * a.shape[1]
    v = a.reshape((n,) + a.shape[2:])
    o[:n] = v[::-1] if REVERSE else v
    o[n] = code(dates, sensors, bandnames, nodata)
    o[n + 1] = nproc
def forcepy_chunk(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    fill(inarray, outarray, dates, sensors, bandnames, nodata, nproc)
def forcepy_pixel(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    fill(inarray, outarray.reshape(-1, 1, 1), dates, sensors, bandnames, nodata, nproc)
'''
RCODE = '''
REVERSE <- %d
labels_ <- function(dates, sensors, bandnames){
  n <- c(outer(bandnames, paste(as.integer(dates), sensors, sep="|"), function(b, d) paste(d, b, sep="|")))
  if (REVERSE) rev(n) else n
}
force_rstats_init <- function(dates, sensors, bandnames){
  c(labels_(dates, sensors, bandnames), "row", "column", "processes", "untouched")
}
force_rstats_pixel <- function(inarray, dates, sensors, bandnames, nproc){
  stopifnot(nrow(inarray) == length(dates), ncol(inarray) == length(bandnames))
  v <- c(t(inarray))
  c(if (REVERSE) rev(v) else v, 0, 0, nproc, NA)
}
force_rstats_chunk <- function(inarray, dates, sensors, bandnames, nproc){
  d <- dim(inarray)
  stopifnot(d[1] == length(dates), d[2] == length(bandnames))
  n <- d[1] * d[2]
  o <- array(NA, c(n + 4, d[3], d[4]))
  for (t in 1:d[1]) for (b in 1:d[2]){
    k <- (t - 1) * d[2] + b
    o[if (REVERSE) n + 1 - k else k,,] <- inarray[t,b,,]
  }
  for (i in 1:d[3]) o[n + 1,i,] <- i
  for (i in 1:d[4]) o[n + 2,,i] <- i
  o[n + 3,,] <- nproc
  o
}
'''
L8 = ["BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2"]
S2 = ["BLUE", "GREEN", "RED", "REDEDGE1", "REDEDGE2", "REDEDGE3", "BROADNIR", "NIR", "SWIR1", "SWIR2"]
ACQ = [("20180110", "LND08"), ("20180110", "LND07"), ("20180305", "SEN2A"), ("20180501", "LND08"), ("20180502", "LND07"), ("20180815", "SEN2A")]
AUX = ("VZN", "HOT", "DST")
N = 8


def epoch(d):
    return (datetime.date(int(d[:4]), int(d[4:6]), int(d[6:])) - datetime.date(1970, 1, 1)).days


def check(c):
    codes = []
    for r in (0, 1):
        codes.append(os.path.join(c.scratch, f"udf{r}.py"))
        with open(codes[-1], "w") as f:
            f.write(CODE % r)
        with open(codes[-1][:-3] + ".r", "w") as f:
            f.write(RCODE % r)
    y, x = np.mgrid[0:N, 0:N]
    px = y * N + x
    miss = (px * 37 + 21) % 64                 # every combination of missing acquisitions, one per pixel
    boa = {}
    cubes = {}
    for n in range(1, len(ACQ) + 1):
        for sub in itertools.combinations(range(len(ACQ)), n):
            q = cubes[sub] = fl.Cube(os.path.join(c.scratch, "l2-" + "".join(map(str, sub))), N, N)
            for t in sub:
                d, s = ACQ[t]
                b = S2 if s == "SEN2A" else L8
                boa[t] = np.stack([(px * 61 + i * 700 + t * 1009) % 9001 + 100 for i in range(len(b))]).astype(int)
                q.ard(0, 0, d, s, boa[t], np.where(miss >> t & 1, 1, 0))
                for k, a in enumerate(AUX):
                    q.put(0, 0, f"{d}_LEVEL2_{s}_{a}.tif", ((px * 17 + k * 41 + t * 101) % 3000).astype(np.int16), -9999)
            q.put(0, 0, "M.tif", ((x + 2 * y) % 3 > 0).astype(np.uint8), 255)
    full = tuple(range(len(ACQ)))
    jobs = [("UDF", s, dict(PYTHON_TYPE=k), r) for s in cubes for k in ("CHUNK", "PIXEL") for r in (0, 1)]
    lay = [dict(CHUNK_SIZE=f"{bx} {by}", STREAMING=st, NTHREAD_COMPUTE=n) for bx, by in ((80, 80), (80, 40), (80, 10), (40, 40), (20, 80))
           for st in ("TRUE", "FALSE") for n in (1, 3)]
    jobs += [("UDF", full, dict(PYTHON_TYPE=k, **l), 0) for k in ("CHUNK", "PIXEL") for l in lay]
    jobs += [("UDF", s, dict(PYTHON_TYPE=k, REQUIRE_AUX_PRODUCTS=" ".join(a)), 0) for s in (full, (0, 2, 3)) for k in ("CHUNK", "PIXEL")
             for n in (1, 2, 3) for a in itertools.permutations(AUX, n)]
    jobs += [("UDF", full, dict(PYTHON_TYPE=k, DIR_MASK=cubes[full].d, BASE_MASK="M.tif", **l), r) for k in ("CHUNK", "PIXEL") for r in (0, 1) for l in lay[:8]]
    jobs += [("TSA", s, dict(PYTHON_TYPE=k, INTERPOLATE=m, INT_DAY=n, INDEX=ix), r) for s in (full, (1,), (0, 3), (2, 3, 4, 5)) for k in ("CHUNK", "PIXEL")
             for m, n in (("NONE", 16), ("LINEAR", 16), ("LINEAR", 50), ("MOVING", 30)) for ix in ("NIR", "NDVI RED", "RED NDVI SWIR2") for r in (0, 1)]
    jobs += [("TSA", full, dict(PYTHON_TYPE=k, INTERPOLATE="LINEAR", INT_DAY=20, INDEX="RED NIR", **l), 0) for k in ("CHUNK", "PIXEL") for l in lay]
    try:
        home = subprocess.run(["R", "RHOME"], stdout=subprocess.PIPE, check=True, text=True).stdout.strip()
    except (OSError, subprocess.CalledProcessError):
        home = None
    if home:                                   # pixel by pixel with one thread only, others need a package that is not installed
        rj = [j for j in jobs if j[2]["PYTHON_TYPE"] == "CHUNK" or j[2].get("NTHREAD_COMPUTE", 1) == 1]
        rj = [j for j in rj if j[2].get("STREAMING") != "TRUE" and not (j[0] == "TSA" and j[3])]
        jobs += [(m, s, dict({k: v for k, v in kw.items() if k != "PYTHON_TYPE"}, RSTATS_TYPE=kw["PYTHON_TYPE"]), r) for m, s, kw, r in rj]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, compared_values=0, runs=0)

    def udf(sub, kw, prod, rev):
        """expected (label, values) in the order the code receives them; acquisitions of one day in any order"""
        aux = kw.get("REQUIRE_AUX_PRODUCTS", "NULL").replace("NULL", "").split()
        names = L8 + aux
        e = {}
        for t in sub:
            d, s = ACQ[t]
            valid = miss >> t & 1 == 0
            if "DIR_MASK" in kw:
                valid = valid & ((x + 2 * y) % 3 > 0)
            for b in names:
                if b in L8:
                    v = boa[t][(S2 if s == "SEN2A" else L8).index(b)]
                else:
                    v = (px * 17 + AUX.index(b) * 41 + t * 101) % 3000
                e[f"{epoch(d)}|{s}|{b}"] = np.where(valid, v, -9999)
        return e, [b for _ in sub for b in names], sorted(epoch(ACQ[t][0]) for t in sub for _ in names)

    def one(job):
        mod, sub, kw, rev = job
        with fl.Work(c) as w:
            kw = dict(dict(SENSORS="LND07 LND08 SEN2A", TARGET_SENSOR="LNDLG", SCREEN_QAI="NODATA", DATE_RANGE="2018-01-01 2018-12-31"), **kw)
            rstats = "RSTATS_TYPE" in kw
            kw.update(dict(FILE_RSTATS=codes[rev][:-3] + ".r", OUTPUT_RSP="TRUE") if rstats else dict(FILE_PYTHON=codes[rev], OUTPUT_PYP="TRUE"))
            if mod == "TSA":
                kw["OUTPUT_TSI"] = "TRUE"
            r = fl.hl(fl.base(mod, w, cubes[sub], ABOVE_NOISE=0, BELOW_NOISE=0, **kw), os.path.join(w, "run.prm"), env=dict(R_HOME=home or ""))
            if r.rc:
                return f"exit code {r.rc}: {r.stdout[-400:]}", 0
            out = {k: (fl.band_names(p), fl.read_tif(p).astype(int)) for k, p in fl.outputs(os.path.join(w, "hl")).items() if k.endswith(".tif")}
        pyp = {k: v for k, v in out.items() if k.endswith("_RSP.tif" if rstats else "_PYP.tif")}
        nx = 4 if rstats else 3
        idx = kw["INDEX"].split() if mod == "TSA" else [None]
        if len(pyp) != len(idx):
            return f"products {sorted(out)}", 0
        nv = 0
        for ix in idx:
            if mod == "UDF":
                (names, a), = pyp.values()
                e, bands, days = udf(sub, kw, out, rev)
            else:
                key = [k for k in pyp if f"_{ix}_" in k]
                ref = [k for k in out if f"_{ix}_TSI.tif" in k]
                if len(key) != 1 or len(ref) != 1:
                    return f"products {sorted(out)}", 0
                names, a = pyp[key[0]]
                days = [epoch(n[:8]) for n in out[ref[0]][0]]
                e = names[:-nx][::-1] if rev else names[:-nx]
                told = [l.split("|")[1] for l in e]
                if kw["INTERPOLATE"] != "NONE":
                    told = ["BLEND"] * len(days)
                e = {f"{d}|{n}|{ix}": v for d, n, v in zip(days, told, out[ref[0]][1])}
                if kw["INTERPOLATE"] == "NONE" and sorted(told) != sorted(ACQ[t][1] for t in sub):
                    return f"sensors {told}", 0
                bands = [ix] * len(e)
            if names[-1] != "untouched" or names[-2] != "processes" or len(names) != len(e) + nx:
                return f"{len(names)} bands {names[:4]}...{names[-3:]}, {len(e) + nx} expected", 0
            lab = names[:-nx][::-1] if rev else names[:-nx]
            val = a[:-nx][::-1] if rev else a[:-nx]
            if sorted(lab) != sorted(e):
                return f"the code was told {sorted(set(lab) - set(e))[:3]} and not {sorted(set(e) - set(lab))[:3]}", 0
            if [l.split("|")[2] for l in lab] != bands or [int(l.split("|")[0]) for l in lab] != days:
                return f"order of dates or bands: {lab[:8]}", 0
            for l, v in zip(lab, val):
                if (v != e[l]).any():
                    yy, xx = np.argwhere(v != e[l])[0]
                    return f"{l}, row {yy} column {xx}: the code received {v[yy, xx]} instead of {e[l][yy, xx]} ({(v != e[l]).sum()} pixels)", 0
            kind = kw["RSTATS_TYPE" if rstats else "PYTHON_TYPE"]
            if rstats and kind == "CHUNK":
                bx, by = (int(v) // 10 for v in kw.get("CHUNK_SIZE", "80 80").split())
                if (a[-4] != y % by + 1).any() or (a[-3] != x % bx + 1).any():
                    return f"rows {a[-4].tolist()} and columns {a[-3].tolist()} of the blocks are mixed up", 0
            crc = zlib.crc32(repr((names[:-3], -9999)).encode()) % 30000
            if not rstats and (names[-3] != f"code{crc}" or (a[-3] != crc).any()):
                return "the labels at initialisation, during processing and in the product differ", 0
            proc = np.full((N, N), kw.get("NTHREAD_COMPUTE", 1) if kind == "CHUNK" else 1)
            if rstats and kind == "PIXEL" and "DIR_MASK" in kw:      # not called for masked pixels
                proc[(x + 2 * y) % 3 == 0] = -9999
            if (a[-2] != proc).any():
                return f"number of processes {a[-2].min()}", 0
            if (a[-1] != -9999).any():
                return "values the code did not set are not nodata", 0
            nv += a.size
        return None, nv

    for job, (bad, nv) in zip(jobs, fl.pmap(one, jobs)):
        cov["runs"] += 1
        cov["transitions"] += len(job[1]) * N * N
        cov["traces_validated_against_impl"] += N * N
        cov["compared_values"] += nv
        if bad:
            c.violation(f"{job[0]} {job[2]}, acquisitions {[ACQ[t] for t in job[1]]}{', reversed output' if job[3] else ''}: {bad}",
                        {"submodule": job[0], "acquisitions": [ACQ[t] for t in job[1]], "parameters": job[2], "reversed": job[3], "what": bad})
    cov["states"] = len({(j[0], s, str(j[2]), j[3], tuple(int(miss.flat[i]) >> t & 1 for t in s)) for j in jobs for s in [j[1]] for i in range(N * N)})
    c.sample(f"{len(cubes)} sets of acquisitions, {len(jobs)} runs")
    c.coverage = dict(cov, r_code=bool(home), exhaustive=True, rule="state = submodule, options, set of acquisitions and which of them are missing at a pixel; every one is processed by the real program and user code")


vlib.main(check, "H23", "model_checking")
