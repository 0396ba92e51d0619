#!/usr/bin/python3
"""L03: scenes of one day and sensor that fall on the same tile are merged into one image; none of them loses a pixel,
whatever the order, and processing a scene again changes nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import itertools, shutil
import numpy as np
import vlib, fl, l2

ORD = [10000, 9500, 9000, 8500, 18000, 5100, 14000, 10000, 25000]
FIELDS = [(1, 2), (3, 1), (4, 1), (5, 1), (6, 2), (8, 1), (9, 1), (10, 1), (11, 2), (13, 1), (14, 1)]
PRODS = ("TOA", "QAI", "DST", "HOT", "VZN")
# name: upper left corner, size, variation of the digital numbers
SCENES = {"A": ((500000, 5760990), (80, 90), 0), "B": ((501200, 5760000), (70, 70), 400), "C": ((500300, 5759400), (60, 100), 900)}


def planes(ny, nx, shift):
    y, x = np.mgrid[0:ny, 0:nx]
    dn = np.stack([np.full((ny, nx), v + shift) for v in ORD])
    dn[2] += 12 * (x % 40)
    dn[3] += 12 * (y % 40)
    dn[8] += (x * 5 + y * 3) % 200
    s = shift // 100
    cloud = (y % 23 < 5) & ((x + s) % 29 < 5)
    snow = (y % 31 > 27) & ((x + 3 * s) % 37 > 33)
    for b in (0, 1, 2, 3, 4, 6, 7):
        dn[b][cloud] = 30000 + shift
    dn[1][cloud] = 65535
    for b, v in zip(range(9), [35000, 34000, 33000, 32000, 30000, 5100, 9000, 8000, 22000]):
        dn[b][snow & ~cloud] = v
    dn[5][((x // 7 + y // 5 + s) % 13 == 0)] = 8000
    dn[:, (x * 3 + y + s) % 41 == 0] = 0
    dn[:, x < y // 6] = 0
    return dn


def merge_word(a, b):
    r = np.where((a & 1) & (b & 1), 1, 0)
    for bit, width in FIELDS:
        m = (1 << width) - 1
        r |= np.maximum((a >> bit) & m, (b >> bit) & m) << bit
    return r


def merge(prod, old, now):
    nd = 1 if prod == "QAI" else -9999
    r = np.where(now == nd, old, now)
    both = (now != nd) & (old != nd)
    if prod == "QAI":
        return np.where(both, merge_word(now, old), r)
    return np.where(both, np.trunc((now + old) / 2.0).astype(np.int64), r)


def read(d):
    o = {}
    for t, prods in l2.tiles(d).items():
        for k, p in prods.items():
            prod = k.rsplit("_", 1)[1]
            if k.startswith("20180615_LEVEL2_LND08_") and prod in PRODS:
                a = fl.read_tif(p).astype(np.int64)
                o[t, prod] = a & 0xffff if prod == "QAI" else a
            else:
                o[t, k] = None
    return o


def check(c):
    fl.exe("force-l2ps")
    src = os.path.join(c.scratch, "l1")
    dirs = {k: l2.scene(os.path.join(src, f"LC08_{k}"), planes(*size, s), ul, l2.wkt(32632), row=20 + ord(k) - 65) for k, (ul, size, s) in SCENES.items()}
    kw = dict(OUTPUT_DST="TRUE", OUTPUT_HOT="TRUE", OUTPUT_VZN="TRUE", CLOUD_BUFFER=60, SHADOW_BUFFER=30)
    tot = dict(states=0, transitions=0, runs=0, pixels=0)

    def run(order, **more):
        with fl.Work(c) as w:
            for k in order:
                r = l2.process(w, dirs[k], l2.prm(w, **dict(kw, **more)))
                if r.rc != 0:
                    return f"exit {r.rc}: {r.stdout[-300:]}"
            locks = [f for f in fl.outputs(os.path.join(w, "l2")) if f.endswith(".lock")]
            return f"locks left: {locks}" if locks else read(os.path.join(w, "l2"))

    orders = [o for n in (1, 2, 3) for o in itertools.permutations("ABC", n)]
    orders += ["AA", "ABA", "ABB", "BAA"]
    if c.thorough:
        orders += ["".join(o) for o in itertools.product("ABC", repeat=4)]
    configs = [dict(), dict(TILE_SIZE="1500 1500"), dict(ERASE_CLOUDS="TRUE")]
    tot["states"] = len(configs) * len({tuple(o[:k]) for o in orders for k in range(len(o) + 1)})
    for more in configs:
        res = dict(zip(orders, fl.pmap(lambda o: run(o, **more), orders, 7)))
        single = {o[0]: res[o] for o in orders if len(o) == 1}
        for k, v in single.items():
            if isinstance(v, str):
                c.violation(f"scene {k}, {more}: {v}", dict(order=k, parameters=more))
        if any(isinstance(v, str) for v in single.values()):
            continue
        for o in orders:
            tot["runs"] += 1
            got = res[o]
            if isinstance(got, str):
                c.violation(f"scenes {'-'.join(o)}, {more}: {got}", dict(order=o, parameters=more))
                continue
            want = {}
            for k in o:
                for key, a in single[k].items():
                    want[key] = a if key not in want else merge(key[1], want[key], a)
                tot["transitions"] += 1
            if set(got) != set(want):
                c.violation(f"scenes {'-'.join(o)}, {more}: files {sorted(set(got) ^ set(want))[:4]} are missing or too many", dict(order=o, parameters=more))
                continue
            for key, a in want.items():
                tot["pixels"] += a.size
                m = got[key] != a
                if m.any():
                    b, y, x = np.argwhere(m)[0]
                    vals = {k: int(single[k][key][b, y, x]) for k in sorted(set(o)) if key in single[k]}
                    c.violation(f"scenes {'-'.join(o)}, {more}: {key[0]} {key[1]} band {b + 1} pixel {(int(y), int(x))} holds {got[key][b, y, x]} instead of {a[b, y, x]}, the scenes alone give {vals}; {int(m.sum())} values",
                                dict(order=o, parameters=more))
                    break
    c.coverage = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["runs"], pixels=tot["pixels"], exhaustive=True,
                      bounds="three overlapping scenes of one day: every order of every selection, repeated processing, three configurations",
                      rule="state = sequence of scenes processed so far; transition = processing one more scene; trace = one whole sequence")
    c.sample(f"{len(orders)} orders of scenes in {len(configs)} configurations, {tot['pixels']} values compared")


if __name__ == "__main__":
    vlib.main(check, "L03", "model_checking")
