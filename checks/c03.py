#!/usr/bin/python3
"""C03: concurrent writers to one image leave the result of some serial order."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, sched, vlib

NODATA = dict(merge=-9999, update=-9999, create=-9999, qai=1)
VALS = [-9999, 100, 107, -50]
FIELDS = [(1, 2), (3, 1), (4, 1), (5, 1), (6, 2), (8, 1), (9, 1), (10, 1), (11, 2), (13, 1), (14, 1)]


def words():
    """The off word, clear, and every value of every field over clear and over everything set."""
    w = {1, 0, 0x7ffe}
    for bit, width in FIELDS:
        for v in range(1 << width):
            w.add(v << bit)
            w.add(0x7ffe & ~(((1 << width) - 1) << bit) | v << bit)
    return sorted(w)


def data(mode, n):
    """Per writer an array (bands, pixels): together every combination of values."""
    vals = words() if mode == "qai" else VALS
    if mode == "qai" and n > 2:
        vals = vals[::6] + [1]
    combos = np.array(list(itertools.product(vals, repeat=n)), dtype=np.int64).T
    pad = -len(combos[0]) % 8
    combos = np.concatenate([combos, combos[:, :pad]], axis=1)
    if mode == "qai":
        return [combos[k][None] for k in range(n)]
    return [np.stack([combos[k], combos[k][::-1]]) for k in range(n)]


def merge_word(a, b):
    r = np.where((a & 1) & (b & 1), 1, 0)
    for bit, width in FIELDS:
        m = (1 << width) - 1
        r |= np.maximum((a >> bit) & m, (b >> bit) & m) << bit
    return r


def write(mode, old, now):
    """The image after one more serial write."""
    if old is None or mode == "create":
        return now.copy()
    nd = NODATA[mode]
    r = np.where((now == nd) & (old != nd), old, now)
    both = (now != nd) & (old != nd)
    if mode == "merge":
        r = np.where(both, np.trunc((now + old) / 2.0).astype(np.int64), r)
    elif mode == "qai":
        r = np.where(both, merge_word(now, old), r)
    return r


def check(c):
    h = vlib.harness("harness/c03.cpp")
    so = sched.preload(c.scratch)
    tot = dict(states=0, transitions=0, schedules=0, redundant=0, exhaustive=True)
    pixels = 0
    # (mode, writers, directory exists, earlier image)
    plan = [(m, 2, d, e) for m in ("merge", "qai", "update", "create") for d, e in ((True, False), (True, True), (False, False))]
    plan += [("merge", 3, True, True), ("qai", 3, False, False)]
    if c.thorough:
        plan += [(m, 3, d, e) for m in ("merge", "qai", "update", "create") for d, e in ((True, False), (False, False), (True, True))]
    for mode, n, direxist, earlier in plan:
        arr = data(mode, n + earlier)
        nc = arr[0].shape[1]
        nx, ny = 8, nc // 8
        for k in range(n + earlier):
            arr[k].astype(np.int16).tofile(os.path.join(c.scratch, f"p{mode}{n}{earlier}-{k}"))
        name = f"{mode}, {n} writers{', directory missing' if not direxist else ''}{', image exists' if earlier else ''}"
        tag = f"{mode}{n}{int(direxist)}{int(earlier)}"
        pixels += nc

        def setup(d):
            os.makedirs(f"{d}/w/prov")
            out = f"{d}/w/tile"
            if direxist:
                os.makedirs(out)
            cmd = [[h, out, "IMG", mode, str(k), str(nx), str(ny), "short", f"{d}/w/prov", os.path.join(c.scratch, f"p{mode}{n}{earlier}-{k}")] for k in range(n + earlier)]
            if earlier:
                r = fl.run(cmd[n], timeout=60)
                if r.rc != 0:
                    raise vlib.ProgramError("first write failed: " + r.stdout[-300:])
            return cmd[:n]

        orders = {}
        for o in itertools.permutations(range(n)):
            im = arr[n] if earlier else None
            for k in o:
                im = write(mode, im, arr[k])
            orders[o] = im

        def judge(d, r):
            if any(r.rcs):
                return f"exit codes {r.rcs}: {r.out}"
            if r.locks:
                return f"locks left: {r.locks}"
            if os.listdir(f"{d}/w/tile") != ["IMG.tif"]:
                return f"directory holds {os.listdir(f'{d}/w/tile')}"
            try:
                a = fl.read_tif(f"{d}/w/tile/IMG.tif").reshape(len(arr[0]), nc)
            except Exception as e:
                return f"the image cannot be read: {e}"
            if not any((a == im).all() for im in orders.values()):
                bad = [int((a != im).sum()) for im in orders.values()]
                im = list(orders.values())[int(np.argmin(bad))]
                b, p = np.argwhere(a != im)[0]
                return f"the image is not that of any order of the writers ({min(bad)} values differ, e.g. writers {[int(x[b][p]) for x in arr]} give {a[b][p]} instead of {im[b][p]})"
            files = os.listdir(f"{d}/w/prov")
            if len(files) != 1:
                return f"provenance directory holds {files}"
            lines = open(f"{d}/w/prov/{files[0]}").read().splitlines()
            rows = [l.split(",") for l in lines]
            if rows[0][:3] != ["file", "origin", "mode"] or any(x[0] == "file" for x in rows[1:]) or sorted(x[1] for x in rows[1:]) != [str(k) for k in range(n + earlier)]:
                return f"provenance is {lines}"
            if mode != "create" and sorted(x[2] for x in rows[1:]) != ["create"] + ["update"] * (n + earlier - 1):
                return f"provenance is {lines}"
            return None

        t = sched.explore(c, tag, setup, judge, so, 40000)
        for k in ("states", "transitions", "schedules", "redundant"):
            tot[k] += t[k]
        tot["exhaustive"] &= t["exhaustive"]
        print(name, t, flush=True)
    c.sample(f"{len(plan)} scenarios: two writers with all interleavings, and three writers; {pixels} combinations of pixel values")
    c.coverage = dict(tot, traces_validated_against_impl=tot["schedules"], scenarios=len(plan), pixel_combinations=pixels,
                      rule="state = history of granted operations; transition = one lock, file or directory operation of a writer; every schedule is executed by real processes")


vlib.main(check, "C03", "model_checking")
