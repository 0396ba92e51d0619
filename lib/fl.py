"""Synthetic FORCE datacubes and runs of the FORCE programs on them."""
import os, re, signal, subprocess, json
import numpy as np
from osgeo import gdal, osr
import vlib

gdal.UseExceptions()
gdal.SetConfigOption("GDAL_PAM_ENABLED", "NO")

_srs = osr.SpatialReference()
_srs.ImportFromEPSG(3035)
WKT = _srs.ExportToWkt()
del _srs
ORIGIN = (4000000.0, 3000000.0)   # upper left corner of tile X0000_Y0000
GEO = (10.0, 50.0)


def tilename(x, y):
    def f(v):
        return f"{v:04d}" if v >= 0 else f"-{-v:03d}"
    return f"X{f(x)}_Y{f(y)}"


def write_def(d, tile_size, tag=True, chunk=None, origin=ORIGIN, geo=GEO):
    """tile_size: (x, y) in map units"""
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "datacube-definition.prj"), "w") as f:
        f.write(f"PROJECTION = {WKT}\n")
        f.write(f"ORIGIN_GEO_X = {geo[0]}\nORIGIN_GEO_Y = {geo[1]}\n")
        f.write(f"ORIGIN_MAP_X = {origin[0]}\nORIGIN_MAP_Y = {origin[1]}\n")
        f.write(f"TILE_SIZE_X = {tile_size[0]}\nTILE_SIZE_Y = {tile_size[1]}\n")


GT = {np.dtype("int16"): gdal.GDT_Int16, np.dtype("uint16"): gdal.GDT_UInt16,
      np.dtype("uint8"): gdal.GDT_Byte, np.dtype("int32"): gdal.GDT_Int32,
      np.dtype("float32"): gdal.GDT_Float32}
_drv = gdal.GetDriverByName("GTiff")


def write_tif(path, arr, ul, res, nodata=None, opts=("COMPRESS=NONE",)):
    if arr.ndim == 2:
        arr = arr[None]
    nb, ny, nx = arr.shape
    ds = _drv.Create(path, nx, ny, nb, GT[arr.dtype], options=list(opts))
    ds.SetGeoTransform((ul[0], res, 0, ul[1], 0, -res))
    ds.SetProjection(WKT)
    for b in range(nb):
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(nodata)
    ds.WriteArray(np.ascontiguousarray(arr))
    ds = None


def read_tif(path):
    ds = gdal.Open(path)
    a = ds.ReadAsArray()
    return a if a.ndim == 3 else a[None]


def band_names(path):
    ds = gdal.Open(path)
    return [ds.GetRasterBand(i + 1).GetDescription() for i in range(ds.RasterCount)]


class Cube:
    """A level 2 datacube; res in map units, tile (nx, ny) in pixels."""
    def __init__(self, d, nx, ny, res=10, origin=ORIGIN):
        self.d, self.nx, self.ny, self.res, self.origin = d, nx, ny, res, origin
        write_def(d, (nx * res, ny * res), origin=origin)

    def ul(self, tx, ty):
        return (self.origin[0] + tx * self.nx * self.res, self.origin[1] - ty * self.ny * self.res)

    def tiledir(self, tx, ty):
        p = os.path.join(self.d, tilename(tx, ty))
        os.makedirs(p, exist_ok=True)
        return p

    def put(self, tx, ty, name, arr, nodata=None):
        write_tif(os.path.join(self.tiledir(tx, ty), name), arr, self.ul(tx, ty), self.res, nodata)

    def ard(self, tx, ty, date, sensor, boa, qai=None, ltype="LEVEL2"):
        self.put(tx, ty, f"{date}_{ltype}_{sensor}_BOA.tif", boa.astype("int16"), -9999)
        if qai is not None:
            self.put(tx, ty, f"{date}_{ltype}_{sensor}_QAI.tif", qai.astype("int16"), 1)


class Prm(dict):
    """Parameter file: starts from the defaults FORCE's own generator writes."""
    def __init__(self, module, **kw):
        super().__init__()
        text, self.tag = template(module)
        for line in text.splitlines():
            line = line.strip()
            if line and not line.startswith(("#", "+")):
                k, v = line.split("=", 1)
                self[k.strip()] = v.strip()
        self.update({k: v for k, v in kw.items()})

    def text(self):
        return (f"++PARAM_{self.tag}_START++\n" + "".join(f"{k} = {v}\n" for k, v in self.items()) +
                f"++PARAM_{self.tag}_END++\n")

    def write(self, path):
        with open(path, "w") as f:
            f.write(self.text())
        return path


_tpl = {}


def template(module):
    if module not in _tpl:
        import tempfile, shutil
        d = tempfile.mkdtemp(prefix="vf-prm-", dir="/tmp")
        try:
            p = os.path.join(d, "t.prm")
            r = run([exe("force-parameter"), "-c", p, module])
            if not os.path.exists(p):
                raise vlib.ProgramError(f"force-parameter {module}: {r.stdout}")
            t = open(p).read()
        finally:
            shutil.rmtree(d)
        _tpl[module] = (t, re.search(r"\+\+PARAM_(\w+)_START", t).group(1))
    return _tpl[module]


_variant = "opt"
_bdir = {}


def exe(name, variant=None):
    v = variant or _variant
    if v not in _bdir:
        _bdir[v] = vlib.build(v)
    return os.path.join(_bdir[v], "bin", name)


class R:
    pass


def run(cmd, timeout=150, cwd=None, env=None, stdin=None):
    """Run a program; rc is -999 if it does not end. After a few of these, give up altogether."""
    e = dict(vlib.ENV)
    if env:
        e.update(env)
    r = R()
    if len(vlib.HUNG) >= 12:
        raise vlib.ProgramError(f"{len(vlib.HUNG)} runs did not end, the first was {vlib.HUNG[0]}")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=e,
                         stdin=subprocess.DEVNULL if stdin is None else stdin, start_new_session=True)
    vlib.CHILDREN.add(p)
    try:
        o, _ = p.communicate(timeout=min(timeout, 40) if vlib.HUNG else timeout)
        r.rc, r.stdout = p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        vlib.HUNG.append(" ".join(map(str, cmd))[:300])
        r.rc, r.stdout = -999, "TIMEOUT " + (o or b"").decode(errors="replace")
    finally:
        vlib.CHILDREN.discard(p)
    return r


def hl(prm, path, timeout=150, env=None):
    prm.write(path)
    return run([exe("force-higher-level"), path], timeout, env=env)


def outputs(d):
    """All files below d: {relative path: absolute path}"""
    o = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            o[os.path.relpath(os.path.join(b, f), d)] = os.path.join(b, f)
    return o


def base(module, work, cube, **kw):
    """Parameters every run needs; products go to <work>/hl."""
    for s in ("hl", "prov"):
        os.makedirs(os.path.join(work, s), exist_ok=True)
    d = dict(DIR_LOWER=cube.d, DIR_HIGHER=os.path.join(work, "hl"), DIR_PROVENANCE=os.path.join(work, "prov"),
             NTHREAD_READ=1, NTHREAD_COMPUTE=1, NTHREAD_WRITE=1, PRETTY_PROGRESS="FALSE",
             CHUNK_SIZE=f"{cube.nx*cube.res} {cube.ny*cube.res}", RESOLUTION=cube.res)
    p = Prm(module)
    for k, v in d.items():
        if k in p:
            p[k] = v
    for k, v in kw.items():
        if k not in p:
            raise vlib.CheckError(f"{module} has no parameter {k}")
        p[k] = v
    return p


def tsa(work, cube, **kw):
    d = dict(SENSORS="LND08", TARGET_SENSOR="LND08", INDEX="NIR", SCREEN_QAI="NODATA", DATE_RANGE="2018-01-01 2018-12-31")
    d.update(kw)
    return base("TSA", work, cube, **d)


class Failed(vlib.ProgramError):
    def __init__(self, r, work):
        self.r, self.work = r, work
        super().__init__(f"exit {r.rc}: {r.stdout[-800:]}")


def products(work, prm, tiles=((0, 0),), timeout=150, keep=False, must=True):
    """Run force-higher-level; {(tile, product name): array} of all tifs written.

    The leading part of the file names (dates, doys) is kept."""
    r = hl(prm, os.path.join(work, "run.prm"), timeout)
    if must and r.rc != 0:
        raise Failed(r, work)
    o = {}
    for rel, p in outputs(os.path.join(work, "hl")).items():
        if p.endswith(".tif"):
            o[rel] = read_tif(p)
    return r, o


def pick(o, suffix):
    c = [v for k, v in o.items() if k.endswith(suffix)]
    if len(c) != 1:
        raise vlib.ProgramError(f"expected one product *{suffix}, found {sorted(o)}")
    return c[0]


def pmap(fn, items, n=8):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


_wn = [0]
import threading, shutil
_wl = threading.Lock()


class Work:
    """A fresh working directory below the scratch directory, removed afterwards."""
    def __init__(self, c):
        with _wl:
            _wn[0] += 1
            self.p = os.path.join(c.scratch, f"w{_wn[0]}")
        os.makedirs(self.p)

    def __enter__(self):
        return self.p

    def __exit__(self, *a):
        shutil.rmtree(self.p, ignore_errors=True)


NODATA = -9999


class Tree:
    """All histories of `depth` steps over `alphabet` (None = missing), one per pixel.

    states/transitions are those of the history tree (state = prefix)."""
    def __init__(self, alphabet, depth):
        self.alphabet, self.depth = list(alphabet), depth
        k = len(self.alphabet)
        self.n = k ** depth
        self.nx = int(np.ceil(np.sqrt(self.n)))
        self.ny = -(-self.n // self.nx)
        # the first and the last pixel hold histories of varied values, not the empty one
        v = [i for i, a in enumerate(self.alphabet) if a is not None][::-1]
        first = 0
        for t in range(depth):
            first = first * k + v[(t + t // len(v)) % len(v)]
        idx = (np.arange(self.nx * self.ny) + first) % self.n
        digits = np.empty((depth, self.nx * self.ny), int)
        for t in range(depth - 1, -1, -1):
            digits[t] = idx % k
            idx = idx // k
        self.digits = digits.reshape(depth, self.ny, self.nx)
        vals = np.array([NODATA if a is None else a for a in self.alphabet])
        self.valid = np.array([a is not None for a in self.alphabet])[self.digits]
        self.values = vals[self.digits]
        self.states = sum(k ** i for i in range(depth + 1))
        self.transitions = self.states - 1

    def history(self, y, x):
        return [self.alphabet[d] for d in self.digits[:, y, x]]

    def cube(self, d, dates, sensor="LND08", band=None, nb=6, missing="qai", fill=1500):
        """Store the histories; missing observations are flagged nodata in the quality layer
        and ("qai") keep a plausible wrong reflectance or ("boa") hold nodata."""
        c = Cube(d, self.nx, self.ny)
        for t, date in enumerate(dates):
            v = self.values[t]
            if missing == "qai":
                v = np.where(self.valid[t], v, fill)
            boa = np.empty((nb, self.ny, self.nx), np.int16)
            for b in range(nb):
                boa[b] = v if band is None or b == band else 300 + 100 * b
            c.ard(0, 0, date, sensor, boa, np.where(self.valid[t], 0, 1))
        return c
