"""Synthetic Landsat level 1 scenes and runs of the level 2 processor on them."""
import math, os, re
import numpy as np
from osgeo import gdal, osr
import fl, vlib

BANDS = {8: ["1", "2", "3", "4", "5", "9", "6", "7", "10"], 7: ["1", "2", "3", "4", "5", "7", "6_VCID_1"]}
BANDS[9], BANDS[5], BANDS[4] = BANDS[8], ["1", "2", "3", "4", "5", "7", "6"], ["1", "2", "3", "4", "5", "7", "6"]
# positions of blue, green, red, near infrared, short wave infrared 1 and 2 in the lists above
OUT = {8: (1, 2, 3, 4, 6, 7), 9: (1, 2, 3, 4, 6, 7), 7: (0, 1, 2, 3, 4, 5), 5: (0, 1, 2, 3, 4, 5), 4: (0, 1, 2, 3, 4, 5)}
THERMAL = {8: 8, 9: 8, 7: 6, 5: 6, 4: 6}
CIRRUS = {8: 5, 9: 5, 7: None, 5: None, 4: None}
SAT = {8: 65535, 9: 65535, 7: 255, 5: 255, 4: 255}


def wkt(epsg):
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    return s.ExportToWkt()


def gains(lid):
    """reflectance gain and offset per band, all different"""
    n = len(BANDS[lid]) - 1
    if lid >= 8:
        return [(2.0e-5 * (1 + 0.01 * b), -0.1 * (1 + 0.003 * b)) for b in range(n)]
    return [(1.5e-3 * (1 + 0.2 * b), -0.004 * (1 + 0.1 * b)) for b in range(n)]


def scene(d, dn, ul, proj, lid=8, date="2018-06-15", time="10:15:30.1234560Z", gain=None, kind="L1TP", cat="T1", path=195, row=23):
    """dn: one plane of digital numbers per band of BANDS[lid]"""
    os.makedirs(d, exist_ok=True)
    nb, ny, nx = dn.shape
    name = os.path.basename(d)
    bands, gain = BANDS[lid], gain or gains(lid)
    m = ["GROUP = LANDSAT_METADATA_FILE", f'    SPACECRAFT_ID = "LANDSAT_{lid}"', '    SENSOR_ID = "OLI_TIRS"',
         f"    WRS_PATH = {path}", f"    WRS_ROW = {row}", f"    DATE_ACQUIRED = {date}", f'    SCENE_CENTER_TIME = "{time}"',
         f'    PRODUCT_TYPE = "{kind}"', f'    COLLECTION_CATEGORY = "{cat}"', f"    REFLECTIVE_LINES = {ny}",
         f"    REFLECTIVE_SAMPLES = {nx}", "    GRID_CELL_SIZE_REFLECTIVE = 30.00",
         f"    CORNER_UL_PROJECTION_X_PRODUCT = {ul[0]+15:.3f}", f"    CORNER_UL_PROJECTION_Y_PRODUCT = {ul[1]-15:.3f}"]
    m += [f'    FILE_NAME_BAND_{b} = "{name}_B{b}.TIF"' for b in bands]
    for k, b in enumerate(bands):
        t = k == THERMAL[lid]
        lmax, lmin = (22.0018, 0.10033) if lid >= 8 else (17.04, 0.0)
        m += [f"    RADIANCE_MAXIMUM_BAND_{b} = {lmax if t else 750.0}", f"    RADIANCE_MINIMUM_BAND_{b} = {lmin if t else -62.0}",
              f"    QUANTIZE_CAL_MAX_BAND_{b} = {SAT[lid]}", f"    QUANTIZE_CAL_MIN_BAND_{b} = 1"]
        if t:
            m += [f"    K1_CONSTANT_BAND_{b} = {774.8853 if lid >= 8 else 666.09}", f"    K2_CONSTANT_BAND_{b} = {1321.0789 if lid >= 8 else 1282.71}"]
        else:
            m += [f"    REFLECTANCE_MULT_BAND_{b} = {gain[k][0]:.8E}", f"    REFLECTANCE_ADD_BAND_{b} = {gain[k][1]:.8f}"]
    m += ["END_GROUP = LANDSAT_METADATA_FILE", "END"]
    with open(f"{d}/{name}_MTL.txt", "w") as f:
        f.write("\n".join(m) + "\n")
    for k, b in enumerate(bands):
        ds = gdal.GetDriverByName("GTiff").Create(f"{d}/{name}_B{b}.TIF", nx, ny, 1, gdal.GDT_UInt16 if lid >= 8 else gdal.GDT_Byte)
        ds.SetGeoTransform((ul[0], 30, 0, ul[1], 0, -30))
        ds.SetProjection(proj)
        ds.GetRasterBand(1).WriteArray(dn[k].astype(np.uint16 if lid >= 8 else np.uint8))
        ds = None
    return d


QUIET = dict(DO_ATMO="FALSE", DO_TOPO="FALSE", DO_BRDF="FALSE", ADJACENCY_EFFECT="FALSE", MULTI_SCATTERING="FALSE",
             DIR_WVPLUT="NULL", STRICT_WATER_VAPOR="FALSE", WATER_VAPOR="1.0", DIR_AOD="NULL", DIR_COREG_BASE="NULL", FILE_DEM="NULL",
             ERASE_CLOUDS="FALSE", MAX_CLOUD_COVER_FRAME=100, MAX_CLOUD_COVER_TILE=100, CLOUD_BUFFER=0, CIRRUS_BUFFER=0,
             SHADOW_BUFFER=0, SNOW_BUFFER=0, RES_MERGE="NONE", IMPULSE_NOISE="FALSE", BUFFER_NODATA="FALSE", FILE_QUEUE="NULL",
             FILE_TILE="NULL", FILE_AOI="NULL", DO_REPROJ="TRUE", DO_TILE="TRUE", TILE_SIZE="3000 3000", RESAMPLING="NN",
             RESOLUTION_LANDSAT=30, RESOLUTION_SENTINEL2=10, ORIGIN_LON=9, ORIGIN_LAT=52, NPROC=1, NTHREAD=1, PARALLEL_READS="FALSE",
             OUTPUT_FORMAT="GTiff", FILE_OUTPUT_OPTIONS="NULL", OUTPUT_DST="FALSE", OUTPUT_AOD="FALSE", OUTPUT_WVP="FALSE",
             OUTPUT_VZN="FALSE", OUTPUT_HOT="FALSE", OUTPUT_OVV="FALSE", TIER=1)


def prm(work, **kw):
    p = fl.Prm("LEVEL2")
    d = dict(QUIET, PROJECTION=wkt(32632))
    for k, s in (("DIR_LEVEL2", "l2"), ("DIR_LOG", "log"), ("DIR_PROVENANCE", "prov"), ("DIR_TEMP", "tmp")):
        os.makedirs(os.path.join(work, s), exist_ok=True)
        d[k] = os.path.join(work, s)
    d.update(kw)
    for k, v in d.items():
        if k not in p:
            raise vlib.CheckError(f"level 2 has no parameter {k}")
        p[k] = v
    return p


def process(work, scenedir, p, timeout=200, variant=None, env=None):
    f = p.write(os.path.join(work, "l2.prm"))
    return fl.run([fl.exe("force-l2ps", variant), scenedir, f], timeout, env=env)


def tiles(d):
    """{tile: {product file without extension: path}}"""
    o = {}
    for rel, p in sorted(fl.outputs(d).items()):
        t, f = os.path.split(rel)
        if f.endswith(".tif"):
            o.setdefault(t, {})[f[:-4]] = p
    return o


def geo(path):
    ds = gdal.Open(path)
    return ds.GetGeoTransform(), ds.RasterXSize, ds.RasterYSize


def sunzenith(lat, lon, y, m, d, h):
    """Solar zenith (rad) after the almanac formulas (Michalsky 1988); h is decimal UTC."""
    a = (14 - m) // 12
    jd = d + (153 * (m + 12 * a - 3) + 2) // 5 + 365 * (y + 4800 - a) + (y + 4800 - a) // 4 - (y + 4800 - a) // 100 + (y + 4800 - a) // 400 - 32045 - 0.5 + h / 24
    n = jd - 2451545.0
    L = math.radians((280.460 + 0.9856474 * n) % 360)
    g = math.radians((357.528 + 0.9856003 * n) % 360)
    lam = L + math.radians(1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
    eps = math.radians(23.439 - 0.0000004 * n)
    ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
    dec = math.asin(math.sin(eps) * math.sin(lam))
    gmst = (6.697375 + 0.0657098242 * n + h) % 24
    ha = math.radians(gmst * 15 + lon) - ra
    la = math.radians(lat)
    return math.acos(math.sin(la) * math.sin(dec) + math.cos(la) * math.cos(dec) * math.cos(ha))


S2BANDS = ["01", "02", "03", "04", "05", "06", "07", "08", "8A", "09", "10", "11", "12"]
S2RES = [60, 10, 10, 10, 20, 20, 20, 10, 20, 60, 60, 20, 20]
# positions of the ten bands of the product: three visible, three red edge, broad near infrared, near infrared, two short wave infrared
S2OUT = (1, 2, 3, 4, 5, 6, 7, 8, 11, 12)


def granule(d, dn, ul, proj, n, sat="2A", date="2018-06-15", time="10:20:21.024Z", quant=10000, offset=None, view=None, sun=(30.0, 150.0)):
    """Sentinel-2 product below d, returns its granule directory. dn: one plane per band at the band's resolution;
    n: side in 5 km cells; offset: additive term per band or None (older products); view: n+1 x n+1 truth values, grid nodes with view angles"""
    safe = os.path.join(d, f"S2{sat[1]}_MSIL1C_20180615T102021_N0206_R065_T32UNC_20180615T124505.SAFE")
    g = os.path.join(safe, "GRANULE", "L1C_T32UNC_A015570_20180615T102021")
    os.makedirs(os.path.join(g, "IMG_DATA"))
    view = np.ones((n + 1, n + 1), bool) if view is None else view
    m = ["<n1:Level-1C_User_Product>", f"        <PRODUCT_START_TIME>{date}T{time}</PRODUCT_START_TIME>",
         f"        <SPACECRAFT_NAME>Sentinel-{sat}</SPACECRAFT_NAME>", "        <PROCESSING_LEVEL>Level-1C</PROCESSING_LEVEL>",
         f'        <QUANTIFICATION_VALUE unit="none">{quant}</QUANTIFICATION_VALUE>']
    m += [f'          <RADIO_ADD_OFFSET band_id="{b}">{v}</RADIO_ADD_OFFSET>' for b, v in enumerate(offset or [])]
    with open(os.path.join(safe, "MTD_MSIL1C.xml"), "w") as f:
        f.write("\n".join(m + ["</n1:Level-1C_User_Product>"]) + "\n")
    m = ["<n1:Level-1C_Tile_ID>"]
    for r in (10, 20, 60):
        m += [f'      <Size resolution="{r}">', f"        <NROWS>{n*5000//r}</NROWS>", f"        <NCOLS>{n*5000//r}</NCOLS>", "      </Size>"]
    for r in (10, 20, 60):
        m += [f'      <Geoposition resolution="{r}">', f"        <ULX>{ul[0]}</ULX>", f"        <ULY>{ul[1]}</ULY>", "      </Geoposition>"]

    def grid(tag, fun):
        m.extend([f"          <{tag}>", '            <COL_STEP unit="m">5000</COL_STEP>', '            <ROW_STEP unit="m">5000</ROW_STEP>', "            <Values_List>"])
        for i in range(n + 1):
            m.append("              <VALUES>" + " ".join(fun(i, j) for j in range(n + 1)) + "</VALUES>")
        m.extend(["            </Values_List>", f"          </{tag}>"])
    m.append("        <Sun_Angles_Grid>")
    grid("Zenith", lambda i, j: f"{sun[0]+0.01*i+0.02*j:.4f}")
    grid("Azimuth", lambda i, j: f"{sun[1]+0.01*i+0.02*j:.4f}")
    m.append("        </Sun_Angles_Grid>")
    for b in range(13):
        for det in (5, 6):
            m.append(f'        <Viewing_Incidence_Angles_Grids bandId="{b}" detectorId="{det}">')
            ok = lambda i, j: view[i][j] and (j <= n // 2 + 1 if det == 5 else j >= n // 2 - 1)
            grid("Zenith", lambda i, j: f"{4.0+0.1*i+0.2*j:.4f}" if ok(i, j) else "NaN")
            grid("Azimuth", lambda i, j: f"{100.0+0.1*i+0.2*j:.4f}" if ok(i, j) else "NaN")
            m.append("        </Viewing_Incidence_Angles_Grids>")
    with open(os.path.join(g, "MTD_TL.xml"), "w") as f:
        f.write("\n".join(m + ["</n1:Level-1C_Tile_ID>"]) + "\n")
    for k, b in enumerate(S2BANDS):
        s = n * 5000 // S2RES[k]
        assert dn[k].shape == (s, s)
        ds = gdal.GetDriverByName("GTiff").Create(os.path.join(g, "IMG_DATA", f"T32UNC_20180615T102021_B{b}.jp2"), s, s, 1, gdal.GDT_UInt16)
        ds.SetGeoTransform((ul[0], S2RES[k], 0, ul[1], 0, -S2RES[k]))
        ds.SetProjection(proj)
        ds.GetRasterBand(1).WriteArray(dn[k].astype(np.uint16))
        ds = None
    return g
