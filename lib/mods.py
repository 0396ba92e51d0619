"""One ordinary run of every higher-level submodule on a small synthetic datacube."""
import os
import numpy as np, cv2
import fl

DATES = ["20170415", "20170720", "20171110", "20180110", "20180305", "20180501", "20180628", "20180815", "20181020", "20181130"]
UDF = '''
import numpy as np
def forcepy_init(dates, sensors, bandnames):
    return ["first", "sum", "count"]
def calc(a, o, nodata):
    v = np.where(a == nodata, 0, a).astype(np.int64)
    n = (a != nodata)
    o[0] = a[0, 0]
    o[1] = v.sum((0, 1)) % 30011
    o[2] = n.sum((0, 1))
def forcepy_chunk(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    calc(inarray, outarray, nodata)
def forcepy_pixel(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    o = np.empty((3, 1, 1), np.int64)
    calc(inarray, o, nodata)
    outarray[:] = o[:, 0, 0]
'''


def pixels(nx, ny, k, tx=0, ty=0):
    """Values that differ between all pixels, tiles and dates."""
    y, x = np.mgrid[0:ny, 0:nx]
    return (x * 173 + y * 311 + (x * y) % 13 * 97 + k * 389 + (tx * 7 + ty * 11) * 53) % 3001 + 200


def level2(d, nx, ny, tiles=((0, 0),), dates=DATES, sensor="LND08", res=10):
    """ARD with scattered clouds and nodata, and a feature image, in every tile."""
    c = fl.Cube(d, nx, ny, res)
    for tx, ty in tiles:
        for t, dt in enumerate(dates):
            boa = np.array([pixels(nx, ny, t * 7 + b, tx, ty) for b in range(6)])
            h = (pixels(nx, ny, 100 + t, tx, ty) // 7) % 6
            c.ard(tx, ty, dt, sensor, boa, np.where(h == 0, 1, np.where(h == 1, 4, 0)))
        c.put(tx, ty, "FTR.tif", np.array([np.where(pixels(nx, ny, 300 + b, tx, ty) % 11 == 0, -9999, pixels(nx, ny, 200 + b, tx, ty)) for b in range(3)]).astype(np.int16), -9999)
    return c


def models(d):
    """Random forests and support vector machines."""
    os.makedirs(d, exist_ok=True)
    rng = np.random.RandomState(5)
    X = rng.rand(60, 3).astype(np.float32) * 0.35
    for i in range(2):
        y = ((X[:, 0] * 7 + X[:, 1] * (5 + i)).astype(int) % 3 + 1).astype(np.int32)
        rf = cv2.ml.RTrees_create()
        rf.setTermCriteria((cv2.TERM_CRITERIA_MAX_ITER, 15, 0))
        rf.setActiveVarCount(2)
        rf.train(X, cv2.ml.ROW_SAMPLE, y)
        rf.save(os.path.join(d, f"rfc{i}.xml"))
    for i in range(3):
        sv = cv2.ml.SVM_create()
        sv.setType(cv2.ml.SVM_EPS_SVR)
        sv.setKernel(cv2.ml.SVM_RBF)
        sv.setGamma(3 + i)
        sv.setC(2)
        sv.setP(0.01)
        sv.train(X, cv2.ml.ROW_SAMPLE, (np.sin(X[:, 0] * 9) + X[:, 2] * (1 + i * 0.3)).astype(np.float32))
        sv.save(os.path.join(d, f"svr{i}.xml"))
    return d


def models_rfr(d):
    """Regression forests."""
    rng = np.random.RandomState(6)
    X = rng.rand(60, 3).astype(np.float32) * 0.35
    for i in range(2):
        rf = cv2.ml.RTrees_create()
        rf.setTermCriteria((cv2.TERM_CRITERIA_MAX_ITER, 15, 0))
        rf.train(X, cv2.ml.ROW_SAMPLE, (X[:, 0] * 2 + X[:, 1] * (1 + i)).astype(np.float32))
        rf.save(os.path.join(d, f"rfr{i}.xml"))


def udf(d):
    p = os.path.join(d, "udf.py")
    with open(p, "w") as f:
        f.write(UDF)
    return p


ALL_TSA = {k: "TRUE" for k in ("OUTPUT_TSS OUTPUT_TSI OUTPUT_STM OUTPUT_FBY OUTPUT_FBQ OUTPUT_FBM OUTPUT_TRY OUTPUT_TRM OUTPUT_CAY").split()}


def prm(name, work, cube, aux, **kw):
    """aux: directory with models() and udf()"""
    l2 = dict(SENSORS="LND08", TARGET_SENSOR="LND08", DATE_RANGE="2017-01-01 2018-12-31")
    if name == "TSA":
        d = dict(l2, INDEX="NDVI NIR", INTERPOLATE="LINEAR", INT_DAY=32, STM="AVG STD Q50 NUM", **ALL_TSA)
    elif name == "POL":
        d = dict(l2, INDEX="NDVI", INTERPOLATE="RBF", INT_DAY=32, OUTPUT_POL="TRUE", OUTPUT_PCT="TRUE", POL_ADAPTIVE="FALSE")
    elif name == "LEVEL3":
        d = dict(l2, SCORE_CLOUD_WEIGHT=0, SCORE_HAZE_WEIGHT=0, REQUIRE_AUX_PRODUCTS="NULL", OUTPUT_SCR="TRUE", DOY_STATIC="60 150 300", BASE_LSP="NULL NULL NULL")
    elif name == "CSO":
        d = dict(l2, CSO="NUM AVG STD MAX Q50")
    elif name in ("UDF-PIXEL", "UDF-CHUNK"):
        d = dict(l2, FILE_PYTHON=os.path.join(aux, "udf.py"), PYTHON_TYPE=name[4:], OUTPUT_PYP="TRUE")
    elif name == "RFC":
        d = dict(DIR_MODEL=aux, FILE_MODEL="rfc0.xml rfc1.xml", ML_METHOD="RFC", ML_SCALE=1, FEATURE_EXCLUDE="TRUE", OUTPUT_MLP="TRUE", OUTPUT_MLI="TRUE", OUTPUT_RFP="TRUE", OUTPUT_RFM="TRUE")
    elif name == "SVR":
        d = dict(DIR_MODEL=aux, FILE_MODEL="svr0.xml svr1.xml svr2.xml", ML_METHOD="SVR", ML_SCALE=10000, ML_CONVERGENCE=0.02, FEATURE_EXCLUDE="TRUE", OUTPUT_MLP="TRUE", OUTPUT_MLI="TRUE", OUTPUT_MLU="TRUE")
    elif name == "TXT":
        d = dict(TXT_RADIUS=cube.res, TXT="DIL ERO BHT")
    elif name == "LSM":
        d = dict(LSM_RADIUS=cube.res, LSM_MIN_PATCHSIZE=1, LSM_THRESHOLD_TYPE="GT GT GT", LSM_THRESHOLD="1500 1500 1500")
    elif name == "LIB":
        d = dict(DIR_LIBRARY=aux, FILE_LIBRARY="lib0.txt")
    elif name == "SMP":
        d = dict(FILE_POINTS=os.path.join(aux, "pts.csv"), PROJECTED="TRUE", **{f"FILE_{k}": os.path.join(work, "hl", k + ".txt") for k in ("SAMPLE", "RESPONSE", "COORDINATES")})
    else:
        raise KeyError(name)
    if name in ("RFC", "SVR", "TXT", "LSM", "LIB", "SMP"):
        d["INPUT_FEATURE"] = "FTR.tif 1 2 3"
    d.update(kw)
    return fl.base({"POL": "TSA", "UDF-PIXEL": "UDF", "UDF-CHUNK": "UDF", "RFC": "ML", "SVR": "ML"}.get(name, name), work, cube, **d)
