"""Reference models shared by several checks (365-day calendar, statistics)."""
import warnings
import numpy as np

warnings.filterwarnings("ignore", category=RuntimeWarning)

MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CUM = np.concatenate([[0], np.cumsum(MLEN)])


def doy(s):
    return int(CUM[int(s[4:6]) - 1]) + int(s[6:8])


def ce(s):
    return int(s[:4]) * 365 + doy(s)


def week(d):
    return min((d - 1) // 7 + 1, 52)


def month(d):
    return int(np.searchsorted(CUM, d, side="left"))


def quarter(d):
    return (month(d) - 1) // 3 + 1


class Stats:
    """Statistics along axis 0 of the valid values; .get(metric) -> (value, tolerance)

    NaN marks cases in which the statistic is undefined."""
    def __init__(self, values, valid):
        self.v = np.where(valid, values, np.nan).astype(float)
        self.n = valid.sum(0)
        self.s = np.sort(self.v, 0)
        self.cache = {}

    def q(self, p):
        n, s = self.n, self.s
        h = (n - 1) * p
        lo = np.clip(np.floor(h + 1e-9).astype(int), 0, None)
        hi = np.minimum(lo + 1, np.maximum(n - 1, 0))
        a = np.take_along_axis(s, lo[None], 0)[0]
        b = np.take_along_axis(s, hi[None], 0)[0]
        return a + (h - lo) * (b - a)

    def get(self, m):
        if m not in self.cache:
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.cache[m] = self._get(m)
        return self.cache[m]

    def _get(self, m):
        v, n = self.v, self.n
        if m == "NUM":
            return n.astype(float), 0
        if m == "MIN":
            return np.nanmin(v, 0), 0
        if m == "MAX":
            return np.nanmax(v, 0), 0
        if m == "RNG":
            return np.nanmax(v, 0) - np.nanmin(v, 0), 0
        if m == "AVG":
            return np.nanmean(v, 0), 1
        d = v - np.nanmean(v, 0)
        if m == "STD":
            return np.where(n > 1, np.sqrt(np.nansum(d ** 2, 0) / np.maximum(n - 1, 1)), np.nan), 1
        if m in ("SKW", "KRT"):
            m2, m3, m4 = (np.nansum(d ** k, 0) / n for k in (2, 3, 4))
            r = m3 / m2 ** 1.5 * 1000 if m == "SKW" else (m4 / m2 ** 2 - 3) * 1000
            return np.where(m2 > 1e-9, np.clip(r, -30000, 30000), np.nan), 1
        if m == "IQR":   # difference of two stored integers
            return self.q(.75) - self.q(.25), 2
        return self.q(int(m[1:]) / 100), 1


def compare(a, want, tol, nodata_where, nodata=-9999):
    """Mask of wrong cells; NaN in want (outside nodata_where) means anything goes."""
    bad = nodata_where & (a != nodata)
    chk = ~nodata_where & ~np.isnan(want)
    with np.errstate(invalid="ignore"):
        bad |= chk & ((np.abs(a - want) > tol + 2e-3) if np.any(tol) else (a != want))
    return bad, int(chk.sum() + nodata_where.sum())
