#!/usr/bin/python3
"""H04: quality screening, all 65536 quality words x rules, on force-higher-level."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
import fl, vlib

# documented layout: rule -> (first bit, width, value)
RULES = {
    "NODATA": (0, 1, 1), "CLOUD_BUFFER": (1, 2, 1), "CLOUD_OPAQUE": (1, 2, 2), "CLOUD_CIRRUS": (1, 2, 3),
    "CLOUD_SHADOW": (3, 1, 1), "SNOW": (4, 1, 1), "WATER": (5, 1, 1),
    "AOD_INT": (6, 2, 1), "AOD_HIGH": (6, 2, 2), "AOD_FILL": (6, 2, 3),
    "SUBZERO": (8, 1, 1), "SATURATION": (9, 1, 1), "SUN_LOW": (10, 1, 1),
    "ILLUMIN_LOW": (11, 2, 1), "ILLUMIN_POOR": (11, 2, 2), "ILLUMIN_NONE": (11, 2, 3),
    "SLOPED": (13, 1, 1), "WVP_NONE": (14, 1, 1)}
WORDS = np.arange(65536, dtype=np.int64).reshape(256, 256)
VAL = 1234


def excluded(rules):
    m = np.zeros(WORDS.shape, bool)
    for r in rules:
        b, w, v = RULES[r]
        m |= ((WORDS >> b) & ((1 << w) - 1)) == v
    return m


def check(c):
    cube = fl.Cube(os.path.join(c.scratch, "l2"), 256, 256)
    qai = WORDS.astype(np.uint16).view(np.int16)
    # three dates: the words shifted by one bit position each, so that dates differ
    rolls = [0, 1, 4097]
    dates = ["20180105", "20180407", "20180909"]
    for d, k in zip(dates, rolls):
        boa = np.full((6, 256, 256), VAL, np.int16)
        cube.ard(0, 0, d, "LND08", boa, np.roll(qai.ravel(), k).reshape(256, 256))

    names = sorted(RULES)
    sets = [(r,) for r in names] + [tuple(names), tuple(reversed(names))]
    sets += list(itertools.combinations(names, 2))
    sets += [tuple(x for x in names if x != r) for r in names]
    if c.thorough:
        sets += [(b, a) for a, b in itertools.combinations(names, 2)]
        sets += list(itertools.combinations(names, 3))

    def one(rules, mod="TSA"):
        with fl.Work(c) as w:
            if mod == "TSA":
                p = fl.tsa(w, cube, SCREEN_QAI=" ".join(rules), OUTPUT_TSS="TRUE")
                try:
                    _, o = fl.products(w, p)
                    a = fl.pick(o, "_TSS.tif")
                except (fl.Failed, vlib.CheckError) as e:
                    return [f"rules {' '.join(rules)}: no time series written ({str(e)[-200:]})"]
                bad = []
                ex = excluded(rules)
                for i, k in enumerate(rolls):
                    want = np.where(np.roll(ex.ravel(), k).reshape(256, 256), -9999, VAL)
                    if a.shape[0] != 3:
                        bad.append(f"rules {' '.join(rules)}: {a.shape[0]} dates instead of 3")
                        break
                    d = np.argwhere(a[i] != want)
                    if len(d):
                        y, x = d[0]
                        q = int(np.roll(WORDS.ravel(), k).reshape(256, 256)[y, x])
                        bad.append(f"rules {' '.join(rules)}: quality word {q} ({q:016b}) of date {dates[i]} gives {a[i][y,x]}, expected {want[y,x]} ({len(d)} words wrong)")
                        break
                return bad
    res = fl.pmap(one, sets)
    for rules, bad in zip(sets, res):
        for b in bad:
            c.violation(b, {"rules": rules, "module": "TSA", "word": b})
    ev = len(sets) * 65536 * 3
    c.coverage = dict(states=len(sets) * 65536, transitions=ev, traces_validated_against_impl=len(sets),
                      exhaustive=True, rule_sets=len(sets), quality_words=65536,
                      rule="state = (rule set, quality word); transition = one screening decision of the real program on one date")
    c.sample(f"rules {sets[0]} word 1 -> nodata, word 2 -> {VAL}")
    c.sample(f"rules {sets[-1]}")


vlib.main(check, "H04", "model_checking")
