#!/usr/bin/python3
"""C02: datacube definitions, written, read and copied by concurrent processes."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fl, sched, vlib

WKT = fl.WKT
PROJ = [WKT, "EPSG:3035", "+proj=laea +lat_0=52 +lon_0=10 +x_0=4321000 +y_0=3210000 +ellps=GRS80 +units=m +no_defs",
        'GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]]',
        'PROJCS["a = b, #1",GEOGCS["x  y",DATUM["D = 1",SPHEROID["S",6378137,298]]],UNIT["metre",1]]']
VAL = ("-25", "60", "2456026.25", "4574919.5", "30000", "30000")


def fields(vals, proj):
    return "DEF " + " ".join(f"{float(v):.6f}" for v in vals) + " " + proj


def check(c):
    h = vlib.harness("harness/c02.cpp")
    so = sched.preload(c.scratch)
    tot = dict(states=0, transitions=0, schedules=0, redundant=0, exhaustive=True)
    W, R, C, K, S = "write", "read", "copy", "copyback", "start"
    ref = os.path.join(c.scratch, "ref")
    os.makedirs(ref)
    r = fl.run([h, W, ref, *VAL, WKT], timeout=60)
    if r.rc != 0:
        return c.violation(f"a datacube definition could not be written: {r.stdout[-300:]}", {"out": r.stdout})
    ref = open(os.path.join(ref, "datacube-definition.prj")).read()

    def scenario(name, roles, exist):
        def setup(d):
            os.makedirs(f"{d}/w/a")
            os.makedirs(f"{d}/w/b")
            if exist:
                open(f"{d}/w/a/datacube-definition.prj", "w").write(ref)
            if S in roles:
                os.rmdir(f"{d}/w/a")
            return [[h, x, f"{d}/w/a", *VAL, WKT] if x in (W, S) else [h, R, f"{d}/w/{'a' if x == R else 'b'}"] if x in (R, K) else [h, C, f"{d}/w/a", f"{d}/w/b"] for x in roles]

        def judge(d, r):
            if r.locks:
                return f"locks left: {r.locks}"
            for k, x in enumerate(roles):
                where = "b" if x in (C, K) else "a"
                if x in (W, S) and r.rcs[k] != 0:
                    return f"process {k} could not write: {r.out[k][-200:]}"
                src = "b" if x == K else "a"
                if x not in (W, S) and r.rcs[k] != 0:
                    # only a definition that nobody had begun to create may be missing
                    f = f"{src}/datacube-definition.prj"
                    made = [i for i, t in enumerate(r.trace) if t[2] == f and t[1] in ("fopen-w", "rename")]
                    mine = [i for i, t in enumerate(r.trace) if t[0] == k and t[2] == f]
                    if exist and src == "a" or not mine or made and made[0] < mine[-1]:
                        return f"process {k} could not {x}: {r.out[k][-200:]}"
                elif x not in (W, S) and fields(VAL, WKT) not in r.out[k]:
                    return f"process {k} obtained {r.out[k][-300:]!r}"
            for where in "ab":
                files = os.listdir(f"{d}/w/{where}")
                if any(x in (W, S) for x in roles) and where == "a" or exist and where == "a" or any(x == C and r.rcs[k] == 0 for k, x in enumerate(roles)):
                    if files != ["datacube-definition.prj"]:
                        return f"directory holds {files}"
                    if open(f"{d}/w/{where}/{files[0]}").read() != ref:
                        return "the definition differs from that of a single process"
                elif files:
                    return f"directory holds {files}"
            return None
        t = sched.explore(c, name, setup, judge, so, 20000)
        for k in ("states", "transitions", "schedules", "redundant"):
            tot[k] += t[k]
        tot["exhaustive"] &= t["exhaustive"]
        if os.environ.get("VF_MAXV"):
            print(name, t, flush=True)

    plan = [((W, W), 0), ((S, S), 0), ((W, R), 0), ((W, W), 1), ((W, R), 1), ((C, C), 1), ((C, K), 1), ((W, W, R), 0), ((W, C), 0), ((C, C, K), 1), ((W, W, W), 0), ((W, C, K), 0)]
    if c.thorough:
        plan += [((S, S, S), 0), ((W, R, R), 0), ((W, W, C), 0), ((C, C, C), 1), ((W, C, C), 0), ((W, W, R, R), 0), ((W, W, C, K), 0)]
    for roles, exist in plan:
        scenario("-".join(roles) + ("-existing" if exist else ""), roles, exist)
        if c.viol:
            break

    # a writer that dies before any of its operations leaves no or a complete definition
    crashes = 0
    for exist in (0, 1):
        n = 99
        k = 0
        while k <= n:
            d = os.path.join(c.scratch, f"crash{exist}-{k}")
            os.makedirs(f"{d}/w/a")
            if exist:
                open(f"{d}/w/a/datacube-definition.prj", "w").write(ref)
            r = sched.execute([[h, W, f"{d}/w/a", *VAL, WKT]], d, so, [], crash=k)
            if not r.rcs[0]:
                n = k                             # it came to its end
            f = f"{d}/w/a/datacube-definition.prj"
            if os.path.exists(f) and open(f).read() != ref or exist and not os.path.exists(f):
                c.violation(f"a writer that died after {k} operations left an incomplete definition", {"trace": r.trace, "existing": exist})
            crashes += 1
            k += 1

    # every combination of values is read back as written
    geo = [("-180", "90"), ("-25", "60"), ("0", "0"), ("179.999999", "-89.5"), ("1.123456", "-0.000001")]
    mp = [("0", "0"), ("-1234567.891234", "7654321.5"), ("2456026.25", "4574919.5"), ("0.000001", "-0.5")]
    ts = [("30000", "30000"), ("1", "2"), ("0.25", "0.125"), ("109800.5", "30000")]
    jobs = list(itertools.product(geo, mp, ts, PROJ))

    def one(k):
        g, m, t, p = jobs[k]
        d = os.path.join(c.scratch, f"v{k}")
        os.makedirs(d)
        v = (*g, *m, *t)
        a = fl.run([h, W, d, *v, p], timeout=60)
        b = fl.run([h, R, d], timeout=60)
        if a.rc != 0 or b.rc != 0 or fields(v, p) not in b.stdout.splitlines():
            c.violation(f"written {fields(v, p)!r}, read {b.stdout[-400:]!r}", {"values": v, "projection": p})
    fl.pmap(one, range(len(jobs)), 8)
    c.sample(f"{len(plan)} scenarios of up to {max(len(p[0]) for p in plan)} processes; {len(jobs)} definitions written and read back")
    c.coverage = dict(states=tot["states"] + len(jobs), transitions=tot["transitions"] + 2 * len(jobs), schedules=tot["schedules"], crash_points=crashes, redundant=tot["redundant"],
                      traces_validated_against_impl=tot["schedules"] + crashes + len(jobs), exhaustive=tot["exhaustive"],
                      rule="state = history of granted operations, or one definition; transition = one lock or file operation of a real process, or one definition written or read")


vlib.main(check, "C02", "model_checking")
