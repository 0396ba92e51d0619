#!/usr/bin/python3
"""H02: the stages of streaming runs under a scheduler, all schedules with a limited number of delays."""
import os, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fl, mods, vlib

ALLOCS = 100        # stops at allocations per run


def check(c):
    so = os.path.join(c.scratch, "stream.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", os.path.join(vlib.VERIF, "harness/stream.c"), "-o", so, "-ldl", "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise vlib.CheckError(r.stderr)
    one = mods.level2(os.path.join(c.scratch, "l2"), 4, 4, ((0, 0),), dates=mods.DATES[-3:])
    two = mods.level2(os.path.join(c.scratch, "l2b"), 2, 2, ((0, 0), (1, 0)), dates=mods.DATES[-3:])
    aux = mods.models(os.path.join(c.scratch, "aux"))
    mods.udf(aux)
    with open(os.path.join(aux, "lib0.txt"), "w") as f:
        f.write("".join(f"{i*317%900} {i*531%900} {i*211%900}\n" for i in range(1, 5)))
    with open(os.path.join(aux, "pts.csv"), "w") as f:
        ul = one.ul(0, 0)
        f.write("".join(f"{ul[0]+10*x+5},{ul[1]-10*y-5},{4*y+x}\n" for y in range(4) for x in range(4)))
    # one tile in four blocks, two tiles (one after the other) in two
    P = dict(TSA=dict(INDEX="NDVI", **{k: "FALSE" for k in mods.ALL_TSA if k not in ("OUTPUT_TSS", "OUTPUT_FBY")}),
             LSM=dict(LSM="AVG STD"), TXT={}, CSO=dict(CSO="NUM AVG"), LEVEL3={}, RFC={}, SVR={}, LIB={}, SMP={}, **{"UDF-CHUNK": {}})
    plan = [(m, "B", 1, P[m]) for m in P] + [(m, "T", 1, P[m]) for m in ("TSA", "CSO", "RFC", "SMP")]
    if c.thorough:
        plan += [(m, "B", 2, P[m]) for m in ("LIB", "SMP")]

    def run(job, delays, order, alloc, tile=None):
        """tile: reference, this tile in one block and without streaming"""
        m, lay, _, kw = job
        sched = tile is None
        with fl.Work(c) as w:
            kw = dict(kw, CHUNK_SIZE="40 10", NTHREAD_READ=1, NTHREAD_COMPUTE=1, NTHREAD_WRITE=1, STREAMING="TRUE")
            if lay == "T":
                kw.update(CHUNK_SIZE="20 10", X_TILE_RANGE="0 1", Y_TILE_RANGE="0 0")
            if not sched:
                # textures of blocks smaller than the search radius are not those of the whole tile
                kw.update(CHUNK_SIZE="40 10" if m == "TXT" else "40 40" if lay == "B" else "20 20", X_TILE_RANGE=f"{tile} {tile}", STREAMING="FALSE")
            p = mods.prm(m, w, one if lay == "B" else two, aux, **kw)
            env = dict(OMP_NUM_THREADS="1")
            if sched:
                env.update(LD_PRELOAD=so, STREAM_LOG=w + "/order", STREAM_DELAY=",".join(map(str, delays)), STREAM_ORDER=order, STREAM_ALLOC=str(alloc))
            r = fl.hl(p, os.path.join(w, "run.prm"), env=env, timeout=60)
            log = []
            if sched and os.path.exists(w + "/order"):
                log = [l.split() for l in open(w + "/order").read().splitlines()]
            if r.rc:
                return f"exit code {r.rc}: {r.stdout[-300:]}", log
            o = {}
            for rel, f in fl.outputs(w + "/hl").items():
                if rel.endswith(".tif"):
                    o[rel] = (fl.band_names(f), fl.read_tif(f).tobytes())
                else:
                    o[rel] = sorted(open(f, "rb").read().splitlines())
            return o, log

    def judge(o, ref):
        if isinstance(o, str):
            return o
        if sorted(o) != sorted(ref):
            return f"product files differ: missing {sorted(set(ref)-set(o))[:3]} surplus {sorted(set(o)-set(ref))[:3]}"
        bad = [k for k in ref if o[k] != ref[k]]
        return bad and f"{bad[0]} differs from that of the run without streaming" or None

    tot = dict(states=0, transitions=0, schedules=0)
    free = []
    orders = ("012", "210") if c.thorough else ("012",)
    def explore(job, name, ref):
        m, lay, bound, _ = job
        o, log = run(job, (), "012", 1)
        if not any(l == ["block"] for l in log):
            free.append(name)         # stages are not three threads of a team any more: nothing to hold
            w = judge(o, ref)
            if w:
                c.violation(f"{name}: {w}", {"job": name})
            return
        alloc = 1 + sum(l[-1] == "alloc" for l in log) // ALLOCS if bound == 1 else 0
        n = 0
        for order in orders:
            seen = set()
            todo = [()]
            while todo:
                nxt = []
                for d, (o, log) in zip(todo, fl.pmap(lambda d: run(job, d, order, alloc), todo)):
                    n += 1
                    ev = [l for l in log if len(l) == 4]
                    tot["transitions"] += len(ev)
                    h = ()
                    for l in ev:
                        h = hash((h, l[2], l[3]))
                        seen.add(h)
                    w = judge(o, ref)
                    if w:
                        c.violation(f"{name}, stage order {order}, delays at {list(d)}: {w}",
                                    {"job": name, "parameters": job[3], "order": order, "delays": d, "operations": [" ".join(l) for l in ev[max(0, (d or (0,))[-1]-10):(d or (0,))[-1]+20]]})
                    if len(d) < (bound if not d or len(set(d)) == len(d) else 0):
                        for l in ev:
                            s, live = int(l[0]), int(l[1])
                            if d and s <= d[-1]:
                                continue
                            nxt += [d + (s,) * j for j in range(1, live)]
                todo = nxt
                if len(c.viol) > 20:
                    todo = []
            tot["states"] += len(seen)
        tot["schedules"] += n
        print(name, n, "schedules, one allocation of", alloc, round(time.time() - c.t0), "s", flush=True)

    for job in plan:
        m, lay, bound, _ = job
        name = f"{m} {'four blocks of one tile' if lay == 'B' else 'two tiles of two blocks'}"
        ref = {}
        for tile in (0, 1)[:1 + (lay == "T")]:
            o, _ = run(job, (), "012", 0, tile)
            if isinstance(o, str) or not o:
                c.violation(f"{name}: run without streaming failed: {o}", {"job": name})
                break
            for k, v in o.items():
                ref[k] = sorted(set(ref[k] + v)) if m == "SMP" and k in ref and k.endswith(".txt") and "CITE" not in k else v
        else:
            explore(job, name, ref)

    if free:
        print("not controlled:", free)
    c.sample(f"{len(plan)} runs; delays at every file operation, critical section and up to {ALLOCS} allocations")
    c.coverage = dict(tot, traces_validated_against_impl=tot["schedules"], scenarios=len(plan), uncontrolled=len(free), exhaustive=not free,
                      rule="state = history of operations of the three stages; transition = one operation of a stage; every schedule is executed by the real program")


vlib.main(check, "H02", "model_checking")
