#!/usr/bin/python3
"""A02: parameter files made from replacement variables."""
import itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fl, vlib

VAL = [["2018", "2019", "2020"], ["NDVI", "EVI", "TC-WET"], ["/data/x", "/data/y/z.tif", "a_b"]]
KEYS = [("YEAR", "INDEX", "DIR"), ("A", "AA", "BA")]


def body(keys):
    """lines of a parameter file and what each of them holds: text and keys"""
    b = ["++PARAM_TSA_START++", "# comment {%" + keys[0] + "%}", "FIXED = 1 2 3"]
    b += [f"P{i} = x{{%{k}%}} {{%{k}%}}" for i, k in enumerate(keys)]
    b += ["MIX = " + "_".join("{%" + k + "%}" for k in keys[::-1]), "UNKNOWN = {%OTHER%} %" + keys[0] + "%", "++PARAM_TSA_END++"]
    return b


def check(c):
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, files=0)
    jobs = []
    for ks in KEYS:
        for n in (1, 2, 3):
            for lens in itertools.product((1, 2, 3), repeat=n):
                for perm in itertools.permutations(range(n)):
                    for comb in ("all", "paired", None):
                        for blank, dest in ((" ", False), ("  ", True)):
                            jobs.append((ks, lens, perm, comb, blank, dest))

    def one(j):
        ks, lens, perm, comb, blank, dest = j
        with fl.Work(c) as w:
            keys = [ks[i] for i in perm]
            vals = [VAL[i][:lens[i]] for i in perm]
            d, o = os.path.join(w, "in"), os.path.join(w, "out")
            os.makedirs(d)
            os.makedirs(o)
            text = "".join(f"%{k}%: {blank.join(v)}\n" for k, v in zip(keys, vals)) + "\n" + "\n".join(body(keys)) + "\n"
            p = os.path.join(d, "test.prm")
            open(p, "w").write(text)
            r = fl.run([fl.exe("force-magic-parameters")] + (["-c", comb] if comb else []) + (["-o", o] if dest else []) + [p])
            if open(p).read() != text:
                return "the given file was changed", 0
            got = {f: open(os.path.join(x, f)).read() for x in (d, o) for f in os.listdir(x) if (x, f) != (d, "test.prm")}
            where = {x for x in (d, o) for f in os.listdir(x) if (x, f) != (d, "test.prm")}
        if comb == "paired":
            if len(set(lens)) > 1:
                return (None if r.rc > 0 and not got else f"vectors of different length: exit code {r.rc}, {len(got)} files"), 0
            e = list(zip(*vals))
        else:
            e = list(itertools.product(*vals))
        if r.rc:
            return f"exit code {r.rc}: {r.stdout[-300:]}", 0
        if where != {o if dest else d}:
            return "files in another directory", 0
        if sorted(got) != [f"test_{i + 1:05d}.prm" for i in range(len(e))]:
            return f"{len(got)} files {sorted(got)[:3]}, {len(e)} expected", 0
        x = []
        for v in e:
            t = "\n".join(body(keys)) + "\n"
            for k, y in zip(keys, v):
                t = t.replace("{%" + k + "%}", y)
            x.append(t)
        if sorted(x) != sorted(got.values()):
            g = sorted(set(got.values()) - set(x))
            return f"{len(set(got.values()))} different files; {[l for l in (g or [''])[0].splitlines() if l not in set(x[0].splitlines())][:4]}", 0
        return None, len(e)

    seen = set()
    for j, (bad, n) in zip(jobs, fl.pmap(one, jobs)):
        cov["files"] += n
        cov["traces_validated_against_impl"] += 1
        cov["transitions"] += sum(j[1])
        seen.update((j[0], j[1][:i], j[2], j[3:]) for i in range(len(j[1]) + 1))
        if bad:
            c.violation(f"{dict((j[0][i], VAL[i][:j[1][i]]) for i in j[2])}, combination {j[3] or 'by default'}: {bad}", {"keys": j[0], "lengths": j[1], "order": j[2], "combination": j[3]})
    # refused: other combination types, no replacement vectors, missing files and directories
    plain = "\n".join(body(("A",))) + "\n"
    for what, text, args in (("unknown combination type", "%A%: 1 2\n" + plain, ["-c", "other"]), ("no replacement vector", plain, []), ("vector after the start of the block", plain + "%A%: 1 2\n", []),
                             ("missing file", None, []), ("missing output directory", "%A%: 1 2\n" + plain, ["-o", "absent"])):
        with fl.Work(c) as w:
            p = os.path.join(w, "test.prm")
            if text:
                open(p, "w").write(text)
            r = fl.run([fl.exe("force-magic-parameters")] + args + [p], cwd=w)
            cov["traces_validated_against_impl"] += 1
            left = sorted(os.listdir(w))
            if r.rc <= 0 or left != (["test.prm"] if text else []) or text and open(p).read() != text:
                c.violation(f"{what} is not refused: exit code {r.rc}, files {left}", {"what": what})
    cov["states"] = len(seen)
    c.sample(str(jobs[len(jobs) // 2]))
    c.coverage = dict(cov, exhaustive=True, rule="state = replacement vectors given so far, order and options; every complete set is given to the real program")


vlib.main(check, "A02", "model_checking")
