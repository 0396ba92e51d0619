#!/usr/bin/python3
"""Q01: the level 2 processing queue, under every interleaving of its jobs and for related paths."""
import itertools, os, re, select, shutil, socket, subprocess, sys, tarfile, threading, time, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import fl, vlib

PRM = """FILE_QUEUE = {d}/queue.txt
DIR_LEVEL2 = {d}/l2
DIR_TEMP = {d}/tmp
DIR_LOG = {d}/log
DIR_PROVENANCE = {d}/prov
NPROC = {n}
DELAY = 0
TIMEOUT_ZIP = 30
"""
CORE = """#!/bin/bash
# stand-in for the image processor: records what it was given
if [ "$1" == "-d" ]; then exit 0; fi
kind=no
if [ -f "$1/band.txt" ]; then kind=$(cat "$1/band.txt"); fi
echo "$1 $2 $kind" >> "{d}/core.log"
PATH="$PATH:{d}/bin"
exec verdict {d}/queue.txt "$1"
"""
VERDICT = """#!/bin/bash
case "$2" in *bad*) exit 1;; esac
exit 0
"""
GATED = ("lockfile-create", "lockfile-remove", "sed", "mv", "cp", "chmod", "rm", "cat", "tee", "awk", "gawk", "mawk", "grep", "ln", "perl", "python3", "verdict", "flock", "touch", "install")


class Site:
    """A level 2 environment in a directory of its own."""

    def __init__(self, d, lines, nproc, eol="\n"):
        self.d = d
        for s in ("l2", "tmp", "log", "prov", "bin", "data"):
            os.makedirs(f"{d}/{s}")
        src = os.path.join(os.path.dirname(fl.exe("force-level2")))
        shutil.copy(f"{src}/force-level2", f"{d}/bin/force-level2")
        os.symlink(f"{src}/force-misc", f"{d}/bin/force-misc")
        self.text(f"{d}/bin/force-l2ps", CORE.format(d=d), 0o755)
        self.text(f"{d}/bin/verdict", VERDICT, 0o755)
        self.text(f"{d}/l2.prm", PRM.format(d=d, n=nproc))
        self.lines = [(l[0], l[1]) for l in lines]
        for path, state in self.lines:
            self.image(path)
        self.sep = lines[0][2] if len(lines[0]) > 2 else " "
        self.text(f"{d}/queue.txt", "".join(f"{p}{self.sep}{s}{eol}" for p, s in self.lines), 0o664)

    @staticmethod
    def text(p, t, mode=0o644):
        with open(p, "w") as f:
            f.write(t)
        os.chmod(p, mode)

    def image(self, p):
        base = os.path.basename(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if "corrupt" in base:
            return self.text(p, "this is no archive\n")
        if base.endswith((".tar", ".tar.gz", ".zip")):
            t = p + ".d"
            os.makedirs(t)
            self.text(f"{t}/band.txt", base + "\n")
            if base.endswith(".zip"):
                with zipfile.ZipFile(p, "w") as z:
                    n = base[:-4]
                    z.write(f"{t}/band.txt", f"{n if n.endswith('.SAFE') else n + '.SAFE'}/band.txt")
            else:
                with tarfile.open(p, "w:gz" if base.endswith("gz") else "w") as z:
                    z.add(f"{t}/band.txt", "band.txt")
            shutil.rmtree(t)
        else:
            os.makedirs(p, exist_ok=True)
            self.text(f"{p}/band.txt", base + "\n")

    def judge(self, rc, out):
        """What is wrong after the batch run, or None."""
        q = open(f"{self.d}/queue.txt").read()
        queued = [p for p, s in self.lines if s == "QUEUED"]
        exp = "".join(f"{p} {s if s != 'QUEUED' else 'FAIL' if 'bad' in p or 'corrupt' in p else 'DONE'}\n" for p, s in self.lines)
        if q != exp:
            return f"queue after processing is {q!r} instead of {exp!r}".replace(self.d, "")
        log = open(f"{self.d}/core.log").read().splitlines() if os.path.exists(f"{self.d}/core.log") else []
        seen = sorted(l.split()[-1] for l in log)
        want = sorted(os.path.basename(p) for p in queued if "corrupt" not in p)
        if seen != want:
            return f"images handed to processing are {seen} instead of {want}".replace(self.d, "")
        if any(l.split()[1] != f"{self.d}/l2.prm" for l in log):
            return "the parameter file was not handed to processing"
        if os.stat(f"{self.d}/queue.txt").st_mode & 0o777 != 0o664 and queued:
            return f"permissions of the queue changed to {os.stat(f'{self.d}/queue.txt').st_mode & 0o777:o}"
        left = [f for f in os.listdir(self.d) if f.startswith("queue.txt") and f != "queue.txt"]
        if left:
            return f"left behind: {left}"
        left = [f for f in os.listdir(f"{self.d}/tmp") if not f.startswith("cpu-")]
        if left and not any("corrupt" in p for p in queued):
            return f"left in the temporary directory: {left}"
        for p in queued:
            if sum(os.path.basename(q) == os.path.basename(p) for q in queued) > 1:
                continue                          # both use one log
            f = f"{self.d}/log/{os.path.basename(p)}.log"
            if not os.path.exists(f) or p not in open(f).read():
                return f"no log of {os.path.basename(p)}"
        for p, s in self.lines:
            if not os.path.exists(p):
                return f"image {os.path.basename(p)} has gone"
        if (rc == 0) != bool(queued):
            return f"exit code {rc} with {len(queued)} queued images"
        return None


def env(site):
    return dict(vlib.ENV, HOME=site.d, PARALLEL_HOME=f"{site.d}/.parallel", LC_ALL="C")


def start(site, extra=None):
    os.makedirs(f"{site.d}/.parallel", exist_ok=True)
    open(f"{site.d}/.parallel/will-cite", "w").close()
    e = env(site)
    if extra:
        e.update(extra)
    return subprocess.Popen([f"{site.d}/bin/force-level2", f"{site.d}/l2.prm"], cwd=site.d, env=e, stdin=subprocess.DEVNULL,
                            stdout=open(f"{site.d}/out.txt", "w"), stderr=subprocess.STDOUT, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()


def plain(site):
    p = start(site)
    try:
        rc = p.wait(timeout=240)
    except subprocess.TimeoutExpired:
        stop(p)
        return "the batch run did not end"
    return site.judge(rc, open(f"{site.d}/out.txt").read())


class Slow(Exception):
    pass


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except (FileNotFoundError, ProcessLookupError):
        return False


def shell_of(pid):
    """The job: the ancestor started by the job runner."""
    chain = [pid]
    for _ in range(20):
        try:
            with open(f"/proc/{chain[-1]}/stat") as f:
                st = f.read()
        except (FileNotFoundError, ProcessLookupError):
            break
        chain.append(int(st.rsplit(")", 1)[1].split()[1]))
        try:
            comm = open(f"/proc/{chain[-1]}/comm").read().strip()
        except FileNotFoundError:
            break
        if comm in ("perl", "parallel"):
            return chain[-2]
    return None


def controlled(site, prefix, reduce, tools):
    """One execution under the schedule prefix; returns (choices, enabled counts, trace, verdict)."""
    sock = f"{site.d}/s"
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sock)
    srv.listen(64)
    p = start(site, dict(PATH=f"{tools}/shim:" + vlib.ENV["PATH"], GATE_SOCK=sock, GATE_SHIM=f"{tools}/shim", GATE_FILE=f"{site.d}/queue.txt", GATE_PRELOAD=f"{tools}/gate.so"))
    n = sum(s == "QUEUED" for _, s in site.lines)
    pend, open_, buf, job, holder = {}, {}, {}, {}, {}   # seq -> (conn, op, arg)
    choices, width, trace = [], [], []
    t0 = time.time()
    verdict = None
    try:
        while True:
            if time.time() - t0 > 200:
                raise Slow()
            rc = p.poll()
            if rc is not None:
                break
            ready, _, _ = select.select([srv] + list(open_), [], [], 0.005)
            for s in ready:
                if s is srv:
                    c, _ = srv.accept()
                    open_[c] = None
                    buf[c] = b""
                    continue
                data = s.recv(4096)
                if not data:                      # the command ended
                    del open_[s]
                    s.close()
                    continue
                buf[s] += data
                if buf[s].endswith(b"\n"):
                    seq, op, pid, arg = buf[s].decode().rstrip("\n").split("\t")
                    open_[s] = seq
                    pend[seq] = (s, op, arg)
                    if seq not in job:
                        job[seq] = shell_of(int(pid))
            if ready:
                continue
            # every job either waits for its turn or has ended
            busy = [s for s in job if s not in pend and (job[s] is None or alive(job[s]))]
            if busy or len(job) < n:
                continue
            if not pend:
                continue
            en = sorted(s for s, (c, op, arg) in pend.items() if not (op == "lockfile-create" and arg in holder))
            if not en:
                verdict = f"deadlock: {[(s, pend[s][1]) for s in sorted(pend)]}"
                break
            if reduce:
                free = [s for s in en if pend[s][1] == "verdict"]
                en = free[:1] or en
            k = len(choices)
            ch = prefix[k] if k < len(prefix) else 0
            if ch >= len(en):
                raise vlib.CheckError("schedule could not be repeated")
            s = en[ch]
            choices.append(ch)
            width.append(len(en))
            c, op, arg = pend.pop(s)
            trace.append(f"{s}:{op}")
            if op == "lockfile-create":
                holder[arg] = s
            elif op == "lockfile-remove":
                holder.pop(arg, None)
            c.send(b"g")
    finally:
        stop(p)
        for c in open_:
            c.close()
        srv.close()
    if verdict is None:
        verdict = site.judge(rc, open(f"{site.d}/out.txt").read())
        if verdict is None and holder:
            verdict = "the queue is still locked"
    return choices, width, trace, verdict


def explore(c, name, lines, reduce, limit, tools, tot):
    todo, lock, busy, n, stopit = [[]], threading.Lock(), [0], [0], [False]
    seen = set()

    def worker():
        while True:
            with lock:
                if stopit[0] or (not todo and not busy[0]):
                    return
                pre = todo.pop() if todo else None
                if pre is not None:
                    busy[0] += 1
                    n[0] += 1
                    k = n[0]
            if pre is None:
                time.sleep(0.02)
                continue
            new = []
            try:
                d = os.path.join(c.scratch, f"{name}-{k}")
                site = Site(d, [(l[0].replace("@", d + "/data"), *l[1:]) for l in lines], len(lines))
                ch, width, trace, v = controlled(site, pre, reduce, tools)
                new = [ch[:i] + [j] for i in range(len(pre), len(ch)) for j in range(1, width[i])]
                with lock:
                    tot["schedules"] += 1
                    tot["transitions"] += len(trace)
                    for i in range(len(trace) + 1):
                        seen.add(tuple(trace[:i]))
                    if v:
                        c.violation(f"{len(lines)} jobs, schedule {' '.join(trace)}: {v}", {"lines": lines, "schedule": ch, "trace": trace, "what": v})
                        stopit[0] = True
                shutil.rmtree(d, ignore_errors=True)
            except Slow:
                err.append("an execution was too slow")
                stopit[0] = True
            except Exception as e:
                err.append(repr(e))
                stopit[0] = True
            with lock:
                todo.extend(new)
                busy[0] -= 1
                if n[0] >= limit and todo:
                    full[0] = False
                    stopit[0] = True
    err, full = [], [True]
    ths = [threading.Thread(target=worker) for _ in range(8)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if err:
        raise vlib.CheckError(err[0])
    tot["states"] += len(seen)
    tot["full"] &= full[0]


# related paths: one contains, extends, resembles or pattern-matches the other
POOL = ["@/a/LC08.tar", "@/b@/a/LC08", "@/a/LC08.tar.gz", "@/a/LC08", "@/a/LC08xtar", "@/a/LC08.ta", "@/a/L+C08", "@/a/QUEUED/x1", "@/a/DONE", "@/a/LC(08)",
        "@/a/S2.zip", "@/a/S3.SAFE.zip", "@/a/bad1.tar", "@/a/corrupt1.tar", "@/a/corrupt2.zip", "@/a/L[C]08&", "@/a/LC08.tar2"]


def check(c):
    tools = os.path.join(c.scratch, "tools")
    os.makedirs(f"{tools}/shim")
    src = os.path.join(vlib.VERIF, "harness/gate.c")
    for cmd in (["gcc", "-O1", src, "-o", f"{tools}/gate"], ["gcc", "-O1", "-shared", "-fPIC", "-DGATE_LIB", src, "-o", f"{tools}/gate.so", "-ldl"]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise vlib.CheckError(r.stderr[-1000:])
    for t in GATED:
        os.symlink("../gate", f"{tools}/shim/{t}")
    tot = dict(states=0, transitions=0, schedules=0, full=True)
    fl.exe("force-level2")

    # interleavings
    explore(c, "two", [("@/a/LC08.tar", "QUEUED"), ("@/a/LC09bad", "QUEUED")], False, 4000, tools, tot)
    if not c.viol:
        explore(c, "three", [("@/a/LC08", "QUEUED"), ("@/a/old", "DONE"), ("@/a/LC09bad", "QUEUED"), ("@/a/LC07", "QUEUED")], True, 4000, tools, tot)
    if not c.viol and c.thorough:
        explore(c, "four", [(f"@/a/L{k}", "QUEUED") for k in range(4)], True, 4000, tools, tot)
        explore(c, "three-all", [(f"@/a/L{k}", "QUEUED") for k in range(3)], False, 4000, tools, tot)

    # related paths and states
    jobs = []
    for a, b in itertools.permutations(range(len(POOL)), 2):
        for sa, sb in (("QUEUED", "QUEUED"), ("QUEUED", "FAIL"), ("DONE", "QUEUED")) if c.thorough or (a < 11 and b < 11) else (("QUEUED", "QUEUED"),):
            jobs.append([(POOL[a], sa), (POOL[b], sb)])
    for a in range(len(POOL)):
        jobs += [[(POOL[a], s, sep)] for s in ("QUEUED", "DONE", "FAIL") for sep in (" ", "\t", "  ", " \t ")]
    jobs += [[(p, s) for p, s in zip(POOL[:4], st)] for st in itertools.product(("QUEUED", "DONE", "FAIL"), repeat=4)]
    jobs += [[(p, "QUEUED") for p in POOL]]

    def one(k):
        d = os.path.join(c.scratch, f"p{k}")
        lines = [(l[0].replace("@", d + "/data"), *l[1:]) for l in jobs[k]]
        # images of one name share a temporary directory and are not processed at once
        names = [re.sub(r"(\.SAFE)?\.(tar\.gz|tar|zip)$", "", os.path.basename(l[0])) for l in lines]
        site = Site(d, lines, 1 if k % 2 or len(set(names)) < len(names) else 2, "\r\n" if k % 5 == 4 else "\n")
        v = plain(site)
        if v:
            c.violation(f"queue of {[x[:2] for x in jobs[k]]}: {v}", {"lines": jobs[k], "what": v})
        shutil.rmtree(d, ignore_errors=True)
    fl.pmap(one, range(len(jobs)), 8)
    c.sample(f"two jobs: all interleavings; {len(jobs)} queues of related paths and states")
    c.coverage = dict(states=tot["states"] + len(jobs), transitions=tot["transitions"] + sum(len(j) for j in jobs), schedules=tot["schedules"], queues=len(jobs),
                      traces_validated_against_impl=tot["schedules"] + len(jobs), exhaustive=tot["full"],
                      rule="state = history of granted operations, or one queue; transition = one operation of a job of the real script, or one queue entry handled")


vlib.main(check, "Q01", "model_checking")
