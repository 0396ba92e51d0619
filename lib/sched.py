"""Stateless model checking of cooperating processes.

Every process runs the real code with harness/sched.c preloaded; it stops before each
operation on the watched directory. An execution is one order in which the processes
are granted their operations. All orders are covered: orders that differ only in
neighbouring operations on unrelated paths are executed once (sleep sets)."""
import os, select, shutil, socket, subprocess, threading, time
import vlib


class Failed(Exception):
    pass


def preload(scratch, src="harness/sched.c"):
    so = os.path.join(scratch, os.path.basename(src)[:-2] + ".so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", os.path.join(vlib.VERIF, src), "-o", so, "-ldl", "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise vlib.CheckError(r.stderr[-2000:])
    return so


class Result:
    """branch (alternatives), trace [(process, op, path)], rcs, deadlock, redundant, locks left."""


LOCK = ("lock", "lock-test", "lock-take", "unlock")
LOOK = ("access", "stat", "fopen-r", "open-read")


def related(a, b):
    """Whether the order of two operations can matter."""
    if a[0] in LOCK or b[0] in LOCK:
        return a[1] == b[1] and a[0] in LOCK and b[0] in LOCK and not a[0] == b[0] == "lock-test"
    if a[1] == b[1]:
        return not (a[0] in LOOK and b[0] in LOOK)
    return any(x[0] in ("mkdir", "rename", "unlink") and y[1].startswith(x[1] + "/") for x, y in ((a, b), (b, a)))


def execute(cmds, d, so, prefix, sleep=(), env=None, timeout=120, crash=None):
    """Run cmds (process k = cmds[k]) in d: first the processes in prefix, then the first that is not asleep."""
    sock = os.path.join(d, "s")
    watch = os.path.join(d, "w")
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sock)
    srv.listen(16)
    procs = []
    for k, cmd in enumerate(cmds):
        e = dict(vlib.ENV, OMP_NUM_THREADS="1", LD_PRELOAD=so, SCHED_SOCK=sock, SCHED_ID=str(k), SCHED_DIR=watch)
        if env:
            e.update(env)
        procs.append(subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=open(os.path.join(d, f"out{k}"), "w"),
                                      stderr=subprocess.STDOUT, start_new_session=True))
    conn, who, buf, pend, live = {}, {}, {}, {}, set(range(len(cmds)))
    holder, last, asleep = {}, None, set(sleep)
    r = Result()
    r.branch, r.trace, r.deadlock, r.redundant = [], [], None, False
    t0 = time.time()
    try:
        while live:
            # every live process must have announced its next operation
            while any(k not in pend for k in live):
                if time.time() - t0 > timeout:
                    raise Failed("an execution did not make progress")
                for s in select.select([srv] + list(who), [], [], 0.5)[0]:
                    if s is srv:
                        c, _ = srv.accept()
                        who[c], buf[c] = None, b""
                        continue
                    data = s.recv(8192)
                    if not data:
                        k = who.pop(s)
                        s.close()
                        if k is not None:
                            live.discard(k)
                            pend.pop(k, None)
                        continue
                    buf[s] += data
                    while b"\n" in buf[s]:
                        line, buf[s] = buf[s].split(b"\n", 1)
                        op, path = line.decode().split("\t", 1)
                        if op == "hello":
                            who[s] = int(path)
                            conn[int(path)] = s
                        else:
                            pend[who[s]] = (op, os.path.relpath(path, watch))
                for k in list(live):
                    if k not in conn and procs[k].poll() is not None:
                        live.discard(k)
            if not live:
                break
            en = [k for k in sorted(live) if not (pend[k][0] in ("lock", "lock-test") and pend[k][1] in holder)]
            if not en:
                r.deadlock = ", ".join(f"process {k} waits for {pend[k][1]}" for k in sorted(live))
                break
            i = len(r.trace)
            if crash is not None and i >= crash:
                break                             # all processes are killed here
            if i < len(prefix):
                k = prefix[i]
                if k not in en:
                    raise Failed("a schedule could not be repeated")
            else:
                cand = [k for k in en if k not in asleep]
                if not cand:
                    r.redundant = True            # covered by an order executed elsewhere
                    break
                if last in cand:
                    cand.remove(last)
                    cand.insert(0, last)
                done = [t[0] for t in r.trace]
                for j in range(1, len(cand)):
                    z = [q for q in sorted(asleep | set(cand[:j])) if not related(pend[q], pend[cand[j]])]
                    r.branch.append((done + [cand[j]], z))
                k = cand[0]
                asleep = {q for q in asleep if not related(pend[q], pend[k])}
            op, path = pend.pop(k)
            r.trace.append((k, op, path))
            last = k
            if op in ("lock", "lock-take"):
                holder[path] = k
            elif op == "unlock":
                holder.pop(path, None)
            conn[k].send(b"g")
    finally:
        for p in procs:
            if live and p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
        r.rcs = [p.wait() for p in procs]
        for s in who:
            s.close()
        srv.close()
    r.locks = dict(holder)
    r.out = [open(os.path.join(d, f"out{k}"), errors="replace").read() for k in range(len(cmds))]
    return r


def explore(c, name, setup, judge, so, limit=20000, env=None, workers=8):
    """setup(d) -> commands; judge(d, result) -> None or what is wrong. Returns counts."""
    todo, lock, busy, n = [([], [])], threading.Lock(), [0], [0]
    seen, tot = set(), dict(states=0, transitions=0, schedules=0, redundant=0, exhaustive=True)
    stop, err = [False], []

    def worker():
        while True:
            with lock:
                if stop[0] or (not todo and not busy[0]):
                    return
                pre = todo.pop() if todo else None
                if pre is not None:
                    busy[0] += 1
                    n[0] += 1
                    i = n[0]
            if pre is None:
                time.sleep(0.002)
                continue
            new = []
            d = os.path.join(c.scratch, f"{name}-{i}")
            try:
                os.makedirs(os.path.join(d, "w"))
                r = execute(setup(d), d, so, pre[0], pre[1], env)
                new = r.branch
                v = None if r.redundant else f"deadlock: {r.deadlock}" if r.deadlock else judge(d, r)
                with lock:
                    tot["redundant" if r.redundant else "schedules"] += 1
                    tot["transitions"] += len(r.trace)
                    h = 0
                    seen.add(h)
                    for t in r.trace:
                        h = hash((h, t))
                        seen.add(h)
                    if v:
                        c.violation(f"{name}: {v}; schedule {' '.join(f'{k}:{op}' for k, op, _ in r.trace)}",
                                    {"name": name, "schedule": [t[0] for t in r.trace], "trace": r.trace, "what": v, "out": r.out})
                        stop[0] = True
            except Exception as e:
                err.append(f"{name}: {e!r}")
                stop[0] = True
            shutil.rmtree(d, ignore_errors=True)
            with lock:
                todo.extend(new)
                busy[0] -= 1
                if n[0] >= limit and todo:
                    tot["exhaustive"] = False
                    stop[0] = True
    ths = [threading.Thread(target=worker) for _ in range(workers)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if err:
        raise vlib.CheckError(err[0])
    tot["states"] = len(seen)
    return tot
