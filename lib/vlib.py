"""Shared machinery of the checks: building /repo, scratch space, evidence, verdicts."""
import atexit, fcntl, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")

ENV = dict(os.environ)
ENV.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PATH="/usr/bin:/bin:/usr/sbin:/sbin",
           HOME="/root", TZ="UTC", OMP_WAIT_POLICY="passive")
for k in ("MAKEFLAGS", "MFLAGS", "OMP_NUM_THREADS", "GDAL_NUM_THREADS"):
    ENV.pop(k, None)
# spinning idle OpenMP threads would make eight concurrent runs crawl
ENV["GOMP_SPINCOUNT"] = "0"
# the programs allocate and free many large records; keep the pages
ENV.update(MALLOC_TOP_PAD_="67108864", MALLOC_MMAP_THRESHOLD_="1073741824", MALLOC_TRIM_THRESHOLD_="1073741824")

VARIANTS = {
    "opt": "-O3 -Wall -fopenmp",
    "asan": "-O1 -g -w -fopenmp -fsanitize=address -fno-omit-frame-pointer",
}


class CheckError(Exception):
    """The check itself could not be carried out."""


def tree_hash():
    h = hashlib.sha1()
    for top in ("src", "build", "bash", "misc", "python", "rstats", "Makefile"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fp:
                h.update(fp.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def build(variant="opt", targets=("exe",)):
    """Compile /repo's working tree out of tree with its own makefiles.

    The result is cached under the hash of the sources it was made from."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        th = tree_hash()
        d = os.path.join(BUILD, f"{variant}-{th}")
        if os.path.exists(os.path.join(d, "done")):
            os.utime(os.path.join(d, "done"))
            return d
        old = sorted((e for e in os.listdir(BUILD) if e.startswith(variant + "-")),
                     key=lambda e: os.path.getmtime(os.path.join(BUILD, e)))
        for e in old[:-1]:
            shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cmd = ["make", "-j8", "-o", "check-tools", f"OBJDIR={d}/obj", f"BINDIR={d}/bin",
               f"CFLAGS={VARIANTS[variant]}", "prepare", *targets]
        r = subprocess.run(cmd, cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise CheckError("build of /repo failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        for sub in ("bash", "rstats", "python"):
            for f in os.listdir(os.path.join(REPO, sub)):
                src = os.path.join(REPO, sub, f)
                if os.path.isfile(src):
                    dst = os.path.join(d, "bin", os.path.splitext(f)[0])
                    shutil.copy(src, dst)
                    os.chmod(dst, 0o755)
        shutil.copytree(os.path.join(REPO, "misc"), os.path.join(d, "bin", "force-misc"), dirs_exist_ok=True)
        open(os.path.join(d, "done"), "w").close()
        return d
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def sh(*args):
    return subprocess.run(args, env=ENV, stdout=subprocess.PIPE, check=True).stdout.decode().split()


LIBS_CACHE = {}


def link_libs():
    if not LIBS_CACHE:
        py = sh("python3-config", "--ldflags", "--libs", "--embed")
        rl = [w for w in sh("R", "CMD", "config", "--ldflags") if w.startswith("-L")] + ["-lR"]
        LIBS_CACHE["cflags"] = sh("gdal-config", "--cflags") + sh("gsl-config", "--cflags")
        LIBS_CACHE["libs"] = (sh("gdal-config", "--libs") + sh("gsl-config", "--libs") +
                              sh("pkg-config", "--libs", "opencv4") + py + rl + ["-lcurl", "-ljansson", "-lm", "-ldl", "-lpthread"])
    return LIBS_CACHE


def harness(src, variant="opt", extra=(), lang="c++", name=None, omit=(), rename=()):
    """Compile a harness from /verif and link it with the objects built from /repo."""
    bd = build(variant)
    src = os.path.join(VERIF, src)
    key = hashlib.sha1(open(src, "rb").read())
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith((".h", ".hpp")):
            key.update(open(os.path.join(hd, f), "rb").read())
    key.update(repr((extra, lang, omit, rename)).encode())
    name = name or os.path.splitext(os.path.basename(src))[0]
    out = os.path.join(bd, f"h-{name}-{key.hexdigest()[:10]}")
    if not os.path.exists(os.path.join(bd, "force-misc")):
        os.symlink("bin/force-misc", os.path.join(bd, "force-misc"))   # looked up beside the program
    if os.path.exists(out):
        return out
    lib = os.path.join(bd, "libforce.a")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(lib):
            objs = [os.path.join(bd, "obj", o) for o in sorted(os.listdir(os.path.join(bd, "obj"))) if o.endswith(".o")]
            subprocess.run(["ar", "rcs", lib + ".tmp"] + objs, check=True, env=ENV)
            os.rename(lib + ".tmp", lib)
    L = link_libs()
    flags = [f for f in VARIANTS[variant].split() if f not in ("-Wall", "-O3")] + ["-O2", "-w", "-g"]
    cc = "g++" if lang == "c++" else "gcc"
    std = ["-std=c++17"] if lang == "c++" else []
    cmd = [cc, *std, *flags, "-I" + os.path.join(REPO, "src/modules"), "-I" + os.path.join(REPO, "src"),
           *L["cflags"], *extra, src, "-o", out + ".tmp", lib, "-Wl,--as-needed", *L["libs"], "-lstdc++"]
    r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise CheckError("harness does not build:\n" + r.stdout.decode(errors="replace")[-4000:])
    os.rename(out + ".tmp", out)
    return out


def load_known(prop):
    """Known findings of a property: {key: text}; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 3)
            if parts[1] == "property=" + prop and parts[2].startswith("key="):
                out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.known = load_known(prop)
        self.hit = {}
        self.viol = []
        self.coverage = {}
        self.assumptions = []
        self.samples = []
        os.makedirs(EVID, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{prop}-", dir="/tmp")
        atexit.register(shutil.rmtree, self.scratch, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(str(s)[:300])

    def violation(self, what, replay, key=None):
        """what: one-line text; replay: JSON-able description; key: identity of the finding."""
        if key is not None and key in self.known:
            self.hit[key] = self.hit.get(key, 0) + 1
            return False
        self.viol.append((what, replay, key))
        return True

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        for k in sorted(self.hit):
            print(f"KNOWN-FINDING: property={self.prop} {self.known[k]}")
        vs = []
        for i, (what, replay, key) in enumerate(self.viol[:int(os.environ.get("VF_MAXV", "5"))]):
            p = os.path.join(EVID, f"replay-{self.prop}-{i}.json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "key": key, "replay": replay}, f, indent=1, default=str)
            vs.append({"what": what, "replay": p})
        cov = dict(self.coverage)
        cov["samples"] = self.samples
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        ev["violations"] = len(self.viol)
        tmp = os.path.join(EVID, f".{self.prop}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, os.path.join(EVID, f"{self.prop}.json"))
        for v in vs:
            print(v["what"])
            print(f"VIOLATION property={self.prop} replay={v['replay']}")
        if len(self.viol) > 5:
            print(f"({len(self.viol)} violations in all)")
        print(f"{self.prop} {self.tier}: {'VIOLATED' if vs else 'held'}; "
              f"{ {k: v for k, v in self.coverage.items() if isinstance(v, (int, float, bool))} } "
              f"in {time.time()-self.t0:.1f} s")
        sys.stdout.flush()
        sys.exit(1 if vs else 0)


class ProgramError(Exception):
    """A program under test failed, hung or produced something that cannot be interpreted."""


CHILDREN = set()      # running programs
HUNG = []             # commands that did not end
LIMIT = 840           # seconds; a check is given 900


def overtime(c):
    """Runs that do not end must not keep the verdict from being given."""
    for p in list(CHILDREN):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    for h in HUNG[:1]:
        c.violation(f"a program does not end: {h}", {"command": h})
    rc = 2
    if c.viol:
        try:
            c.finish()
        except SystemExit as e:
            rc = e.code
    else:
        print(f"ERROR: not done after {LIMIT} s", file=sys.stderr)
    shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def main(fn, prop, level):
    c = Check(prop, level)
    if not c.thorough:
        t = threading.Timer(LIMIT, overtime, (c,))
        t.daemon = True
        t.start()
    try:
        fn(c)
    except CheckError as e:
        if HUNG or c.viol:
            for h in HUNG[:1]:
                c.violation(f"a program does not end: {h}", {"command": h})
            c.finish()
        print(f"ERROR: {e}", file=sys.stderr)
        sys.exit(2)
    except (ProgramError, LookupError, ValueError, ArithmeticError, RuntimeError) as e:
        # products that are missing or of another form than on any correct tree
        traceback.print_exc()
        c.violation(f"unexpected result: {type(e).__name__} {str(e)[:500]}", {"error": traceback.format_exc()})
    except Exception as e:
        traceback.print_exc()
        if not (isinstance(e, FileNotFoundError) and str(e.filename).startswith(c.scratch)):
            sys.exit(2)
        c.violation(f"file not written: {os.path.relpath(e.filename, c.scratch)}", {"error": traceback.format_exc()})
    c.finish()
