"""Build, run, shrink, report. Shared by every check.

A worker (engine, mpi, pyworker) has three modes with one protocol:
  run ... REPORT      generate and execute cases; REPORT receives progress, then one final line
  gen ... COUNT       print the text of a session's first COUNT cases
  play FILE REPORT    execute a session text
Session text: "case K" headers followed by lines; REPORT ends with "OK {json}", "FAIL k msg" or "INVALID k msg".
"""
import ctypes, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/vp/venv/bin/python"
PYBIND = "/opt/vp/deps/pybind11-2.10.3/pybind11/include"
NPROC = 8


class CheckError(Exception):
    """The check itself could not run (no verdict)."""


# ------------------------------------------------------------------ build
def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash():
    h = hashlib.sha1()
    for pat in ("include/**/*", "src/*.cpp", "src/*.txt", "qdd/*.cpp", "qdd/*.txt", "qdd/*.py"):
        for p in sorted(glob.glob(os.path.join(REPO, pat), recursive=True)):
            if os.path.isfile(p):
                h.update(p.encode()); h.update(read(p))
    for p in sorted(glob.glob(os.path.join(VERIF, "engine/*")) + glob.glob(os.path.join(VERIF, "py/mpi4py/*")) + [os.path.abspath(__file__)]):
        h.update(read(p))
    return h.hexdigest()[:16]


def lib_sources(kind):
    cm = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    m = re.search(r"add_library\(\s*engine\s+\w+\s+([^)]*)\)", cm)
    src = m.group(1).split() if m else ["dd.cpp"]
    if kind == "mt":
        m = re.search(r"target_sources\(\s*engine\s+\w+\s+([^)]*)\)", cm)
        src = src + (m.group(1).split() if m else ["task.cpp"])
    return [os.path.join(REPO, "src", s) for s in dict.fromkeys(src) if s.endswith(".cpp")]


INC = ["-I%s/include" % REPO, "-I/usr/include/eigen3", "-I/usr/include/eigen3/unsupported",
       "-DEIGEN_DONT_VECTORIZE", "-D_GUN_SOURCE", "-std=gnu++17", "-w"]


def small(buckets, alloc):
    return ["-DQDD_VERIF_NBUCKETS=%d" % buckets, "-DQDD_VERIF_ALLOC=%d" % alloc]


# name -> (compiler, kind, library flags, harness file, harness flags, link flags)
VARIANTS = {
    "prod": ("g++", "serial", ["-O2"], "engine.cpp", ["-O1"], []),
    "tiny": ("g++", "serial", ["-O2"] + small(1024, 8), "engine.cpp", ["-O1"], []),
    "mid": ("g++", "serial", ["-O2"] + small(16384, 64), "engine.cpp", ["-O1"], []),
    "ser": ("mpicxx", "mpi", ["-O2", "-DisMPI"] + small(4096, 32), "engine.cpp", ["-O1", "-DisMPI", "-DENGINE_MPI"],
            ["-lboost_mpi", "-lboost_serialization"]),
    "mpi": ("mpicxx", "mpi", ["-O2", "-DisMPI"] + small(4096, 32), "mpi.cpp", ["-O1", "-DisMPI"],
            ["-lboost_mpi", "-lboost_serialization"]),
    "mt": ("g++", "mt", ["-O2", "-DisMT"] + small(16384, 64), "engine.cpp", ["-O1", "-DisMT", "-DENGINE_MT"],
           ["-ltbb", "-lboost_fiber", "-lboost_context", "-lpthread"]),
    "mtsmall": ("g++", "mt", ["-O2", "-DisMT"] + small(2048, 16), "engine.cpp", ["-O1", "-DisMT", "-DENGINE_MT"],
                ["-ltbb", "-lboost_fiber", "-lboost_context", "-lpthread"]),
    "fuzz": ("clang++", "serial", ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=undefined"] + small(512, 8),
             "engine.cpp", ["-O1", "-g1", "-DENGINE_FUZZ", "-fsanitize=fuzzer-no-link,address"],
             ["-fsanitize=fuzzer,address,undefined"]),
    "asan": ("g++", "serial", ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + small(512, 8),
             "engine.cpp", ["-O1"], ["-fsanitize=address,undefined"]),
    "asanser": ("mpicxx", "mpi", ["-O1", "-g1", "-DisMPI", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + small(512, 8),
                "engine.cpp", ["-O1", "-DisMPI", "-DENGINE_MPI"], ["-fsanitize=address,undefined", "-lboost_mpi", "-lboost_serialization"]),
}

# name -> (compiler, kind, flags, link flags): the Python package with its extension module
PYVARIANTS = {
    "py": ("g++", "serial", small(1024, 16), []),
    "pyprod": ("g++", "serial", [], []),
    "pympi": ("mpicxx", "mpi", ["-DisMPI"] + small(1024, 16), ["-lboost_mpi", "-lboost_serialization"]),
    "pymt": ("g++", "mt", ["-DisMT"] + small(2048, 16), ["-ltbb", "-lboost_fiber", "-lboost_context", "-lpthread"]),
}


def sh(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise CheckError("%s failed" % what)


def build(names):
    """Compile the given variants from the repository's current tree; returns name -> binary."""
    d = os.path.join(BUILD, tree_hash())
    os.makedirs(d, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, "*")):
        if old != d and os.path.isdir(old) and os.environ.get("VERIF_KEEP_BUILDS") is None:
            shutil.rmtree(old, ignore_errors=True)
    objs, jobs, links = {}, {}, []

    def obj(cxx, flags, src):
        key = hashlib.sha1(" ".join([cxx] + flags + [src]).encode()).hexdigest()[:12]
        o = os.path.join(d, os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(o) and o not in jobs:
            jobs[o] = [cxx] + INC + flags + ["-c", src, "-o", o]
        return o
    for n in names:
        if n in PYVARIANTS:
            continue
        cxx, kind, lf, har, hf, link = VARIANTS[n]
        os_ = [obj(cxx, hf, os.path.join(VERIF, "engine", har))] + [obj(cxx, lf, s) for s in lib_sources(kind)]
        links.append((n, [cxx] + os_ + link))
    res = {}
    for n in names:
        if n not in PYVARIANTS:
            continue
        cxx, kind, fl, link = PYVARIANTS[n]
        pkg = os.path.join(d, n + "pkg", "qdd")
        flags = ["-O2", "-fPIC", "-fvisibility=hidden", "-I" + PYBIND, "-I/usr/include/python3.12"] + fl
        po = [obj(cxx, flags, os.path.join(REPO, "qdd/bindings.cpp"))] + [obj(cxx, flags, s) for s in lib_sources(kind)]
        os.makedirs(pkg, exist_ok=True)
        for p in glob.glob(os.path.join(REPO, "qdd/*.py")):
            shutil.copy(p, pkg)
        links.append((n, [cxx, "-shared"] + po + link))
        if kind == "mpi":  # mpi4py is not installed: the part of it that qdd uses
            m = os.path.join(d, n + "pkg", "mpi4py")
            os.makedirs(m, exist_ok=True)
            for p in glob.glob(os.path.join(VERIF, "py/mpi4py/*.py")):
                shutil.copy(p, m)
            so = os.path.join(m, "libvmpi.so")
            if not os.path.exists(so):
                sh(["mpicxx", "-x", "c++", "-O1", "-fPIC", "-shared", os.path.join(VERIF, "py/mpi4py/vmpi.c"), "-o", so], "compiling the mpi4py stand-in")
    with ThreadPoolExecutor(NPROC) as ex:
        def comp(item):
            o, cmd = item
            tmp = o + ".%d.tmp" % os.getpid()
            sh(cmd[:-1] + [tmp], "compiling " + os.path.basename(o))
            os.replace(tmp, o)
        list(ex.map(comp, sorted(jobs.items(), key=lambda x: "engine" not in x[0])))

        def lk(item):
            n, cmd = item
            b = os.path.join(d, n + "pkg/qdd/pyQDD.so" if n in PYVARIANTS else n)
            if not os.path.exists(b):
                sh(cmd + ["-o", b + ".tmp"], "linking " + n)
                os.replace(b + ".tmp", b)
            return n, b
        res.update(dict(ex.map(lk, links)))
    return res


# ------------------------------------------------------------------ processes
try:
    _libc = ctypes.CDLL(None)
except OSError:
    _libc = None


def limits(mem):
    def f():
        try:
            _libc.personality(0x0040000)  # no address randomisation: table layouts repeat
        except Exception:
            pass
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def scratch():
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return d


def tail_report(path):
    try:
        t = open(path, errors="replace").read()
    except OSError:
        return "", ""
    return t, t


class Result:
    """status: ok fail crash hang invalid error"""
    def __init__(self, status, case=-1, msg="", data=None, err=""):
        self.status, self.case, self.msg, self.data, self.err = status, case, msg, data, err

    @property
    def bad(self):
        return self.status in ("fail", "crash", "hang")


def parse_report(paths, rc, err, timed_out):
    case = -1
    data = None
    inv = None
    for p in paths:
        try:
            t = open(p, errors="replace").read()
        except OSError:
            continue
        m = re.search(r"^FAIL (-?\d+) (.*?)(?:\nAT (.*?))?$", t, re.M | re.S)
        if m and "\n" in m.group(2):
            m = re.search(r"^FAIL (-?\d+) (.*)", t, re.M)
            at = re.search(r"^AT (.*)", t, re.M)
            return Result("fail", int(m.group(1)), m.group(2) + (" [at: %s]" % at.group(1)[:200] if at else ""))
        if m:
            return Result("fail", int(m.group(1)), m.group(2) + (" [at: %s]" % (m.group(3) or "").split("\n")[0][:200]))
        m = re.search(r"^INVALID (-?\d+) (.*)", t, re.M)
        if m:
            inv = Result("invalid", int(m.group(1)), m.group(2))
        m = re.search(r"^OK ?(.*)$", t, re.M)
        if m:
            if m.group(1):
                x = json.loads(m.group(1))
                data = x if data is None else data
            continue
        ks = re.findall(r"^case (\d+)", t, re.M)
        if ks:
            case = max(case, int(ks[-1]))
    if inv:
        return inv
    if timed_out:
        return Result("hang", case, "no answer within the time limit (typical cases take milliseconds)", err=err[-6000:])
    if rc == 0:
        return Result("ok", data=data)
    m = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: .*|terminate called.*|what\(\): .*|Assertion .*failed.*|ERROR: libFuzzer: .*|Fatal Python error.*)", err)
    why = m.group(1) if m else ""
    if rc < 0:
        return Result("crash", case, "process ended by signal %s %s" % (signal.Signals(-rc).name, why), err=err)
    if why or rc not in (2,):
        return Result("crash", case, "process exited with status %d %s" % (rc, why), err=err)
    return Result("error", case, "worker failed to start: " + err[-500:], err=err)


STALL = 100  # seconds for one case; typical ones take milliseconds


class Runner:
    """One worker process configuration: a build variant, its generator profile and its environment."""
    def __init__(self, binary, variant, profile, env=None, np=0, mem=None):
        self.binary, self.variant, self.profile, self.np = binary, variant, profile, np
        self.env = dict(os.environ)
        self.env.update({"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
                         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
                         "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0",
                         "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "RAYON_NUM_THREADS": "1", "QISKIT_PARALLEL": "FALSE",
                         "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TMPDIR": scratch()})
        self.extra = dict(env or {})
        self.env.update(self.extra)
        self.mem = mem if mem is not None else (0 if "asan" in variant or variant == "fuzz" else 24 if variant in ("prod", "pyprod") else 10)
        self.weight = max(1, np, int(self.extra.get("ENGINE_WORKERS", 0)))
        if np and variant in PYVARIANTS:
            self.env["VERIF_NP"] = str(np)

    def head(self):
        cmd = [PY, os.path.join(VERIF, "py", "worker.py")] if self.variant in PYVARIANTS else [self.binary]
        if self.np:
            return ["mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl", "self,vader", "-np", str(self.np)] + cmd
        return cmd

    def reports(self, rep):
        return [rep + ".%d" % i for i in range(self.np)] if self.np else [rep]

    def _exec(self, args, rep, timeout):
        for p in self.reports(rep):
            try:
                os.unlink(p)
            except OSError:
                pass
        ef = tempfile.TemporaryFile(dir=scratch())
        p = subprocess.Popen(self.head() + args, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL,
                             env=self.env, preexec_fn=limits(self.mem), start_new_session=True, cwd=scratch())
        to = False
        end = time.time() + timeout
        seen, at = None, time.time()
        while True:
            try:
                p.wait(min(1 if args[0] == "run" else 30, max(0.01, end - time.time())))
                break
            except subprocess.TimeoutExpired:
                pass
            if args[0] == "run":  # a worker writes down every case it starts
                now = [os.stat(x).st_mtime_ns if os.path.exists(x) else 0 for x in self.reports(rep)]
                if now != seen:
                    seen, at = now, time.time()
            if time.time() >= end or args[0] == "run" and time.time() - at > STALL:
                to = True
                break
        if to and self.variant in PYVARIANTS and not self.np:
            try:
                p.send_signal(signal.SIGUSR1)  # where is it?
                time.sleep(1)
            except OSError:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        ef.seek(0)
        err = ef.read().decode(errors="replace")[-20000:]
        return parse_report(self.reports(rep), p.returncode, err, to)

    def run(self, seed, secs, cases, grace=240):
        rep = tempfile.mktemp(prefix="rep", dir=scratch())
        a = ["run"] + ([self.profile] if not self.np or self.variant in PYVARIANTS else []) + [str(seed), str(secs), str(cases), rep]
        r = self._exec(a, rep, secs + grace)
        for p in self.reports(rep):
            if os.path.exists(p):
                os.unlink(p)
        return r

    def gen(self, seed, count):
        if self.variant in PYVARIANTS:
            a = [PY, os.path.join(VERIF, "py", "worker.py"), "gen", self.profile, str(seed), str(count)]
        elif self.np:
            a = [self.binary, "gen", str(seed), str(count), str(self.np)]
        else:
            a = [self.binary, "gen", self.profile, str(seed), str(count)]
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env, text=True, cwd=scratch())
        if r.returncode:
            raise CheckError("gen failed: " + r.stderr[-800:])
        return parse_session(r.stdout)

    def play(self, cases, timeout=60):
        f = tempfile.mktemp(prefix="ses", dir=scratch())
        with open(f, "w") as o:
            o.write(session_text(cases))
        r = self._exec(["play", f, f + ".rep"], f + ".rep", timeout)
        for p in [f] + self.reports(f + ".rep"):
            if os.path.exists(p):
                os.unlink(p)
        return r


def parse_session(t):
    cases = []
    for l in t.split("\n"):
        if not l or l[0] == "#":
            continue
        if l.startswith("case"):
            cases.append((l, []))
        elif cases:
            cases[-1][1].append(l)
        else:
            cases.append(("case 0", [l]))
    return cases


def session_text(cases):
    return "".join(h + "\n" + "".join(l + "\n" for l in ls) for h, ls in cases)


# ------------------------------------------------------------------ shrinking
def ddmin(items, test, deadline):
    """Smaller list for which test(list) holds; test(items) already holds."""
    n = 2
    while len(items) >= 2 and time.time() < deadline:
        size = max(1, (len(items) + n - 1) // n)
        for i in range(0, len(items), size):
            if time.time() > deadline:
                return items
            cand = items[:i] + items[i + size:]
            if cand and test(cand):
                items, n = cand, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def shrink(runner, cases, first, budget):
    """cases fail when played. Reduce the number of cases, then the lines."""
    deadline = time.time() + budget
    timeout = 60 if first.status != "hang" else 20
    last = [first]

    def kind(r):
        return re.sub(r"[-\d.e]+", "#", r.msg)[:24]

    def fails(cs):
        r = runner.play(cs, timeout)
        if r.bad and r.status == first.status and kind(r) == kind(first):
            last[0] = r
            return True
        return False
    k = 1
    while k < len(cases) and time.time() < deadline:  # a short suffix of the history often suffices
        if fails(cases[-k:]):
            cases = cases[-k:]
            break
        k *= 4
    if len(cases) > 1:
        cases = ddmin(cases, fails, deadline)
    for i in range(len(cases) - 1, -1, -1):
        h, ls = cases[i]
        if time.time() > deadline:
            break
        ls = ddmin(ls, lambda c: fails(cases[:i] + [(h, c)] + cases[i + 1:]), deadline)
        cases[i] = (h, ls)
    return cases, last[0]


# ------------------------------------------------------------------ reporting
def save_replay(prop, runner, cases, res, extra=""):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = session_text(cases)
    head = "# property=%s\n# variant=%s np=%d env=%s\n# %s: %s\n%s# replay: python3 run.py replay THISFILE\n" % (
        prop, runner.variant, runner.np, json.dumps(runner.extra), res.status, " ".join(res.msg.split())[:600], extra)
    p = os.path.join(d, "%s-%s.txt" % (prop, hashlib.sha1((head + body).encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(head + body)
    return p


def triage(prop, runner, seed, secs, res, deadline, budget=150):
    """A worker reported a failure: reproduce, shrink, save. Returns a replay path or None."""
    k = max(0, res.case)
    cases = runner.gen(seed, k + 1)
    tries = 3 if runner.variant not in ("mt", "mtsmall", "pymt") else 8

    def left(most):
        return max(5, min(most, deadline - time.time()))
    one = None
    for _ in range(1 if tries == 3 else 4):
        r = runner.play(cases[-1:], left(45))
        if r.bad:
            one = r
            break
    if one:
        cases, r = shrink(runner, cases[-1:], one, left(budget))
    elif time.time() < deadline:
        r = runner.play(cases, left(min(secs + 120, 300)))
        if r.bad and tries == 3:
            cases, r = shrink(runner, cases, r, left(budget))
    if r.bad:
        for _ in range(tries):
            if runner.play(cases, left(45 if len(cases) < 50 else secs + 120)).bad:
                return save_replay(prop, runner, cases, r, "")
            if time.time() > deadline:
                break
    # Depends on the process' history in a way the text form does not keep: repeat the run itself.
    bad = time.time() < deadline and runner.run(seed, secs, k + 1, 60).bad
    if bad or res.status in ("fail", "crash"):
        if res.status == "crash" and not bad and "SIGKILL" in res.msg:
            return None  # ended from outside (memory)
        return save_replay(prop, runner, runner.gen(seed, k + 1)[-200:], res,
                           "# the whole run: profile=%s seed=%d cases=%d; %s; only its end is kept below\n" % (runner.profile, seed, k + 1, "repeated" if bad else "not repeated"))
    return None


def evidence(prop, tier, seed, cov, wall, violations, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def merge(total, d):
    for k, v in d.items():
        if k == "samples":
            total.setdefault("samples", [])
            total["samples"] += v[:max(0, 6 - len(total["samples"]))]
        elif k == "kinds":
            t = total.setdefault("kinds", {})
            for a, b in v.items():
                t[a] = t.get(a, 0) + b
        elif k.startswith("max"):
            total[k] = max(total.get(k, 0), v)
        else:
            total[k] = total.get(k, 0) + v
