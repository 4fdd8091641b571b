"""Worker for the Python layer: generates circuits and API histories, runs qdd, compares with ref.py.

  worker.py run PROFILE SEED SECS MAXCASES REPORT | gen PROFILE SEED COUNT | play FILE REPORT
A case is a list of JSON lines. Protocol as in lib/core.py.
"""
import contextlib, io, json, math, os, random, sys, time, traceback, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("QDD_PKG", "/repo"))
warnings.simplefilter("ignore")
import numpy as np
import ref
from gens import PROFILES

TOL = 1e-8
MPI = None  # communicator, when run by mpirun
SKIPPED = []


class Fail(Exception):
    pass


class Invalid(Exception):
    pass


class Skip(Exception):
    """The case cannot be decided (counted, not an alarm)."""


def kl(k, n, p):
    f = k / n
    t = lambda a, b: 0.0 if a <= 0 else a * math.log(a / b)
    return -n * (t(f, p) + t(1 - f, 1 - p))


LOGP = -math.log(1e12)


def check_count(k, n, p, what):
    p = min(1.0, max(0.0, p))
    if p < 1e-11:
        if k:
            raise Fail("%s: an outcome of probability 0 was sampled" % what)
        return
    if p > 1 - 1e-11:
        if k < n:
            raise Fail("%s: a certain outcome was missed" % what)
        return
    if kl(k, n, p) < LOGP:
        raise Fail("%s: %d of %d shots for probability %.6g" % (what, k, n, p))


def check_samples(hist, shots, dist, nbits, what):
    """hist: outcome -> count; dist: outcome -> exact probability."""
    if sum(hist.values()) != shots:
        raise Fail("%s: %d outcomes for %d shots" % (what, sum(hist.values()), shots))
    for o, k in hist.items():
        if o not in dist or dist[o] < 1e-11:
            raise Fail("%s: outcome %s has probability 0" % (what, bin(o)))
    for o, p in dist.items():
        check_count(hist.get(o, 0), shots, p, "%s outcome %s" % (what, bin(o)))
    for a in range(nbits):  # marginals and pair parities gather the statistics of spread-out distributions
        for b in range(a, nbits if nbits <= 24 else a + 1):
            m = (1 << a) | (1 << b)
            par = lambda o: (bin(o & m).count("1") & 1) if a != b else (o >> a) & 1
            check_count(sum(k for o, k in hist.items() if par(o)), shots, sum(p for o, p in dist.items() if par(o)), "%s bits %d,%d" % (what, a, b))


class Circ:
    shared = {}

    def __init__(self, qs, cs, loose=False):
        from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
        from qiskit.circuit import Clbit, Qubit
        self.qs, self.cs = qs, cs
        self.n, self.m = sum(qs), sum(cs)
        self.qc = QuantumCircuit(*[QuantumRegister(k, "q%d" % i) for i, k in enumerate(qs)],
                                 *[ClassicalRegister(k, "c%d" % i) for i, k in enumerate(cs)])
        if loose:  # bits outside of registers
            cs = [self.m] if self.m else []
            self.qc = QuantumCircuit([Qubit() for _ in range(self.n)], [Clbit() for _ in range(self.m)])
        self.loose = loose
        self.lines, self.phase, self.par = [], 0.0, {}
        self.cregs, b = [], 0
        for k in cs:
            self.cregs.append(list(range(b, b + k)))
            b += k

    def value(self, p):
        """A parameter of a line: number, or ["$", name, coefficient, offset]."""
        if isinstance(p, list):
            from qiskit.circuit import Parameter
            if p[1] not in self.par:
                # some circuits of a case share the parameter, others have another one of the same name
                self.par[p[1]] = Parameter(p[1]) if p[1] == "b" else self.shared.setdefault(p[1], Parameter(p[1]))
            return self.par[p[1]] * p[2] + p[3]
        return p

    def add(self, line):
        import qiskit.circuit.library as L
        k = line[0]
        if k == "gp":
            self.qc.global_phase = self.qc.global_phase + line[1]
            self.phase += line[1]
            return
        if k == "bar":
            self.qc.barrier()
            return
        for q in (line[3] if k == "g" else line[2] if k == "u" else [line[1]]):
            if q >= self.n:
                raise Invalid("qubit")
        if k == "m" and line[2] >= self.m:
            raise Invalid("clbit")
        self.lines.append(line)
        cond = None
        if k == "g":
            _, name, par, qs, cs = line[:5]
            cond = line[5] if len(line) > 5 else None
            pv = [self.value(p) for p in par]
            nc = len(qs) - ref.GATES[name][1]
            kw = {} if cs is None else {"ctrl_state": cs}
            cls = {"h": L.HGate, "id": L.IGate, "x": L.XGate, "y": L.YGate, "z": L.ZGate, "s": L.SGate, "sdg": L.SdgGate, "t": L.TGate,
                   "tdg": L.TdgGate, "sx": L.SXGate, "sxdg": L.SXdgGate, "rx": L.RXGate, "ry": L.RYGate, "rz": L.RZGate, "p": L.PhaseGate,
                   "r": L.RGate, "u": L.UGate, "cx": L.CXGate, "cy": L.CYGate, "cz": L.CZGate, "csx": L.CSXGate, "ccx": L.CCXGate,
                   "c3x": L.C3XGate, "c4x": L.C4XGate, "cp": L.CPhaseGate, "cu1": L.CU1Gate, "crx": L.CRXGate, "cry": L.CRYGate,
                   "crz": L.CRZGate, "cu3": L.CU3Gate, "cu": L.CUGate, "swap": L.SwapGate, "iswap": L.iSwapGate, "cswap": L.CSwapGate,
                   "rxx": L.RXXGate, "ryy": L.RYYGate, "rzz": L.RZZGate, "rzx": L.RZXGate}
            if name == "mcx":
                g = L.MCXGate(nc, **kw)
            elif name == "mcp":
                g = L.MCPhaseGate(pv[0], nc)
            else:
                g = cls[name](*pv, **kw)
            if cond is None:
                self.qc.append(g, qs)
            else:
                self.qc.append(self.conditional(g, cond), qs)
        elif k == "u":
            g = L.UnitaryGate(ref.unitary(line[1], len(line[2])))
            cond = line[3] if len(line) > 3 else None
            self.qc.append(g if cond is None else self.conditional(g, cond), line[2])
        elif k == "m":
            from qiskit.circuit import Measure
            cond = line[3] if len(line) > 3 else None
            self.qc.append(Measure() if cond is None else self.conditional(Measure(), cond), [line[1]], [line[2]])
        elif k == "r":
            from qiskit.circuit import Reset
            cond = line[2] if len(line) > 2 else None
            self.qc.append(Reset() if cond is None else self.conditional(Reset(), cond), [line[1]])
        else:
            raise Invalid("line " + k)

    def conditional(self, g, cond):
        if cond[0] == "r" and self.loose:
            raise Invalid("no registers")
        t = self.qc.clbits[cond[1]] if cond[0] == "b" else self.qc.cregs[cond[1]]
        return g.to_mutable().c_if(t, cond[2])

    def bound(self, binds=None):
        out = []
        for l in self.lines:
            if l[0] == "g" and any(isinstance(p, list) for p in l[2]):
                l = list(l)
                l[2] = [p if not isinstance(p, list) else binds[p[1]] * p[2] + p[3] for p in l[2]]
            out.append(l)
        return out

    def branches(self, binds=None):
        b = ref.Branches(self.n)
        for l in self.bound(binds):
            b.step(l, self.cregs)
            if len(b.b) > 600:
                raise Invalid("too many outcome histories")
        return b

    def dist(self, binds=None):
        return self.branches(binds).dist()

    def state(self, binds=None, phase=True):
        s = ref.zero(self.n)
        for l in self.bound(binds):
            if l[0] in ("g", "u"):
                m, t, c, cs = ref.gate_op(l)
                s = ref.app(s, m, t, self.n, c, cs)
        if isinstance(s, dict):
            return s  # used for expectation values only
        return s * np.exp(1j * self.phase) if phase else s

    def conditions(self):
        return any(len(l) > {"g": 5, "u": 3, "m": 3, "r": 2}.get(l[0], 99) for l in self.lines)

    def stable(self):
        """Only final measurements: every outcome is read from one final state."""
        meas = set()
        for l in self.lines:
            if l[0] == "m":
                if len(l) > 3:
                    return False
                meas.add(l[1])
            elif l[0] == "r" or (l[0] in ("g", "u") and (len(l) > (5 if l[0] == "g" else 3))):
                return False
            elif meas & set(l[3] if l[0] == "g" else l[2]):
                return False
        return True

    def fmt(self, o):
        """Outcome -> the string of Result.get_counts(): registers right to left, separated by blanks."""
        parts = []
        for bits in self.cregs:
            parts.append("".join(str((o >> b) & 1) for b in reversed(bits)))
        return " ".join(reversed(parts))

    def unfmt(self, s, what):
        parts = s.split(" ")
        if [len(p) for p in parts] != [len(b) for b in reversed(self.cregs)] or set("".join(parts)) - {"0", "1"}:
            raise Fail("%s: malformed outcome '%s'" % (what, s))
        return int("".join(parts), 2)


def same_vec(got, want, what, tol=TOL):
    got = np.asarray(got, complex)
    if got.shape != want.shape:
        raise Fail("%s: %s entries instead of %s" % (what, got.shape, want.shape))
    e = abs(got - want)
    if not (np.max(e) <= tol):
        i = int(np.nanargmax(np.where(np.isnan(e), np.inf, e)))
        raise Fail("%s: entry %d is %s instead of %s" % (what, i, got[i], want[i]))


class Machine:
    def __init__(self):
        from qdd import QddProvider, pyQDD
        self.pyqdd = pyQDD
        self.prov = QddProvider()
        self.be = self.prov.get_backend()
        self.svb = self.prov.get_backend("statevector_simulator")
        self.c = {}
        self.cur = None
        self.store = {}
        self.kw = {}  # further run options
        Circ.shared = {}

    def agree(self, x, what):
        """Every process must see the same."""
        if MPI is not None:
            y = MPI.bcast(x)
            if x != y:
                raise Fail("%s: process %d has %s, process 0 has %s" % (what, MPI.rank, str(x)[:200], str(y)[:200]))

    def circ(self, i):
        if i not in self.c:
            raise Invalid("no circuit %s" % i)
        return self.c[i]

    def exec(self, line):
        op = line[0]
        if op == "new":
            if not line[2] or min(line[2] + line[3] + [1]) < 1:
                raise Invalid("size")
            self.c[line[1]] = self.cur = Circ(*line[2:5])
            return
        if op == "cur":  # what follows is added to a circuit that may have been run before
            self.cur = self.circ(line[1])
            return
        if op in ("g", "u", "m", "r", "gp", "bar"):
            if self.cur is None:
                raise Invalid("no circuit")
            self.cur.add(line)
            return
        import acts
        getattr(acts, "op_" + op)(self, *line[1:])


def run_case(lines):
    m = Machine()
    for l in lines:
        x = json.loads(l)
        yield l
        m.exec(x)


def execute(k, lines, rep):
    """True, or writes the verdict."""
    cur = ""
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            for cur in run_case(lines):
                pass
        return "ok"
    except Skip as e:
        SKIPPED.append(str(e))
        return "ok"
    except (Invalid, ref.TooWide) as e:
        rep.write("INVALID %d %s\nAT %s\n" % (k, e, cur[:300]))
        return "invalid"
    except Fail as e:
        rep.write("FAIL %d %s\nAT %s\n" % (k, " ".join(str(e).split()), cur[:300]))
        return "fail"
    except Exception as e:
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc(file=sys.__stderr__)
        rep.write("FAIL %d unexpected exception: %s %s\nAT %s\n" % (k, " ".join(repr(e).split())[:300], " ".join(err.getvalue().split())[-200:], cur[:300]))
        return "fail"


def leave(rep):
    rep.close()
    if MPI is not None:
        MPI.finish()
    os._exit(0)


def main():
    mode = sys.argv[1]
    if mode == "gen":
        for k in range(int(sys.argv[4])):
            lines, _ = PROFILES[sys.argv[2]](random.Random("%s/%s/%d" % (sys.argv[2], sys.argv[3], k)))
            print("case %d" % k)
            for l in lines:
                print(json.dumps(l))
        return 0
    rp = sys.argv[6] if mode == "run" else sys.argv[3]
    global MPI
    if os.environ.get("VERIF_NP"):
        from mpi4py import MPI as mpi
        MPI = mpi.COMM_WORLD
        rp += ".%d" % MPI.rank
    rep = open(rp, "w")
    import faulthandler
    import signal
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    from qdd import pyQDD
    if mode == "play":
        cases, k = [], 0
        for l in open(sys.argv[2]):
            l = l.rstrip("\n")
            if not l or l[0] == "#":
                continue
            if l.startswith("case"):
                cases.append((int(l.split()[1]), []))
            else:
                if not cases:
                    cases.append((0, []))
                cases[-1][1].append(l)
        for k, ls in cases:
            rep.write("case %d\n" % k)
            rep.flush()
            if execute(k, ls, rep) != "ok":
                rep.close()
                os._exit(1)
        rep.write("OK\n")
        leave(rep)
    prof, seed, secs, maxc = sys.argv[2], sys.argv[3], float(sys.argv[4]), int(sys.argv[5])
    t0 = time.monotonic()
    st = {"cases": 0, "nontrivial": 0, "ops": 0, "kinds": {}, "samples": []}
    seen = set()
    for k in range(maxc):
        late = time.monotonic() - t0 > secs
        if MPI.bcast(late) if MPI is not None else late:
            break
        lines, nt = PROFILES[prof](random.Random("%s/%s/%d" % (prof, seed, k)))
        text = [json.dumps(l) for l in lines]
        rep.seek(0)
        rep.write("case %-12d\n" % k)
        rep.flush()
        st["cases"] += 1
        st["ops"] += len(lines)
        key = hash("\n".join(text))
        if nt and key not in seen:
            seen.add(key)
            st["nontrivial"] += 1
            if len(st["samples"]) < 2 and len(text) < 30:
                st["samples"].append("\n".join(text))
        for l in lines:
            kk = l[0] if l[0] != "g" else "g:" + l[1]
            st["kinds"][kk] = st["kinds"].get(kk, 0) + 1
        if execute(k, text, rep) != "ok":
            rep.close()
            os._exit(1)
    st["skipped"] = len(SKIPPED)
    rep.seek(0)
    rep.truncate()
    rep.write("OK %s\n" % json.dumps(st))
    leave(rep)


if __name__ == "__main__":
    sys.modules["worker"] = sys.modules["__main__"]
    sys.exit(main())
