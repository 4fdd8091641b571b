"""Independent reference: dense linear algebra in numpy. Gate matrices from the textbook, not from qdd or qiskit."""
import cmath, math
import numpy as np

I2 = np.eye(2)
X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]])
Z = np.diag([1, -1]).astype(complex)
H = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
S = np.diag([1, 1j])
T = np.diag([1, cmath.exp(0.25j * math.pi)])
SX = np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2


def rot(P, t):
    return math.cos(t / 2) * np.eye(len(P)) - 1j * math.sin(t / 2) * P


def ph(t):
    return np.diag([1, cmath.exp(1j * t)])


def u3(t, p, l):
    return np.array([[math.cos(t / 2), -cmath.exp(1j * l) * math.sin(t / 2)],
                     [cmath.exp(1j * p) * math.sin(t / 2), cmath.exp(1j * (p + l)) * math.cos(t / 2)]])


def k2(b1, b0):  # qubit 0 of the gate is the low bit
    return np.kron(b1, b0)


SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], complex)
ISWAP = np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]], complex)

# name -> (controls, targets, parameters, matrix on the targets)
GATES = {
    "h": (0, 1, 0, lambda: H), "id": (0, 1, 0, lambda: np.eye(2, dtype=complex)), "x": (0, 1, 0, lambda: X), "y": (0, 1, 0, lambda: Y),
    "z": (0, 1, 0, lambda: Z), "s": (0, 1, 0, lambda: S), "sdg": (0, 1, 0, lambda: S.conj().T), "t": (0, 1, 0, lambda: T),
    "tdg": (0, 1, 0, lambda: T.conj().T), "sx": (0, 1, 0, lambda: SX), "sxdg": (0, 1, 0, lambda: SX.conj().T),
    "rx": (0, 1, 1, lambda t: rot(X, t)), "ry": (0, 1, 1, lambda t: rot(Y, t)), "rz": (0, 1, 1, lambda t: rot(Z, t)),
    "p": (0, 1, 1, ph), "r": (0, 1, 2, lambda t, p: rot(math.cos(p) * X + math.sin(p) * Y, t)), "u": (0, 1, 3, u3),
    "cx": (1, 1, 0, lambda: X), "cy": (1, 1, 0, lambda: Y), "cz": (1, 1, 0, lambda: Z), "csx": (1, 1, 0, lambda: SX),
    "ccx": (2, 1, 0, lambda: X), "c3x": (3, 1, 0, lambda: X), "c4x": (4, 1, 0, lambda: X), "mcx": (-1, 1, 0, lambda: X),
    "cp": (1, 1, 1, ph), "mcp": (-1, 1, 1, ph), "cu1": (1, 1, 1, ph), "crx": (1, 1, 1, lambda t: rot(X, t)),
    "cry": (1, 1, 1, lambda t: rot(Y, t)), "crz": (1, 1, 1, lambda t: rot(Z, t)), "cu3": (1, 1, 3, u3),
    "cu": (1, 1, 4, lambda t, p, l, g: cmath.exp(1j * g) * u3(t, p, l)),
    "swap": (0, 2, 0, lambda: SWAP), "iswap": (0, 2, 0, lambda: ISWAP), "cswap": (1, 2, 0, lambda: SWAP),
    "rxx": (0, 2, 1, lambda t: rot(k2(X, X), t)), "ryy": (0, 2, 1, lambda t: rot(k2(Y, Y), t)),
    "rzz": (0, 2, 1, lambda t: rot(k2(Z, Z), t)), "rzx": (0, 2, 1, lambda t: rot(k2(X, Z), t)),
}
OPEN = {"cx", "cy", "cz", "csx", "ccx", "c3x", "mcx", "cp", "cu1", "crx", "cry", "crz", "cu3", "cu", "cswap"}  # take ctrl_state


def unitary(seed, k):
    r = np.random.RandomState(seed % 2**32)
    d = 1 << k
    if seed % 3 == 0:  # generalised permutation
        m = np.zeros((d, d), complex)
        m[np.arange(d), r.permutation(d)] = np.exp(1j * r.uniform(-4, 4, d)) if seed % 2 else 1
        return m
    q, t = np.linalg.qr(r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)))
    return q * (np.diag(t) / abs(np.diag(t)))


def apply(state, mat, targets, n, controls=(), cstate=None):
    """mat's low bit is targets[0]; bit k of an index is qubit k."""
    k = len(targets)
    v = state.reshape([2] * n)
    sel = [slice(None)] * n
    for j, c in enumerate(controls):
        b = 1 if cstate is None else (cstate >> j) & 1
        sel[n - 1 - c] = slice(b, b + 1)
    sub = v[tuple(sel)]
    axes = [n - 1 - t for t in reversed(targets)]
    t = np.tensordot(mat.reshape([2] * (2 * k)), sub, axes=(list(range(k, 2 * k)), axes))
    t = np.moveaxis(t, list(range(k)), axes)
    v = v.copy()
    v[tuple(sel)] = t
    return v.reshape(-1)


def gate_op(line):
    """["g", name, params, qubits, ctrl_state] or ["u", seed, qubits] -> (matrix, targets, controls, ctrl_state)"""
    if line[0] == "u":
        return unitary(line[1], len(line[2])), line[2], [], None
    name, par, qs, cs = line[1:5]
    nc, nt, _, f = GATES[name]
    nc = len(qs) - nt if nc < 0 else nc
    return f(*par), qs[nc:], qs[:nc], cs


class TooWide(Exception):
    pass


def sparse_apply(s, mat, targets, controls=(), cstate=None):
    """As apply, on {index: amplitude}."""
    out = {}
    cm = cv = tm = 0
    for j, c in enumerate(controls):
        cm |= 1 << c
        if cstate is None or (cstate >> j) & 1:
            cv |= 1 << c
    for t in targets:
        tm |= 1 << t
    place = [sum(1 << t for j, t in enumerate(targets) if (k >> j) & 1) for k in range(len(mat))]
    for x, a in s.items():
        if x & cm != cv:
            out[x] = out.get(x, 0) + a
            continue
        col = sum(1 << j for j, t in enumerate(targets) if (x >> t) & 1)
        for row in range(len(mat)):
            w = mat[row][col]
            if w != 0:
                y = (x & ~tm) | place[row]
                out[y] = out.get(y, 0) + a * w
    out = {x: a for x, a in out.items() if abs(a) > 1e-15}
    if len(out) > 2048:
        raise TooWide("too many branches")
    return out


WIDE = 12  # registers above have sparse states


def zero(n):
    if n > WIDE:
        return {0: 1.0 + 0j}
    s = np.zeros(1 << n, complex)
    s[0] = 1
    return s


def app(s, mat, targets, n, controls=(), cstate=None):
    if isinstance(s, dict):
        return sparse_apply(s, mat, targets, controls, cstate)
    return apply(s, mat, targets, n, controls, cstate)


class Branches:
    """Exact semantics with measurements: every outcome history with its probability."""
    def __init__(self, n, init=None):
        self.n = n
        self.wide = n > WIDE
        s = zero(n)
        self.b = [(1.0, s, 0)]

    def step(self, line, cregs):
        k = line[0]
        cond = line[5] if k == "g" and len(line) > 5 else line[3] if k in ("m", "u") and len(line) > 3 else line[2] if k == "r" and len(line) > 2 else None
        out = []
        for p, s, c in self.b:
            if cond is not None:
                if cond[0] == "b":
                    ok = (c >> cond[1]) & 1 == cond[2]
                else:
                    bits = cregs[cond[1]]
                    ok = sum(((c >> b) & 1) << i for i, b in enumerate(bits)) == cond[2]
                if not ok:
                    out.append((p, s, c))
                    continue
            if k in ("g", "u"):
                m, t, ctl, cs = gate_op(line)
                out.append((p, app(s, m, t, self.n, ctl, cs), c))
            elif k in ("m", "r"):
                q = line[1]
                idx = None if self.wide else (np.arange(len(s)) >> q) & 1
                for o in (0, 1):
                    if self.wide:
                        t = {x: a for x, a in s.items() if (x >> q) & 1 == o}
                        w = sum(abs(a) ** 2 for a in t.values())
                    else:
                        w = float(np.sum(abs(s[idx == o]) ** 2))
                    if w < 1e-13:
                        continue
                    if self.wide:
                        t = {x: a / math.sqrt(w) for x, a in t.items()}
                    else:
                        t = np.where(idx == o, s, 0) / math.sqrt(w)
                    if k == "r":
                        if o:
                            t = app(t, X, [q], self.n)
                        out.append((p * w, t, c))
                    else:
                        cb = line[2]
                        out.append((p * w, t, (c & ~(1 << cb)) | (o << cb)))
            else:
                out.append((p, s, c))
        self.b = out

    def dist(self):
        d = {}
        for p, _, c in self.b:
            d[c] = d.get(c, 0) + p
        return d
