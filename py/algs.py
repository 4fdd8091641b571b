"""Circuits whose outcome is known in closed form, at sizes a dense reference cannot reach.

Each builder takes the numbers of its spec and returns (circuit, distribution): the circuit ends with measurements of all the
bits that matter, and the distribution (outcome -> probability) comes from the formula, never from simulating the circuit.
"""
import cmath
import math
import random


class Bad(Exception):
    pass


def need(c):
    if not c:
        raise Bad()


def qft(qc, qs):
    for j in range(len(qs) - 1, -1, -1):
        qc.h(qs[j])
        for k in range(j):
            qc.cp(math.pi / (1 << (j - k)), qs[k], qs[j])


def iqft(qc, qs):
    for j in range(len(qs)):
        for k in range(j):
            qc.cp(-math.pi / (1 << (j - k)), qs[k], qs[j])
        qc.h(qs[j])


def perm(n, seed):
    p = list(range(n))
    if seed:
        random.Random(seed).shuffle(p)
    return p


def load(qc, qs, x):
    for i, q in enumerate(qs):
        if x >> i & 1:
            qc.x(q)


def meas(qc, qs):
    for i, q in enumerate(qs):
        qc.measure(q, i)


def const_add(n, x, a, ps):
    """|x> -> |x + a mod 2^n> in the Fourier basis."""
    from qiskit import QuantumCircuit
    need(1 <= n <= 48 and 0 <= x < 1 << n and 0 <= a < 1 << n)
    qc, qs = QuantumCircuit(n, n), perm(n, ps)
    load(qc, qs, x)
    qft(qc, qs)
    for j in range(n):  # qs[j] carries e^{2 pi i x / 2^{j+1}}
        qc.p(2 * math.pi * (a % (1 << (j + 1))) / (1 << (j + 1)), qs[j])
    iqft(qc, qs)
    meas(qc, qs)
    return qc, {(x + a) % (1 << n): 1.0}


def reg_add(n, x, hs, b, ps):
    """|x>|b> -> |x>|x + b mod 2^n>, some bits of x in superposition."""
    from qiskit import QuantumCircuit
    need(1 <= n <= 20 and 0 <= x < 1 << n and 0 <= b < 1 << n and len(set(hs)) == len(hs) <= 5 and all(0 <= h < n for h in hs))
    qc, p = QuantumCircuit(2 * n, 2 * n), perm(2 * n, ps)
    A, B = p[:n], p[n:]
    for h in hs:
        x &= ~(1 << h)
    load(qc, A, x)
    load(qc, B, b)
    for h in hs:
        qc.h(A[h])
    qft(qc, B)
    for j in range(n):
        for k in range(j + 1):
            qc.cp(math.pi / (1 << (j - k)), A[k], B[j])
    iqft(qc, B)
    meas(qc, A + B)
    d = {}
    for s in range(1 << len(hs)):
        v = x
        for i, h in enumerate(hs):
            v |= (s >> i & 1) << h
        d[v | ((v + b) % (1 << n)) << n] = 0.5 ** len(hs)
    return qc, d


def qpe(t, k, ps):
    """Phase estimation of an eigenvalue e^{2 pi i k / 2^t}."""
    from qiskit import QuantumCircuit
    need(1 <= t <= 30 and 0 <= k < 1 << t)
    qc, p = QuantumCircuit(t + 1, t), perm(t + 1, ps)
    c, e = p[:t], p[t]
    qc.x(e)
    for q in c:
        qc.h(q)
    for j in range(t):  # counting qubit j picks up 2^{t-1-j} times the phase: c[j] carries e^{2 pi i k / 2^{j+1}}
        qc.cp(2 * math.pi * (k % (1 << (j + 1))) / (1 << (j + 1)), c[j], e)
    iqft(qc, c)
    meas(qc, c)
    return qc, {k: 1.0}


def frac_qpe(t, theta, ps):
    """Phase estimation of an arbitrary phase: the well-known distribution around it."""
    from qiskit import QuantumCircuit
    need(1 <= t <= 9 and 0 <= theta < 1)
    qc, p = QuantumCircuit(t + 1, t), perm(t + 1, ps)
    c, e = p[:t], p[t]
    qc.x(e)
    for j, q in enumerate(c):
        qc.h(q)
        qc.cp(2 * math.pi * theta * (1 << (t - 1 - j)), q, e)
    iqft(qc, c)
    meas(qc, c)
    N, d = 1 << t, {}
    for y in range(N):
        z = 2 * math.pi * (theta - y / N)
        s = sum(cmath.exp(1j * z * x) for x in range(N)) / N
        d[y] = abs(s) ** 2
    return qc, d


def hidden(n, s, how, ps):
    """Bernstein-Vazirani."""
    from qiskit import QuantumCircuit
    need(1 <= n <= 60 and 0 <= s < 1 << n)
    qc, p = QuantumCircuit(n + 1, n), perm(n + 1, ps)
    qs, a = p[:n], p[n]
    qc.x(a)
    qc.h(a)
    for q in qs:
        qc.h(q)
    for i, q in enumerate(qs):
        if s >> i & 1:
            if how == 0:
                qc.cx(q, a)
            elif how == 1:
                qc.z(q)
            else:
                qc.crx(math.pi, q, a)  # |-> gets the phase e^{i pi / 2} under RX(pi)
                qc.p(math.pi / 2, q)
    for q in qs:
        qc.h(q)
    meas(qc, qs)
    return qc, {s: 1.0}


def grover(n, marked, k, ps):
    from qiskit import QuantumCircuit
    marked = sorted(set(marked))
    need(2 <= n <= 12 and 0 <= k <= 12 and 1 <= len(marked) <= 3 and all(0 <= w < 1 << n for w in marked))
    qc, qs = QuantumCircuit(n, n), perm(n, ps)

    def flip(w):  # -1 on |w>
        for i, q in enumerate(qs):
            if not w >> i & 1:
                qc.x(q)
        qc.h(qs[-1])
        qc.mcx(qs[:-1], qs[-1])
        qc.h(qs[-1])
        for i, q in enumerate(qs):
            if not w >> i & 1:
                qc.x(q)
    for q in qs:
        qc.h(q)
    for _ in range(k):
        for w in marked:
            flip(w)
        for q in qs:
            qc.h(q)
        flip(0)
        for q in qs:
            qc.h(q)
    meas(qc, qs)
    N, M = 1 << n, len(marked)
    th = (2 * k + 1) * math.asin(math.sqrt(M / N))
    d = {y: math.cos(th) ** 2 / (N - M) for y in range(N)}
    for w in marked:
        d[w] = math.sin(th) ** 2 / M
    return qc, d


def order(t, a, N, ps):
    """Order finding: counting register and the multiplications by a^(2^j) mod N as permutations."""
    from qiskit import QuantumCircuit
    n = N.bit_length()
    need(3 <= N <= 21 and math.gcd(a, N) == 1 and 1 < a < N and 1 <= t <= 9)
    import numpy as np
    qc, p = QuantumCircuit(t + n, t), perm(t + n, ps)
    c, w = p[:t], p[t:]
    qc.x(w[0])
    for q in c:
        qc.h(q)
    for j in range(t):
        f = pow(a, 1 << (t - 1 - j), N)
        M = np.zeros((2 << n, 2 << n))
        for v in range(1 << n):  # qubit order of the matrix: the control first
            M[2 * v, 2 * v] = 1
            M[2 * (v * f % N if v < N else v) + 1, 2 * v + 1] = 1
        qc.unitary(M, [c[j]] + w)
    iqft(qc, c)
    meas(qc, c)
    T, r = 1 << t, 1
    while pow(a, r, N) != 1:
        r += 1
    d = {}
    for y in range(T):
        d[y] = sum(abs(sum(cmath.exp(2j * math.pi * x * y / T) for x in range(j, T, r))) ** 2 for j in range(min(r, T))) / T / T
    return qc, d


ONE = ("h", "x", "sx", "t", "s", "rx", "ry", "rz", "p", "u", "u2")
TWO = ("cx", "cz", "cp", "crx", "cry", "swap", "swap", "rxx", "ryy", "rzz", "rzx", "cu", "cy", "ch")
NPAR = {"rx": 1, "ry": 1, "rz": 1, "p": 1, "u": 3, "u2": 2, "cp": 1, "crx": 1, "cry": 1, "rxx": 1, "ryy": 1, "rzz": 1, "rzx": 1, "cu": 4}


def mirror(n, block, depth, x, seed, ps):
    """A random circuit and its inverse, which leave |x> as it was. Gates join qubits of the same block only."""
    from qiskit import QuantumCircuit
    need(2 <= n <= 60 and 2 <= block <= 18 and 0 <= x < 1 << n and 1 <= depth <= 40)
    r = random.Random(seed)
    qc, qs = QuantumCircuit(n, n), perm(n, ps if block >= n else 0)
    load(qc, qs, x)
    body = QuantumCircuit(n)
    for _ in range(depth):
        for s in range(0, n, block):
            b = qs[s:s + block]
            for q in b:
                if r.random() < 0.5:
                    g = r.choice(ONE)
                    getattr(body, "r" + "z" if g == "u2" else g)(*[r.uniform(-4, 4) for _ in range(1 if g == "u2" else NPAR.get(g, 0))], q)
            r.shuffle(b)
            for i in range(0, len(b) - 1, 2):
                g = r.choice(TWO)
                if g == "ch":
                    body.h(b[i])
                    g = "cx"
                getattr(body, g)(*[r.uniform(-4, 4) for _ in range(NPAR.get(g, 0))], b[i], b[i + 1])
    qc.compose(body, inplace=True)
    inv = body.inverse()
    for inst in inv.data:
        qc.append(inst.operation, inst.qubits)
    meas(qc, qs)
    return qc, {x: 1.0}


def wstate(n, ps):
    """A W state from rotations: exactly one bit is set, each with equal probability."""
    from qiskit import QuantumCircuit
    need(2 <= n <= 80)
    qc, qs = QuantumCircuit(n, n), perm(n, ps)
    qc.x(qs[0])
    for i in range(n - 1):
        qc.cry(2 * math.acos(math.sqrt(1 / (n - i))), qs[i], qs[i + 1])
        qc.cx(qs[i + 1], qs[i])
    meas(qc, qs)
    return qc, {1 << i: 1.0 / n for i in range(n)}


def teleport(n, angles, basis, ps):
    """A state moved along n hops by measurements and corrections; read in the basis in which it is certain."""
    from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
    need(1 <= n <= 20 and len(angles) == 3)
    m = 2 * n + 1
    p = perm(m, ps)
    qr = QuantumRegister(m, "q")
    cs = [ClassicalRegister(1, "c%d" % i) for i in range(2 * n)]
    out = ClassicalRegister(1, "out")
    qc = QuantumCircuit(qr, out, *cs)
    if basis:
        qc.x(p[0])
    qc.u(*angles, p[0])
    cur = 0
    for h in range(n):
        a, b = p[2 * h + 1], p[2 * h + 2]
        qc.h(a)
        qc.cx(a, b)
        qc.cx(p[cur], a)
        qc.h(p[cur])
        qc.measure(p[cur], cs[2 * h])
        qc.measure(a, cs[2 * h + 1])
        qc.x(b).c_if(cs[2 * h + 1], 1)
        qc.z(b).c_if(cs[2 * h], 1)
        cur = 2 * h + 2
    th, ph, la = angles
    qc.u(-th, -la, -ph, p[cur])
    qc.measure(p[cur], 0)
    return qc, {basis: 1.0}


BUILD = {f.__name__: f for f in (const_add, reg_add, qpe, frac_qpe, hidden, grover, order, mirror, wstate, teleport)}


def build(spec):
    return BUILD[spec[0]](*spec[1:])
