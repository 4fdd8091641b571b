"""Operations of the Python-layer cases: run the public API, compare with the reference."""
import contextlib, io, math, os, random, sys, tempfile, time, warnings
import numpy as np
import ref
from worker import Fail, Invalid, Skip, check_count, check_samples, same_vec, TOL


def ok_result(job, what):
    r = job.result()
    if not r.success:
        raise Fail("%s failed: %s" % (what, getattr(r, "status", "")))
    return r


def hist_of(c, res, i, what):
    cnt = res.get_counts(i)
    h = {}
    for s, k in cnt.items():
        o = c.unfmt(s, what)
        h[o] = h.get(o, 0) + k
    return h


def snapshot(m):
    """Text form of every circuit, to see that running does not change them."""
    return {i: (repr(c.qc.data), c.qc.global_phase, dict(c.qc.metadata or {}), c.qc.name) for i, c in m.c.items()}


def unchanged(m, before):
    for i, s in snapshot(m).items():
        if i in before and before[i] != s:
            raise Fail("running changed the caller's circuit %s" % i)


def check_header(c, res, i, bound, what):
    """The header says which circuit the result belongs to."""
    if c.loose:
        return
    h = res.results[i].header.to_dict()
    want = {"n_qubits": c.n, "memory_slots": c.m, "creg_sizes": [["c%d" % j, k] for j, k in enumerate(c.cs)],
            "qreg_sizes": [["q%d" % j, k] for j, k in enumerate(c.qs)], "metadata": c.qc.metadata,
            "clbit_labels": [["c%d" % j, b] for j, k in enumerate(c.cs) for b in range(k)],
            "qubit_labels": [["q%d" % j, b] for j, k in enumerate(c.qs) for b in range(k)]}
    if not bound:  # bound copies get names of their own
        want["name"] = c.qc.name
    for k, v in want.items():
        if h.get(k) != v:
            raise Fail("%s: header.%s is %r instead of %r" % (what, k, h.get(k), v))
    d = (h.get("global_phase", 0) - c.phase) % (2 * math.pi)
    if min(d, 2 * math.pi - d) > 1e-9:
        raise Fail("%s: header.global_phase is %r instead of %r" % (what, h.get("global_phase"), c.phase))


def op_name(m, i, name):
    m.circ(i).qc.name = name


def op_meta(m, i, d):
    m.circ(i).qc.metadata = d


def run_samples(m, ids, opt, binds=None, backend=None):
    cs = [m.circ(i) for i in ids]
    kw = {k: v for k, v in opt.items() if k in ("shots", "memory", "seed_simulator")}
    if binds is not None:
        kw["parameter_binds"] = [{c.par[k]: v for k, v in b.items() if k in c.par} for c, b in zip(cs, binds)]
    kw.update(m.kw)
    arg = [c.qc for c in cs]
    before = snapshot(m)
    res = ok_result((backend or m.be).run(arg[0] if opt.get("single") and len(arg) == 1 else arg, **kw), "run")
    unchanged(m, before)
    if len(res.results) != len(cs):
        raise Fail("%d results for %d circuits" % (len(res.results), len(cs)))
    shots = opt.get("shots", 1024)
    hs = []
    for i, c in enumerate(cs):
        h = hist_of(c, res, i, "get_counts")
        if res.results[i].shots != shots:
            raise Fail("result.shots is %s instead of %s" % (res.results[i].shots, shots))
        check_header(c, res, i, binds is not None, "run")
        if opt.get("memory"):
            mem = res.get_memory(i)
            if len(mem) != shots:
                raise Fail("memory has %d entries for %d shots" % (len(mem), shots))
            g = {}
            for s in mem:
                o = c.unfmt(s, "get_memory")
                g[o] = g.get(o, 0) + 1
            if g != h:
                raise Fail("memory and counts disagree: %s and %s" % (g, h))
        m.agree(sorted(h.items()), "counts")
        if opt.get("memory"):
            m.agree(res.get_memory(i), "memory")
        hs.append(h)
    return cs, hs, shots, res


def op_samp(m, ids, opt, binds=None):
    cs, hs, shots, res = run_samples(m, ids, opt, binds)
    for j, (c, h) in enumerate(zip(cs, hs)):
        check_samples(h, shots, c.dist(binds[j] if binds else None), c.m, "counts of circuit %s" % ids[j])
    m.store["last"] = [(ids, hs)]


def probs_of(c, res, i):
    p = res.data(i)["probabilities"]
    return {int(k, 0) if isinstance(k, str) else int(k): float(v) for k, v in p.items()}


def check_probs(c, got, dist, what):
    for k, p in got.items():
        if not (0 <= k < (1 << c.m)):
            raise Fail("%s: key %d for %d clbits" % (what, k, c.m))
        if not (abs(p - dist.get(k, 0.0)) <= TOL):
            raise Fail("%s: outcome %s has probability %.12g instead of %.12g" % (what, bin(k), p, dist.get(k, 0.0)))
    for k, p in dist.items():
        if p > TOL and k not in got:
            raise Fail("%s: outcome %s of probability %.6g is missing" % (what, bin(k), p))


def op_probany(m, ids):
    """As op_prob, for circuits the generator avoids (see known_findings.json)."""
    op_prob(m, ids, None, True)


def op_prob(m, ids, binds=None, anycirc=False):
    cs = [m.circ(i) for i in ids]
    for c in cs:
        if not anycirc and not c.stable():
            raise Invalid("shots=None for an unstable circuit (known finding)")
        if not any(l[0] == "m" for l in c.lines):
            raise Invalid("no measurement")
    kw = {}
    if binds is not None:
        kw["parameter_binds"] = [{c.par[k]: v for k, v in b.items() if k in c.par} for c, b in zip(cs, binds)]
    before = snapshot(m)
    res = ok_result(m.be.run([c.qc for c in cs], shots=None, **kw, **m.kw), "run(shots=None)")
    unchanged(m, before)
    if len(res.results) != len(cs):
        raise Fail("%d results for %d circuits" % (len(res.results), len(cs)))
    for i, c in enumerate(cs):
        check_header(c, res, i, binds is not None, "run(shots=None)")
        check_probs(c, probs_of(c, res, i), c.dist(binds[i] if binds else None), "probabilities of circuit %s" % ids[i])


def op_sv(m, ids, shots=1024, binds=None):
    cs = [m.circ(i) for i in ids]
    for c in cs:
        if not c.stable():
            raise Invalid("unstable")
    kw = {}
    if binds is not None:
        kw["parameter_binds"] = [{c.par[k]: v for k, v in b.items() if k in c.par} for c, b in zip(cs, binds)]
    before = snapshot(m)
    res = ok_result(m.svb.run([c.qc for c in cs], shots=shots, **kw, **m.kw), "statevector run")
    unchanged(m, before)
    if len(res.results) != len(cs):
        raise Fail("%d results for %d circuits" % (len(res.results), len(cs)))
    for i, c in enumerate(cs):
        b = binds[i] if binds else None
        check_header(c, res, i, binds is not None, "statevector run")
        same_vec(res.data(i)["statevector"], c.state(b), "statevector of circuit %s" % ids[i])
        same_vec(np.asarray(res.get_statevector(i)), c.state(b), "get_statevector of circuit %s" % ids[i])
        if shots is None and any(l[0] == "m" for l in c.lines):
            check_probs(c, probs_of(c, res, i), c.dist(b), "statevector backend probabilities")
        elif shots is not None and c.m:
            check_samples(hist_of(c, res, i, "get_counts"), shots, c.dist(b), c.m, "statevector backend counts")


def op_svdyn(m, i, seed):
    """One shot of a dynamic circuit: the returned state is the one of the reported outcome history."""
    c = m.circ(i)
    res = ok_result(m.svb.run(c.qc, shots=1, seed_simulator=seed, **m.kw), "statevector run")
    h = hist_of(c, res, 0, "get_counts")
    o = next(iter(h))
    sv = np.asarray(res.data(0)["statevector"])
    if c.stable():  # only final measurements: the state before them
        return same_vec(sv, c.state(), "statevector")
    best = None
    for p, s, k in c.branches().b:
        if k == o:
            d = float(np.max(abs(sv - s * np.exp(1j * c.phase))))
            best = d if best is None else min(best, d)
    if best is None:
        raise Fail("outcome %s has probability 0" % bin(o))
    if not best <= 1e-7:
        raise Fail("the state returned with outcome %s is none of the possible ones (distance %.3g)" % (bin(o), best))


# ------------------------------------------------------------------ transpilation of library circuits
def lib_circuit(spec):
    """Circuits made of instructions the backend does not take directly."""
    from qiskit import QuantumCircuit
    import qiskit.circuit.library as L
    n, items = spec
    qc = QuantumCircuit(n)
    for it in items:
        k, par, qs = it[0], it[1], it[2]
        if max(qs) >= n or len(set(qs)) != len(qs):
            raise Invalid("qubit")
        two = {"ecr": L.ECRGate, "dcx": L.DCXGate, "ch": L.CHGate, "csdg": L.CSdgGate, "cs": L.CSGate}
        twop = {"xxp": L.XXPlusYYGate, "xxm": L.XXMinusYYGate}
        try:
            if k in two:
                qc.append(two[k](), qs)
            elif k in twop:
                qc.append(twop[k](par[0], par[1]), qs)
            elif k == "rccx":
                qc.append(L.RCCXGate(), qs)
            elif k == "rc3x":
                qc.append(L.RC3XGate(), qs)
            elif k == "c3sx":
                qc.append(L.C3SXGate(), qs)
            elif k == "ccz":
                qc.append(L.CCZGate(), qs)
            elif k == "u1":
                qc.append(L.U1Gate(par[0]), qs)
            elif k == "u2":
                qc.append(L.U2Gate(par[0], par[1]), qs)
            elif k == "u3":
                qc.append(L.U3Gate(par[0], par[1], par[2]), qs)
            elif k == "mcrx":
                qc.append(L.RXGate(par[0]).control(len(qs) - 1), qs)
            elif k == "mcu":
                qc.append(L.UGate(par[0], par[1], par[2]).control(len(qs) - 1, ctrl_state=it[3] % (1 << (len(qs) - 1))), qs)
            elif k == "qft":
                qc.compose(L.QFT(len(qs), inverse=bool(it[3] & 1), do_swaps=bool(it[3] & 2)), qs, inplace=True)
            elif k == "diag":
                r = np.random.RandomState(it[3] % 2**31)
                qc.append(L.DiagonalGate(list(np.exp(1j * r.uniform(-3, 3, 1 << len(qs))))), qs)
            elif k == "unit":
                qc.append(L.UnitaryGate(ref.unitary(it[3], len(qs))), qs)
            elif k == "cunit":
                qc.append(L.UnitaryGate(ref.unitary(it[3], len(qs) - 1)).control(1), qs)
            elif k == "perm":
                qc.append(L.PermutationGate(list(np.random.RandomState(it[3] % 2**31).permutation(len(qs)))), qs)
            elif k == "ms":
                qc.append(L.MSGate(len(qs), par[0]), qs)
            elif k == "pauli":
                qc.append(L.PauliGate("".join("IXYZ"[(it[3] >> (2 * j)) & 3] for j in range(len(qs)))), qs)
            elif k == "evo":
                from qiskit.quantum_info import SparsePauliOp
                lab = "".join("IXYZ"[(it[3] >> (2 * j)) & 3] for j in range(len(qs)))
                qc.append(L.PauliEvolutionGate(SparsePauliOp([lab]), time=par[0]), qs)
            elif k == "prep":
                r = np.random.RandomState(it[3] % 2**31)
                v = r.normal(size=1 << len(qs)) + 1j * r.normal(size=1 << len(qs))
                qc.append(L.StatePreparation(list(v / np.linalg.norm(v))), qs)
            elif k == "gp":
                qc.global_phase += par[0]
            else:
                nc, nt, np_, _ = ref.GATES[k]
                c = {"h": L.HGate, "cx": L.CXGate, "rx": L.RXGate, "p": L.PhaseGate, "t": L.TGate, "iswap": L.iSwapGate, "ccx": L.CCXGate}[k]
                qc.append(c(*par[:np_]), qs)
        except Invalid:
            raise
        except Exception as e:
            raise Invalid("spec: %r" % e)
    return qc


def op_trans(m, spec, level, seed, measure):
    from qiskit import transpile
    from qiskit.quantum_info import Operator, Statevector
    qc = lib_circuit(spec)
    want = np.asarray(Statevector(qc))

    def sane(c):
        """Does Qiskit itself keep this circuit intact, for a basis that has nothing to do with QDD?"""
        try:
            g = transpile(c, basis_gates=["u3", "u2", "p", "u1", "cx", "h", "rz"], optimization_level=level, seed_transpiler=seed)
        except Exception:
            return False
        return bool(Operator.from_circuit(g).equiv(Operator(c)))

    def compiled(c, be):
        try:
            return transpile(c, be, optimization_level=level, seed_transpiler=seed)
        except TypeError as e:
            # Qiskit 1.2.4: UnitarySynthesis evaluates the target's symbolic two-qubit gates
            if "unbound parameters" in str(e):
                raise Skip("qiskit cannot synthesise for this target")
            raise
        except Exception:
            if not sane(c):
                raise Skip("qiskit fails for a generic basis as well")
            raise
    t = compiled(qc, m.svb)
    res = ok_result(m.svb.run(t), "a transpiled circuit")
    w = want
    if t.layout is not None and t.layout.final_index_layout() is not None:  # the transpiler may leave qubits permuted
        f = t.layout.final_index_layout()
        idx = np.arange(len(want))
        w = np.zeros_like(want)
        w[sum(((idx >> v) & 1) << f[v] for v in range(qc.num_qubits))] = want
    tv = np.asarray(Statevector(t))
    o = np.vdot(tv, w)
    if abs(abs(o) - 1) > 1e-7:
        if not sane(qc):
            raise Skip("qiskit miscompiles for a generic basis as well")
        raise Fail("transpiling (level %d) changed the circuit: overlap %.9g" % (level, abs(o)))
    w = w / o  # Qiskit 1.2.4 loses the phase of global-phase gates at levels 2 and 3
    same_vec(res.get_statevector(), w, "state of the transpiled circuit (level %d)" % level, 1e-7)
    if measure:
        q = qc.copy()
        q.measure_all()
        t = compiled(q, m.be)
        res = ok_result(m.be.run(t, shots=None), "a transpiled circuit")
        p = res.data(0)["probabilities"]
        for k in range(len(want)):
            if not abs(p.get(k, 0) - abs(want[k]) ** 2) <= 1e-7:
                raise Fail("transpiled circuit: outcome %d has probability %.10g instead of %.10g" % (k, p.get(k, 0), abs(want[k]) ** 2))


# ------------------------------------------------------------------ merged circuits
def op_merge(m, key, i, freq, meas=False):
    c = m.circ(i)
    before = snapshot(m)
    qc = c.qc
    if meas:  # measurements and barriers are left out
        qc = qc.copy()
        qc.measure_all()
    e = m.be.merge_circuit(qc, freq)
    unchanged(m, before)
    m.store[key] = (e, c)


def bad(what):
    raise Invalid(what)


def merged_parts(m, parts):
    """parts: sequence of ("c", circuit) appended as gates and ("e", merged) appended as one QDDGate, on the given qubits.
    Returns the width, [(kind, what to append, qubits, function of the state)]."""
    from qdd.qdd_gate import QDDGate
    parts = [(p[0], p[1], m.store[p[1]][1] if p[0] == "e" else m.c[p[1]], p[2] if len(p) > 2 else None)
             for p in parts if (p[1] in m.store if p[0] == "e" else p[1] in m.c) or bad("part")]
    n = max(max(q) + 1 if q else c.n for _, _, c, q in parts)
    out = []
    for kind, key, c, qs in parts:
        qs = qs or list(range(c.n))
        if len(qs) != c.n or len(set(qs)) != c.n:
            raise Invalid("width")

        def act(s, n, c=c, qs=qs):
            for l in c.bound():
                if l[0] in ("g", "u"):
                    mm, t, ctl, cs = ref.gate_op(l)
                    s = ref.apply(s, mm, [qs[q] for q in t], n, [qs[q] for q in ctl], cs)
            return s * np.exp(1j * c.phase)
        out.append((kind, QDDGate(c.n, m.store[key][0]) if kind == "e" else c.qc, qs, act))
    return n, out


def op_usemerge(m, parts, extra):
    from qiskit import QuantumCircuit
    from qdd.qdd_gate import QDDGate
    n, parts = merged_parts(m, parts)
    qc = QuantumCircuit(n)
    s = np.zeros(1 << n, complex)
    s[0] = 1
    for kind, what, qs, act in parts:
        if kind == "e":
            qc.append(what, qs)
        else:
            qc.compose(what, qs, inplace=True)
        s = act(s, n)
    res = ok_result(m.svb.run(qc, shots=None, **m.kw), "a circuit with merged parts")
    same_vec(res.get_statevector(), s, "state of a circuit with merged parts")
    q = qc.copy()
    q.measure_all()
    res = ok_result(m.be.run(q, shots=None, **m.kw), "a circuit with merged parts")
    p = res.data(0)["probabilities"]
    for k in range(len(s)):
        if not abs(p.get(k, 0) - abs(s[k]) ** 2) <= TOL:
            raise Fail("merged parts: outcome %d has probability %.10g instead of %.10g" % (k, p.get(k, 0), abs(s[k]) ** 2))
    if extra:  # merge the circuit that contains merged parts once more
        e = m.be.merge_circuit(qc)
        q2 = QuantumCircuit(n)
        q2.append(QDDGate(n, e), list(range(n)))
        res = ok_result(m.svb.run(q2, shots=None, **m.kw), "a circuit merged twice")
        same_vec(res.get_statevector(), s, "state of a circuit merged twice")


def op_mergemore(m, parts, how, sd):
    """Merged parts in copied circuits, under a condition, and in the primitives."""
    import copy
    from qiskit import ClassicalRegister, QuantumCircuit
    from qiskit.quantum_info import SparsePauliOp
    n, parts = merged_parts(m, parts)
    cond = how in ("cond0", "cond1")
    w = n + cond
    qc = QuantumCircuit(w)
    s = np.zeros(1 << w, complex)
    s[0] = 1
    if cond:  # one more qubit, measured first
        flag, out = ClassicalRegister(1, "flag"), ClassicalRegister(n, "out")
        qc.add_register(flag, out)
        if how == "cond1":
            qc.x(n)
            s = np.roll(s, 1 << n)
        qc.measure(n, flag[0])
    for kind, what, qs, act in parts:
        if kind == "e":
            qc.append(what.c_if(flag, 1) if cond else what, qs)
        else:
            qc.compose(what, qs, inplace=True)
        if kind == "c" or how != "cond0":
            s = act(s, w)
    if cond:
        qc.measure(range(n), out)
        d = {}
        for k, a in enumerate(s):
            d[k & ((1 << n) - 1)] = d.get(k & ((1 << n) - 1), 0) + abs(a) ** 2
        res = ok_result(m.be.run(qc, shots=60, seed_simulator=sd, **m.kw), "a conditional merged part")
        h = {}
        for o, k in res.get_counts().items():
            out, flag = o.split()
            if int(flag) != (how == "cond1"):
                raise Fail("conditional merged part: flag %s" % flag)
            h[int(out, 2)] = h.get(int(out, 2), 0) + k
        return check_samples(h, 60, d, n, "conditional merged part")
    if how == "copy":
        q = QuantumCircuit(n)
        q.compose(copy.deepcopy(qc), inplace=True)
        res = ok_result(m.svb.run([q, qc.copy()], shots=None, **m.kw), "copies of a circuit with merged parts")
        for i in range(2):
            same_vec(res.get_statevector(i), s, "state of a copied circuit with merged parts")
    elif how == "pickle":
        import pickle
        qs = [pickle.loads(pickle.dumps(qc)) for _ in range(2)]
        for kind, what, at, act in parts:  # collections of matrices, with the unpickled ones in use
            if kind == "c":
                m.be.merge_circuit(what, gc_freq=1)
        for q in qs:
            q.global_phase = qc.global_phase  # which Qiskit's pickling drops
        for i, res in enumerate([m.svb.run(q, shots=None, **m.kw) for q in qs]):
            same_vec(ok_result(res, "an unpickled circuit with merged parts").get_statevector(), s, "state of an unpickled circuit with merged parts")
    elif how == "sampler":
        from qdd.qdd_sampler import Sampler
        qc.measure_all()
        p = Sampler(skip_transpilation=True).run([qc], shots=None).result().quasi_dists[0]
        for k in range(len(s)):
            if not abs(p.get(k, 0) - abs(s[k]) ** 2) <= 1e-8:
                raise Fail("Sampler with merged parts: outcome %d has %.10g instead of %.10g" % (k, p.get(k, 0), abs(s[k]) ** 2))
    elif how == "est":
        from qdd.qdd_estimator import Estimator
        lab = "".join(random.Random(sd).choice("IXYZ") for _ in range(n))
        v = Estimator(skip_transpilation=True, approximation=True).run([qc], [SparsePauliOp(lab)], shots=None).result().values[0]
        x = s
        for q in range(n):
            x = ref.apply(x, {"I": np.eye(2), "X": ref.X, "Y": ref.Y, "Z": ref.Z}[lab[n - 1 - q]], [q], n)
        if not abs(v - np.vdot(s, x).real) <= 1e-8:
            raise Fail("Estimator with merged parts: %s is %.10g instead of %.10g" % (lab, v, np.vdot(s, x).real))
    else:
        raise Invalid(how)


def op_mergemat(m, key):
    if key not in m.store:
        raise Invalid("part")
    e, c = m.store[key]
    d = 1 << c.n
    want = np.eye(d, dtype=complex)
    for l in c.bound():
        if l[0] in ("g", "u"):
            mm, t, ctl, cs = ref.gate_op(l)
            want = np.stack([ref.apply(want[:, k], mm, t, c.n, ctl, cs) for k in range(d)], axis=1)
    want = want * np.exp(1j * c.phase)
    got = np.asarray(e.getEigenMatrix(c.n))
    if got.shape != want.shape:
        raise Fail("getEigenMatrix: shape %s" % (got.shape,))
    same_vec(got.reshape(-1), want.reshape(-1), "matrix of the merged circuit", 2e-5)  # single precision view


# ------------------------------------------------------------------ primitives
def par_values(c, b):
    return [b[p.name] for p in c.qc.parameters]


def primitive(f):
    try:
        return f().result()
    except TypeError as e:
        # Qiskit 1.2.4: UnitarySynthesis evaluates the target's symbolic two-qubit gates
        if "unbound parameters" in str(e):
            raise Skip("qiskit cannot synthesise for this target")
        raise


def op_sampler(m, key, ids, binds, shots, seed, opt):
    from qdd.qdd_sampler import Sampler
    if key not in m.store:
        m.store[key] = Sampler(run_options=opt.get("run_options"), skip_transpilation=opt.get("skip", False),
                               transpile_options=opt.get("transpile"))
    s = m.store[key]
    cs = [m.circ(i) for i in ids]
    kw = {}
    if shots != "default":
        kw["shots"] = shots
    elif opt.get("run_options"):
        shots = opt["run_options"].get("shots", 1024)
    else:
        shots = 1024
    if shots is None and not all(c.stable() for c in cs):
        raise Invalid("unstable")
    if seed is not None:
        kw["seed"] = seed
    before = snapshot(m)
    r = primitive(lambda: s.run([c.qc for c in cs], [par_values(c, b) for c, b in zip(cs, binds)], **kw))
    unchanged(m, before)
    if len(r.quasi_dists) != len(cs) or len(r.metadata) != len(cs):
        raise Fail("Sampler: %d distributions for %d circuits" % (len(r.quasi_dists), len(cs)))
    for i, c in enumerate(cs):
        d = c.dist(binds[i])
        q = {int(k): float(v) for k, v in r.quasi_dists[i].items()}
        if r.metadata[i].get("shots") != shots:
            raise Fail("Sampler: metadata shots %s instead of %s" % (r.metadata[i].get("shots"), shots))
        if shots is None:
            check_probs(c, q, d, "Sampler, exact, circuit %d" % i)
        else:
            h = {}
            for k, v in q.items():
                x = v * shots
                if abs(x - round(x)) > 1e-6:
                    raise Fail("Sampler: quasi probability %r is not a multiple of 1/shots" % v)
                if round(x):
                    h[k] = round(x)
            check_samples(h, shots, d, c.m, "Sampler circuit %d" % i)
    return [dict(x) for x in r.quasi_dists]


PAULI = {"I": np.eye(2, dtype=complex), "X": ref.X, "Y": ref.Y, "Z": ref.Z}


def expval(state, terms, n):
    """sum of coefficient * <P>; returns (value, sum of coefficient^2 * variance, sum |coefficient|)"""
    tot = 0
    for lab, co in terms:
        s = state
        for q in range(n):
            ch = lab[n - 1 - q]
            if ch != "I":
                s = ref.app(s, PAULI[ch], [q], n)
        tot += co * (sum(a.conjugate() * s.get(x, 0) for x, a in state.items()) if isinstance(s, dict) else np.vdot(state, s))
    return tot


def op_est(m, key, ids, obs, binds, shots, seed, opt):
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import Pauli, SparsePauliOp
    if key not in m.store:
        m.store[key] = Estimator(approximation=opt.get("approx", False), abelian_grouping=opt.get("group", True),
                                 skip_transpilation=opt.get("skip", False), run_options=opt.get("run_options"),
                                 transpile_options=opt.get("transpile"))
    e = m.store[key]
    cs = [m.circ(i) for i in ids]
    for c, o in zip(cs, obs):
        if any(len(l) != c.n for l, _ in o):
            raise Invalid("width")
        if c.m and (opt.get("approx") or not c.conditions()):  # without conditions, final measurements are removed
            raise Invalid("classical bits")
    ops = []
    for o in obs:
        if len(o) == 1 and o[0][1] == 1 and opt.get("pauli"):
            ops.append(Pauli(o[0][0]))
        else:
            ops.append(SparsePauliOp([l for l, _ in o], [v for _, v in o]))
    kw = {}
    if shots is not None:
        kw["shots"] = None if shots == "none" else shots
    if seed is not None:
        kw["seed"] = seed
    # a run's own shots, or else those the Estimator was created with
    eff = kw["shots"] if "shots" in kw else (opt.get("run_options") or {}).get("shots")
    before = snapshot(m)
    r = primitive(lambda: e.run([c.qc for c in cs], ops, [par_values(c, b) for c, b in zip(cs, binds)], **kw))
    unchanged(m, before)
    if len(r.values) != len(cs) or len(r.metadata) != len(cs):
        raise Fail("Estimator: %d values for %d circuits" % (len(r.values), len(cs)))
    for i, (c, o) in enumerate(zip(cs, obs)):
        bs = c.branches(binds[i]).b
        want = sum(p * expval(s, o, c.n) for p, s, _ in bs)
        got = complex(r.values[i])
        a = sum(abs(v) for l, v in o if set(l) != {"I"})
        meta, ns = r.metadata[i], eff if opt.get("approx") else eff or 1024
        if a and meta.get("shots") != ns:
            raise Fail("Estimator: metadata shots %s instead of %s" % (meta.get("shots"), ns))
        if opt.get("approx") and ns:  # a normal distribution around the exact value
            merged = {}
            for l, v in o:
                merged[l] = merged.get(l, 0) + v
            var = [sum(v * v * (1 - abs(sum(p * expval(s, [[l, 1]], c.n) for p, s, _ in bs)) ** 2) for l, v in t) for t in (o, list(merged.items()))]
            if not abs(got - want) <= 8 * math.sqrt(max(0, *var) / ns) + 1e-6 * (1 + a):
                raise Fail("Estimator, normal approximation with %d shots: value %d is %s instead of %s" % (ns, i, got, want))
            if min(abs(meta["variance"] - x) for x in var) > 1e-6 * (1 + a * a):
                raise Fail("Estimator, normal approximation: variance %s instead of %s" % (meta["variance"], var[0]))
        elif opt.get("approx"):
            if not abs(got - want) <= 1e-7 * (1 + sum(abs(v) for _, v in o)):
                raise Fail("Estimator, exact: value %d is %s instead of %s" % (i, got, want))
        else:
            n = ns
            # each term lies in [-c, c]; terms of one group share shots, groups are independent: Hoeffding on the sum of
            # |coefficient| bounds both. 1e-12 per check.
            a = sum(abs(v) for l, v in o if set(l) != {"I"})
            lim = a * math.sqrt(2 * math.log(2e12) / n) + 1e-9
            if not -1e-9 <= meta["variance"] <= sum(v * v for _, v in o) * len(o) + 1e-9:
                raise Fail("Estimator: variance %s of %s" % (meta["variance"], o))
            if len(o) == 1 and a and abs(meta["variance"] - (o[0][1] ** 2 - got.real ** 2)) > 1e-6 * (1 + a * a):
                raise Fail("Estimator: variance %s for value %s of %s" % (meta["variance"], got, o))
            if not abs(got - want) <= lim:
                raise Fail("Estimator: value %d is %s instead of %s (limit %.3g with %d shots)" % (i, got, want, lim, n))
            # terms in whose eigenstate the circuit ends have no sampling noise
            if all(abs(abs(sum(p * expval(s, [(l, 1)], c.n) for p, s, _ in bs)) - 1) < 1e-9 for l, _ in o):
                if not abs(got - want) <= 1e-7 * (1 + a):
                    raise Fail("Estimator: value %d is %s, its terms are certain and give %s" % (i, got, want))
    return [complex(x) for x in r.values]


# ------------------------------------------------------------------ rejected inputs
def op_reject(m, kind, arg, ids):
    from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
    import qiskit.circuit.library as L
    from qiskit.providers import JobStatus
    be = m.be
    kw = {}
    n, a = arg
    qc = QuantumCircuit(n, n)
    qc.h(0)
    if kind == "type":
        target = [["x"], None, 3, "circuit", [qc, 1], (qc,), {"a": qc}, [None], L.HGate()][a % 9]
    elif kind == "wide":
        qc = wide_circuit(101 + a % 60, a // 2 % 5, a)
        target = qc if a % 2 else [m.circ(i).qc for i in ids] + [qc]
    elif kind == "nomeas":
        target = qc if a % 2 or not ids else [m.circ(i).qc for i in ids] + [qc]
    elif kind == "shots":
        qc.measure(0, 0)
        target = qc
        kw["shots"] = [0, -1, -5, 1000001, 2000000, -1024][a % 6]
    elif kind == "gate":
        g = [L.ECRGate(), L.DCXGate(), L.CHGate(), L.RCCXGate(), L.XXPlusYYGate(0.3), L.CSGate(), L.U1Gate(0.4), L.U2Gate(0.1, 0.2), L.U3Gate(0.1, 0.2, 0.3),
             L.CCZGate(), L.QFT(2).to_gate(), L.DiagonalGate([1, -1]), L.StatePreparation([0, 1]), L.Initialize([0, 1]), L.XGate().control(2).to_gate() if False else L.RC3XGate(),
             L.CRXGate(0.1).control(1), L.HGate().control(1)][a % 17]
        if g.num_qubits > n:
            raise Invalid("gate wider than the circuit")
        qs = list(range(g.num_qubits))
        qc.append(g, qs)
        qc.measure(0, 0)
        target = qc
        if a % 2:
            kw["shots"] = None
    elif kind == "cond":
        qc.measure(0, 0)
        qc.append(L.XGate().to_mutable().c_if(qc.clbits[0], a % 2), [n - 1])
        qc.measure(n - 1, 0)
        target = qc
        kw["shots"] = None
    elif kind == "unbound":
        from qiskit.circuit import Parameter
        qc.rx(Parameter("t"), 0)
        qc.measure(0, 0)
        target = qc
        if a % 2:
            kw["shots"] = None
    elif kind == "widesv":  # more amplitudes than there is memory for
        k = 31 + a % 70
        qc = QuantumCircuit(k, 1)
        qc.x(k - 1)
        qc.cx(k - 1, 0)
        target = qc if a % 2 else [m.circ(i).qc for i in ids] + [qc]
        be = m.svb
    elif kind == "optshots":
        be = m.prov.__class__().get_backend()
        be.set_options(shots=[0, -1, -7, 1000001, 5000000][a % 5])
        qc.measure(0, 0)
        target = qc
    elif kind == "binds":  # not one set of values for each circuit
        from qiskit.circuit import Parameter
        p = Parameter("t")
        qc.rx(p, 0)
        qc.measure(0, 0)
        k = a % 4
        target = [qc] * [2, 3, 1, 1][k]
        kw["parameter_binds"] = [[{p: 1.0}], [], [{p: 1.0}, {p: 2.0}], []][k]
    elif kind == "flow":
        qc.measure(0, 0)
        k = a % 5
        if k == 0:
            with qc.if_test((qc.clbits[0], a % 2)):
                qc.x(n - 1)
        elif k == 1:
            with qc.for_loop(range(3)):
                qc.x(n - 1)
        elif k == 2:
            with qc.while_loop((qc.clbits[0], 1)):
                qc.h(0)
                qc.measure(0, 0)
        elif k == 3:
            with qc.switch(qc.cregs[0]) as c:
                with c(0):
                    qc.x(n - 1)
        else:
            with qc.if_test((qc.clbits[0], 1)) as e:
                qc.x(n - 1)
            with e:
                qc.z(n - 1)
        qc.measure(n - 1, 0)
        target = qc
        if a % 3 == 0:
            be = m.svb
    elif kind == "seed":
        qc.measure(0, 0)
        target = qc
        kw["seed_simulator"] = [-1, 1.5, 2 ** 64, "7", [1]][a % 5]
    elif kind == "inst":
        from qiskit.circuit import Delay, Gate, Instruction
        from qiskit.quantum_info import Kraus, random_clifford
        g = [L.PauliGate("XZ"), Delay(10), L.GlobalPhaseGate(0.3), random_clifford(2, seed=1).to_instruction(), Gate("mine", 1, []), Gate("x", 1, []),
             Kraus([np.diag([1, 0.6]), np.array([[0, 0.8], [0, 0]])]).to_instruction(), L.PermutationGate([1, 0]), L.MCPhaseGate(0.2, 1).control(1, annotated=True)
             if n > 2 else Delay(5), Instruction("noise", 1, 0, []), L.UnitaryGate(np.eye(2)).control(1), L.PauliGate("Y")][a % 12]
        if g.num_qubits > n:
            raise Invalid("wider than the circuit")
        qc.append(g, list(range(g.num_qubits)))
        qc.measure(0, 0)
        target = qc
        if a % 5 == 0:
            be = m.svb
    elif kind == "mergecond":
        qc.append(L.XGate().to_mutable().c_if(qc.clbits[0], 1), [n - 1])
        return expect_raise(lambda: be.merge_circuit(qc), "merge_circuit of a conditional gate")
    elif kind == "mergegate":
        if n < 2:
            raise Invalid("one qubit")
        qc.append([L.ECRGate(), L.DCXGate(), L.CHGate()][a % 3], [0, 1])
        return expect_raise(lambda: be.merge_circuit(qc), "merge_circuit of an unsupported gate")
    elif kind == "mergereset":
        qc.reset(0)
        return expect_raise(lambda: be.merge_circuit(qc), "merge_circuit of a reset")
    else:
        raise Invalid(kind)
    job = be.run(target, **{**m.kw, **kw})
    if job.status() != JobStatus.ERROR:
        raise Fail("invalid input (%s) was accepted: status %s" % (kind, job.status()))
    r = job.result()
    if r.success:
        raise Fail("invalid input (%s): the result claims success" % kind)
    if len(r.results):
        raise Fail("invalid input (%s): the failed result carries %d results" % (kind, len(r.results)))


def expect_raise(f, what):
    try:
        f()
    except Exception:
        return
    raise Fail("%s was accepted" % what)


def wide_circuit(k, form, a):
    """k qubits in one register, several registers, ancillas, loose qubits, or some of each."""
    from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister
    from qiskit.circuit import Qubit
    cut = 1 + a % (k - 1)
    loose = [Qubit() for _ in range(k)]
    parts = [[QuantumRegister(k, "q")], [QuantumRegister(cut, "q"), QuantumRegister(k - cut, "r")], [QuantumRegister(cut, "q"), AncillaRegister(k - cut, "r")],
             [loose], [QuantumRegister(cut, "q"), loose[cut:]]][form]
    qc = QuantumCircuit(*parts, ClassicalRegister(2, "c"))
    qc.x(k - 1)
    qc.measure(k - 1, 1)
    return qc


def op_accept(m, kind, arg):
    """The borders of what is accepted."""
    from qiskit import QuantumCircuit
    if kind == "wide":  # up to 100 qubits
        k = 100 - arg % 4
        qc = wide_circuit(k, arg // 4 % 5, arg)
        qc.measure(0, 0)
        r = ok_result(m.be.run(qc, shots=5), "a circuit of %d qubits" % k)
        if dict(r.get_counts()) != {"10": 5}:
            raise Fail("counts of a %d-qubit circuit: %s" % (k, r.get_counts()))
    elif kind == "shots":
        qc = QuantumCircuit(1, 1)
        qc.x(0)
        qc.measure(0, 0)
        k = [1, 2, 1000000][arg % 3] if arg % 40 == 2 else 1 + arg % 300
        r = ok_result(m.be.run(qc, shots=k), "%d shots" % k)
        if dict(r.get_counts()) != {"1": k}:
            raise Fail("counts for %d shots: %s" % (k, r.get_counts()))
    elif kind == "empty":
        r = m.be.run([]).result()
        if not r.success or len(r.results):
            raise Fail("an empty list of circuits")
    elif kind == "svnomeas":
        qc = QuantumCircuit(1 + arg % 3)
        qc.x(0)
        r = ok_result(m.svb.run(qc), "a circuit without measurement on the statevector backend")
        v = np.zeros(2 ** qc.num_qubits, complex)
        v[1] = 1
        same_vec(r.get_statevector(), v, "statevector")


# ------------------------------------------------------------------ options
DEFAULTS = {"shots": 1024, "memory": False, "seed_simulator": None}


def backend_of(m, key):
    if ("be", key) not in m.store:
        raise Invalid("no backend")
    return m.store["be", key]


def op_be(m, key, kind):
    """A backend object of its own."""
    from qdd import QddProvider
    m.store["be", key] = [QddProvider().get_backend(kind), {}]


def options_kept(m):
    for k, v in m.store.items():
        if isinstance(k, tuple) and k[0] == "be":
            o = v[0].options
            for x, d in DEFAULTS.items():
                if getattr(o, x) != v[1].get(x, d):
                    raise Fail("option %s of backend %s is %r instead of %r" % (x, k[1], getattr(o, x), v[1].get(x, d)))
    o = m.be.options
    for x, d in DEFAULTS.items():
        if getattr(o, x) != d:
            raise Fail("option %s of an untouched backend is %r instead of %r" % (x, getattr(o, x), d))


def op_opt(m, key, opt):
    b = backend_of(m, key)
    b[0].set_options(**opt)
    b[1].update(opt)
    options_kept(m)


def op_badopt(m, key):
    b = backend_of(m, key)
    expect_raise(lambda: b[0].set_options(no_such_option=1), "set_options of an unknown option")
    options_kept(m)


def entropy(c, shots):
    return shots * -math.log(max(sum(p * p for p in c.dist().values()), 1e-300))


def op_orun(m, key, ids, kw):
    """The options of a run: given to run(), else set on this backend, else the defaults."""
    be, opts = backend_of(m, key)
    cs = [m.circ(i) for i in ids]
    eff = {**DEFAULTS, **opts, **{k: v for k, v in kw.items() if k in DEFAULTS}}
    if eff["shots"] is None and not all(c.stable() for c in cs):
        raise Invalid("unstable")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = ok_result(be.run([c.qc for c in cs], **kw), "run")
    told = [x for x in kw if any(issubclass(y.category, UserWarning) and "Option %s=" % x in str(y.message) for y in w)]
    if told != [x for x in kw if x not in DEFAULTS]:
        raise Fail("warnings about unused options name %s of %s" % (told, sorted(kw)))
    options_kept(m)
    for i, c in enumerate(cs):
        if res.results[i].shots != eff["shots"]:
            raise Fail("result.shots is %s instead of %s" % (res.results[i].shots, eff["shots"]))
        if eff["shots"] is None:
            check_probs(c, probs_of(c, res, i), c.dist(), "probabilities")
            continue
        h = hist_of(c, res, i, "get_counts")
        check_samples(h, eff["shots"], c.dist(), c.m, "counts")
        try:
            mem = res.get_memory(i)
        except Exception:
            mem = None
        if (mem is not None) != eff["memory"]:
            raise Fail("memory=%s, but the result has %s memory" % (eff["memory"], "no" if mem is None else "a"))
    if eff["shots"] is None:
        return
    if eff["seed_simulator"] is not None:
        ref = ok_result(m.be.run([c.qc for c in cs], shots=eff["shots"], seed_simulator=eff["seed_simulator"]), "run")
        for i, c in enumerate(cs):
            if res.get_counts(i) != ref.get_counts(i):
                raise Fail("seed_simulator=%s of the backend's options had no effect" % eff["seed_simulator"])
    elif eff["memory"] and sum(entropy(c, eff["shots"]) for c in cs) > 60:
        a = [res.get_memory(i) for i in range(len(cs))]
        if a in m.store.setdefault(("mem", tuple(ids)), []):
            raise Fail("a run without seed repeats the shots of an earlier one")
        m.store["mem", tuple(ids)].append(a)


def op_prim(m, key, which, bopt, ropt):
    from qdd.qdd_sampler import Sampler
    from qdd.qdd_estimator import Estimator
    cls = {"s": Sampler, "e": Estimator, "a": Estimator}[which]
    kw = {"approximation": True} if which == "a" else {}
    if bopt is not None:
        kw["backend_options"] = dict(bopt)
    if ropt is not None:
        kw["run_options"] = dict(ropt)
    m.store["prim", key] = [cls(skip_transpilation=True, **kw), which, dict(bopt or {}), dict(ropt or {})]
    options_kept(m)


def op_popt(m, key, opt):
    if ("prim", key) not in m.store:
        raise Invalid("no primitive")
    p = m.store["prim", key]
    p[0].set_options(**opt)
    p[3].update(opt)
    options_kept(m)


def op_prun(m, key, ids, obs, kw):
    """run() first, then the primitive's options, then those of its backend."""
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import SparsePauliOp
    if ("prim", key) not in m.store:
        raise Invalid("no primitive")
    prim, which, bopt, ropt = m.store["prim", key]
    cs = [m.circ(i) for i in ids]
    eff = {**ropt, **kw}
    sd = eff.get("seed_simulator")
    if "seed_simulator" not in eff:
        sd = eff.get("seed")
    if sd is None:
        sd = bopt.get("seed_simulator") if "seed_simulator" not in eff else None
    if which == "s":
        if not all(c.m for c in cs):
            raise Invalid("no measurement")
        shots = eff["shots"] if "shots" in eff else bopt.get("shots", 1024)
        if shots is None:
            if not all(c.stable() for c in cs):
                raise Invalid("unstable")
        r = prim.run([c.qc for c in cs], [[]] * len(cs), **kw).result()
        for i, c in enumerate(cs):
            q = {int(k): float(v) for k, v in r.quasi_dists[i].items()}
            if r.metadata[i].get("shots") != shots:
                raise Fail("Sampler: metadata shots %s instead of %s" % (r.metadata[i].get("shots"), shots))
            if shots is None:
                check_probs(c, q, c.dist(), "Sampler, exact")
            else:
                check_samples({k: round(v * shots) for k, v in q.items() if round(v * shots)}, shots, c.dist(), c.m, "Sampler")
        if sd is not None and shots is not None:
            ref = ok_result(m.be.run([c.qc for c in cs], shots=shots, seed_simulator=sd), "run")
            for i, c in enumerate(cs):
                a = {int(k): round(float(v) * shots) for k, v in r.quasi_dists[i].items()}
                if {k: v for k, v in a.items() if v} != hist_of(c, ref, i, "get_counts"):
                    raise Fail("Sampler: the shots are not those of seed_simulator=%s" % sd)
    else:
        if any(c.m for c in cs) or len(obs) != len(cs) or any(len(l) != c.n for o, c in zip(obs, cs) for l, _ in o):
            raise Invalid("circuits and observables")
        ops = [SparsePauliOp([l for l, _ in o], [v for _, v in o]) for o in obs]
        shots = eff.get("shots") or (None if which == "a" else 1024)
        r = prim.run([c.qc for c in cs], ops, [[]] * len(cs), **kw).result()
        for i, (c, o) in enumerate(zip(cs, obs)):
            want = expval(c.state(), o, c.n)
            a = sum(abs(v) for l, v in o if set(l) != {"I"})
            if which == "a":
                # exact, or normally distributed around the exact value (|deviation| <= 8 standard deviations)
                if not abs(r.values[i] - want) <= (8 * a / math.sqrt(shots) if shots else 0) + 1e-7 * (1 + sum(abs(v) for _, v in o)):
                    raise Fail("approximating Estimator: value %d is %s instead of %s with %s shots" % (i, r.values[i], want, shots))
                if a and r.metadata[i].get("shots") != shots:
                    raise Fail("approximating Estimator: metadata shots %s instead of %s" % (r.metadata[i].get("shots"), shots))
                continue
            if not abs(r.values[i] - want) <= a * math.sqrt(2 * math.log(2e12) / shots) + 1e-9:
                raise Fail("Estimator: value %d is %s instead of %s with %d shots" % (i, r.values[i], want, shots))
            if a and r.metadata[i].get("shots") != shots:
                raise Fail("Estimator: metadata shots %s instead of %s" % (r.metadata[i].get("shots"), shots))
        if sd is not None and which == "e":
            x = Estimator(skip_transpilation=True).run([c.qc for c in cs], ops, [[]] * len(cs), shots=shots, seed_simulator=sd).result()
            if list(x.values) != list(r.values):
                raise Fail("Estimator: the values are not those of seed_simulator=%s" % sd)
    options_kept(m)


def op_topts(m, which, ids, obs, skip, level):
    """The options for the transpiler reach it, unless transpilation is to be skipped."""
    from qdd.qdd_sampler import Sampler
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import SparsePauliOp
    cs = [m.circ(i) for i in ids]
    seen = []
    topt = {"optimization_level": level, "callback": lambda **kw: seen.append(type(kw["pass_"]).__name__)}
    cls = {"s": Sampler, "e": Estimator}[which]
    kw = {} if which == "s" else {"approximation": True}
    prim = cls(transpile_options=topt, skip_transpilation=skip, **kw)
    if which == "s":
        if not all(c.m for c in cs):
            raise Invalid("no measurement")
        r = primitive(lambda: prim.run([c.qc for c in cs], [[]] * len(cs), shots=300))
        for i, c in enumerate(cs):
            check_samples({int(k): round(v * 300) for k, v in r.quasi_dists[i].items() if round(v * 300)}, 300, c.dist(), c.m, "Sampler with transpile_options")
    else:
        if any(c.m for c in cs) or len(obs) != len(cs) or any(len(l) != c.n for o, c in zip(obs, cs) for l, _ in o):
            raise Invalid("circuits and observables")
        ops = [SparsePauliOp([l for l, _ in o], [v for _, v in o]) for o in obs]
        r = primitive(lambda: prim.run([c.qc for c in cs], ops, [[]] * len(cs)))
        for i, (c, o) in enumerate(zip(cs, obs)):
            want = expval(c.state(), o, c.n)
            if not abs(r.values[i] - want) <= 1e-7 * (1 + sum(abs(v) for _, v in o)):
                raise Fail("Estimator with transpile_options: value %d is %s instead of %s" % (i, r.values[i], want))
    if bool(seen) == skip:
        raise Fail("skip_transpilation=%s, but the transpiler's callback was %s" % (skip, "called" if seen else "not called"))
    options_kept(m)


# ------------------------------------------------------------------ circuits with known outcomes
def op_alg(m, spec, how, shots, sd, level):
    import algs
    from qiskit import transpile
    from qdd.qdd_sampler import Sampler
    try:
        qc, dist = algs.build(spec)
    except algs.Bad:
        raise Invalid("spec")
    only = 1 if spec[0] == "teleport" else None
    nb = only or qc.num_clbits
    what = "%s of %s" % (how, spec[0])
    if how == "trans":
        src = qc
        try:
            qc = transpile(src, m.be, optimization_level=level, seed_transpiler=1)
        except TypeError as e:
            if "unbound parameters" in str(e):
                raise Skip("qiskit cannot synthesise for this target")
            raise
    if how == "exact":
        if only:
            raise Invalid("unstable")
        res = ok_result(m.be.run(qc, shots=None, **m.kw), "run(shots=None)")
        got = probs_of(None, res, 0)
        tol = 1e-7
        for k, v in got.items():
            if abs(v - dist.get(k, 0)) > tol:
                raise Fail("%s: outcome %s has probability %.12g instead of %.12g" % (what, bin(k), v, dist.get(k, 0)))
        for k, v in dist.items():
            if v > tol and k not in got:
                raise Fail("%s: outcome %s of probability %.6g is missing" % (what, bin(k), v))
        return
    if how == "sampler":
        r = primitive(lambda: Sampler(skip_transpilation=level < 0, transpile_options={"optimization_level": max(level, 0), "seed_transpiler": 1}).run([qc], shots=shots, seed=sd))
        h = {int(k): round(v * shots) for k, v in r.quasi_dists[0].items() if round(v * shots)}
    else:
        res = ok_result(m.be.run(qc, shots=shots, seed_simulator=sd, **m.kw), "run")
        h = {}
        for s, k in res.get_counts().items():
            o = int(s.replace(" ", ""), 2)
            h[o] = h.get(o, 0) + k
        m.agree(sorted(h.items()), "counts")
    if only:
        g = {}
        for o, k in h.items():
            g[o & 1] = g.get(o & 1, 0) + k
        h = g
    check_samples(h, shots, dist, nb, what)


# ------------------------------------------------------------------ jobs, results, provider
def op_job(m, which, ids, kw, bad):
    """The job and result objects of one run; earlier ones stay as they were."""
    from qiskit import QuantumCircuit
    from qiskit.providers import JobStatus
    be = m.svb if which == "sv" else m.be
    cs = [m.circ(i) for i in ids]
    arg = [c.qc for c in cs]
    if bad:
        q = QuantumCircuit(2, 1)
        q.ecr(0, 1)
        q.measure(0, 0)
        arg.insert(bad % (len(arg) + 1), q)
    if which == "sv" and not all(c.stable() for c in cs):
        raise Invalid("unstable")
    job = be.run(arg, **kw)
    if job.backend() is not be:
        raise Fail("job.backend() is not the backend that runs it")
    res = job.result()
    if job.result() is not res and job.result().to_dict() != res.to_dict():
        raise Fail("job.result() changes from call to call")
    if job.status() != (JobStatus.ERROR if bad else JobStatus.DONE):
        raise Fail("job.status() is %s" % job.status())
    if job.done() == bool(bad) or job.running() or job.cancelled() or not job.in_final_state():
        raise Fail("job.done() is %s, running() %s, in_final_state() %s" % (job.done(), job.running(), job.in_final_state()))
    if res.success == bool(bad):
        raise Fail("result.success is %s" % res.success)
    if res.job_id != job.job_id():
        raise Fail("result.job_id is %s instead of %s" % (res.job_id, job.job_id()))
    if res.backend_name != be.name() or res.backend_version != be.configuration().backend_version:
        raise Fail("result.backend_name is %s, version %s" % (res.backend_name, res.backend_version))
    expect_raise(job.cancel, "cancelling a finished job")
    log = m.store.setdefault("jobs", [])
    if bad:
        if res.results:
            raise Fail("a failed result carries %d results" % len(res.results))
    else:
        if any(job.job_id() == j[0].job_id() for j in log):
            raise Fail("two jobs have the id %s" % job.job_id())
        if len(res.results) != len(cs) or not all(x.success for x in res.results):
            raise Fail("%d results for %d circuits" % (len(res.results), len(cs)))
        names = [c.qc.name for c in cs]
        got = []
        for i, c in enumerate(cs):
            check_header(c, res, i, False, "job")
            d = res.data(i)
            if which == "sv":
                same_vec(res.get_statevector(i), c.state(), "statevector of circuit %d of the job" % i)
                same_vec(d["statevector"], c.state(), "data()['statevector']")
            if kw.get("shots", 1024) is None:
                if c.m:
                    check_probs(c, probs_of(c, res, i), c.dist(), "probabilities of circuit %d of the job" % i)
                if which != "sv":
                    expect_raise(lambda: res.get_counts(i), "get_counts of an exact run")
                got.append(None)
                continue
            if not c.m:
                got.append(None)
                continue
            cnt = res.get_counts(i)
            check_samples(hist_of(c, res, i, "get_counts"), kw.get("shots", 1024), c.dist(), c.m, "counts of circuit %d of the job" % i)
            if names.count(c.qc.name) == 1:
                if res.get_counts(c.qc) != cnt or res.get_counts(c.qc.name) != cnt:
                    raise Fail("get_counts(circuit) is not get_counts(%d)" % i)
            got.append((dict(cnt), list(res.get_memory(i)) if kw.get("memory") else None))
        log.append((job, ids, got, kw))
    for j, jids, got, k in log:
        r = j.result()
        if j.status() != JobStatus.DONE or r.job_id != j.job_id():
            raise Fail("an earlier job changed")
        for i, g in enumerate(got):
            if g is not None and (dict(r.get_counts(i)), list(r.get_memory(i)) if k.get("memory") else None) != g:
                raise Fail("the counts of an earlier job changed")


def op_provider(m, a):
    from qiskit.providers.exceptions import QiskitBackendNotFoundError
    from qdd import QddBackend, QddProvider
    from qdd.qdd_sv_backend import QddSVBackend
    p = [m.prov, QddProvider()][a % 2]
    names = {"qasm_simulator": QddBackend, "statevector_simulator": QddSVBackend}
    bs = p.backends()
    if sorted(b.name() for b in bs) != sorted(names):
        raise Fail("backends() has %s" % [b.name() for b in bs])
    for n, cls in names.items():
        for b in (p.get_backend(n), p.get_backend(name=n), p.backends(n)[0]):
            if type(b) is not cls or b.name() != n or b.provider is not p and b.provider() is not p:
                raise Fail("get_backend(%r) gives %r of %r" % (n, b, type(b)))
        if len(p.backends(n)) != 1:
            raise Fail("backends(%r) has %d entries" % (n, len(p.backends(n))))
    if type(p.get_backend()) is not QddBackend:
        raise Fail("the default backend is %r" % type(p.get_backend()))
    bad = ["qasm", "statevector", "qasm_simulator ", "aer_simulator", "QASM_SIMULATOR"][a % 5]
    if p.backends(bad):
        raise Fail("backends(%r) is not empty" % bad)
    try:
        p.get_backend(bad)
    except QiskitBackendNotFoundError:
        pass
    else:
        raise Fail("get_backend(%r) was accepted" % bad)
    if [b.name() for b in p.backends(filters=lambda b: b.name().startswith("state"))] != ["statevector_simulator"]:
        raise Fail("backends(filters=...)")
    if len(p.backends(simulator=True)) != 2 or p.backends(simulator=False):
        raise Fail("backends(simulator=...)")


# ------------------------------------------------------------------ seeds, history, concurrency
def allocated():
    """Bytes the process has allocated and not freed."""
    import ctypes
    import gc

    class Info(ctypes.Structure):
        _fields_ = [(k, ctypes.c_size_t) for k in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
    gc.collect()
    f = ctypes.CDLL(None).mallinfo2
    f.restype = Info
    i = f()
    return i.uordblks + i.hblkhd


def op_mem(m, n, runs, which):
    """Results that are dropped do not stay allocated."""
    from qiskit import QuantumCircuit
    qc = QuantumCircuit(n, n)
    for q in range(0, n, 3):
        qc.h(q)
    if which != "sv":
        qc.measure(range(n), range(n))

    def go():
        if which == "sv":
            v = np.asarray(ok_result(m.svb.run(qc), "statevector run").get_statevector())
            if abs(np.vdot(v, v) - 1) > 1e-9:
                raise Fail("statevector is not normalised")
        else:
            ok_result(m.be.run(qc, shots=20), "run")
    for _ in range(4):
        go()
    base = allocated()
    for _ in range(runs):
        go()
    grown = allocated() - base
    if grown > runs * (16 << n) / 3 + (1 << 20):
        raise Fail("memory grew by %d bytes over %d identical runs" % (grown, runs))


def op_gcthr(m, a, b):
    m.pyqdd.set_gc_thr(a, b)


def op_seeded(m, ids, shots, seed, noise, binds=None):
    """The same seed gives the same shots whatever ran before; another seed eventually does not."""
    def go(s):
        _, hs, _, res = run_samples(m, ids, {"shots": shots, "seed_simulator": s, "memory": True}, binds)
        return [res.get_memory(i) for i in range(len(ids))]
    a = go(seed)
    if noise:
        run_samples(m, [noise], {"shots": 7})
    b = go(seed)
    if a != b:
        raise Fail("two runs with seed_simulator=%d differ" % seed)
    m.store[("seeded", tuple(ids), shots, seed)] = a
    ent = 0
    for i in ids:
        d = m.circ(i).dist(binds[ids.index(i)] if binds else None)
        ent += shots * -math.log(max(sum(p * p for p in d.values()), 1e-300))
    if ent > 60:  # equal outcomes under another seed have probability e^-60
        if go(seed + 1) == a:
            raise Fail("seed_simulator=%d and %d give the same shots" % (seed, seed + 1))


def op_unseeded(m, ids, shots, seed=None):
    """Without a seed two runs are independent, also when both follow a run with the same seed."""
    def go():
        if seed is not None:
            run_samples(m, ids[:1], {"shots": 3, "seed_simulator": seed})
        _, hs, _, res = run_samples(m, ids, {"shots": shots, "memory": True})
        return [res.get_memory(i) for i in range(len(ids))]
    ent = sum(shots * -math.log(max(sum(p * p for p in m.circ(i).dist().values()), 1e-300)) for i in ids)
    a, b = go(), go()
    if ent > 60 and a == b:
        raise Fail("two runs without a seed gave the same shots")


def op_seedprim(m, which, i, binds, shots, seed, obs=None):
    if which == "sampler":
        a = op_sampler(m, "fresh%d" % len(m.store), [i], [binds], shots, seed, {})
        op_samp(m, [i], {"shots": 5}, [binds] if binds else None)
        b = op_sampler(m, "fresh%d" % len(m.store), [i], [binds], shots, seed, {})
    else:
        a = op_est(m, "fresh%d" % len(m.store), [i], [obs], [binds], shots, seed, {})
        b = op_est(m, "fresh%d" % len(m.store), [i], [obs], [binds], shots, seed, {})
    if a != b:
        raise Fail("%s: two runs with seed=%d differ: %s and %s" % (which, seed, a, b))


def op_jobs(m, specs):
    """Several primitive jobs in flight at once, all collected at the end."""
    from qdd.qdd_sampler import Sampler
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import SparsePauliOp
    jobs = []
    # Qiskit's transpiler is not safe to run on shared gates from several threads; the circuits need none
    so, eo = {"skip_transpilation": True}, {"skip_transpilation": True, "approximation": True}
    sam, est = Sampler(**so), Estimator(**eo)
    for sp in specs:
        c = m.circ(sp[1])
        if sp[0] == "s":
            if not c.stable() or not c.m:
                raise Invalid("circuit")
            jobs.append((sp, c, (sam if sp[3] else Sampler(**so)).run([c.qc], [par_values(c, sp[2])], shots=None)))
        else:
            if c.m or any(len(l) != c.n for l, _ in sp[4]):
                raise Invalid("circuit")
            o = SparsePauliOp([l for l, _ in sp[4]], [v for _, v in sp[4]])
            jobs.append((sp, c, (est if sp[3] else Estimator(**eo)).run([c.qc], [o], [par_values(c, sp[2])])))
    for sp, c, j in jobs:
        r = j.result()
        if sp[0] == "s":
            check_probs(c, {int(k): float(v) for k, v in r.quasi_dists[0].items()}, c.dist(sp[2]), "Sampler job among %d" % len(specs))
        else:
            want = expval(c.state(sp[2]), sp[4], c.n)
            if not abs(complex(r.values[0]) - want) <= 1e-7 * (1 + sum(abs(v) for _, v in sp[4])):
                raise Fail("Estimator job among %d: %s instead of %s" % (len(specs), r.values[0], want))


def op_threads(m, ids, shots):
    """backend.run and merge_circuit (["m", circuit, frequency]) from several user threads."""
    import threading
    out = [None] * len(ids)

    def go(k):
        try:
            if isinstance(ids[k], list):
                out[k] = m.be.merge_circuit(m.circ(ids[k][1]).qc, ids[k][2])
                return
            c = m.circ(ids[k])
            res = ok_result(m.be.run(c.qc, shots=shots), "run")
            out[k] = hist_of(c, res, 0, "get_counts")
        except BaseException as e:
            out[k] = e
    cs = [m.circ(i[1] if isinstance(i, list) else i) for i in ids]
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(ids))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for k, c in enumerate(cs):
        if isinstance(out[k], BaseException):
            raise out[k]
        if isinstance(ids[k], list):
            m.store["threads", k] = (out[k], c)
            op_mergemat(m, ("threads", k))
        else:
            check_samples(out[k], shots, c.dist(), c.m, "threaded run of circuit %s" % ids[k])


# ------------------------------------------------------------------ several processes
def op_kw(m, kw, asopt=False):
    """Run options of the following runs, given to run() or set on the backends."""
    import worker
    if kw.get("n_threads", 1) > 1 and not hasattr(m.pyqdd, "initMT"):
        raise Invalid("not built for threads")
    if (kw.get("use_mpi") or kw.get("use_bcast")) and worker.MPI is None:
        raise Invalid("needs mpirun")
    m.kw = {} if asopt else dict(kw)
    for b in (m.be, m.svb):
        b.set_options(**{"use_mpi": False, "use_bcast": False, "use_auto_swap": True, "swap_ver": "v1", "n_threads": 1, **(kw if asopt else {})})


def op_pool(m, k):
    """Worker threads: none are left by earlier runs, asking for k gives a pool each time, and it goes when it is dismissed."""
    if not hasattr(m.pyqdd, "initMT"):
        raise Invalid("not built for threads")

    def tasks():  # a joined thread stays listed for a moment
        n = 10**9
        for _ in range(8):
            n = min(n, len(os.listdir("/proc/self/task")))
            time.sleep(0.005)
        return n
    a = tasks()
    m.pyqdd.terminateMT()
    b = tasks()
    if b < a:
        raise Fail("%d worker threads were left by earlier runs" % (a - b))
    m.pyqdd.initMT(k)
    c = tasks()
    m.pyqdd.terminateMT()
    d = tasks()
    if c <= b:
        raise Fail("asking for %d threads started none" % k)
    if d > b:
        raise Fail("%d worker threads remain after their pool was dismissed" % (d - b))


def op_other(m, i):
    """Only what process 0 submits counts: the others hand over something else of the same size."""
    import worker
    if worker.MPI is None:
        raise Invalid("needs mpirun")
    c = m.circ(i)
    if worker.MPI.rank and c.m:
        q = c.qc.copy_empty_like()
        q.x(c.n - 1)
        q.measure(c.n - 1, 0)
        c.qc = q


def op_mpismall(m, n):
    """Fewer amplitudes than processes: refused everywhere."""
    from qiskit import QuantumCircuit
    from qiskit.providers import JobStatus
    import worker
    if worker.MPI is None or (1 << n) > worker.MPI.size:
        raise Invalid("needs mpirun")
    qc = QuantumCircuit(n, n)
    qc.x(0)
    qc.measure(0, 0)
    if m.be.run(qc, shots=5, use_mpi=True).status() != JobStatus.ERROR:
        raise Fail("%d qubits on %d processes were accepted" % (n, worker.MPI.size))


# ------------------------------------------------------------------ the binding itself
class Raw:
    def __init__(self, n):
        self.n, self.v, self.m = n, {}, {}


def raw(m, n=None):
    if getattr(m, "raw", None) is None:
        raise Invalid("no register")
    return m.raw


def op_bn(m, n):
    m.raw = Raw(n)


def vslot(b, v):
    if v not in b.v:
        raise Invalid("vector")
    return b.v[v]


def mslot(b, x):
    if x not in b.m:
        raise Invalid("matrix")
    return b.m[x]


def full(n, mat, targets, controls=(), cstate=None):
    d = 1 << n
    e = np.eye(d, dtype=complex)
    return np.stack([ref.apply(e[:, k], mat, targets, n, controls, cstate) for k in range(d)], axis=1)


NAMED = {"I": np.eye(2, dtype=complex), "H": ref.H, "X": ref.X, "Y": ref.Y, "Z": ref.Z, "S": ref.S, "Sdag": ref.S.conj().T, "T": ref.T, "Tdag": ref.T.conj().T,
         "SX": ref.SX, "SXdag": ref.SX.conj().T, "V": ref.rot(ref.X, math.pi / 2), "Vdag": ref.rot(ref.X, -math.pi / 2)}
MAT1 = {"rxmat": lambda t: ref.rot(ref.X, t), "rymat": lambda t: ref.rot(ref.Y, t), "rzmat": lambda t: ref.rot(ref.Z, t), "p": ref.ph, "u1": ref.ph,
        "u2": lambda p, l: ref.u3(math.pi / 2, p, l), "u3": ref.u3, "u": lambda t, p, l, g: np.exp(1j * g) * ref.u3(t, p, l),
        "r": lambda t, p: ref.rot(math.cos(p) * ref.X + math.sin(p) * ref.Y, t)}
MAT2 = {"rxxmat": ref.GATES["rxx"][3], "ryymat": ref.GATES["ryy"][3], "rzzmat": ref.GATES["rzz"][3], "rzxmat": ref.GATES["rzx"][3],
        "swapmat": ref.GATES["swap"][3], "iswapmat": ref.GATES["iswap"][3]}


def build(m, n, spec):
    """(matrix edge, numpy matrix). spec: [builder, ...]"""
    P = m.pyqdd
    k = spec[0]
    if any(not 0 <= q < n for q in spec[-1]) or len(set(spec[-1])) != len(spec[-1]):
        raise Invalid("qubit")
    if k in ("name", "mat"):  # [k, name, params, negative controls, qubits: controls..., target]
        _, name, par, neg, qs = spec
        g = name if k == "name" else getattr(P, name)(*par)
        ref_m = NAMED[name] if k == "name" else MAT1[name](*par)
        pos = [q for q in qs[:-1] if q not in neg]
        ng = [q for q in qs[:-1] if q in neg]
        if ng:
            e = P.makeGate(n, g, qs[-1], pos, neg_controls=ng)
        elif pos:
            e = P.makeGate(n, g, qs[-1], pos)
        else:
            e = P.makeGate(n, g, qs[-1])
        return e, full(n, ref_m, [qs[-1]], qs[:-1], sum(1 << j for j, q in enumerate(qs[:-1]) if q not in neg))
    if k == "two":  # qubits: controls..., low, high
        _, name, par, neg, qs = spec
        g = getattr(P, name)(*par)
        c, lo, hi = qs[:-2], qs[-2], qs[-1]
        pos = [q for q in c if q not in neg]
        ng = [q for q in c if q in neg]
        if ng:
            e = P.makeTwoQubitGate(n, g, hi, lo, pos, ng)
        elif pos:
            e = P.makeTwoQubitGate(n, g, hi, lo, pos)
        else:
            e = P.makeTwoQubitGate(n, g, hi, lo)
        return e, full(n, MAT2[name](*par), [lo, hi], c, sum(1 << j for j, q in enumerate(c) if q not in neg))
    if k in ("RX", "RY", "RZ"):
        return getattr(P, k)(n, spec[2][0], spec[1]), full(n, MAT1[k.lower() + "mat"](spec[1]), [spec[2][0]])
    if k == "CX":
        return P.CX(n, spec[1][0], spec[1][1]), full(n, ref.X, [spec[1][0]], [spec[1][1]])
    if k in ("RXX", "RYY", "RZZ", "RZX"):
        return getattr(P, k)(n, spec[2][1], spec[2][0], spec[1]), full(n, MAT2[k.lower() + "mat"](spec[1]), spec[2])
    if k in ("SWAP", "ISWAP"):
        return getattr(P, k)(n, *spec[1]), full(n, MAT2[k.lower() + "mat"](), spec[1])
    if k == "CSWAP":
        return P.CSWAP(n, *spec[1]), full(n, ref.SWAP, spec[1][:2], spec[1][2:])
    if k == "uni":  # [k, seed, all in order, qubits]
        u = ref.unitary(spec[1], len(spec[3]))
        if spec[2]:
            if spec[3] != list(range(n)):
                raise Invalid("not all qubits")
            return P.unitary(n, u), full(n, u, spec[3])
        return P.unitary(n, u, spec[3]), full(n, u, spec[3])
    raise Invalid(k)


def op_bz(m, v):
    b = raw(m)
    s = np.zeros(1 << b.n, complex)
    s[0] = 1
    b.v[v] = [m.pyqdd.makeZeroState(b.n), s]


def op_bg(m, d, spec):
    b = raw(m)
    b.m[d] = list(build(m, b.n, spec))


def op_bmm(m, d, x, y):
    b = raw(m)
    (e, A), (f, B) = mslot(b, x), mslot(b, y)
    b.m[d] = [m.pyqdd.mm_multiply(e, f), A @ B]


def op_bmv(m, d, x, v):
    b = raw(m)
    (e, A), (f, s) = mslot(b, x), vslot(b, v)
    b.v[d] = [m.pyqdd.mv_multiply(e, f), A @ s]


def op_bap(m, v, spec):
    b = raw(m)
    f, s = vslot(b, v)
    e, A = build(m, b.n, spec)
    b.v[v] = [m.pyqdd.mv_multiply(e, f), A @ s]


def op_bglob(m, kind, d, x, t):
    b = raw(m)
    e, A = (vslot if kind == "v" else mslot)(b, x)
    (b.v if kind == "v" else b.m)[d] = [m.pyqdd.applyGlobal(e, t), A * np.exp(1j * t)]


def op_bgc(m, how, keep, force):
    """keep: the slots that survive."""
    b, P = raw(m), m.pyqdd
    t = b.v if how[0] == "v" else b.m
    keep = [k for k in keep if k in t]
    if not keep:
        raise Invalid("nothing kept")
    es = [t[k][0] for k in keep]
    if how == "v1":
        keep, new = keep[:1], [P.gc(es[0], force)]
    elif how == "v":
        new = P.gc(es, force)
    elif how == "m1":
        keep, new = keep[:1], [P.gc_mat(es[0], force)]
    elif how == "m":
        new = P.gc_mat(es, force)
    else:  # updates the kept objects in place
        new = [P.gc_mat_keeping(es[0], es[1:], force)] + es[1:]
    if len(new) != len(keep):
        raise Fail("%s returned %d of %d diagrams" % (how, len(new), len(keep)))
    for k in list(t):
        if k not in keep:
            del t[k]
    for k, e in zip(keep, new):
        t[k][0] = e


# ------------------------------------------------------------------ the binding in the MPI build
def xraw(m):
    import worker
    if getattr(m, "xr", None) is None or worker.MPI is None:
        raise Invalid("no register")
    return m.xr


def xcheck(m, what):
    x = xraw(m)
    same_vec(m.pyqdd.getVectorMPI(x[1]), x[2], what)


def op_xn(m, n, one):
    import worker
    if worker.MPI is None or (1 << n) <= worker.MPI.size:
        raise Invalid("needs mpirun")
    s = np.zeros(1 << n, complex)
    s[-1 if one else 0] = 1
    m.xr = [n, (m.pyqdd.makeOneStateMPI if one else m.pyqdd.makeZeroStateMPI)(n), s]
    xcheck(m, "initial state")


def op_xap(m, bc, slack, spec):
    x = xraw(m)
    e, A = build(m, x[0], spec)
    top = min(x[0] - 1, max(spec[-1]) + slack)
    x[1] = (m.pyqdd.mv_multiply_MPI_bcast if bc else m.pyqdd.mv_multiply_MPI)(e, x[1], x[0], top)
    x[2] = A @ x[2]
    xcheck(m, "state after %s" % spec[0])


def op_xpr(m):
    x = xraw(m)
    g = np.asarray(m.pyqdd.probabilitiesMPI(x[1]))
    if g.shape != x[2].shape or not np.max(abs(g - abs(x[2]) ** 2)) <= TOL:
        raise Fail("probabilitiesMPI: %s instead of %s" % (g[:8], (abs(x[2]) ** 2)[:8]))


def op_xm1(m, q):
    x = xraw(m)
    if q >= x[0]:
        raise Invalid("qubit")
    x[1], p = m.pyqdd.measureOneMPI(x[1], q, x[0])
    w = float(np.sum(abs(x[2][((np.arange(len(x[2])) >> q) & 1) == 0]) ** 2))
    if not abs(p - w) <= TOL:
        raise Fail("measureOneMPI: probability %.12g of 0 instead of %.12g" % (p, w))
    xcheck(m, "state after measureOneMPI")


def op_xmc(m, q, seed):
    x = xraw(m)
    if q >= x[0]:
        raise Invalid("qubit")
    m.pyqdd.set_seed(seed)
    x[1], o = m.pyqdd.measureOneCollapsingMPI(x[1], q, x[0])
    m.agree(o, "measureOneCollapsingMPI")
    if o not in ("0", "1"):
        raise Fail("measureOneCollapsingMPI returned %r" % o)
    s = np.where(((np.arange(len(x[2])) >> q) & 1) == int(o), x[2], 0)
    w = float(np.sum(abs(s) ** 2))
    if w < 1e-11:
        raise Fail("measureOneCollapsingMPI: outcome %s of probability %.3g" % (o, w))
    x[2] = s / math.sqrt(w)
    same_vec(m.pyqdd.getVectorMPI(x[1]), x[2], "state after measureOneCollapsingMPI", 1e-7)


def op_xma(m, shots, seed):
    x = xraw(m)
    m.pyqdd.set_seed(seed)
    h = {}
    for _ in range(shots):
        x[1], o = m.pyqdd.measureAllMPI(x[1], False)
        if len(o) != x[0]:
            raise Fail("measureAllMPI: outcome %r" % o)
        h[int(o, 2)] = h.get(int(o, 2), 0) + 1
    m.agree(sorted(h.items()), "measureAllMPI")
    check_samples(h, shots, dict(enumerate(abs(x[2]) ** 2)), x[0], "measureAllMPI")
    xcheck(m, "state after measureAllMPI")


def op_xgc(m):
    x = xraw(m)
    x[1] = m.pyqdd.gc(x[1], True)
    xcheck(m, "state after gc")


def op_xsl(m):
    """Every process saves its part and loads it again."""
    x = xraw(m)
    d = tempfile.mkdtemp()
    f = os.path.join(d, "part")
    try:
        m.pyqdd.save_binary(x[1], f)
        x[1] = m.pyqdd.load_binary(f)
    finally:
        if os.path.exists(f):
            os.unlink(f)
        os.rmdir(d)
    xcheck(m, "state saved and loaded")


def op_xpv(m):
    import worker
    x = xraw(m)
    ls = printed(lambda: x[1].printVectorMPI())
    if worker.MPI.rank:
        return
    part, g = len(x[2]) // worker.MPI.size, []
    for l, c in ls:  # a part without amplitudes is one line
        g += [0] * part if l.startswith("(all 0)") else c
    if len(g) != len(x[2]):
        raise Fail("printVectorMPI: %d entries" % len(g))
    same_vec(np.array(g), x[2], "printVectorMPI", 2e-5)


def printed(f):
    """What f prints on the process' standard output."""
    import re
    sys.stdout.flush()
    old = os.dup(1)
    with tempfile.TemporaryFile() as t:
        os.dup2(t.fileno(), 1)
        try:
            f()
        finally:
            os.dup2(old, 1)
            os.close(old)
        t.seek(0)
        ls = t.read().decode().split("\n")
    num = r"(-?(?:[0-9.]+(?:e[-+]?[0-9]+)?|nan|inf))"
    pair = re.compile(r"\(%s , %s\)" % (num, num))
    return [(l, [complex(float(x), float(y)) for x, y in pair.findall(l)]) for l in ls]


def op_bchk(m, slot, how):
    b, P = raw(m), m.pyqdd
    if how[0] == "M":
        e, A = mslot(b, slot)
        if how == "Meig":
            g = np.asarray(e.getEigenMatrix(b.n))
            if g.shape != A.shape:
                raise Fail("getEigenMatrix: shape %s" % (g.shape,))
            same_vec(g.reshape(-1), A.reshape(-1), "getEigenMatrix", 2e-5)
        elif how == "Mpr":
            g = np.array([c for l in printed(lambda: e.printMatrix(b.n)) for c in l[1]])
            if g.size != A.size:
                raise Fail("printMatrix: %d entries" % g.size)
            same_vec(g, A.reshape(-1), "printMatrix", 2e-5)
        elif how == "Mdot":
            g = P.genDot(e)
            if "digraph" not in g and (g or not np.allclose(A, A[0, 0] * np.eye(len(A)), atol=1e-5)):
                raise Fail("genDot of a matrix")  # the identity is the terminal edge, whose graph is empty
        else:  # by its columns, in double precision
            k = int(how[1:]) % len(A)
            z = P.makeZeroState(b.n)
            for q in range(b.n):
                if (k >> q) & 1:
                    z = P.mv_multiply(P.makeGate(b.n, "X", q), z)
            same_vec(P.getVector(P.mv_multiply(e, z)), A[:, k], "column %d of a matrix" % k)
        return
    e, s = vslot(b, slot)
    if how == "vec":
        same_vec(P.getVector(e), s, "getVector")
    elif how == "eig":
        same_vec(np.asarray(e.getEigenVector()).reshape(-1), s, "getEigenVector", 2e-5)
    elif how == "pr":
        g = np.asarray(P.probabilities(e))
        if g.shape != s.shape or not np.max(abs(g - abs(s) ** 2)) <= TOL:
            raise Fail("probabilities: %s instead of %s" % (g[:8], (abs(s) ** 2)[:8]))
    elif how == "print":
        g = np.array([c for l in printed(e.printVector) for c in l[1]])
        if g.shape != s.shape:
            raise Fail("printVector: %d entries" % g.size)
        same_vec(g, s, "printVector", 2e-5)
    elif how == "sparse":
        g, seen = np.zeros(len(s), complex), set()
        for l, c in printed(e.printVector_sparse):
            if not c:
                continue
            i = int(l.split(":")[0], 2)
            if len(c) != 1 or i >= len(s) or i in seen:
                raise Fail("printVector_sparse: line %r" % l)
            seen.add(i)
            g[i] = c[0]
        for i, a in enumerate(s):  # tiny amplitudes may be left out
            if abs(g[i] - a) > (2e-5 if i in seen else 1.1e-3):
                raise Fail("printVector_sparse: amplitude %d is %s instead of %s" % (i, g[i], a))
    elif how == "dot":
        if "digraph" not in P.genDot(e):
            raise Fail("genDot of a state")
    elif how == "nodes":
        k = P.get_nNodes(e)
        if not 0 < k <= (1 << b.n):
            raise Fail("get_nNodes: %d nodes for %d qubits" % (k, b.n))
    else:
        raise Invalid(how)


def op_bm1(m, v, q):
    b = raw(m)
    e, s = vslot(b, v)
    if q >= b.n:
        raise Invalid("qubit")
    _, p = m.pyqdd.measureOne(e, q)
    w = float(np.sum(abs(s[((np.arange(len(s)) >> q) & 1) == 0]) ** 2))
    if not abs(p - w) <= TOL:
        raise Fail("measureOne: probability %.12g of 0 instead of %.12g" % (p, w))
    same_vec(m.pyqdd.getVector(_), s, "state after measureOne")


def op_bmc(m, v, q, seed):
    b = raw(m)
    e, s = vslot(b, v)
    if q >= b.n:
        raise Invalid("qubit")
    m.pyqdd.set_seed(seed)
    e, o = m.pyqdd.measureOneCollapsing(e, q)
    if o not in ("0", "1"):
        raise Fail("measureOneCollapsing returned %r" % o)
    s = np.where(((np.arange(len(s)) >> q) & 1) == int(o), s, 0)
    w = float(np.sum(abs(s) ** 2))
    if w < 1e-11:
        raise Fail("measureOneCollapsing: outcome %s of probability %.3g" % (o, w))
    s = s / math.sqrt(w)
    same_vec(m.pyqdd.getVector(e), s, "state after measureOneCollapsing", 1e-7)
    b.v[v] = [e, s]


def op_bma(m, v, collapse, seed, shots):
    b = raw(m)
    e, s = vslot(b, v)
    m.pyqdd.set_seed(seed)
    h = {}
    for _ in range(1 if collapse else shots):
        e, o = m.pyqdd.measureAll(e, collapse)
        if len(o) != b.n or set(o) - {"0", "1"}:
            raise Fail("measureAll returned %r" % o)
        h[int(o, 2)] = h.get(int(o, 2), 0) + 1
    check_samples(h, sum(h.values()), {k: float(abs(a) ** 2) for k, a in enumerate(s)}, b.n, "measureAll")
    if collapse:
        k = next(iter(h))
        g = np.asarray(m.pyqdd.getVector(e))
        if g.shape != s.shape or abs(abs(g[k]) - 1) > 1e-8 or np.sum(abs(g) > 1e-8) != 1:
            raise Fail("measureAll: not collapsed to outcome %d" % k)
        b.v[v] = [e, g]
    else:
        same_vec(m.pyqdd.getVector(e), s, "state after measureAll without collapse")
