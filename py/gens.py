"""Case generators of the Python layer: (lines, non-trivial). They use only the random stream."""
import math, os
import ref

ANG = [0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4, 2 * math.pi, 3 * math.pi, -math.pi]


def angle(r):
    k = r.randrange(7)
    if k < 2:
        return r.choice(ANG)
    if k == 2:
        return round(r.uniform(-0.01, 0.01), 6)
    if k == 3:  # close to one another, also up to a turn
        return round(r.choice([0.3, -1.1, 2.5]) + r.randint(-1, 1) * 6.283185307179586 + r.randint(-3, 3) * 10.0 ** -r.randint(2, 5), 15)
    return round(r.uniform(-7, 7), 4)


def gate(r, n, names=None, openc=True, maxq=99, large=3):
    """A gate line on n qubits."""
    if names is None and r.random() < 0.08:
        k = r.randint(1, min(n, large))
        if large == 2:
            k = 1
        return ["u", r.randrange(10**6), r.sample(range(n), k)]
    while True:
        name = r.choice(names or NAMES)
        nc, nt, npar, _ = ref.GATES[name]
        if nc < 0:
            nc = r.randint(1 if name == "mcp" else 1, max(1, min(n - 1, 5)))
        if nc + nt > min(n, maxq):
            continue
        qs = r.sample(range(n), nc + nt)
        cs = None
        if openc and nc and name in ref.OPEN and r.random() < 0.35:
            cs = r.randrange(1 << nc)
        return ["g", name, [angle(r) for _ in range(npar)], qs, cs]


NAMES = sorted(ref.GATES)


def split(r, total, most=3):
    parts = []
    while total:
        k = r.randint(1, total) if len(parts) < most - 1 else total
        parts.append(k)
        total -= k
    return parts


def new(r, i, n, m):
    return ["new", i, split(r, n), split(r, m) if m else []]


def body(r, n, depth, gp=True, **kw):
    ls = []
    for _ in range(depth):
        x = r.random()
        if x < 0.04:
            ls.append(["bar"])
        elif x < 0.08 and gp:
            ls.append(["gp", angle(r)])
        else:
            ls.append(gate(r, n, **kw))
    return ls


def spread(r, n, ls):
    """Put superposition in front often, so that outcomes are not trivial."""
    if r.random() < 0.7:
        return [["g", r.choice(["h", "sx", "ry"]), [], [q], None] if True else None for q in range(n) if r.random() < 0.7 for _ in [0]] + ls
    return ls


def fix(ls):
    for l in ls:
        if l[0] == "g" and len(l[2]) != ref.GATES[l[1]][2]:
            l[2] = [1.234][:ref.GATES[l[1]][2]]
    return ls


def static(r, i, n=None, m=None, maxn=6, depth=None, gp=True, allm=False, large=3):
    """Gates interleaved with final measurements: no gate on a measured qubit."""
    n = n or r.randint(1, maxn)
    m = m or r.randint(1, n + 2)
    ls = fix(spread(r, n, body(r, n, r.randint(0, 14) if depth is None else depth, gp, large=large)))
    meas = []
    if allm:
        meas = [["m", q, q] for q in range(n)]
    else:
        for _ in range(r.randint(1, m + 1)):
            meas.append(["m", r.randrange(n), r.randrange(m)])
    r.shuffle(meas)
    out = ls + meas
    if r.random() < 0.4:  # measure earlier where no later gate touches the qubit
        for x in meas:
            if r.random() < 0.5:
                k = len(ls)
                while k > 0 and not (ls[k - 1][0] in ("g", "u") and x[1] in (ls[k - 1][3] if ls[k - 1][0] == "g" else ls[k - 1][2])) and r.random() < 0.8:
                    k -= 1
                # only the measurements' relative order on a clbit matters: keep it by moving just clbits measured once
                if sum(1 for y in meas if y[2] == x[2]) == 1:
                    out.remove(x)
                    pos = out.index(ls[k]) if k < len(ls) else None
                    if pos is None:
                        out.append(x)
                    else:
                        pos = next(j for j, y in enumerate(out) if y is ls[k])
                        out.insert(pos, x)
    return [new(r, i, n, m)] + out, n, m


def dyn(r, i, maxn=4, maxmeas=7, n=None, large=3, openc=True):
    """Mid-circuit measurement, reset, conditions."""
    n = n or r.randint(1, maxn)
    m = r.randint(1, 4)
    head = new(r, i, n, m)
    sizes = head[3]
    starts = [sum(sizes[:k]) for k in range(len(sizes))]
    ls = fix(spread(r, n, []))
    meas = 0
    nm = r.randint(1, maxmeas)

    def cond():
        if r.random() < 0.5:
            return ["b", r.randrange(m), r.randrange(2)]
        k = r.randrange(len(sizes))
        return ["r", k, r.randrange(1 << sizes[k])]
    conds = 0
    for _ in range(r.randint(2, 16)):
        x = r.random()
        if x < 0.3 and meas < nm:
            l = ["m", r.randrange(n), r.randrange(m)]
            if r.random() < 0.15:
                l.append(cond())
                conds += 1
            ls.append(l)
            meas += 1
        elif x < 0.4 and meas < nm:
            l = ["r", r.randrange(n)]
            if r.random() < 0.2:
                l.append(cond())
                conds += 1
            ls.append(l)
            meas += 1
        elif x < 0.65:
            g = gate(r, n, large=large, openc=openc)
            while not openc and g[0] == "u":  # Qiskit 1.2.4 loses the condition when it synthesises one
                g = gate(r, n, large=large, openc=openc)
            g.append(cond())
            conds += 1
            ls.append(g)
        else:
            ls.append(gate(r, n, large=large, openc=openc))
    if not any(l[0] == "m" for l in ls):
        ls.append(["m", r.randrange(n), r.randrange(m)])
    return [head] + ls, n, m, conds


def seed(r):
    return r.randrange(1, 2**31) if r.random() < 0.9 else r.choice([0, 0, 1, 2**31 - 1, 2**32 - 1, 2**32])


def some(r, p, **kw):
    """Some of the options, with one of their values each."""
    return {k: r.choice(v) for k, v in kw.items() if r.random() < p}


def p_opts(r):
    k = r.randint(1, 3)
    ls = []
    for i in range(k):
        a, n, _ = static(r, i, maxn=4, large=2)
        ls += a[:1] + [["g", "h", [], [q], None] for q in range(n) if r.random() < 0.7] + a[1:]
    ns = []
    for i in range(k, k + 2):
        n = r.randint(1, 3)
        ns.append(n)
        ls += [["new", i, [n], []]] + body(r, n, r.randint(2, 6), large=2) + [["g", "h", [], [0], None]]
    seeds = [0, 1, seed(r), seed(r)]
    vals = {"shots": [1, 7, 40, 200, 1024, None], "memory": [True, False], "seed_simulator": seeds + [None]}
    nb = npr = 0
    cnt = 0
    for _ in range(r.randint(4, 12)):
        x = r.randrange(10)
        if nb == 0 or x == 0:
            ls.append(["be", "b%d" % nb, r.choice(["qasm_simulator", "qasm_simulator", None])])
            nb += 1
        elif x < 3:
            ls.append(["opt", "b%d" % r.randrange(nb), some(r, 0.5, **vals)])
            cnt += 1
        elif x == 3 and r.random() < 0.3:
            w = r.choice("se")
            ids = [r.randrange(k) if w == "s" else r.randrange(k, k + 2) for _ in range(r.randint(1, 2))]
            ls.append(["topts", w, ids, None if w == "s" else [observable(r, ns[i - k]) for i in ids], r.random() < 0.4, r.randrange(4)])
        elif x == 3 and r.random() < 0.3:
            ls.append(["badopt", "b%d" % r.randrange(nb)])
        elif x < 6:
            kw = some(r, 0.35, **vals)
            if r.random() < 0.1:
                kw[r.choice(["method", "noise_model", "max_parallel"])] = 3
            ls.append(["orun", "b%d" % r.randrange(nb), [r.randrange(k) for _ in range(r.randint(1, 2))], kw])
        elif npr == 0 or x == 6:
            w = r.choice("ssea")
            ro = some(r, 0.4, shots=[5, 60, 300], **({"seed": seeds} if r.random() < 0.5 else {"seed_simulator": seeds}))
            ls.append(["prim", w + str(npr), w, r.choice([None, some(r, 0.5, shots=[9, 90, None], seed_simulator=seeds, memory=[True])]), r.choice([None, ro])])
            npr += 1
        else:
            ps = [l[1] for l in ls if l[0] == "prim"]
            p = r.choice(ps)
            if r.random() < 0.2:
                ls.append(["popt", p, some(r, 0.6, shots=[3, 30, 250], seed=seeds)])
                continue
            kw = some(r, 0.35, shots=[2, 20, 400, None], seed=seeds, seed_simulator=seeds)
            ids = [r.randrange(k) if p[0] == "s" else r.randrange(k, k + 2) for _ in range(r.randint(1, 2))]
            ls.append(["prun", p, ids, None if p[0] == "s" else [observable(r, ns[i - k]) for i in ids], kw])
            cnt += 1
    return ls, cnt >= 2


def p_jobif(r):
    k = r.randint(1, 4)
    ls = []
    for i in range(k):
        if r.random() < 0.3:
            ls += dyn(r, i, maxn=3, maxmeas=4)[0]
        else:
            ls += static(r, i, maxn=4)[0]
        if r.random() < 0.3:
            ls.append(["name", i, r.choice(["a", "b", "c d", ""])])
        if r.random() < 0.2:
            ls.append(["meta", i, {"k": i}])
    n = 0
    for _ in range(r.randint(2, 6)):
        if r.random() < 0.15:
            ls.append(["provider", r.randrange(100)])
            continue
        sv = r.random() < 0.3
        pool = [i for i in range(k) if stable_lines(ls, i)] if sv else list(range(k))
        kw = some(r, 0.6, shots=[1, 10, 100], memory=[True, False], seed_simulator=[0, 5, seed(r)])
        ids = [r.choice(pool) for _ in range(r.randint(1, 3))] if pool else []
        if ids and all(stable_lines(ls, i) for i in ids) and r.random() < 0.15:
            kw = {"shots": None}
        if not ids:
            continue
        ls.append(["job", "sv" if sv else "qasm", ids, kw, r.randint(1, 3) if r.random() < 0.2 else 0])
        n += 1
    return ls, n >= 2


def stable_lines(ls, i):
    """Nothing but measurements of the same qubit follows a measurement, and nothing depends on outcomes."""
    cur, meas = None, set()
    for l in ls:
        if l[0] in ("new", "cur"):
            cur = l[1]
        elif cur == i:
            if l[0] == "m":
                if len(l) > 3:
                    return False
                meas.add(l[1])
            elif l[0] == "r" or l[0] in ("g", "u") and (len(l) > (5 if l[0] == "g" else 3) or meas & set(l[3] if l[0] == "g" else l[2])):
                return False
    return True


def loose(r, ls, p=0.1):
    """Sometimes bits outside of registers."""
    if r.random() < p and not any(isinstance(x, list) and x and x[0] == "r" for l in ls for x in l[1:]):
        for l in ls:
            if l[0] == "new":
                l.append(True)
    return ls


def twoq(ls):
    return sum(1 for l in ls if l[0] == "g" and len(l[3]) > 1 or l[0] == "u" and len(l[2]) > 1)


def p_samp(r):
    ls, n, m = static(r, 0)
    loose(r, ls)
    ls.append(["samp", [0], {"shots": r.choice([1, 2, 50, 300, 1500]) if r.random() < 0.985 else r.choice([4096, 9999, 66000]), "memory": r.random() < 0.4, "seed_simulator": seed(r), "single": r.random() < 0.5}])
    return ls, n >= 2 and twoq(ls) >= 1


def p_dyn(r):
    ls, n, m, conds = dyn(r, 0)
    loose(r, ls, 0.3)
    sh = r.choice([40, 100, 250])
    ls.append(["samp", [0], {"shots": sh, "memory": r.random() < 0.3, "seed_simulator": seed(r)}])
    if r.random() < 0.4:
        ls.append(["svdyn", 0, seed(r)])
    return ls, n >= 2 and conds >= 1


def p_prob(r):
    k = 1 if r.random() < 0.7 else 2
    ls = []
    for i in range(k):
        a, n, m = static(r, i)
        ls += a
    loose(r, ls)
    ls.append(["prob", list(range(k))])
    return ls, twoq(ls) >= 2


def p_sv(r):
    ls = []
    k = r.choice([1, 1, 2])
    for i in range(k):
        n = r.randint(1, 8 if r.random() < 0.1 else 6)
        if r.random() < 0.5:
            ls += [new(r, i, n, 0)] + fix(spread(r, n, body(r, n, r.randint(1, 20))))
        else:
            ls += static(r, i, n)[0]
    ls.append(["sv", list(range(k)), r.choice([1024, 1, None, None])])
    return ls, twoq(ls) >= 2


def p_trans(r):
    n = r.randint(1, 5)
    level = r.randrange(4)
    items = []
    kinds = [("ecr", 0, 2), ("dcx", 0, 2), ("ch", 0, 2), ("cs", 0, 2), ("csdg", 0, 2), ("xxp", 2, 2), ("xxm", 2, 2), ("rccx", 0, 3), ("rc3x", 0, 4), ("c3sx", 0, 4),
             ("ccz", 0, 3), ("u1", 1, 1), ("u2", 2, 1), ("u3", 3, 1), ("mcrx", 1, -2), ("mcu", 3, -2), ("qft", 0, -1), ("diag", 0, -1), ("unit", 0, -1), ("cunit", 0, -2),
             ("perm", 0, -2), ("ms", 1, -2), ("pauli", 0, -1), ("evo", 1, -1), ("gp", 1, 1), ("h", 0, 1), ("cx", 0, 2), ("rx", 1, 1), ("t", 0, 1), ("iswap", 0, 2), ("ccx", 0, 3)]
    for _ in range(r.randint(1, 7)):
        k, np_, q = r.choice(kinds)
        need = q if q > 0 else r.randint(-q, max(-q, min(n, 3)))
        if need > n or k == "perm" and level > 1:  # Qiskit 1.2.4 miscompiles permutations at levels 2 and 3
            continue
        items.append([k, [angle(r) for _ in range(np_)], r.sample(range(n), need), r.randrange(10**6)])
    if r.random() < 0.2:
        items.insert(0, ["prep", [], list(range(n)), r.randrange(10**6)])
    if not items:
        items.append(["h", [], [0], 0])
    return [["trans", [n, items], level, r.randrange(1000), r.random() < 0.4]], len(items) >= 2 and n >= 2


def params(r, ls, names):
    """Replace some angles by expressions of named parameters."""
    used = set()
    for l in ls:
        if l[0] == "g":
            for j in range(len(l[2])):
                if r.random() < 0.5:
                    p = r.choice(names)
                    l[2][j] = ["$", p, r.choice([1, 1, 2, -0.5]), r.choice([0, 0, 0.25])]
                    used.add(p)
    return used


def p_batch(r):
    k = r.randint(2, 5)
    ls, used = [], False
    par = r.random() < 0.6
    for i in range(k):
        if r.random() < 0.25 and not par:
            a = dyn(r, i, maxn=3, maxmeas=4)[0]
        else:
            a, n, m = static(r, i, maxn=4)
        if par:
            used = params(r, a, ["a", "b", "th"]) or used
        ls += a
    ids = list(range(k))
    r.shuffle(ids)
    if r.random() < 0.4:
        ids.append(r.choice(ids))
    if r.random() < 0.4:  # names need not be unique
        pool = r.choice([["a"], ["a", "b"], ["a", "a ", "circuit-1"]])
        for i in range(k):
            if r.random() < 0.9:
                ls.append(["name", i, r.choice(pool)])
    for i in range(k):
        if r.random() < 0.3:
            ls.append(["meta", i, r.choice([{"i": i}, {"x": [1, {"y": "z"}]}, {}, {"shots": 3, "name": "other"}])])
    binds = [{p: angle(r) for p in ("a", "b", "th")} for _ in ids] if par else None
    o = {"shots": r.choice([1, 60, 400]), "memory": r.random() < 0.5, "seed_simulator": seed(r)}
    ls.append(["samp", ids, o, binds])
    stable = not any(l[0] == "r" or len(l) > 5 or l[0] == "m" and len(l) > 3 for l in ls)
    if par and r.random() < 0.5:
        ls.append(["prob", ids, binds])
        if r.random() < 0.5:
            ls.append(["sv", ids, None, binds])
    return ls, k >= 2 and (bool(used) or not par)


def p_merge(r):
    n = r.randint(1, 5) if r.random() < 0.97 else 6

    def place():  # on the first qubits in order, on all in another order, or on some qubits of a wider circuit
        w = min(max(n, 5), n + r.choice([0, 0, 1, 2]))
        return [r.sample(range(w), n)] if r.random() < 0.3 else []
    ls, k = [], r.randint(1, 3)
    for i in range(k):
        ls += [new(r, i, n, 0)] + fix(spread(r, n, body(r, n, r.choice([0, 3, 8, 25 if n < 6 else 5]))))
    if r.random() < 0.2:
        ls.append(["gcthr", r.randint(1, 3000), r.randint(1, 3000)])
    parts = []
    pend = None
    for j in range(r.randint(1, 3)):  # later merges and runs must leave the earlier matrices alone
        ls.append(["merge", "e%d" % j, r.randrange(k), r.choice([1, 2, 5, 20]), r.random() < 0.1])
        if r.random() < 0.3:
            ls.append(["usemerge", [["e", "e%d" % r.randint(0, j)] + place()], False])
    for _ in range(r.randint(1, 4)):
        parts.append(["e", "e%d" % r.randint(0, j)] + place() if r.random() < 0.5 else ["c", r.randrange(k)] + place())
    if not any(p[0] == "e" for p in parts):
        parts.append(["e", "e0"])
    if n <= 4 and r.random() < 0.4:
        ls.append(["mergemat", "e%d" % r.randint(0, j)])
    if r.random() < 0.25:
        ls.append(["mergemore", parts, r.choice(["cond0", "cond1", "cond1", "copy", "pickle", "sampler", "est"]), seed(r)])
    if r.random() < 0.9:
        ls.append(["usemerge", parts, r.random() < 0.3])
    return ls, n >= 2 and twoq(ls) >= 2


def topt(r):
    return {"optimization_level": r.choice([0, 0, 1, 1, 1, 2, 3]), "seed_transpiler": r.randrange(1000)} if r.random() < 0.4 else None


def twin(r, ls, i):
    """A circuit like the lines ls but for one condition."""
    ls = [list(l) for l in ls]
    ls[0] = [ls[0][0], i] + ls[0][2:]
    at = [l for l in ls if isinstance(l[-1], list) and l[-1] and l[-1][0] in ("b", "r")]
    if at:
        l = r.choice(at)
        c = list(l[-1])
        if c[0] == "b":
            c[2] ^= 1
        else:
            c[2] = r.randrange(1 << ls[0][3][c[1]])
        l[-1] = c
    return ls


def p_sampler(r):
    k = r.randint(1, 3)
    ls, names = [], ["a", "b", "th"]
    exact = True
    first = None
    for i in range(k):
        if i and first and r.random() < 0.5:
            ls += twin(r, first, i)
            continue
        if r.random() < 0.25:
            a = dyn(r, i, maxn=3, maxmeas=4, large=2, openc=False)[0]
            exact = False
            first = a
        else:
            a = static(r, i, maxn=4, large=2)[0]
            first = a if r.random() < 0.3 else None
        ls += a
        if first is None and r.random() < 0.7:
            params(r, a, names[:r.randint(1, 3)])
    opt = {"skip": r.random() < 0.5, "transpile": topt(r)}
    if r.random() < 0.3:
        opt["run_options"] = {"shots": r.choice([1, 100, 400])}
    runs = r.randint(1, 3)
    for j in range(runs):
        ids = [r.randrange(k) for _ in range(r.randint(1, 4))]
        binds = [{p: angle(r) for p in names} for _ in ids]
        ls.append(["sampler", "S%d" % r.randrange(2), ids, binds, r.choice([None, None, 1, 200, 500, "default"] if exact else [1, 20, 100]), seed(r) if r.random() < 0.6 else None, opt])
        if r.random() < 0.3:  # the caller goes on with a circuit that has been run
            i = r.randrange(k)
            n = sum(next(l for l in ls if l[0] == "new" and l[1] == i)[2])
            m = sum(next(l for l in ls if l[0] == "new" and l[1] == i)[3])
            ls.append(["cur", i])
            ls += [gate(r, n, large=2) for _ in range(r.randint(1, 2))]
            ls.append(["m", r.randrange(n), r.randrange(m)])
            exact = False
    return ls, any(isinstance(p, list) for l in ls if l[0] == "g" for p in l[2]) and twoq(ls) >= 1


def observable(r, n, pauli=False):
    k = 1 if pauli else r.randint(1, 5)
    o = []
    style = r.randrange(3)
    for _ in range(k):
        lab = "".join(r.choice("IXYZ" if style else "IZ") for _ in range(n))
        if r.random() < 0.12:
            lab = "I" * n
        o.append([lab, 1 if pauli else round(r.uniform(-2, 2), 3) or 1.0])
    return o


def p_est(r):
    k = r.randint(1, 3)
    ls, ns, names = [], [], ["a", "b"]
    dynamic, first = False, None
    for i in range(k):
        n = r.randint(1, 4)
        ns.append(n)
        a = [["new", i, [n], []]] + fix(spread(r, n, body(r, n, r.randint(1, 10), large=2)))
        if r.random() < 0.6:
            params(r, a, names)
        if r.random() < 0.25:  # ends in a stabiliser state: many certain terms
            a = [["new", i, [n], []]] + body(r, n, r.randint(1, 10), gp=False, names=["h", "s", "x", "z", "y", "sdg"] + (["cx", "cz", "swap"] if n > 1 else []), openc=False)
        if r.random() < 0.15:
            while True:
                a = dyn(r, i, maxn=3, maxmeas=4, large=2, openc=False)[0]
                if any(isinstance(l[-1], list) and l[-1] and l[-1][0] in ("b", "r") for l in a[1:] if l[0] != "g" or len(l) > 5):
                    break
            ns[-1] = sum(a[0][2])
            dynamic = True
            first = a
        elif first and r.random() < 0.4:
            a = twin(r, first, i)
            ns[-1] = sum(a[0][2])
        elif not any(isinstance(p, list) for l in a if l[0] == "g" for p in l[2]):
            first = a
        ls += a
    opt = {"approx": r.random() < 0.6 and not dynamic, "group": r.random() < 0.6, "skip": r.random() < 0.5, "pauli": r.random() < 0.2, "transpile": topt(r)}
    if r.random() < 0.3:
        opt["run_options"] = {"shots": r.choice([10, 1000, 100000]) if opt["approx"] else r.choice([30, 300])}
    for j in range(r.randint(1, 3)):
        ids = [r.randrange(k) for _ in range(r.randint(1, 5))]
        pool = {}
        obs = []
        for i in ids:
            pool.setdefault(ns[i], []).append(observable(r, ns[i], opt["pauli"]))
            obs.append(r.choice(pool[ns[i]]))
        base = [{p: angle(r) for p in names} for _ in range(2)]
        binds = [r.choice(base) if r.random() < 0.5 else {p: angle(r) for p in names} for _ in ids]
        ls.append(["est", "E", ids, obs, binds, (None if r.random() < 0.7 else r.choice([10, 100, 10000, "none"])) if opt["approx"] else r.choice([20, 60, 200] if dynamic else [200, 1000, None, None, "none"]), seed(r) if r.random() < 0.5 else None, opt])
        if r.random() < 0.3:
            i = r.randrange(k)
            ls.append(["cur", i])
            ls += fix([gate(r, ns[i], large=2)])
    return ls, twoq(ls) >= 1


def p_rej(r):
    ls = []
    ids = []
    for i in range(r.randint(0, 2)):
        ls += static(r, i, maxn=3, depth=3)[0]
        ids.append(i)
    for _ in range(r.randint(1, 4)):
        kind = r.choice(["type", "wide", "nomeas", "shots", "gate", "gate", "gate", "cond", "unbound", "widesv", "optshots", "binds", "flow", "flow", "seed", "inst", "inst", "mergecond", "mergegate", "mergereset"])
        ls.append(["reject", kind, [r.randint(4, 6) if kind == "gate" else r.randint(2, 4) if kind in ("mergegate", "inst") else r.randint(1, 4), r.randrange(10**4)], ids])
        if r.random() < 0.4:
            ls.append(["accept", r.choice(["wide", "shots", "empty", "svnomeas"]), r.randrange(10**4)])
        if ids and r.random() < 0.5:  # a rejected input leaves the backend usable
            ls.append(["samp", ids, {"shots": 50, "seed_simulator": seed(r)}])
    return ls, True


def p_pure(r):
    """Long mixed histories, in one process, with eager garbage collection now and then."""
    ls, k = [], r.randint(2, 4)
    dynids, statids, pids = [], [], []
    for i in range(k):
        if r.random() < 0.35:
            ls += dyn(r, i, maxn=3, maxmeas=4)[0]
            dynids.append(i)
        else:
            ls += static(r, i, maxn=6, large=2)[0]
            statids.append(i)
    pid = k
    n = r.randint(1, 4)
    ls += [["new", pid, [n], []]] + fix(spread(r, n, body(r, n, 6, large=2)))
    acts = r.randint(3, 9)
    if r.random() < 0.015:
        ls.append(["mem", 13, 30, r.choice(["sv", "samp"])])
    if r.random() < 0.6:
        ls.append(["gcthr", r.choice([1, 10, 100, 1000, 20000]), r.choice([1, 10, 100, 1000, 20000])])
    for _ in range(acts):
        x = r.randrange(9)
        allids = dynids + statids
        if x < 2:
            ls.append(["samp", [r.choice(allids) for _ in range(r.randint(1, 3))], {"shots": r.choice([20, 100]), "seed_simulator": seed(r), "memory": r.random() < 0.3}])
        elif x == 2 and statids:
            ls.append(["prob", [r.choice(statids) for _ in range(r.randint(1, 3))]])
        elif x == 3 and statids:
            ls.append(["sv", [r.choice(statids)], r.choice([None, 50])])
        elif x == 4 and statids:
            ls.append(["sampler", "S", [r.choice(statids)], [{}], r.choice([None, 100]), seed(r), {}])
        elif x == 5:
            ls.append(["est", "E", [pid], [observable(r, n)], [{}], None, None, {"approx": True}])
        elif x == 6:
            ls.append(["merge", "e", pid, r.choice([1, 5, 20])])
            ls.append(["usemerge", [["c", pid], ["e", "e"]], False])
        elif x == 7:
            specs = []
            for _ in range(r.randint(2, 6)):
                if statids and r.random() < 0.5:
                    specs.append(["s", r.choice(statids), {}, r.randrange(2)])
                else:
                    specs.append(["e", pid, {}, r.randrange(2), observable(r, n)])
            ls.append(["jobs", specs])
        elif x == 8:
            what = [r.choice(allids) for _ in range(r.randint(2, 4))]
            if r.random() < 0.5:
                what += [["m", pid, r.choice([1, 3, 20])] for _ in range(r.randint(1, 3))]
                r.shuffle(what)
            ls.append(["threads", what, 30])
    return ls, True


def p_seed(r):
    ls = []
    k = r.randint(1, 2)
    for i in range(k):
        ls += static(r, i, maxn=4)[0] if r.random() < 0.6 else dyn(r, i, maxn=3, maxmeas=4)[0]
    ls += static(r, k, maxn=3, large=2)[0]
    ids = list(range(k))
    x = r.randrange(4)
    if x < 2:
        ls.append(["seeded", ids, r.choice([20, 60, 200]), seed(r), k if r.random() < 0.6 else None])
    elif x == 2:
        ls.append(["unseeded", ids, 200] + r.choice([[], [seed(r)]]))
    else:
        st = [l for l in ls]
        ls.append(["seedprim", "sampler", k, {}, 100, seed(r)])
        n = r.randint(1, 3)
        ls += [["new", k + 1, [n], []]] + fix(spread(r, n, body(r, n, 4, large=2)))
        ls.append(["seedprim", "est", k + 1, {}, 100, seed(r), observable(r, n)])
    return ls, True


def p_mpi(r):
    """Circuits spread over the processes of an mpirun."""
    np_ = int(os.environ.get("VERIF_NP", "2"))
    g = np_.bit_length() - 1
    ls = []
    n = g + r.randint(1, 4 if g < 3 else 3)
    kind = r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4])
    if kind == 0:
        ls, n, m, _ = dyn(r, 0, n=min(n, g + 2), maxmeas=5)
    elif kind == 4:
        w = r.randint(1, n)
        ls = [new(r, 0, n, 0)] + fix(spread(r, n, body(r, n, r.randint(1, 8))))
        ls += [new(r, 1, w, 0)] + fix(spread(r, w, body(r, w, r.randint(1, 10))))
        uses = [["c", 0]] + [["e", r.choice(["a", "b"])] for _ in range(r.randint(1, 3))] + r.choice([[], [["c", 1]]])
        for p in uses[1:]:
            if p[1] != "a" and r.random() < 0.7:
                p.append(r.sample(range(n), w))
        ls += [["merge", "a", 0, r.choice([1, 5, 20]), False], ["merge", "b", 1, r.choice([1, 5, 20]), False]]
        uses = [["usemerge", uses, r.random() < 0.3]] if r.random() < 0.8 else [["mergemore", uses, r.choice(["cond0", "cond1", "copy", "pickle"]), seed(r)]]
    elif kind == 1:
        ls = [new(r, 0, n, 0)] + fix(spread(r, n, body(r, n, r.randint(2, 16))))
    else:
        ls = static(r, 0, n, depth=r.randint(1, 16))[0]
    if kind != 4:
        loose(r, ls, 0.15)
    bc = r.random() < 0.4
    kw = {"use_mpi": True, "use_bcast": bc}
    if r.random() < 0.8:
        kw["use_auto_swap"] = r.random() < 0.75
    if r.random() < 0.8:
        kw["swap_ver"] = r.choice(["v1", "v2"])
    nt = n >= g + 1 and twoq(ls) >= 2
    if g and r.random() < 0.05:
        ls.append(["mpismall", r.randint(1, max(1, g))])
    ls.append(["kw", kw, r.random() < 0.2])
    if kind == 4:  # merged gates, which process 0 sends along with the circuit
        return ls + uses, nt
    if kind >= 2 and r.random() < 0.1:
        ls.append(["other", 0])
    if kind == 0:
        ls.append(["samp", [0], {"shots": r.choice([20, 60]), "memory": r.random() < 0.5, "seed_simulator": seed(r)}])
        if r.random() < 0.4:
            ls.append(["svdyn", 0, seed(r)])
    elif kind == 1:
        ls.append(["sv", [0], r.choice([1024, None, 1])])
    else:
        if r.random() < 0.7:
            ls.append(["samp", [0], {"shots": r.choice([1, 50, 200]), "memory": r.random() < 0.5, "seed_simulator": seed(r)}])
        if r.random() < 0.5:
            ls.append(["prob", [0]])
        if r.random() < 0.5:
            ls.append(["sv", [0], r.choice([50, None])])
        if r.random() < 0.2:
            ls.append(["seeded", [0], 40, seed(r), None])
    return ls, nt


def p_mt(r):
    """Runs on several threads: wide enough for the engine to split its work, with other thread numbers before and after."""
    ls, k = [], r.randint(1, 2)
    kinds = []
    for i in range(k):
        x = r.random()
        if x < 0.2:
            ls += dyn(r, i, maxn=3, maxmeas=3)[0]
            kinds.append("d")
        else:
            n = r.randint(1, 10) if x < 0.5 else r.randint(7, 10)
            ls += static(r, i, n, depth=r.randint(4, 20))[0]
            kinds.append("s")
    if r.random() < 0.3:
        ls.append(["gcthr", r.randint(1, 3000), r.randint(1, 3000)])
    nt = 2
    for _ in range(r.randint(1, 3)):
        nt = r.choice([1, 2, 2, 3, 4, 5, 9, nt])
        ls.append(["kw", {"n_threads": nt}, r.random() < 0.2])
        if r.random() < 0.2:
            ls.append(["pool", r.choice([2, 3, 6, max(nt, 2)])])
        i = r.randrange(k)
        if kinds[i] == "d":
            ls.append(["samp", [i], {"shots": r.choice([20, 40]), "seed_simulator": seed(r)}])
        else:
            x = r.randrange(4)
            if x < 2:
                ls.append(["sv", [i], r.choice([None, 100])])
            elif x == 2 and r.random() < 0.5:
                ls.append(["prob", [i]])
            elif x == 2:
                nt = r.randint(1, 4)
                ls.append(["sampler", "S%d" % nt, [i], [{}], r.choice([None, 100]), seed(r), {"skip": True, "run_options": {"n_threads": nt}}])
            else:
                ls.append(["samp", [i], {"shots": r.choice([50, 300]), "seed_simulator": seed(r), "memory": r.random() < 0.3}])
        if r.random() < 0.2:
            ls.append(["reject", "gate", [4, r.randrange(10**4)], []])
            ls.append(["pool", r.choice([2, 3, 6, max(nt, 2)])])
    return ls, any(l[0] == "new" and sum(l[2]) >= 7 for l in ls) and twoq(ls) >= 2


def rawspec(r, n):
    """A call of one of the binding's gate builders."""
    while True:
        k = r.choice(["name", "name", "mat", "mat", "two", "RX", "RY", "RZ", "CX", "RXX", "RYY", "RZZ", "RZX", "SWAP", "ISWAP", "CSWAP", "uni"])
        qs = r.sample(range(n), n)
        if k in ("name", "mat"):
            c = r.choice([0, 0, 1, 1, 2, 3])
            if c + 1 > n:
                continue
            name = r.choice(sorted("I H X Y Z S Sdag T Tdag SX SXdag V Vdag".split()) if k == "name" else list(R1))
            neg = [q for q in qs[:c] if r.random() < 0.3]
            return [k, name, [angle(r) for _ in range(0 if k == "name" else R1[name])], neg, qs[:c + 1]]
        if k == "two":
            c = r.choice([0, 0, 1, 2])
            if c + 2 > n:
                continue
            name = r.choice(["rxxmat", "ryymat", "rzzmat", "rzxmat", "swapmat", "iswapmat"])
            return [k, name, [angle(r)] if name[0] == "r" else [], [q for q in qs[:c] if r.random() < 0.3], qs[:c + 2]]
        if k in ("RX", "RY", "RZ"):
            return [k, angle(r), qs[:1]]
        if n < 2:
            continue
        if k in ("CX", "SWAP", "ISWAP"):
            return [k, qs[:2]]
        if k in ("RXX", "RYY", "RZZ", "RZX"):
            return [k, angle(r), qs[:2]]
        if k == "CSWAP" and n >= 3:
            return [k, qs[:3]]
        if k == "uni":
            if r.random() < 0.3 and n <= 3:
                return [k, r.randrange(10**6), True, list(range(n))]
            return [k, r.randrange(10**6), False, qs[:r.randint(1, min(3, n))]]


R1 = {"rxmat": 1, "rymat": 1, "rzmat": 1, "p": 1, "u1": 1, "u2": 2, "u3": 3, "u": 4, "r": 2}


def p_raw(r):
    """Programs over the extension module's own functions."""
    n = r.randint(1, 5)
    ls = [["bn", n], ["bz", 0], ["bg", 0, rawspec(r, n)]]
    if r.random() < 0.3:
        ls.append(["gcthr", r.randint(1, 3000), r.randint(1, 3000)])
    V, M, multi = [0], [0], 0
    for _ in range(r.randint(5, 25)):
        x = r.randrange(20)
        v, k = r.choice(V), r.choice(M)
        if x < 5:
            ls.append(["bap", v, rawspec(r, n)])
        elif x < 7:
            d = r.randrange(4)
            ls.append(["bg", d, rawspec(r, n)])
            M = sorted(set(M + [d]))
        elif x < 9:
            d = r.randrange(4)
            ls.append(["bmm", d, k, r.choice(M)])
            M = sorted(set(M + [d]))
        elif x < 11:
            d = r.randrange(3)
            ls.append(["bmv", d, k, v])
            V = sorted(set(V + [d]))
        elif x == 11:
            if r.random() < 0.5:
                ls.append(["bglob", "v", v, v, angle(r)])
            else:
                ls.append(["bglob", "m", k, k, angle(r)])
        elif x == 12:
            how = r.choice(["v", "v1", "m", "m1", "mk", "mk"])
            t = V if how[0] == "v" else M
            keep = r.sample(t, 1 if how[-1] == "1" else r.randint(1, len(t)))
            ls.append(["bgc", how, keep, r.random() < 0.7])
            if how[0] == "v":
                V = sorted(keep)
            else:
                M = sorted(keep)
        elif x == 13:
            ls.append(["bm1", v, r.randrange(n)])
        elif x == 14:
            ls.append(["bmc", v, r.randrange(n), seed(r)])
        elif x == 15:
            ls.append(["bma", v, r.random() < 0.2, seed(r), r.choice([1, 30, 200])])
        elif x == 16:
            ls.append(["bchk", k, r.choice(["Meig", "Mpr", "Mdot", "M%d" % r.randrange(1 << n)])])
        elif x == 17:
            d = r.randrange(3)
            ls.append(["bz", d])
            V = sorted(set(V + [d]))
        else:
            ls.append(["bchk", v, r.choice(["vec", "vec", "eig", "pr", "dot", "nodes", "print", "sparse"])])
    for v in V:
        ls.append(["bchk", v, "vec"])
    for k in M:
        ls.append(["bchk", k, "M%d" % r.randrange(1 << n)])
        ls.append(["bchk", k, "Meig"])
    return ls, n >= 2


def p_mraw(r):
    """Programs over the extension module's MPI functions. Eight processes need four qubits."""
    n = r.randint(4, 6)
    ls, k = [["xn", n, r.random() < 0.3]], 0
    if r.random() < 0.5:
        for q in range(n):
            if r.random() < 0.6:
                ls.append(["xap", r.random() < 0.5, 0, ["name", "H", [], [], [q]]])
    for _ in range(r.randint(3, 15)):
        x = r.randrange(16)
        if x < 9:
            sp = rawspec(r, n)
            k += max(sp[-1]) >= n - 3
            ls.append(["xap", r.random() < 0.5, r.choice([0, 0, 0, 1, 2]), sp])
        elif x == 9:
            ls.append(["xpr"])
        elif x == 10:
            ls.append(["xm1", r.randrange(n)])
        elif x == 11:
            ls.append(["xmc", r.randrange(n), seed(r)])
        elif x == 12 and r.random() < 0.4:
            ls.append(["xma", 40, seed(r)])
        elif x == 13:
            ls.append(["xgc"])
        elif x == 14:
            ls.append(["xsl"])
        else:
            ls.append(["xpv"])
    return ls, k >= 2


KEEP = "x y z s t sdg tdg p rz cx cy cz ccx c3x c4x mcx cp cu1 crz swap iswap cswap rzz".split()
BRANCH = "h sx rx ry u r cry crx csx cu3 cu rxx ryy rzx".split()


def wsize(r):
    return r.choice([13, 20, 31, 32, 33, 40, 50, 63, 64, 65, 66, 80, 99, 100, r.randint(13, 100), r.randint(13, 100)])


def wbody(r, n, depth, budget):
    """Few branches on many qubits; budget[0]: how often the number of branches may double."""
    ls = []
    for _ in range(depth):
        if budget[0] > 0 and r.random() < 0.35:
            budget[0] -= 1
            l = gate(r, n, BRANCH) if r.random() < 0.9 else ["u", r.randrange(10**6), r.sample(range(n), 1)]
        else:
            l = gate(r, n, KEEP)
            if l[1] == "mcx" and r.random() < 0.3:
                k = r.choice([n, n, r.randint(2, n)])
                qs = r.sample(range(n), k)
                l = ["g", "mcx", [], qs, r.choice([0, (1 << (k - 1)) - 1, 1 << r.randrange(k - 1), r.randrange(1 << (k - 1))])]
        ls.append(l)
    return ls


def wstatic(r, i, depth=None, all_=None):
    n = wsize(r)
    x = r.random()
    m = n if x < 0.4 else r.randint(1, min(n, 12)) if x < 0.7 else r.randint(1, n + 3)
    ls = [["g", "x", [], [q], None] for q in range(n) if r.random() < 0.15] + wbody(r, n, depth or r.randint(3, 25), [r.randint(1, 5)])
    if m == n and r.random() < 0.7:
        perm = list(range(n))
        if r.random() < 0.7:
            r.shuffle(perm)
        meas = [["m", q, perm[q]] for q in range(n)]
    else:
        meas = [["m", r.randrange(n), r.randrange(m)] for _ in range(r.randint(1, m + 1))]
    r.shuffle(meas)
    return [new(r, i, n, m)] + fix(ls) + meas, n, m


def p_wsamp(r):
    ls, n, m = wstatic(r, 0)
    loose(r, ls)
    ls.append(["samp", [0], {"shots": r.choice([1, 20, 100, 300]), "memory": r.random() < 0.4, "seed_simulator": seed(r), "single": r.random() < 0.5}])
    return ls, twoq(ls) >= 2


def p_wdyn(r):
    n, m = wsize(r), r.choice([1, 3, 8, 40, 70, 100])
    head = new(r, 0, n, m)
    sizes = head[3]
    ls = [["g", "x", [], [q], None] for q in range(n) if r.random() < 0.1]
    budget, meas, conds = [3], 3, 0

    def cond():
        k = r.randrange(len(sizes))
        if r.random() < 0.5:
            return ["b", r.choice([r.randrange(m), m - 1]), r.randrange(2)]
        return ["r", k, r.choice([0, 0, 1, 1 << r.randrange(sizes[k]), 1 << (sizes[k] - 1), (1 << sizes[k]) - 1])]
    for _ in range(r.randint(4, 14)):
        l = None
        x = r.random()
        if x < 0.3:
            l = ["m", r.randrange(n), r.choice([r.randrange(m), m - 1])]
        elif x < 0.4:
            l = ["r", r.randrange(n)]
        if l is None:
            l = wbody(r, n, 1, budget)[0]
        elif meas <= 0:
            continue
        else:
            meas -= 1
        if r.random() < (0.6 if l[0] in "gu" else 0.15):
            l.append(cond())
            conds += 1
        ls.append(l)
    if not any(l[0] == "m" for l in ls):
        ls.append(["m", r.randrange(n), r.randrange(m)])
    ls = [head] + fix(ls)
    loose(r, ls, 0.2)
    ls.append(["samp", [0], {"shots": r.choice([10, 30]), "memory": r.random() < 0.3, "seed_simulator": seed(r)}])
    return ls, conds >= 1


def heavy(ls):
    """Qiskit would decompose these gates into up to 150000 others."""
    return any(len(l[3]) > 6 for l in ls if l[0] == "g")


def p_wsampler(r):
    ls = []
    k = r.randint(1, 2)
    for i in range(k):
        a = wstatic(r, i, r.randint(3, 10))[0]
        ls += a
        if r.random() < 0.6:
            params(r, a, ["a", "b"])
    ids = [r.randrange(k) for _ in range(r.randint(1, 3))]
    ls.append(["sampler", "S", ids, [{p: angle(r) for p in ("a", "b")} for _ in ids], r.choice([20, 100, 200]), seed(r), {"skip": r.random() < 0.5 or heavy(ls)}])
    return ls, twoq(ls) >= 1


def p_west(r):
    ls, ns = [], []
    k = r.randint(1, 2)
    for i in range(k):
        n = wsize(r)
        ns.append(n)
        a = [["new", i, [n], []]] + fix([["g", "x", [], [q], None] for q in range(n) if r.random() < 0.2] + wbody(r, n, r.randint(2, 10), [r.choice([0, 0, 1, 3])]))
        if r.random() < 0.4:
            params(r, a, ["a", "b"])
        ls += a
    ids = [r.randrange(k) for _ in range(r.randint(1, 3))]
    obs = []
    for i in ids:
        n, o = ns[i], []
        for _ in range(r.randint(1, 4)):
            lab = ["I"] * n
            x = r.random()
            kind = "Z" if r.random() < 0.7 else "XYZ"
            for q in range(n):
                if x < 0.2 or (x < 0.5 and r.random() < 0.5):
                    lab[q] = r.choice(kind)
            if x >= 0.5:
                for q in r.sample(range(n), r.randint(1, 3)):
                    lab[q] = r.choice(kind)
            o.append(["".join(lab), round(r.uniform(-2, 2), 3) or 1.0])
        obs.append(o)
    opt = {"approx": False, "group": r.random() < 0.6, "skip": r.random() < 0.3 or heavy(ls), "pauli": False}
    ls.append(["est", "E%d%d" % (opt["group"], opt["skip"]), ids, obs, [{p: angle(r) for p in ("a", "b")} for _ in ids], r.choice([20, 100]), seed(r) if r.random() < 0.5 else None, opt])
    return ls, True


def p_algc(r):
    return p_alg(r, True)


def p_alg(r, small=False):
    """Circuits with known outcomes, larger than a dense reference could follow; small: for small tables, with early collections."""
    ls = []
    if small and r.random() < 0.5:
        ls.append(["gcthr", r.choice([1, 100, 3000, 20000]), r.choice([1, 100, 3000, 20000])])
    for _ in range(r.choice([1, 1, 2, 3])):
        # qubits in any order only at moderate sizes: rounding makes the diagrams of long Fourier transforms grow
        far = r.choice([0, r.randrange(1, 10**6)])
        k = r.choice(["const_add", "reg_add", "qpe", "frac_qpe", "hidden", "grover", "order", "mirror", "mirror", "wstate", "teleport"])
        if k == "const_add":
            n = r.randint(2, 22 if small else 40)
            ps = far if n <= 12 else 0
            spec = [k, n, r.choice([0, (1 << n) - 1, r.randrange(1 << n)]), r.choice([1, (1 << n) - 1, 1 << (n - 1), r.randrange(1 << n)]), ps]
        elif k == "reg_add":
            n = r.randint(2, 6 if small else 9)
            spec = [k, n, r.randrange(1 << n), r.sample(range(n), r.randint(0, min(4, n))), r.randrange(1 << n), far if n <= 6 else 0]
        elif k == "qpe":
            n = r.randint(2, 18 if small else 30)
            spec = [k, n, r.randrange(1 << n), far if n <= 12 else 0]
        elif k == "frac_qpe":
            spec = [k, r.randint(2, 9), r.random(), far]
        elif k == "hidden":
            n = r.randint(2, 24 if small else 60)
            spec = [k, n, r.randrange(1 << n), r.randrange(3 if n <= 12 else 2), far if n <= 24 else 0]
        elif k == "grover":
            n = r.randint(2, 8 if small else 11)
            spec = [k, n, [r.randrange(1 << n) for _ in range(r.randint(1, 2 if n == 2 else 3))], r.randint(0, 4), far]
            if len(set(spec[2])) >= 1 << n:
                continue
        elif k == "order":
            N = r.choice([7, 9, 15, 21, r.randint(3, 21)])
            a = r.choice([a for a in range(2, N) if math.gcd(a, N) == 1])
            spec = [k, r.randint(2, 8), a, N, far]
        elif k == "mirror":
            if r.random() < 0.5:
                n = r.randint(4, 9 if small else 11)
                b = n
            else:
                n, b = r.randint(12, 16 if small else 24), r.randint(2, 4 if small else 5)
            spec = [k, n, b, r.randint(1, 6), r.randrange(1 << n), r.randrange(10**6), far]
        elif k == "wstate":
            spec = [k, r.randint(2, 30 if small else 80), far]
        else:
            spec = [k, r.randint(1, 5 if small else 8), [angle(r) for _ in range(3)], r.randrange(2), far]
        big = {"const_add": 14, "reg_add": 6, "qpe": 12, "grover": 6}.get(k, 99)
        how = r.choice(["run", "run", "exact", "trans", "sampler"])
        wide = {"reg_add": 2 * spec[1], "order": spec[1] + 5, "grover": 1, "mirror": spec[1] - 4}.get(k, spec[1])
        if how == "exact" and (k == "teleport" or wide > 12) or how in ("trans", "sampler") and (spec[1] > big or k in ("order", "teleport")):
            how = "run"
        ls.append(["alg", spec, how, r.choice([1, 30, 200]), seed(r), r.choice([-1, 0, 1]) if how == "sampler" else r.randrange(2)])
    return ls, any(l[0] == "alg" for l in ls)


PROFILES = {"mraw": p_mraw, "alg": p_alg, "algc": p_algc, "opts": p_opts, "jobif": p_jobif, "wsamp": p_wsamp, "wdyn": p_wdyn, "wsampler": p_wsampler, "west": p_west,
            "raw": p_raw, "mt": p_mt, "dist": p_mpi, "samp": p_samp, "dyn": p_dyn, "prob": p_prob, "sv": p_sv, "trans": p_trans, "batch": p_batch, "merge": p_merge,
            "sampler": p_sampler, "est": p_est, "rej": p_rej, "pure": p_pure, "seed": p_seed}
