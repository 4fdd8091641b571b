// Case generators. They never look at the library: a case is a function of the random stream.
#pragma once
#include "ref.hpp"

struct Program {
    std::vector<std::string> lines;
    bool nontrivial = false;
    void add(const std::string &l) { lines.push_back(l); }
};
template <class... T> static std::string cat(T... t) {
    std::ostringstream o;
    int dummy[] = {((o << t << ' '), 0)...};
    (void)dummy;
    std::string s = o.str();
    s.pop_back();
    return s;
}

static double genAngle(Rng &r) {
    switch (r.below(7)) {
        case 0: return 0;
        case 1: return (r.range(-16, 16)) * kPi / 4;
        case 4: {  // close to one another, also up to a turn
            double a[] = {0.3, -1.1, kPi / 3, 2.5};
            return r.pick(std::vector<double>(a, a + 4)) + r.range(-1, 1) * 2 * kPi + r.range(-3, 3) * std::pow(10.0, -r.range(2, 6));
        }
        case 2: return (r.unit() - 0.5) * 0.02;
        case 3: return (r.unit() - 0.5) * 200;
        default: return (r.unit() - 0.5) * 4 * kPi;
    }
}
static Vec genUnitary1(Rng &r) {
    if (r.chance(1, 4)) {  // generalised permutation
        cd a = std::polar(1.0, genAngle(r)), b = std::polar(1.0, genAngle(r));
        return r.chance(1, 2) ? Vec{a, 0, 0, b} : Vec{0, a, b, 0};
    }
    return refU(genAngle(r), genAngle(r), genAngle(r), genAngle(r));
}
static Vec genUnitary(Rng &r, int k) {
    size_t d = (size_t)1 << k;
    Vec m(d * d);
    if (r.chance(1, 3)) {  // generalised permutation
        auto p = r.distinct((int)d, (int)d);
        bool ph = r.chance(1, 2);
        for (size_t i = 0; i < d; i++) m[i * d + p[i]] = ph ? std::polar(1.0, genAngle(r)) : cd(1);
        return m;
    }
    for (size_t i = 0; i < d; i++) m[i * d + i] = 1;
    int steps = 1 + r.below(3 * k);
    for (int s = 0; s < steps; s++) {  // random 1-qubit and controlled rotations on the k bits, acting on columns
        auto q = r.distinct(k, std::min(k, 2));
        std::vector<std::pair<int, bool>> c;
        if (k > 1 && r.chance(2, 3)) c.push_back({q[1], r.chance(1, 2)});
        Vec u = genUnitary1(r);
        for (size_t j = 0; j < d; j++) {
            Vec col(d);
            for (size_t i = 0; i < d; i++) col[i] = m[i * d + j];
            applyRef(col, u, {q[0]}, c);
            for (size_t i = 0; i < d; i++) m[i * d + j] = col[i];
        }
    }
    return m;
}
static Vec genAnyMatrix(Rng &r, int k) {  // not unitary: sparse, singular, integer, repeated blocks, ...
    size_t d = (size_t)1 << k;
    Vec m(d * d);
    int kind = r.below(4);
    for (auto &x : m) {
        if (kind == 0) x = cd(r.range(-2, 2), r.range(-2, 2));
        else if (kind == 1) x = r.chance(1, 3) ? cd(r.unit() * 2 - 1, r.unit() * 2 - 1) : cd(0);
        else if (kind == 2) x = cd(r.unit() * 2 - 1, r.unit() * 2 - 1);
        else x = r.chance(1, 2) ? cd(r.below(2)) : cd(0, r.below(2));
    }
    return m;
}
static const std::vector<std::string> kNamed1 = {"I", "H", "X", "Y", "Z", "S", "Sdag", "T", "Tdag", "SX", "SXdag", "V", "Vdag"};
static const std::vector<std::string> kParam1 = {"rx", "ry", "rz", "p", "u1", "u2", "u3", "u", "r"};
static const std::vector<std::string> kTwo = {"rxx", "ryy", "rzz", "rzx", "swap", "iswap"};
static const std::vector<std::string> kHelper1 = {"RX", "RY", "RZ"};
static const std::vector<std::string> kHelper2 = {"CX", "RXX", "RYY", "RZZ", "RZX", "SWAP", "makeSwap", "ISWAP"};
static int nParams(const std::string &n) {
    if (n == "u2" || n == "r") return 2;
    if (n == "u3") return 3;
    if (n == "u") return 4;
    if (n == "swap" || n == "iswap" || n == "SWAP" || n == "ISWAP" || n == "makeSwap" || n == "CX" || n == "CSWAP") return 0;
    return 1;
}
static void addControls(Rng &r, int n, Gate &g, int maxc) {
    std::vector<int> rest;
    for (int q = 0; q < n; q++) if (std::find(g.tgt.begin(), g.tgt.end(), q) == g.tgt.end()) rest.push_back(q);
    int k = std::min<int>(rest.size(), r.chance(1, 8) ? maxc : r.below(std::min(maxc, 3) + 1));
    auto idx = r.distinct((int)rest.size(), k);
    for (int i : idx) g.ctl.push_back({rest[i], r.chance(2, 3)});
    std::sort(g.ctl.begin(), g.ctl.end());
}
// unitary: only unitary matrices
static Gate genGate(Rng &r, int n, bool unitary, int maxc = 99, int maxlarge = 4) {
    Gate g;
    int k = r.below(20);
    if (n == 1 && k >= 9 && k < 16) k = r.below(9);
    if (k < 4) { g.fam = 'N'; g.name = r.pick(kNamed1); g.tgt = r.distinct(n, 1); addControls(r, n, g, maxc); }
    else if (k < 7) {
        g.fam = 'P'; g.name = r.pick(kParam1); g.tgt = r.distinct(n, 1);
        for (int i = nParams(g.name); i > 0; i--) g.par.push_back(genAngle(r));
        addControls(r, n, g, maxc);
    } else if (k < 9) {
        g.fam = 'A'; g.tgt = r.distinct(n, 1);
        g.arb = unitary || r.chance(1, 2) ? genUnitary1(r) : genAnyMatrix(r, 1);
        addControls(r, n, g, maxc);
    } else if (k < 12) {
        g.fam = 'W'; g.name = r.pick(kTwo); g.tgt = r.distinct(n, 2);
        for (int i = nParams(g.name); i > 0; i--) g.par.push_back(genAngle(r));
        addControls(r, n, g, maxc);
    } else if (k < 16) {
        g.fam = 'B'; g.tgt = r.distinct(n, 2);
        g.arb = unitary || r.chance(1, 2) ? genUnitary(r, 2) : genAnyMatrix(r, 2);
        addControls(r, n, g, maxc);
    } else if (k < 18) {
        g.fam = 'L';
        int t = r.range(1, std::min(n, maxlarge));
        g.tgt = r.distinct(n, t);
        if (r.chance(1, 4)) { g.name = "default"; for (int i = 0; i < t; i++) g.tgt[i] = i; }
        g.arb = unitary || r.chance(1, 2) ? genUnitary(r, t) : genAnyMatrix(r, t);
    } else {
        g.fam = 'H';
        int m = n >= 3 ? r.below(12) : n == 2 ? r.below(11) : r.below(3);
        if (m < 3) { g.name = kHelper1[m]; g.tgt = r.distinct(n, 1); }
        else if (m < 11) { g.name = kHelper2[m - 3]; g.tgt = r.distinct(n, 2); }
        else { g.name = "CSWAP"; g.tgt = r.distinct(n, 3); }
        for (int i = nParams(g.name); i > 0; i--) g.par.push_back(genAngle(r));
    }
    return g;
}
static Gate named(const std::string &nm, int t, std::vector<std::pair<int, bool>> c = {}) {
    Gate g; g.fam = 'N'; g.name = nm; g.tgt = {t}; g.ctl = c; return g;
}
static Gate genClifford(Rng &r, int n) {
    static const std::vector<std::string> one = {"H", "X", "Y", "Z", "S", "Sdag"};
    if (n == 1 || r.chance(1, 2)) return named(r.pick(one), r.below(n));
    auto q = r.distinct(n, 2);
    if (r.chance(1, 4)) { Gate g; g.fam = 'W'; g.name = r.chance(1, 2) ? "swap" : "iswap"; g.tgt = q; return g; }
    static const std::vector<std::string> cc = {"X", "Z", "Y"};
    return named(r.pick(cc), q[0], {{q[1], r.chance(3, 4)}});
}
static Gate inverseGate(const Gate &g) {  // for Cliffords of genClifford and permutations
    Gate h = g;
    if (g.fam == 'N') {
        if (g.name == "S") h.name = "Sdag"; else if (g.name == "Sdag") h.name = "S";
        else if (g.name == "T") h.name = "Tdag"; else if (g.name == "Tdag") h.name = "T";
        else if (g.name == "SX") h.name = "SXdag"; else if (g.name == "SXdag") h.name = "SX";
        else if (g.name == "V") h.name = "Vdag"; else if (g.name == "Vdag") h.name = "V";
    } else if (g.name == "iswap") {
        h.fam = 'B'; h.name.clear();
        Vec m = ref2q("iswap", {});
        for (auto &x : m) x = std::conj(x);
        h.arb = m;
    }
    return h;
}

static void genState(Rng &r, Program &p, int n, int s, bool explicitOk = true) {
    int k = r.below(10);
    if (k < 2) p.add(cat(r.chance(3, 4) ? "vz" : "vo", s));
    else if (k < 4 && explicitOk && n <= 4) {
        std::string l = cat("vb", s);
        Vec a((size_t)1 << n);
        for (auto &x : a) x = r.chance(1, 3) ? cd(0) : r.chance(1, 2) ? cd(r.range(-1, 1), r.range(-1, 1)) : cd(r.unit() - 0.5, r.unit() - 0.5);
        double nn = std::sqrt(norm2v(a));
        if (nn == 0) { a[r.below((int)a.size())] = 1; nn = 1; }
        for (auto &x : a) l += " " + num(x.real() / nn) + " " + num(x.imag() / nn);
        p.add(l);
    } else p.add(cat("vr", s, r.below(4), (long long)(r.next() >> 20)));
}

// ---------------------------------------------------------------- profiles
static Program genGates(Rng &r) {
    Program p; int n = r.chance(1, 10) ? 7 : r.range(1, 6);
    p.add(cat("n", n));
    int k = r.range(1, 3);
    bool nt = false;
    for (int i = 0; i < k; i++) {
        Gate g = genGate(r, n, r.chance(1, 2), 99, n >= 5 && r.chance(1, 10) ? 5 : 3);
        nt = nt || g.ctl.size() > 0 || g.tgt.size() > 1 || n > 2;
        p.add("g " + cat(i) + " " + gateText(g));
    }
    genState(r, p, n, 0);
    for (int i = 0; i < k; i++) p.add(cat("ap", (i + 1) % 2, i, i % 2));
    p.add("ck");
    p.nontrivial = nt;
    return p;
}
static void genStructured(Rng &r, int n, std::vector<Gate> &gs) {
    int k = r.below(5);
    auto cp = [&](double a, int t, int c) { Gate g; g.fam = 'P'; g.name = "p"; g.par = {a}; g.tgt = {t}; g.ctl = {{c, true}}; return g; };
    if (k == 0) {  // QFT with swaps, possibly inverse order
        bool rev = r.chance(1, 2);
        std::vector<Gate> q;
        for (int i = n - 1; i >= 0; i--) {
            q.push_back(named("H", i));
            for (int j = i - 1; j >= 0; j--) q.push_back(cp((rev ? -1 : 1) * kPi / (double)(1 << (i - j)), i, j));
        }
        for (int i = 0; i < n / 2; i++) { Gate g; g.fam = 'W'; g.name = "swap"; g.tgt = {i, n - 1 - i}; q.push_back(g); }
        if (rev) std::reverse(q.begin(), q.end());
        gs.insert(gs.end(), q.begin(), q.end());
    } else if (k == 1) {  // GHZ
        int a = r.below(n);
        gs.push_back(named("H", a));
        for (int i = 0; i < n; i++) if (i != a) gs.push_back(named("X", i, {{a, r.chance(3, 4)}}));
    } else if (k == 2 && n > 1) {  // Grover iteration
        int it = r.range(1, 2);
        for (int i = 0; i < n; i++) gs.push_back(named("H", i));
        for (int t = 0; t < it; t++) {
            std::vector<std::pair<int, bool>> c;
            for (int i = 0; i < n - 1; i++) c.push_back({i, r.chance(1, 2)});
            gs.push_back(named("Z", n - 1, c));
            for (int i = 0; i < n; i++) gs.push_back(named("H", i));
            for (auto &x : c) x.second = false;
            gs.push_back(named("Z", n - 1, c));
            for (int i = 0; i < n; i++) gs.push_back(named("H", i));
        }
    } else if (k == 3) {  // layers of rotations and a ladder of entanglers
        int lay = r.range(1, 2);
        for (int l = 0; l < lay; l++) {
            double a = genAngle(r);
            bool same = r.chance(1, 2);
            for (int i = 0; i < n; i++) { Gate g; g.fam = 'P'; g.name = r.chance(1, 2) ? "ry" : "rx"; g.par = {same ? a : genAngle(r)}; g.tgt = {i}; gs.push_back(g); }
            for (int i = 0; i + 1 < n; i++) gs.push_back(named(r.chance(1, 2) ? "X" : "Z", i, {{i + 1, true}}));
        }
    } else {  // Clifford + T
        int d = r.range(1, 3 * n);
        for (int i = 0; i < d; i++) gs.push_back(r.chance(1, 4) ? named(r.chance(1, 2) ? "T" : "Tdag", r.below(n)) : genClifford(r, n));
    }
}
static Program genEvolve(Rng &r, bool small = false) {
    Program p;
    int big = small ? (r.chance(1, 20) ? 59 : 399) : r.below(400);
    int n = big == 0 ? r.range(13, 16) : big < 8 ? r.range(11, 12) : big < 60 ? r.range(8, small ? 8 : 10) : r.range(1, 7);
    p.add(cat("n", n));
    if (big < 60) { if (r.chance(2, 3)) p.add(cat("vr", 0, r.below(4), (long long)(r.next() >> 20))); else p.add("vz 0"); }
    else genState(r, p, n, 0);
    std::vector<Gate> gs;
    int depth = big == 0 ? r.range(3, 8) : big < 60 ? r.range(5, 20) : r.range(1, 25);
    while ((int)gs.size() < depth) {
        if (r.chance(1, 8)) genStructured(r, n, gs);
        else gs.push_back(genGate(r, n, true));
    }
    bool quiet = n > 8;
    int two = 0;
    for (auto &g : gs) { p.add((quiet ? "agq 0 " : "ag 0 ") + gateText(g)); if (g.ctl.size() + g.tgt.size() > 1) two++; }
    p.add("ckv 0");
    if (n <= 12) p.add("nodes 0");
    p.nontrivial = n >= 2 && two >= 2;
    return p;
}
static Program genAlgebra(Rng &r) {
    Program p; int n = r.chance(1, 8) ? 5 : r.range(1, 4);
    p.add(cat("n", n));
    double mg[6]{}, vg[6]{};
    bool hm[6]{}, hv[6]{};
    auto newM = [&](int s) {
        if (r.chance(1, 8)) { p.add(cat("mid", s)); mg[s] = 1; }
        else { bool u = r.chance(2, 3); p.add("g " + cat(s) + " " + gateText(genGate(r, n, u, 99, 3))); mg[s] = u ? 1 : 8; }
        hm[s] = true;
    };
    auto newV = [&](int s) { genState(r, p, n, s); hv[s] = true; vg[s] = 1; };
    auto anyM = [&]() { int s = r.below(6); if (!hm[s]) newM(s); return s; };
    auto anyV = [&]() { int s = r.below(6); if (!hv[s]) newV(s); return s; };
    int ops = r.range(3, 14), comb = 0;
    for (int i = 0; i < ops; i++) {
        int d = r.below(6);
        switch (r.below(12)) {
            case 0: newM(d); break;
            case 1: newV(d); break;
            case 2: case 3: case 4: {
                int a = anyM(), b = r.chance(1, 8) ? a : anyM();
                double g = mg[a] * mg[b] * (mg[a] > 1 && mg[b] > 1 ? (1 << n) : 1);
                if (g > 2000) { newM(a); break; }
                p.add(cat("mm", d, a, b)); mg[d] = g; hm[d] = true; comb++; break;
            }
            case 5: case 6: {
                int a = anyM(), b = r.chance(1, 8) ? a : anyM();
                p.add(cat("ma", d, a, b)); mg[d] = mg[a] + mg[b]; hm[d] = true; comb++;
                if (mg[d] > 2000) newM(d);
                break;
            }
            case 7: {
                int a = anyV(), b = r.chance(1, 8) ? a : anyV();
                p.add(cat("va", d, a, b)); vg[d] = vg[a] + vg[b]; hv[d] = true; comb++;
                if (vg[d] > 2000) newV(d);
                break;
            }
            case 8: {
                static const std::vector<cd> fs = {cd(-1), cd(0, 1), cd(0, -1), cd(0.5), cd(2), cd(0), cd(0.6, 0.8)};
                cd f = r.chance(2, 3) ? r.pick(fs) : cd(r.unit() * 2 - 1, r.unit() * 2 - 1);
                if (f == cd(0) && !r.chance(1, 3)) f = cd(-1);
                bool v = r.chance(1, 2);
                int s = v ? anyV() : anyM();
                (v ? vg : mg)[s] *= std::max(1.0, std::abs(f));
                p.add(cat(v ? "vs" : "ms", s, num(f.real()), num(f.imag())));
                break;
            }
            case 9: { if (n > 4) break; int a = anyV(), b = anyV(); p.add(cat("vk", a, b)); comb++; break; }
            case 10: { if (n > 3) break; int a = anyM(), b = anyM(); p.add(cat("mk", a, b)); comb++; break; }
            default: {
                int a = anyM(), b = anyV();
                double g = vg[b] * mg[a] * (mg[a] > 1 ? (1 << n) : 1);
                if (g > 2000) { newV(b); break; }
                p.add(cat("ap", d, a, b)); vg[d] = g; hv[d] = true; comb++; break;
            }
        }
    }
    p.add("ck");
    p.nontrivial = comb >= 2 && n >= 2;
    return p;
}
static Program genCompact(Rng &r) {
    Program p;
    int kind = r.below(10);
    if (kind < 6) {  // stabiliser states keep the canonical size; undoing the circuit gives the diagram back
        int n = r.range(1, 9);
        p.add(cat("n", n));
        p.add(r.chance(3, 4) ? "vz 0" : "vo 0");
        p.add("vc 1 0");
        int d = r.range(2, 25);
        std::vector<Gate> gs;
        for (int i = 0; i < d; i++) {
            gs.push_back(genClifford(r, n));
            p.add("ag 0 " + gateText(gs.back()));
            p.add("nn 0");
        }
        if (r.chance(1, 2)) {
            for (int i = d - 1; i >= 0; i--) p.add("ag 0 " + gateText(inverseGate(gs[i])));
            p.add("nn 0");
            p.add("eq 0 1");
        }
        p.nontrivial = n >= 3 && d >= 5;
    } else if (kind < 8) {  // same stabiliser state along two histories: gates on disjoint qubits commute
        int n = r.range(3, 8);
        p.add(cat("n", n));
        int cut = r.range(1, n - 1);
        std::vector<Gate> lo, hi;
        int dl = r.range(1, 8), dh = r.range(1, 8);
        for (int i = 0; i < dl; i++) lo.push_back(genClifford(r, cut));
        for (int i = 0; i < dh; i++) {
            Gate g = genClifford(r, n - cut);
            for (auto &t : g.tgt) t += cut;
            for (auto &c : g.ctl) c.first += cut;
            hi.push_back(g);
        }
        p.add("vz 0"); p.add("vz 1");
        for (auto &g : lo) p.add("ag 0 " + gateText(g));
        for (auto &g : hi) p.add("ag 0 " + gateText(g));
        size_t a = 0, b = 0;
        while (a < lo.size() || b < hi.size()) {
            if (b < hi.size() && (a == lo.size() || r.chance(2, 3))) p.add("ag 1 " + gateText(hi[b++]));
            else p.add("ag 1 " + gateText(lo[a++]));
        }
        p.add("eq 0 1"); p.add("nn 0"); p.add("nn 1");
        p.nontrivial = true;
    } else if (kind < 9) {  // product states need one node per qubit whatever the angles
        int n = r.range(2, 10);
        p.add(cat("n", n)); p.add("vz 0");
        int d = r.range(n, 3 * n);
        for (int i = 0; i < d; i++) {
            Gate g; g.fam = 'P'; g.name = r.pick(kParam1); g.tgt = {r.below(n)};
            for (int k = nParams(g.name); k > 0; k--) g.par.push_back(genAngle(r));
            p.add("ag 0 " + gateText(g)); p.add(cat("nnle 0", n));
        }
        p.nontrivial = true;
    } else {  // matrices: the same gate built twice, and gates that commute exactly, give one diagram
        int n = r.range(1, 6);
        p.add(cat("n", n));
        Gate g = genGate(r, n, true, 99, 3);
        p.add("g 0 " + gateText(g)); p.add("g 1 " + gateText(g)); p.add("meq 0 1");
        if (n >= 2) {
            auto q = r.distinct(n, 2);
            static const std::vector<std::string> one = {"X", "Y", "Z", "S", "Sdag"};
            p.add("g 2 " + gateText(named(r.pick(one), q[0]))); p.add("g 3 " + gateText(named(r.pick(one), q[1])));
            p.add("mm 4 2 3"); p.add("mm 5 3 2"); p.add("meq 4 5");
        }
        p.nontrivial = n >= 2;
    }
    return p;
}
// A state of more than 65536 nodes.
static Program genLarge(Rng &r, bool save) {
    Program p; int n = 17;
    p.add(cat("n", n));
    p.add(cat("vr 0", r.chance(1, 2) ? 0 : 3, (long long)(r.next() >> 20)));
    for (int i = r.range(1, 2); i > 0; i--) {
        p.add(save ? cat("sl 0", r.below(2)) : cat("gc 1", r.below(2), 0));
        Gate g = genGate(r, n, true, 2, 1);
        p.add("agq 0 " + gateText(g));
    }
    if (save) p.add("sl 0 0");
    p.add("ckv 0");
    p.nontrivial = true;
    return p;
}
static Program genGc(Rng &r, bool big = false) {
    Program p;
    if (!r.fuzz && r.chance(1, 1000)) return genLarge(r, false);
    if (!r.fuzz && r.chance(1, 150)) {
        p.add("n 2");
        p.add(cat("lk", 10, 60, (long long)(r.next() >> 20)));
        p.nontrivial = true;
        return p;
    }
    int n = big ? r.range(5, 9) : r.range(2, 6);
    p.add(cat("n", n));
    bool matrices = n <= 6;
    bool hm[6]{}, hv[6]{};
    auto newM = [&](int s) { p.add("g " + cat(s) + " " + gateText(genGate(r, n, true, 99, 3))); hm[s] = true; };
    auto newV = [&](int s) { genState(r, p, n, s); hv[s] = true; };
    auto anyM = [&]() { int s = r.below(6); if (!hm[s]) newM(s); return s; };
    auto anyV = [&]() { int s = r.below(6); if (!hv[s]) newV(s); return s; };
    int ops = r.range(6, 30), gcs = 0, after = 0;
    if (r.chance(1, 4)) p.add(cat("thr", r.range(1, 400), r.range(1, 400)));
    for (int i = 0; i < ops; i++) {
        int d = r.below(6);
        switch (r.below(matrices ? 14 : 8)) {
            case 0: case 1: case 2: { int s = anyV(); p.add("ag " + cat(s) + " " + gateText(genGate(r, n, true, 99, 3))); if (gcs) after++; break; }
            case 3: newV(d); break;
            case 4: { int s = anyV(); if (s != d) { p.add(cat("vc", d, s)); hv[d] = true; } break; }
            case 5: case 6: case 7: {
                int s = anyV();
                bool list = r.chance(1, 2);
                std::vector<int> keep{s};
                if (list) for (int k = 0; k < 6; k++) if (k != s && hv[k] && r.chance(1, 2)) keep.push_back(k);
                if (list && r.chance(1, 6)) keep.push_back(s);  // the same state twice
                std::string l = cat("gc", r.chance(2, 3) ? 1 : 0, list ? 1 : 0);
                for (int k : keep) l += " " + std::to_string(k);
                p.add(l);
                for (int k = 0; k < 6; k++) hv[k] = std::find(keep.begin(), keep.end(), k) != keep.end();
                gcs++;
                break;
            }
            case 8: newM(d); break;
            case 9: { int a = anyM(), b = anyM(); p.add(cat("mm", d, a, b)); hm[d] = true; break; }
            case 10: case 11: { int a = anyM(), b = anyV(); p.add(cat("ap", d, a, b)); hv[d] = true; if (gcs) after++; break; }
            case 12: {
                int s = anyM();
                bool list = r.chance(1, 2);
                std::vector<int> keep{s};
                if (list) for (int k = 0; k < 6; k++) if (k != s && hm[k] && r.chance(1, 2)) keep.push_back(k);
                std::string l = cat("gm", r.chance(2, 3) ? 1 : 0, list ? 1 : 0);
                for (int k : keep) l += " " + std::to_string(k);
                p.add(l);
                for (int k = 0; k < 6; k++) hm[k] = std::find(keep.begin(), keep.end(), k) != keep.end();
                gcs++;
                break;
            }
            default: { int a = anyV(), b = anyV(); if (r.chance(1, 2)) { p.add(cat("va", d, a, b)); hv[d] = true; p.add(cat("vs", d, 0.5, 0)); } break; }
        }
    }
    p.add("ck");
    p.nontrivial = gcs >= 1 && after >= 1;
    return p;
}
static Program genMeasure(Rng &r, bool collect = false) {
    Program p; int n = r.chance(1, 10) ? r.range(7, 9) : r.range(1, 6);
    p.add(cat("n", n));
    genState(r, p, n, 0);
    int d = r.below(12);
    for (int i = 0; i < d; i++) p.add("agq 0 " + gateText(genGate(r, n, true, 99, 3)));
    if (d) p.add("ckv 0");
    if (r.chance(1, 8)) p.add(cat("vs 0", num(r.chance(1, 2) ? 0.5 : 2.0), 0));
    else if (r.chance(1, 6)) { cd f = std::polar(1.0, genAngle(r)); p.add(cat("vs 0", num(f.real()), num(f.imag()))); }
    int k = r.range(1, 5);
    if (collect && r.chance(1, 3)) p.add("gc 1 0 0");
    for (int i = 0; i < k; i++) {
        long long seed = (long long)(r.next() >> 20);
        if (collect && i && r.chance(1, 3)) {
            for (int j = r.below(3); j > 0; j--) p.add("agq 0 " + gateText(genGate(r, n, true, 99, 3)));
            p.add(cat("gc", r.chance(2, 3) ? 1 : 0, 0, 0));
        }
        switch (r.below(8)) {
            case 0: p.add("pr 0"); break;
            case 1: p.add(cat("m1 0", r.below(n))); break;
            case 2: case 3: p.add(cat("mcs 0", r.below(n), r.chance(1, 4) ? 400 : 40, seed)); break;
            case 4: p.add(cat("mas 0", r.chance(1, 4) ? 3000 : 200, seed)); break;
            case 5: p.add("vc 1 0"); p.add(cat("mc1 1", r.below(n), seed)); if (r.chance(1, 2)) p.add("agq 1 " + gateText(genGate(r, n, true, 99, 3))); p.add(cat("mc1 1", r.below(n), seed + 1)); p.add("pr 1"); p.add("ckv 0"); break;
            case 6: p.add("vc 1 0"); p.add(cat("mac 1", seed)); p.add(cat("m1 1", r.below(n))); p.add("ckv 0"); break;
            default: for (int q = 0; q < n; q++) p.add(cat("m1 0", q)); break;
        }
    }
    p.nontrivial = n >= 2;
    return p;
}
static Program genHistCase(Rng &r) {
    switch (r.below(9)) {
        case 0: return genGates(r);
        case 1: case 2: return genEvolve(r, true);
        case 3: return genAlgebra(r);
        case 4: {  // after other work the exact size is not promised: weights may differ in the last bit
            Program p = genCompact(r);
            auto exact = [](const std::string &l) { return l.rfind("nn", 0) == 0 || l.rfind("eq", 0) == 0 || l.rfind("meq", 0) == 0; };
            p.lines.erase(std::remove_if(p.lines.begin(), p.lines.end(), exact), p.lines.end());
            p.add("ck");
            return p;
        }
        case 5: case 6: return genGc(r, r.chance(1, 3));
        default: return genMeasure(r, r.chance(1, 2));
    }
}
static Program genHist(Rng &r) {
    Program p = genHistCase(r);
    if (r.chance(1, 2)) p.lines.insert(p.lines.begin(), "pk");
    if (r.chance(1, 3)) p.add(cat("pin", r.below(3)));
    if (r.chance(1, 4)) p.add(cat("pinm", r.below(3)));
    if (r.chance(1, 3)) p.add("pk");
    return p;
}
static Program genViews(Rng &r) {
    Program p; int n = r.range(1, 5);
    p.add(cat("n", n));
    int k = r.range(1, 3);
    for (int i = 0; i < k; i++) {
        genState(r, p, n, 0);
        int d = r.below(6);
        for (int j = 0; j < d; j++) p.add("agq 0 " + gateText(genGate(r, n, true, 99, 3)));
        if (r.chance(1, 4)) p.add(cat("vs 0", num(r.unit() * 2 - 1), num(r.unit() * 2 - 1)));
        p.add("ckv 0"); p.add("vw 0");
        p.add("g 0 " + gateText(genGate(r, n, r.chance(1, 2), 99, 3)));
        if (r.chance(1, 2)) { p.add("g 1 " + gateText(genGate(r, n, true, 99, 3))); p.add("mm 0 0 1"); }
        p.add("mw 0");
    }
    p.nontrivial = n >= 2;
    return p;
}
static Program genSer(Rng &r) {
    if (r.chance(1, 500)) return genLarge(r, true);
    Program p; int n = r.chance(1, 8) ? r.range(8, 12) : r.range(1, 7);
    p.add(cat("n", n));
    genState(r, p, n, 0);
    int d = r.below(10);
    for (int j = 0; j < d; j++) p.add("agq 0 " + gateText(genGate(r, n, true, 99, 3)));
    if (r.chance(1, 3)) p.add(cat("vs 0", num(r.unit() * 2 - 1), num(r.unit() * 2 - 1)));
    p.add(cat("sl 0", r.below(2)));
    int e = r.range(1, 4);
    for (int j = 0; j < e; j++) p.add("ag 0 " + gateText(genGate(r, n, true, 99, 3)));
    p.add(cat("sl 0", r.below(2)));
    p.add("ckv 0");
    p.nontrivial = n >= 2 && d >= 2;
    return p;
}
static Program genWide(Rng &r) {
    Program p;
    int kind = r.below(5);
    if (kind == 0) {  // product states
        int n = r.range(12, 70);
        p.add(cat("wn", n, 1));
        int d = r.range(n / 2, 2 * n);
        for (int i = 0; i < d; i++) {
            Gate g;
            if (r.chance(1, 2)) { g.fam = 'P'; g.name = r.pick(kParam1); for (int k = nParams(g.name); k > 0; k--) g.par.push_back(genAngle(r)); }
            else { g.fam = 'N'; g.name = r.pick(kNamed1); }
            g.tgt = {r.below(n)};
            p.add("wg " + gateText(g));
        }
        p.add(cat("wck", (long long)(r.next() >> 20)));
        for (int i = 0; i < 3; i++) p.add(cat("wm", r.below(n)));
        p.add(cat("wmas", 40, (long long)(r.next() >> 20)));
        p.nontrivial = true;
        return p;
    }
    int n = r.chance(1, 2) ? r.range(60, 100) : r.range(12, 100);
    p.add(cat("wn", n, 0));
    p.add(r.chance(3, 4) ? "wz" : "wo");
    int branches = r.range(0, 7), used = 0, ent = 0;
    auto far = [&]() { int a = r.below(n); if (r.chance(1, 4)) a = r.chance(1, 2) ? 0 : n - 1; return a; };
    auto distinctFar = [&](int k) { std::vector<int> v; while ((int)v.size() < k) { int a = far(); if (std::find(v.begin(), v.end(), a) == v.end()) v.push_back(a); else if (r.fuzz) { a = (int)v.size(); while (std::find(v.begin(), v.end(), a) != v.end()) a++; v.push_back(a); } } return v; };
    auto gate = [&](bool branching) {
        Gate g;
        int k = branching ? 100 : r.below(10);
        if (branching) {
            if (r.chance(1, 2)) g = named("H", far());
            else { g.fam = 'P'; g.name = r.chance(1, 2) ? "ry" : "rx"; g.par = {genAngle(r)}; g.tgt = {far()}; }
            if (r.chance(1, 3)) { int c = far(); if (c != g.tgt[0]) g.ctl = {{c, r.chance(1, 2)}}; }
        } else if (k < 4) {  // controlled X / phase with few or very many controls
            static const std::vector<std::string> pn = {"X", "Y", "Z", "S", "T", "Tdag"};
            int nc = r.chance(1, 6) ? r.range(3, n - 1) : r.below(4);
            auto q = distinctFar(1);
            g = named(r.pick(pn), q[0]);
            auto all = r.distinct(n, std::min(n, nc));
            for (int c : all) if (c != q[0]) g.ctl.push_back({c, r.chance(1, 2)});
            std::sort(g.ctl.begin(), g.ctl.end());
        } else if (k < 6) { g.fam = 'W'; g.name = r.chance(1, 2) ? "swap" : "iswap"; g.tgt = distinctFar(2); if (r.chance(1, 3)) { int c = far(); if (c != g.tgt[0] && c != g.tgt[1]) g.ctl = {{c, r.chance(1, 2)}}; } }
        else if (k < 7) { g.fam = 'W'; g.name = "rzz"; g.par = {genAngle(r)}; g.tgt = distinctFar(2); }
        else if (k < 8) { g.fam = 'H'; g.name = r.chance(1, 2) ? "CX" : "makeSwap"; g.tgt = distinctFar(2); }
        else if (k < 9) { g.fam = 'H'; g.name = "CSWAP"; g.tgt = distinctFar(3); }
        else {  // permutation matrix on scattered qubits
            int t = r.range(1, 3);
            g.fam = 'L'; g.tgt = distinctFar(t);
            size_t d = (size_t)1 << t;
            auto pm = r.distinct((int)d, (int)d);
            g.arb.assign(d * d, cd(0));
            for (size_t i = 0; i < d; i++) g.arb[i * d + pm[i]] = std::polar(1.0, genAngle(r));
        }
        if (g.ctl.size() + g.tgt.size() > 1) ent++;
        return g;
    };
    int ops = r.range(5, 40);
    for (int i = 0; i < ops; i++) {
        bool b = used < branches && r.chance(1, 4);
        if (b) used++;
        if (!b && r.chance(1, 6)) {  // several gates multiplied together first
            int k = r.range(2, 4);
            for (int j = 0; j < k; j++) p.add(cat(j == 0 ? "wm0 " : "wm* ") + gateText(gate(false)));
            p.add("wma");
        } else p.add("wg " + gateText(gate(b)));
        if (r.chance(1, 10)) p.add(cat("wck", (long long)(r.next() >> 20)));
        if (r.chance(1, 12)) p.add(cat("wmc", far(), (long long)(r.next() >> 20)));
    }
    p.add(cat("wck", (long long)(r.next() >> 20)));
    for (int i = 0; i < 3; i++) p.add(cat("wm", far()));
    p.add(cat("wmas", 60, (long long)(r.next() >> 20)));
    p.nontrivial = ent >= 2 && used >= 1;
    return p;
}
static Program generateCase(const std::string &prof, Rng &r) {
    if (prof == "gates") return genGates(r);
    if (prof == "evolves") return genEvolve(r, true);
    if (prof == "evolve") return genEvolve(r);
    if (prof == "algebra") return genAlgebra(r);
    if (prof == "compact") return genCompact(r);
    if (prof == "gc") return genGc(r, r.chance(1, 12));
    if (prof == "measure") return genMeasure(r);
    if (prof == "measuregc") return genMeasure(r, true);
    if (prof == "hist") return genHist(r);
    if (prof == "views") return genViews(r);
    if (prof == "ser") return genSer(r);
    if (prof == "wide") return genWide(r);
    fprintf(stderr, "unknown profile %s\n", prof.c_str());
    exit(2);
}
static Program generate(const std::string &prof, Rng &r) {
    Program p = generateCase(prof, r);
    if (prof != "gc" && prof != "compact" && prof != "ser" && prof != "wide" && r.chance(1, prof == "evolves" ? 2 : prof.rfind("measure", 0) == 0 ? 6 : 12)) p.lines.insert(p.lines.begin(), "rst");
    return p;
}
static Program genFuzz(Rng &r) {
    switch (r.byte() % 8) {
        case 0: return genGates(r);
        case 1: { Program p; int n = r.range(1, 6); p.add(cat("n", n)); genState(r, p, n, 0); while (!r.exhausted() && p.lines.size() < 40) p.add("ag 0 " + gateText(genGate(r, n, true))); p.add("pr 0"); return p; }
        case 2: return genAlgebra(r);
        case 3: return genCompact(r);
        case 4: return genGc(r);
        case 5: return genMeasure(r);
        case 6: return genViews(r);
        default: return genWide(r);
    }
}
