#include <malloc.h>
// Generated-program search against the dense reference model of ref.hpp.
//
// A case is a short program in a line-based text form. It is generated without looking at the
// library, executed on the real library and on the reference, and compared after every step.
// A session is the sequence of cases run in one process: tables and caches persist over it.
//
//   engine run  PROFILE SEED SECONDS MAXCASES REPORT [FROM]   generate and execute
//   engine gen  PROFILE SEED COUNT                            print the session's text
//   engine play FILE REPORT                                   execute a session text
// REPORT receives progress and results; stdout belongs to the library.
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <unordered_set>

#include "dd.h"
#include "ref.hpp"

#ifdef ENGINE_MT
#include "task.h"
#endif
#ifdef ENGINE_MPI
#include <unistd.h>
#endif

#include "lib.hpp"

struct CoutCapture {
    std::ostringstream s;
    std::streambuf *old;
    CoutCapture() : old(std::cout.rdbuf(s.rdbuf())) {}
    ~CoutCapture() { std::cout.rdbuf(old); }
};

#include "wide.hpp"
#include "gen.hpp"

// Results of earlier cases that stay alive while later cases run (they are passed along at collections).
struct Pin { vEdge v; mEdge m; Vec ref; int n; double sc; bool mat; };
static std::vector<Pin> pins;
static void dropPins(bool mat) { pins.erase(std::remove_if(pins.begin(), pins.end(), [&](const Pin &p) { return p.mat == mat; }), pins.end()); }

struct Machine {
    Wide W;
    int n = 1;
    bool dense = true;  // matrices have a dense reference
    vEdge v[NS]; Vec rv[NS]; bool hv[NS]{};
    mEdge m[NS]; Vec rm[NS]; bool hm[NS]{};
    double sv[NS]{}, sm[NS]{};  // magnitude scale for tolerances

    void setV(int s, const vEdge &e, Vec ref, double scale) { v[s] = e; rv[s] = std::move(ref); hv[s] = true; sv[s] = std::max({1.0, scale, maxabs(rv[s])}); }
    void setM(int s, const mEdge &e, Vec ref, double scale) { m[s] = e; rm[s] = std::move(ref); hm[s] = true; sm[s] = std::max({1.0, scale, maxabs(rm[s])}); }
    void needV(int s) { if (!hv[s]) throw Invalid("case uses an empty state slot"); }
    void needM(int s) { if (!hm[s]) throw Invalid("case uses an empty matrix slot"); }
    void ckV(int s, const std::string &w) { compare(libVector(v[s], n), rv[s], sv[s], w); }
    void ckM(int s, const std::string &w) { compare(libMatrix(m[s], n), rm[s], sm[s], w); }

    static vEdge buildV(const Vec &a, size_t off, int n) {
        if (n == 0) return vEdge{Complex(a[off]), vNode::terminal};
        size_t h = (size_t)1 << (n - 1);
        vEdge lo = buildV(a, off, n - 1), hi = buildV(a, off + h, n - 1);
        return makeVEdge(n - 1, {lo, hi});
    }
    void exec(const std::string &line);
    void views(int s);
    void mviews(int s);
    void dotV(int s);
    void dotM(int s);
};

static std::string bits(size_t i, int n) {
    std::string s(n, '0');
    for (int b = 0; b < n; b++) if (i >> b & 1) s[n - 1 - b] = '1';
    return s;
}

static std::vector<cd> parsePairs(const std::string &s) {
    std::vector<cd> r;
    size_t p = 0;
    while ((p = s.find('(', p)) != std::string::npos) {
        double a, b;
        if (sscanf(s.c_str() + p, "(%lf , %lf)", &a, &b) == 2) r.push_back(cd(a, b));
        p++;
    }
    return r;
}

void Machine::views(int s) {
    double sc = sv[s], t = 2e-5;
    if (v[s].isTerminal()) return;
    auto ev = v[s].getEigenVector();
    Vec g(ev.size());
    for (long i = 0; i < (long)ev.size(); i++) g[i] = cd(ev(i).real(), ev(i).imag());
    compare(g, rv[s], sc, "getEigenVector", t);
    { CoutCapture c; v[s].printVector(); std::string o = c.s.str(); compare(parsePairs(o), rv[s], sc, "printVector", t); }
    {
        CoutCapture c; v[s].printVector_sparse(); std::string o = c.s.str();
        std::istringstream in(o); std::string l; Vec w(rv[s].size()); std::vector<char> seen(w.size());
        while (std::getline(in, l)) {
            size_t k = l.find(':');
            if (k == std::string::npos) continue;
            size_t idx = std::stoull(l.substr(0, k), nullptr, 2);
            auto pr = parsePairs(l.substr(k));
            if (idx >= w.size() || pr.size() != 1) throw Fail("printVector_sparse: malformed line " + l);
            w[idx] = pr[0]; seen[idx] = 1;
        }
        for (size_t i = 0; i < w.size(); i++) {
            if (std::abs(rv[s][i]) > 0.0011 && !seen[i]) throw Fail("printVector_sparse: amplitude missing");
            if (seen[i] && std::abs(w[i] - rv[s][i]) > t * std::max(1.0, sc)) throw Fail("printVector_sparse: wrong amplitude");
        }
    }
    dotV(s);
}
struct Dot {
    struct Arc { std::string to; int idx; cd w; };
    std::map<std::string, std::vector<Arc>> arcs;
    std::map<std::string, std::string> label;
    std::string root, term;
    cd rw;
    explicit Dot(const std::string &t) {
        std::istringstream in(t); std::string l;
        std::getline(in, l);
        if (l.rfind("digraph", 0) != 0) throw Fail("genDot: no digraph header");
        while (std::getline(in, l)) {
            std::istringstream q(l); std::string a, b, c;
            if (!(q >> a) || a == "}") continue;
            q >> b;
            size_t lp = l.find("label=\"");
            std::string lab = lp == std::string::npos ? "" : l.substr(lp + 7, l.rfind('"') - lp - 7);
            if (b == "->") {
                q >> c;
                auto pr = parsePairs(lab);
                if (pr.size() != 1) throw Fail("genDot: edge label " + lab);
                arcs[a].push_back({c, lab[0] - '0', pr[0]});
            } else {
                if (root.empty()) root = a;
                label[a] = lab;
                if (lab.rfind("Term", 0) == 0) { term = a; auto pr = parsePairs(lab); if (pr.size() == 1) rw = pr[0]; }
            }
        }
    }
};
void Machine::dotV(int s) {
    Dot d(genDot(v[s]));
    if ((long)d.label.size() - 1 != get_nNodes(v[s])) throw Fail("genDot: number of nodes differs from get_nNodes");
    Vec w((size_t)1 << n);
    std::function<void(const std::string &, int, size_t, cd)> go = [&](const std::string &nd, int lev, size_t row, cd a) {
        if (lev < 0) { if (nd != d.term) throw Fail("genDot: path longer than the register"); w[row] += a; return; }
        if (a == cd(0)) return;
        if (nd == d.term) throw Fail("genDot: short path with non-zero weight");
        if (d.label[nd] != "q" + std::to_string(n - 1 - lev)) throw Fail("genDot: label " + d.label[nd] + " at depth " + std::to_string(n - 1 - lev));
        for (auto &x : d.arcs[nd]) go(x.to, lev - 1, row | (x.idx ? (size_t)1 << lev : 0), a * x.w);
    };
    go(d.root, n - 1, 0, d.rw);
    compare(w, rv[s], sv[s], "genDot(state)", 1e-4);
}
void Machine::dotM(int s) {
    if (m[s].isTerminal()) return;
    Dot d(genDot(m[s]));
    size_t D = (size_t)1 << n;
    Vec w(D * D);
    std::function<void(const std::string &, int, size_t, size_t, cd)> go = [&](const std::string &nd, int lev, size_t r, size_t c, cd a) {
        if (lev < 0) { if (nd != d.term) throw Fail("genDot: path longer than the register"); w[r * D + c] += a; return; }
        size_t b = (size_t)1 << lev;
        if (nd == d.term || d.label[nd] != "q" + std::to_string(lev)) {  // skipped level: identity
            go(nd, lev - 1, r, c, a);
            go(nd, lev - 1, r | b, c | b, a);
            return;
        }
        for (auto &x : d.arcs[nd]) go(x.to, lev - 1, r | (x.idx & 2 ? b : 0), c | (x.idx & 1 ? b : 0), a * x.w);
    };
    go(d.root, n - 1, 0, 0, d.rw);
    compare(w, rm[s], sm[s], "genDot(matrix)", 1e-4);
}
void Machine::mviews(int s) {
    auto em = m[s].getEigenMatrix(n);
    size_t D = (size_t)1 << n;
    Vec g(D * D);
    if ((size_t)em.rows() != D || (size_t)em.cols() != D) throw Fail("getEigenMatrix dimension");
    for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) g[i * D + j] = cd(em(i, j).real(), em(i, j).imag());
    compare(g, rm[s], sm[s], "getEigenMatrix", 2e-5);
    { CoutCapture c; m[s].printMatrix(n); std::string o = c.s.str(); compare(parsePairs(o), rm[s], sm[s], "printMatrix", 2e-5); }
    if (m[s].getVar() == n - 1) {  // the default size is the qubits the edge spans
        size_t dim = 0;
        std_complex **mm = m[s].getMatrix(&dim);
        if (dim != D) throw Fail("getMatrix default dimension");
        for (size_t i = 0; i < dim; i++) delete[] mm[i];
        delete[] mm;
    }
    dotM(s);
}

static double opnorm(const Vec &m, size_t d) {  // Frobenius bound
    return std::sqrt(norm2v(m));
    (void)d;
}

void Machine::exec(const std::string &line) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    C.ops++;
    size_t D = (size_t)1 << n;
    auto geti = [&]() { long x = 0; in >> x; return (int)x; };
    auto getd = [&]() { std::string t; in >> t; return strtod(t.c_str(), nullptr); };
    if (op[0] == 'w') {
        W.exec(op, in);
    } else if (op == "n") {
        n = geti();
        dense = n <= 7;
        C.maxn = std::max<long>(C.maxn, n);
        for (int i = 0; i < NS; i++) hv[i] = hm[i] = false;
    } else if (op == "vz" || op == "vo") {
        int s = geti();
        Vec r(D); r[op == "vz" ? 0 : D - 1] = 1;
        setV(s, op == "vz" ? makeZeroState(n) : makeOneState(n), r, 1);
        ckV(s, op == "vz" ? "makeZeroState" : "makeOneState");
    } else if (op == "vb") {  // explicit amplitudes
        int s = geti(); Vec a(D);
        for (auto &x : a) { double re = getd(), im = getd(); x = cd(re, im); }
        setV(s, buildV(a, 0, n), a, 1);
        ckV(s, "makeVEdge");
    } else if (op == "vr") {  // pseudo-random amplitudes: kind, seed
        int s = geti(), kind = geti(); uint64_t seed; in >> seed;
        Rng r(seed); Vec a(D);
        for (auto &x : a) {
            if (kind == 0) x = cd(r.gauss(), r.gauss());
            else if (kind == 1) x = r.chance(1, 4) ? cd(r.gauss(), r.gauss()) : cd(0);
            else if (kind == 2) x = cd(r.range(-1, 1), r.range(-1, 1));
            else x = std::pow(10.0, -r.unit() * 5) * cd(r.gauss(), r.gauss());
        }
        double nn = std::sqrt(norm2v(a));
        if (nn == 0) { a[0] = 1; nn = 1; }
        for (auto &x : a) x /= nn;
        setV(s, buildV(a, 0, n), a, 1);
        ckV(s, "makeVEdge");
    } else if (op == "g") {  // build a gate, compare its matrix
        int s = geti(); Gate g = parseGate(in);
        setM(s, libGate(n, g), denseGate(n, g), 1);
        ckM(s, "gate matrix " + g.name);
    } else if (op == "mid") {
        int s = geti(); Vec r(D * D);
        for (size_t i = 0; i < D; i++) r[i * D + i] = 1;
        setM(s, makeIdent(n - 1), r, 1);
        ckM(s, "makeIdent");
    } else if (op == "ap") {
        int d = geti(), a = geti(), b = geti(); needM(a); needV(b);
        Vec r = mulMV(rm[a], rv[b]);
        double sc = sv[b] * std::max(1.0, opnorm(rm[a], D) / std::sqrt((double)D)) * sm[a];
        vEdge e = mv_multiply(m[a], v[b]);
        ckV(b, "mv_multiply changed its operand");
        setV(d, e, r, sc);
        ckV(d, "mv_multiply");
    } else if (op == "ag" || op == "agq") {  // gate application; agq skips the comparison
        int s = geti(); needV(s); Gate g = parseGate(in);
        mEdge e = libGate(n, g);
        double amp = g.arb.empty() ? 1 : std::max(1.0, maxabs(g.arb));
        v[s] = mv_multiply(e, v[s]);
        Vec r = rv[s]; applyRef(r, g);
        setV(s, v[s], r, sv[s] * amp);
        if (op == "ag") ckV(s, "apply " + g.name);
    } else if (op == "ck") {
        for (int i = 0; i < NS; i++) {
            if (hv[i]) ckV(i, "live state changed (slot " + std::to_string(i) + ")");
            if (hm[i]) ckM(i, "live matrix changed (slot " + std::to_string(i) + ")");
        }
    } else if (op == "ckv") {
        int s = geti(); needV(s); ckV(s, "state");
    } else if (op == "mm" || op == "ma") {
        int d = geti(), a = geti(), b = geti(); needM(a); needM(b);
        mEdge e = op == "mm" ? mm_multiply(m[a], m[b]) : mm_add(m[a], m[b]);
        Vec r;
        double sc;
        if (op == "mm") { r = mulMM(rm[a], rm[b], D); sc = sm[a] * sm[b]; }
        else { r = rm[a]; for (size_t i = 0; i < r.size(); i++) r[i] += rm[b][i]; sc = sm[a] + sm[b]; }
        setM(d, e, r, sc);
        ckM(d, op == "mm" ? "mm_multiply" : "mm_add");
    } else if (op == "va") {
        int d = geti(), a = geti(), b = geti(); needV(a); needV(b);
        vEdge e = vv_add(v[a], v[b]);
        Vec r = rv[a]; for (size_t i = 0; i < D; i++) r[i] += rv[b][i];
        setV(d, e, r, sv[a] + sv[b]);
        ckV(d, "vv_add");
    } else if (op == "vs" || op == "ms") {  // scalar multiple through the root weight
        int s = geti(); double re = getd(), im = getd(); cd f(re, im);
        double af = std::max(1.0, std::abs(f));
        if (op == "vs") { needV(s); v[s].w *= Complex(re, im); for (auto &x : rv[s]) x *= f; sv[s] *= af; ckV(s, "scaled state"); }
        else { needM(s); m[s].w *= Complex(re, im); for (auto &x : rm[s]) x *= f; sm[s] *= af; ckM(s, "scaled matrix"); }
    } else if (op == "vk") {  // kron of two states; result is checked and dropped
        int a = geti(), b = geti(); needV(a); needV(b);
        if (v[a].isTerminal() || v[b].isTerminal()) return;
        vEdge e = vv_kronecker(v[a], v[b]);
        Vec r(D * D);
        for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) r[i * D + j] = rv[a][i] * rv[b][j];
        if (maxabs(r) < 1e-12) return;
        compare(libVector(e, 2 * n), r, sv[a] * sv[b], "vv_kronecker");
    } else if (op == "mk") {  // kron: the right operand acts on the qubits it spans
        int a = geti(), b = geti(); needM(a); needM(b);
        if (m[b].getVar() != n - 1) return;  // identity at the top: the operand's size is not in the diagram
        int nb = n;
        size_t B = (size_t)1 << nb;
        Vec rb(B * B);
        for (size_t i = 0; i < B; i++) for (size_t j = 0; j < B; j++) rb[i * B + j] = rm[b][i * D + j];
        mEdge e = mm_kronecker(m[a], m[b]);
        compare(libMatrix(e, n + nb), kronRef(rm[a], D, rb, B), sm[a] * sm[b], "mm_kronecker");
    } else if (op == "vc" || op == "mc") {  // copy a slot
        int d = geti(), s = geti();
        if (op == "vc") { needV(s); setV(d, v[s], rv[s], sv[s]); } else { needM(s); setM(d, m[s], rm[s], sm[s]); }
    } else if (op == "gc") {  // force, list form?, slots that survive
        int force = geti(), list = geti(); std::vector<int> keep; int s;
        while (in >> s) { needV(s); keep.push_back(s); }
        C.gcs++;
        if (!list) { dropPins(false); v[keep[0]] = gc(v[keep[0]], force); keep.resize(1); }
        else {
            std::vector<vEdge> x; for (int k : keep) x.push_back(v[k]);
            for (auto &p : pins) if (!p.mat) x.push_back(p.v);
            size_t cnt = x.size();
            x = gc(x, force);
            if (x.size() != cnt) throw Fail("gc: number of states changed");
            for (size_t i = 0; i < keep.size(); i++) v[keep[i]] = x[i];
            size_t at = keep.size();
            for (auto &p : pins) if (!p.mat) p.v = x[at++];
        }
        bool alive[NS]{}; for (int k : keep) alive[k] = true;
        for (int i = 0; i < NS; i++) if (!alive[i]) hv[i] = false;
        for (int i = 0; i < NS; i++) {
            if (hv[i]) ckV(i, "state after gc");
            if (hm[i] && dense) ckM(i, "matrix after gc of states");
        }
    } else if (op == "gm") {
        int force = geti(), list = geti(); std::vector<int> keep; int s;
        while (in >> s) { needM(s); keep.push_back(s); }
        C.gcs++;
        if (!list) { dropPins(true); m[keep[0]] = gc_mat(m[keep[0]], force); keep.resize(1); }
        else {
            std::vector<mEdge> x; for (int k : keep) x.push_back(m[k]);
            for (auto &p : pins) if (p.mat) x.push_back(p.m);
            size_t cnt = x.size();
            x = gc_mat(x, force);
            if (x.size() != cnt) throw Fail("gc_mat: number of matrices changed");
            for (size_t i = 0; i < keep.size(); i++) m[keep[i]] = x[i];
            size_t at = keep.size();
            for (auto &p : pins) if (p.mat) p.m = x[at++];
        }
        bool alive[NS]{}; for (int k : keep) alive[k] = true;
        for (int i = 0; i < NS; i++) if (!alive[i]) hm[i] = false;
        for (int i = 0; i < NS; i++) {
            if (hm[i]) ckM(i, "matrix after gc_mat");
            if (hv[i]) ckV(i, "state after gc of matrices");
        }
    } else if (op == "lk") {  // discarded states are reclaimed: memory stays bounded over many collections
        int nn = geti(), iters = geti(); uint64_t seed; in >> seed;
        Rng r(seed);
        auto rss = [] { auto m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); };
        long base = 0, warm = 4;
        dropPins(false);
        for (int i = 0; i < warm + iters; i++) {
            Vec a((size_t)1 << nn);
            for (auto &x : a) x = cd(r.gauss(), r.gauss());
            double z = std::sqrt(norm2v(a));
            for (auto &x : a) x /= z;
            vEdge e = buildV(a, 0, nn);
            Gate g = genGate(r, nn, true, 99, 3);
            e = mv_multiply(libGate(nn, g), e);
            applyRef(a, g);
            compare(libVector(e, nn), a, 1, "state");
            vEdge z0 = makeZeroState(nn);
            z0 = gc(z0, true);
            C.gcs++;
            if (i == warm - 1) base = rss();
        }
        long grown = rss() - base, created = (long)iters * (2L << nn) * (long)sizeof(vNode);
        C.checks++;
        if (grown > created / 4 + (1L << 20)) throw Fail("gc does not reclaim: memory grew by " + std::to_string(grown) + " bytes while states of " + std::to_string(created) + " bytes were discarded and collected");
        for (int i = 0; i < NS; i++) hv[i] = hm[i] = false;
    } else if (op == "rst") {  // small tables only: start with empty tables, so that long runs do not slow down
        if (NBUCKETS <= 4096) {
            dropPins(false); dropPins(true);
            for (int i = 0; i < NS; i++) hv[i] = hm[i] = false;
            gc(makeZeroState(1), true);
            gc_mat(makeIdent(0), true);
        }
    } else if (op == "pin" || op == "pinm") {
        int s = geti();
        if (pins.size() > 6) pins.erase(pins.begin());
        if (op == "pin" && hv[s] && n <= 8 && !v[s].isTerminal()) pins.push_back({v[s], mEdge(), rv[s], n, sv[s], false});
        if (op == "pinm" && hm[s] && n <= 5 && !m[s].isTerminal()) pins.push_back({vEdge(), m[s], rm[s], n, sm[s], true});
    } else if (op == "pk") {
        for (auto &p : pins) compare(p.mat ? libMatrix(p.m, p.n) : libVector(p.v, p.n), p.ref, p.sc, p.mat ? "matrix of an earlier case" : "state of an earlier case");
    } else if (op == "thr") {
        int a = geti(), b = geti();
        set_gc_thr(a, b);
    } else if (op == "pr") {
        int s = geti(); needV(s); C.meas++;
        if (v[s].isTerminal()) return;
        auto p = probabilities(v[s]);
        if (p.size() != D) throw Fail("probabilities: size " + std::to_string(p.size()));
        double N = norm2v(rv[s]);
        for (size_t i = 0; i < D; i++)
            if (!(std::abs(p[i] - std::norm(rv[s][i]) / N) <= 1e-8)) throw Fail("probabilities: entry " + std::to_string(i) + " is " + num(p[i]) + " instead of " + num(std::norm(rv[s][i]) / N));
        C.checks++;
        ckV(s, "probabilities changed the state");
    } else if (op == "m1") {  // probability of reading 0; no collapse
        int s = geti(), q = geti(); needV(s); C.meas++;
        double N = norm2v(rv[s]), p0 = 0;
        for (size_t i = 0; i < D; i++) if (!(i >> q & 1)) p0 += std::norm(rv[s][i]);
        std::mt19937_64 mt(1);
        bool threw = false; double got = 0;
        try { got = measureOne(v[s], q, mt); } catch (const std::runtime_error &) { threw = true; }
        if (std::abs(N - 1) < 1e-6 && threw) throw Fail("measureOne rejected a normalised state");
        if (std::abs(N - 1) > 0.01 && !threw) throw Fail("measureOne accepted a state of squared norm " + num(N));
        if (!threw && !(std::abs(got - p0 / N) <= 1e-8)) throw Fail("measureOne: " + num(got) + " instead of " + num(p0 / N));
        C.checks++;
        ckV(s, "measureOne changed the state");
    } else if (op == "mc1") {  // collapse the slot
        int s = geti(), q = geti(); uint64_t seed; in >> seed; needV(s); C.meas++;
        std::mt19937_64 mt(seed);
        double N = norm2v(rv[s]);
        bool threw = false; char r = '?';
        try { r = measureOneCollapsing(v[s], q, mt); } catch (const std::runtime_error &) { threw = true; }
        if (std::abs(N - 1) < 1e-6 && threw) throw Fail("measureOneCollapsing rejected a normalised state");
        if (std::abs(N - 1) > 0.01 && !threw) throw Fail("measureOneCollapsing accepted a state of squared norm " + num(N));
        if (threw) return;
        if (r != '0' && r != '1') throw Fail("measureOneCollapsing: outcome is not a bit");
        double p = 0; Vec a = rv[s];
        for (size_t i = 0; i < D; i++) { if ((i >> q & 1) == (size_t)(r - '0')) p += std::norm(a[i]); else a[i] = 0; }
        if (p < 1e-11) throw Fail("measureOneCollapsing returned an outcome of probability 0");
        for (auto &x : a) x /= std::sqrt(p);
        setV(s, v[s], a, sv[s] / std::sqrt(p));
        ckV(s, "state after measureOneCollapsing");
    } else if (op == "mcs") {  // distribution of the single-qubit measurement
        int s = geti(), q = geti(), shots = geti(); uint64_t seed; in >> seed; needV(s); C.meas++; C.shots += shots;
        std::mt19937_64 mt(seed);
        double p1 = 0, N = norm2v(rv[s]);
        for (size_t i = 0; i < D; i++) if (i >> q & 1) p1 += std::norm(rv[s][i]);
        if (std::abs(N - 1) > 1e-6) return;
        long k = 0; bool seen[2]{};
        for (int i = 0; i < shots; i++) {
            vEdge e = v[s];
            char r = measureOneCollapsing(e, q, mt);
            if (r == '1') k++;
            int o = r == '1';
            if (!seen[o] || i == shots - 1) {
                seen[o] = true;
                Vec a = rv[s]; double p = o ? p1 : N - p1;
                if (p < 1e-11) throw Fail("measureOneCollapsing returned an outcome of probability 0");
                for (size_t j = 0; j < D; j++) { if ((int)(j >> q & 1) != o) a[j] = 0; a[j] /= std::sqrt(p); }
                compare(libVector(e, n), a, sv[s] / std::sqrt(p), "state after measureOneCollapsing");
            }
        }
        checkCount(k, shots, p1, "measureOneCollapsing");
        ckV(s, "measuring a copy changed the state");
    } else if (op == "mas") {  // distribution of measureAll
        int s = geti(), shots = geti(); uint64_t seed; in >> seed; needV(s); C.meas++; C.shots += shots;
        if (v[s].isTerminal()) return;
        std::mt19937_64 mt(seed);
        double N = norm2v(rv[s]);
        std::map<std::string, long> cnt;
        for (int i = 0; i < shots; i++) {
            std::string r = measureAll(v[s], false, mt);
            if ((int)r.size() != n || r.find_first_not_of("01") != std::string::npos) throw Fail("measureAll: malformed outcome " + r);
            cnt[r]++;
        }
        std::vector<double> one(n, 0), p1(n, 0);
        std::vector<double> par(n, 0), pp(n, 0);  // parity of neighbouring qubits
        for (size_t i = 0; i < D; i++) {
            double p = std::norm(rv[s][i]) / N;
            auto it = cnt.find(bits(i, n));
            checkCount(it == cnt.end() ? 0 : it->second, shots, p, "measureAll outcome " + bits(i, n));
            for (int q = 0; q < n; q++) {
                if (i >> q & 1) p1[q] += p;
                if ((i >> q ^ i >> ((q + 1) % n)) & 1) pp[q] += p;
            }
        }
        for (auto &kv : cnt)
            for (int q = 0; q < n; q++) {
                int b = kv.first[n - 1 - q] == '1', b2 = kv.first[n - 1 - (q + 1) % n] == '1';
                if (b) one[q] += kv.second;
                if (b ^ b2) par[q] += kv.second;
            }
        for (int q = 0; q < n; q++) {
            checkCount(one[q], shots, p1[q], "measureAll qubit " + std::to_string(q));
            checkCount(par[q], shots, pp[q], "measureAll parity of qubits " + std::to_string(q));
        }
        C.checks++;
        ckV(s, "measureAll without collapse changed the state");
    } else if (op == "mac") {  // measureAll with collapse
        int s = geti(); uint64_t seed; in >> seed; needV(s); C.meas++;
        if (v[s].isTerminal()) return;
        std::mt19937_64 mt(seed);
        std::string r = measureAll(v[s], true, mt);
        size_t i = 0;
        if ((int)r.size() != n) throw Fail("measureAll: malformed outcome " + r);
        for (char ch : r) i = i << 1 | (ch == '1');
        if (std::norm(rv[s][i]) / norm2v(rv[s]) < 1e-12) throw Fail("measureAll returned an outcome of probability 0");
        Vec a(D); a[i] = 1;
        setV(s, v[s], a, 1);
        ckV(s, "state after measureAll with collapse");
    } else if (op == "nn") {  // exact canonical size
        int s = geti(); needV(s);
        if (v[s].isTerminal()) return;
        int got = get_nNodes(v[s]), want = canonicalNodes(rv[s], n);
        C.maxnodes = std::max<long>(C.maxnodes, got);
        C.checks++;
        if (got != want) throw Fail("get_nNodes: " + std::to_string(got) + " nodes, the canonical diagram has " + std::to_string(want));
    } else if (op == "nnle") {  // size bound
        int s = geti(), lim = geti(); needV(s);
        int got = get_nNodes(v[s]);
        C.maxnodes = std::max<long>(C.maxnodes, got);
        C.checks++;
        if (got > lim) throw Fail("get_nNodes: " + std::to_string(got) + " nodes, more than " + std::to_string(lim));
    } else if (op == "eq") {  // two histories of the same state share the node
        int a = geti(), b = geti(); needV(a); needV(b);
        C.checks++;
        if (!(v[a] == v[b])) throw Fail("equal states are not the same diagram");
    } else if (op == "meq") {
        int a = geti(), b = geti(); needM(a); needM(b);
        C.checks++;
        if (!(m[a] == m[b])) throw Fail("equal matrices are not the same diagram");
    } else if (op == "nodes") {
        int s = geti(); needV(s);
        C.maxnodes = std::max<long>(C.maxnodes, get_nNodes(v[s]));
    } else if (op == "vw") {
        int s = geti(); needV(s); views(s);
    } else if (op == "mw") {
        int s = geti(); needM(s); mviews(s);
#ifdef ENGINE_MPI
    } else if (op == "sl") {  // save, optionally forget everything, load
        int s = geti(), wipe = geti(); needV(s);
        if (v[s].isTerminal()) return;
        std::string f = "/tmp/verif_sl_" + std::to_string(getpid());
        { CoutCapture c; save_binary(v[s], f); }
        if (wipe) { vEdge z = makeZeroState(1); gc(z, true); for (int i = 0; i < NS; i++) if (i != s) hv[i] = false; }
        v[s] = load_binary(f);
        remove(f.c_str());
        ckV(s, "state loaded from a file");
#endif
    } else
        throw Invalid("unknown op " + op);
}

static void runProgram(Machine &M, const Program &p) {
    for (auto &l : p.lines) M.exec(l);
}

#ifdef ENGINE_FUZZ
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    if (!getenv("ENGINE_KEEP_STDOUT")) if (!freopen("/dev/null", "w", stdout)) return 1;
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    Rng r(d, n);
    Program p = genFuzz(r);
    if (getenv("ENGINE_PRINT_CASE")) for (auto &l : p.lines) fprintf(stderr, "%s\n", l.c_str());
    Machine M;
    try {
        runProgram(M, p);
    } catch (const Fail &e) {
        fprintf(stderr, "FAIL %s\n", e.what());
        __builtin_trap();
    }
    return 0;
}
#else
static std::string jsonStr(const std::string &s) {
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; }
    return o + "\"";
}
int main(int argc, char **argv) {
    auto usage = [] { fprintf(stderr, "usage\n"); return 2; };
    if (argc < 4) return usage();
    std::string mode = argv[1];
    if (mode == "gen") {
        std::string prof = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); long cnt = atol(argv[4]);
        for (long k = 0; k < cnt; k++) {
            Rng r(seed * 1000003ULL + (uint64_t)k);
            Program p = generate(prof, r);
            printf("case %ld\n", k);
            for (auto &l : p.lines) printf("%s\n", l.c_str());
        }
        return 0;
    }
    FILE *rep = fopen(mode == "run" ? argv[6] : argv[3], "w");
    if (!rep) return 2;
    setvbuf(rep, nullptr, _IONBF, 0);
    if (!getenv("ENGINE_KEEP_STDOUT")) if (!freopen("/dev/null", "w", stdout)) return 2;
    auto fail = [&](long k, const std::string &line, const std::string &what) {
        fprintf(rep, "FAIL %ld %s\nAT %s\n", k, what.c_str(), line.substr(0, 300).c_str());
        fclose(rep);
        fflush(nullptr);
        _Exit(1);
    };
#ifdef ENGINE_MT
    Scheduler *sched = nullptr;
    if (getenv("ENGINE_WORKERS")) sched = new Scheduler(atoi(getenv("ENGINE_WORKERS")));
    (void)sched;
#endif
    auto runOne = [&](long k, const std::vector<std::string> &lines) {
        Machine M;
        std::string cur;
        try {
            for (auto &l : lines) { cur = l; M.exec(l); }
        } catch (const Fail &e) { fail(k, cur, e.what());
        } catch (const Invalid &e) {
            // the generator never produces such programs; the shrinker may
            fprintf(rep, "INVALID %ld %s\nAT %s\n", k, e.what(), cur.c_str()); fclose(rep); _Exit(3);
        } catch (const std::exception &e) { fail(k, cur, std::string("unexpected exception: ") + e.what()); }
    };
    if (mode == "play") {
        std::ifstream f(argv[2]);
        std::string l; std::vector<std::string> cur; long k = -1;
        while (std::getline(f, l)) {
            if (l.empty() || l[0] == '#') continue;
            if (l.rfind("case", 0) == 0) { if (k >= 0) runOne(k, cur); k = atol(l.c_str() + 5); cur.clear(); fprintf(rep, "case %ld\n", k); continue; }
            cur.push_back(l);
        }
        if (k >= 0 || !cur.empty()) runOne(k, cur);
        fprintf(rep, "OK\n");
        fclose(rep);
        _Exit(0);
    }
    std::string prof = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10);
    double secs = atof(argv[4]); long maxc = atol(argv[5]);
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_set<size_t> distinct;
    std::string samples; int ns = 0;
    std::hash<std::string> H;
    for (long k = 0; k < maxc; k++) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (el > secs) break;
        Rng r(seed * 1000003ULL + (uint64_t)k);
        Program p = generate(prof, r);
        rewind(rep);
        fprintf(rep, "case %-12ld\n", k);
        C.cases++;
        std::string all;
        for (auto &l : p.lines) { all += l; all += '\n'; }
        if (p.nontrivial && distinct.insert(H(all)).second) {
            C.nontrivial++;
            if (ns < 3 && all.size() < 1500 && C.nontrivial % 7 == 1) { samples += (ns++ ? "," : "") + jsonStr(all); }
        }
        for (auto &l : p.lines) C.kinds[l.substr(0, l.find(' '))]++;
        runOne(k, p.lines);
    }
    rewind(rep);
    fprintf(rep, "OK {\"cases\":%ld,\"nontrivial\":%ld,\"ops\":%ld,\"checks\":%ld,\"gcs\":%ld,\"meas\":%ld,\"shots\":%ld,\"maxerr\":%.3g,\"maxnodes\":%ld,\"maxn\":%ld,\"kinds\":{",
            C.cases, C.nontrivial, C.ops, C.checks, C.gcs, C.meas, C.shots, C.maxerr, C.maxnodes, C.maxn);
    bool first = true;
    for (auto &kv : C.kinds) { fprintf(rep, "%s\"%s\":%ld", first ? "" : ",", kv.first.c_str(), kv.second); first = false; }
    fprintf(rep, "},\"samples\":[%s]}\n", samples.c_str());
    fclose(rep);
    fflush(nullptr);
    _Exit(0);  // skip static destructors: only what the cases do is under test
}
#endif
