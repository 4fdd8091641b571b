// Glue between reference gates and the library, comparison, statistics. Shared by the harnesses.
#pragma once
#include <memory>

#include "dd.h"
#include "ref.hpp"

struct Fail : std::runtime_error {
    using std::runtime_error::runtime_error;
};
static const double TOL = 1e-9;

static GateMatrix gm(const Vec &m) { return GateMatrix{m[0], m[1], m[2], m[3]}; }

static GateMatrix libNamed1(const std::string &n) {
    if (n == "I") return Imat;
    if (n == "H") return Hmat;
    if (n == "X") return Xmat;
    if (n == "Y") return Ymat;
    if (n == "Z") return Zmat;
    if (n == "S") return Smat;
    if (n == "Sdag") return Sdagmat;
    if (n == "T") return Tmat;
    if (n == "Tdag") return Tdagmat;
    if (n == "SX") return SXmat;
    if (n == "SXdag") return SXdagmat;
    if (n == "V") return Vmat;
    return Vdagmat;
}
static GateMatrix libParam1(const std::string &n, const std::vector<double> &p) {
    if (n == "rx") return rx(p[0]);
    if (n == "ry") return ry(p[0]);
    if (n == "rz") return rz(p[0]);
    if (n == "p") return ::p(p[0]);
    if (n == "u1") return u1(p[0]);
    if (n == "u2") return u2(p[0], p[1]);
    if (n == "u3") return u3(p[0], p[1], p[2]);
    if (n == "u") return u(p[0], p[1], p[2], p[3]);
    return r(p[0], p[1]);
}
static TwoQubitGateMatrix lib2q(const std::string &n, const std::vector<double> &p) {
    if (n == "rxx") return rxx_matrix(p[0]);
    if (n == "ryy") return ryy_matrix(p[0]);
    if (n == "rzz") return rzz_matrix(p[0]);
    if (n == "rzx") return rzx_matrix(p[0]);
    if (n == "swap") return swap_matrix();
    return iswap_matrix();
}
static mEdge libGate(int n, const Gate &g) {
    Controls c;
    for (auto &x : g.ctl) c.emplace(Control{x.first, x.second ? Control::Type::pos : Control::Type::neg});
    auto one = [&](const GateMatrix &m) { return g.ctl.empty() ? makeGate(n, m, g.tgt[0]) : makeGate(n, m, g.tgt[0], c); };
    auto two = [&](const TwoQubitGateMatrix &m) {
        return g.ctl.empty() ? makeTwoQubitGate(n, m, g.tgt[0], g.tgt[1]) : makeTwoQubitGate(n, m, g.tgt[0], g.tgt[1], c);
    };
    switch (g.fam) {
        case 'N': return one(libNamed1(g.name));
        case 'P': return one(libParam1(g.name, g.par));
        case 'A': return one(gm(g.arb));
        case 'W': return two(lib2q(g.name, g.par));
        case 'B': {
            TwoQubitGateMatrix m;
            for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[i][j] = g.arb[i * 4 + j];
            return two(m);
        }
        case 'L': {
            size_t d = (size_t)1 << g.tgt.size();
            ComplexMatrix m(d, std::vector<std::complex<double>>(d));
            for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) m[i][j] = g.arb[i * d + j];
            ComplexMatrix before = m;
            bool deflt = g.name == "default";  // overload without a target list
            mEdge e = deflt ? makeLargeGate(n, m) : makeLargeGate(n, m, std::vector<Qubit>(g.tgt.begin(), g.tgt.end()));
            if (m != before) throw Fail("makeLargeGate changed the caller's matrix");
            return e;
        }
        default: {
            const std::string &h = g.name;
            int a = g.tgt[0], b = g.tgt.size() > 1 ? g.tgt[1] : 0;
            if (h == "RX") return RX(n, a, g.par[0]);
            if (h == "RY") return RY(n, a, g.par[0]);
            if (h == "RZ") return RZ(n, a, g.par[0]);
            if (h == "CX") return CX(n, a, b);
            if (h == "RXX") return RXX(n, a, b, g.par[0]);
            if (h == "RYY") return RYY(n, a, b, g.par[0]);
            if (h == "RZZ") return RZZ(n, a, b, g.par[0]);
            if (h == "RZX") return RZX(n, a, b, g.par[0]);
            if (h == "SWAP") return SWAP(n, a, b);
            if (h == "makeSwap") return makeSwap(n, a, b);
            if (h == "ISWAP") return ISWAP(n, a, b);
            return CSWAP(n, a, b, g.tgt[2]);
        }
    }
}

// ---------------------------------------------------------------- execution
static const int NS = 6;  // slots of each kind
struct Counters {
    long cases = 0, nontrivial = 0, ops = 0, checks = 0, gcs = 0, meas = 0, shots = 0;
    double maxerr = 0;
    long maxnodes = 0, maxn = 0;
    std::map<std::string, long> kinds;
};
static Counters C;

static Vec libVector(const vEdge &e, int n) {
    size_t d = (size_t)1 << n;
    if (e.isTerminal()) {
        if (n > 0 && !(e.w.r == 0 && e.w.i == 0)) throw Fail("state is a non-zero scalar");
        return Vec(d);
    }
    if (e.getVar() != n - 1) throw Fail("state has " + std::to_string(e.getVar() + 1) + " qubits instead of " + std::to_string(n));
    size_t dim = 0;
    std::unique_ptr<std_complex[]> p(e.getVector(&dim));
    if (dim != d) throw Fail("getVector dimension");
    Vec v(d);
    for (size_t i = 0; i < d; i++) v[i] = cd(p[i].r, p[i].i);
    return v;
}
static Vec libMatrix(const mEdge &e, int n) {
    size_t d = (size_t)1 << n, dim = 0;
    std_complex **m = e.getMatrix(&dim, n);
    Vec v(dim * dim);
    for (size_t i = 0; i < dim; i++) {
        for (size_t j = 0; j < dim; j++) v[i * dim + j] = cd(m[i][j].r, m[i][j].i);
        delete[] m[i];
    }
    delete[] m;
    if (dim != d) throw Fail("getMatrix dimension");
    return v;
}
static void compare(const Vec &got, const Vec &want, double scale, const std::string &what, double tol = TOL) {
    C.checks++;
    if (got.size() != want.size()) throw Fail(what + ": size " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()));
    double bad = 0; size_t at = 0;
    for (size_t i = 0; i < got.size(); i++) {
        double e = std::abs(got[i] - want[i]);
        if (!(e <= bad)) { bad = e; at = i; }
        if (std::isnan(e)) { bad = INFINITY; at = i; break; }
    }
    double lim = tol * std::max(1.0, scale);
    if (std::isfinite(bad)) C.maxerr = std::max(C.maxerr, bad / std::max(1.0, scale) / (tol / TOL));
    if (!(bad <= lim)) {
        std::ostringstream o;
        o << what << ": entry " << at << " is " << got[at] << " instead of " << want[at] << " (error " << bad << ", limit " << lim << ")";
        throw Fail(o.str());
    }
}

// log of a p-value upper bound for seeing a count this far off: two-sided Chernoff/KL bound
static double klBound(double k, double N, double p) {
    double f = k / N;
    auto t = [](double a, double b) { return a <= 0 ? 0.0 : a * std::log(a / b); };
    if (p <= 0) return k > 0 ? -INFINITY : 0;
    if (p >= 1) return k < N ? -INFINITY : 0;
    return -N * (t(f, p) + t(1 - f, 1 - p));
}
static const double LOGP = -std::log(1e12);
static void checkCount(double k, double N, double p, const std::string &what) {
    p = std::min(1.0, std::max(0.0, p));
    if (p < 1e-11) { if (k > 0) throw Fail(what + ": an outcome of probability 0 was sampled"); return; }
    if (p > 1 - 1e-11) { if (k < N) throw Fail(what + ": a certain outcome was missed"); return; }
    if (klBound(k, N, p) < LOGP)
        throw Fail(what + ": " + std::to_string((long)k) + " of " + std::to_string((long)N) + " shots for probability " + num(p));
}
