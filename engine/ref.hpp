// Independent reference model: dense linear algebra on std::complex<double>.
// Nothing in this file uses the library under test.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

using cd = std::complex<double>;
using Vec = std::vector<cd>;
static const double kPi = std::acos(-1.0);
// Not a failure: the program itself is malformed (only the shrinker writes such programs).
struct Invalid : std::runtime_error { using std::runtime_error::runtime_error; };

// ---------------------------------------------------------------- randomness
struct Rng {  // xoshiro256** seeded by splitmix64, or a byte string (fuzzing)
    uint64_t s[4];
    const uint8_t *data = nullptr;
    size_t left = 0;
    bool fuzz = false;
    explicit Rng(uint64_t seed) {
        for (auto &x : s) {
            seed += 0x9e3779b97f4a7c15ULL;
            uint64_t z = seed;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            x = z ^ (z >> 31);
        }
    }
    Rng(const uint8_t *d, size_t n) : data(d), left(n), fuzz(true) {}
    uint64_t next() {
        if (fuzz) {
            uint64_t r = 0;
            for (int i = 0; i < 8; i++) r = (r << 8) | byte();
            return r;
        }
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
    uint8_t byte() {
        if (!left) return 0;
        left--;
        return *data++;
    }
    bool exhausted() const { return fuzz && left == 0; }
    int below(int n) {  // [0,n)
        if (n <= 1) return 0;
        if (fuzz) return n <= 256 ? byte() % n : ((byte() << 8) | byte()) % n;
        return (int)(next() % (uint64_t)n);
    }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    double unit() {
        if (fuzz) return ((byte() << 8) | byte()) / 65536.0;
        return (next() >> 11) * 0x1.0p-53;
    }
    double gauss() {
        double u = unit(), v = unit();
        return std::sqrt(-2 * std::log(1 - u)) * std::cos(2 * kPi * v);
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
    std::vector<int> distinct(int n, int k) {  // k distinct values of [0,n)
        std::vector<int> a(n);
        for (int i = 0; i < n; i++) a[i] = i;
        for (int i = 0; i < k; i++) std::swap(a[i], a[i + below(n - i)]);
        a.resize(k);
        return a;
    }
};

// ---------------------------------------------------------------- gates
// fam: 'N' named constant 1q; 'P' parametric 1q; 'A' arbitrary 1q;
//      'W' named/parametric 2q; 'B' arbitrary 2q; 'L' arbitrary on k targets;
//      'H' library helper that returns a DD directly
struct Gate {
    char fam = 'N';
    std::string name;
    std::vector<double> par;
    std::vector<int> tgt;                      // see mat() for the order
    std::vector<std::pair<int, bool>> ctl;     // (qubit, positive?)
    Vec arb;                                   // row-major, for A, B, L
    int maxq() const {
        int m = 0;
        for (int t : tgt) m = std::max(m, t);
        for (auto &c : ctl) m = std::max(m, c.first);
        return m;
    }
};

inline Vec mat2(cd a, cd b, cd c, cd d) { return {a, b, c, d}; }
static const cd I_(0, 1);

// Textbook matrices, written from the definitions.
inline Vec refNamed1(const std::string &n) {
    const double h = 1 / std::sqrt(2.0);
    if (n == "I") return mat2(1, 0, 0, 1);
    if (n == "H") return mat2(h, h, h, -h);
    if (n == "X") return mat2(0, 1, 1, 0);
    if (n == "Y") return mat2(0, -I_, I_, 0);
    if (n == "Z") return mat2(1, 0, 0, -1);
    if (n == "S") return mat2(1, 0, 0, I_);
    if (n == "Sdag") return mat2(1, 0, 0, -I_);
    if (n == "T") return mat2(1, 0, 0, std::polar(1.0, kPi / 4));
    if (n == "Tdag") return mat2(1, 0, 0, std::polar(1.0, -kPi / 4));
    if (n == "SX") return mat2(0.5 * (1.0 + I_), 0.5 * (1.0 - I_), 0.5 * (1.0 - I_), 0.5 * (1.0 + I_));
    if (n == "SXdag") return mat2(0.5 * (1.0 - I_), 0.5 * (1.0 + I_), 0.5 * (1.0 + I_), 0.5 * (1.0 - I_));
    if (n == "V") return mat2(h, -I_ * h, -I_ * h, h);
    if (n == "Vdag") return mat2(h, I_ * h, I_ * h, h);
    throw Invalid("refNamed1 " + n);
}
inline Vec refU(double t, double p, double l, double g) {
    return mat2(std::polar(1.0, g) * std::cos(t / 2), -std::polar(1.0, g + l) * std::sin(t / 2),
                std::polar(1.0, g + p) * std::sin(t / 2), std::polar(1.0, g + p + l) * std::cos(t / 2));
}
inline Vec refRot(const Vec &pauli, double a) {  // exp(-i a/2 P) = cos I - i sin P
    size_t d = (size_t)std::llround(std::sqrt((double)pauli.size()));
    Vec r(pauli.size());
    for (size_t i = 0; i < d; i++)
        for (size_t j = 0; j < d; j++)
            r[i * d + j] = (i == j ? std::cos(a / 2) : 0.0) - I_ * std::sin(a / 2) * pauli[i * d + j];
    return r;
}
inline Vec refParam1(const std::string &n, const std::vector<double> &p) {
    if (n == "rx") return refRot(refNamed1("X"), p[0]);
    if (n == "ry") return refRot(refNamed1("Y"), p[0]);
    if (n == "rz") return refRot(refNamed1("Z"), p[0]);
    if (n == "p" || n == "u1") return mat2(1, 0, 0, std::polar(1.0, p[0]));
    if (n == "u2") return refU(kPi / 2, p[0], p[1], 0);
    if (n == "u3") return refU(p[0], p[1], p[2], 0);
    if (n == "u") return refU(p[0], p[1], p[2], p[3]);
    if (n == "r")  // rotation about cos(phi) X + sin(phi) Y
        return refRot(mat2(0, std::polar(1.0, -p[1]), std::polar(1.0, p[1]), 0), p[0]);
    throw Invalid("refParam1 " + n);
}
inline Vec kronRef(const Vec &a, size_t da, const Vec &b, size_t db) {  // a is more significant
    size_t d = da * db;
    Vec r(d * d);
    for (size_t i = 0; i < d; i++)
        for (size_t j = 0; j < d; j++) r[i * d + j] = a[(i / db) * da + j / db] * b[(i % db) * db + j % db];
    return r;
}
// basis |b(target0) b(target1)>: target0 is the more significant index bit
inline Vec ref2q(const std::string &n, const std::vector<double> &p) {
    auto X = refNamed1("X"), Y = refNamed1("Y"), Z = refNamed1("Z");
    if (n == "rxx") return refRot(kronRef(X, 2, X, 2), p[0]);
    if (n == "ryy") return refRot(kronRef(Y, 2, Y, 2), p[0]);
    if (n == "rzz") return refRot(kronRef(Z, 2, Z, 2), p[0]);
    if (n == "rzx") return refRot(kronRef(X, 2, Z, 2), p[0]);
    if (n == "swap") return {1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1};
    if (n == "iswap") return {1, 0, 0, 0, 0, 0, I_, 0, 0, I_, 0, 0, 0, 0, 0, 1};
    throw Invalid("ref2q " + n);
}

// matrix and its qubits, least significant index bit first
inline void refGate(const Gate &g, Vec &m, std::vector<int> &q, std::vector<std::pair<int, bool>> &ctl) {
    ctl = g.ctl;
    switch (g.fam) {
        case 'N': m = refNamed1(g.name); q = g.tgt; return;
        case 'P': m = refParam1(g.name, g.par); q = g.tgt; return;
        case 'A': m = g.arb; q = g.tgt; return;
        case 'W': m = ref2q(g.name, g.par); q = {g.tgt[1], g.tgt[0]}; return;
        case 'B': m = g.arb; q = {g.tgt[1], g.tgt[0]}; return;
        case 'L': m = g.arb; q = g.tgt; return;
        case 'H': {
            const std::string &n = g.name;
            if (n == "RX" || n == "RY" || n == "RZ") {
                std::string l = n; for (auto &c : l) c = (char)tolower(c);
                m = refParam1(l, g.par); q = g.tgt;
            } else if (n == "CX") {
                m = refNamed1("X"); q = {g.tgt[0]}; ctl = {{g.tgt[1], true}};
            } else if (n == "CSWAP") {
                m = ref2q("swap", {}); q = {g.tgt[1], g.tgt[0]}; ctl = {{g.tgt[2], true}};
            } else {
                std::string l = n == "makeSwap" ? "swap" : n; for (auto &c : l) c = (char)tolower(c);
                m = ref2q(l, g.par); q = {g.tgt[1], g.tgt[0]};
            }
            return;
        }
    }
    throw Invalid("refGate");
}

inline void applyRef(Vec &v, const Vec &m, const std::vector<int> &q, const std::vector<std::pair<int, bool>> &ctl) {
    size_t k = q.size(), K = (size_t)1 << k;
    size_t tmask = 0, cmask = 0, cval = 0;
    for (int t : q) tmask |= (size_t)1 << t;
    for (auto &c : ctl) { cmask |= (size_t)1 << c.first; if (c.second) cval |= (size_t)1 << c.first; }
    std::vector<size_t> off(K);
    for (size_t i = 0; i < K; i++) {
        off[i] = 0;
        for (size_t b = 0; b < k; b++) if (i >> b & 1) off[i] |= (size_t)1 << q[b];
    }
    Vec tmp(K);
    for (size_t base = 0; base < v.size(); base++) {
        if ((base & tmask) || (base & cmask) != cval) continue;
        for (size_t i = 0; i < K; i++) {
            cd a = 0;
            for (size_t j = 0; j < K; j++) a += m[i * K + j] * v[base | off[j]];
            tmp[i] = a;
        }
        for (size_t i = 0; i < K; i++) v[base | off[i]] = tmp[i];
    }
}
inline void applyRef(Vec &v, const Gate &g) {
    Vec m; std::vector<int> q; std::vector<std::pair<int, bool>> c;
    refGate(g, m, q, c);
    applyRef(v, m, q, c);
}
inline Vec denseGate(int n, const Gate &g) {  // row-major 2^n x 2^n
    size_t d = (size_t)1 << n;
    Vec r(d * d);
    Vec m; std::vector<int> q; std::vector<std::pair<int, bool>> c;
    refGate(g, m, q, c);
    for (size_t j = 0; j < d; j++) {
        Vec col(d); col[j] = 1;
        applyRef(col, m, q, c);
        for (size_t i = 0; i < d; i++) r[i * d + j] = col[i];
    }
    return r;
}
inline Vec mulMM(const Vec &a, const Vec &b, size_t d) {
    Vec r(d * d);
    for (size_t i = 0; i < d; i++)
        for (size_t k = 0; k < d; k++) {
            cd x = a[i * d + k];
            if (x == cd(0)) continue;
            for (size_t j = 0; j < d; j++) r[i * d + j] += x * b[k * d + j];
        }
    return r;
}
inline Vec mulMV(const Vec &a, const Vec &v) {
    size_t d = v.size();
    Vec r(d);
    for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) r[i] += a[i * d + j] * v[j];
    return r;
}
inline double norm2v(const Vec &v) { double s = 0; for (auto &x : v) s += std::norm(x); return s; }
inline double maxabs(const Vec &v) { double s = 0; for (auto &x : v) s = std::max(s, std::abs(x)); return s; }

// number of nodes of the canonical vector DD: distinct non-zero sub-vectors up to a scalar, per level
inline int canonicalNodes(const Vec &v, int n) {
    int total = 0;
    for (int lev = 1; lev <= n; lev++) {
        size_t w = (size_t)1 << lev;
        std::vector<Vec> reps;
        std::multimap<long long, int> idx;
        for (size_t o = 0; o < v.size(); o += w) {
            double mx = 0;
            for (size_t i = 0; i < w; i++) mx = std::max(mx, std::abs(v[o + i]));
            if (mx < 1e-9) continue;
            size_t p = 0;
            while (std::abs(v[o + p]) < mx * (1 - 1e-6)) p++;
            Vec x(w);
            double hsh = 0;
            for (size_t i = 0; i < w; i++) { x[i] = v[o + i] / v[o + p]; hsh += (double)((i * 7919) % 101 + 1) * std::abs(x[i]); }
            long long key = std::llround(hsh * 1e3);
            bool found = false;
            for (long long kk = key - 1; kk <= key + 1 && !found; kk++) {
                auto r = idx.equal_range(kk);
                for (auto it = r.first; it != r.second && !found; ++it) {
                    double e = 0;
                    for (size_t i = 0; i < w; i++) e = std::max(e, std::abs(x[i] - reps[it->second][i]));
                    found = e < 1e-7;
                }
            }
            if (!found) { idx.emplace(key, (int)reps.size()); reps.push_back(x); }
        }
        total += (int)reps.size();
    }
    return total;
}

// ---------------------------------------------------------------- text form
inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string gateText(const Gate &g) {
    std::ostringstream o;
    o << g.fam << " " << (g.name.empty() ? "-" : g.name) << " " << g.par.size();
    for (double p : g.par) o << " " << num(p);
    o << " " << g.tgt.size();
    for (int t : g.tgt) o << " " << t;
    o << " " << g.ctl.size();
    for (auto &c : g.ctl) o << " " << c.first << " " << (c.second ? 1 : 0);
    o << " " << g.arb.size();
    for (auto &x : g.arb) o << " " << num(x.real()) << " " << num(x.imag());
    return o.str();
}
inline Gate parseGate(std::istream &in) {
    Gate g; size_t k;
    in >> g.fam >> g.name; if (g.name == "-") g.name.clear();
    std::string t;
    in >> k; g.par.resize(k); for (auto &p : g.par) { in >> t; p = strtod(t.c_str(), nullptr); }
    in >> k; g.tgt.resize(k); for (auto &x : g.tgt) in >> x;
    in >> k; g.ctl.resize(k); for (auto &c : g.ctl) { int b; in >> c.first >> b; c.second = b; }
    in >> k; g.arb.resize(k);
    for (auto &x : g.arb) { std::string a, b; in >> a >> b; x = cd(strtod(a.c_str(), nullptr), strtod(b.c_str(), nullptr)); }
    return g;
}
