// Registers of up to 100 qubits: the reference is either a sparse map of basis states or a product state.
#pragma once
struct Wide {
    using Key = unsigned __int128;
    int n = 0;
    bool product = false;
    std::map<Key, cd> ref;
    std::vector<std::array<cd, 2>> prod;
    vEdge v;
    mEdge acc;
    std::vector<Gate> pending;

    static cd amp(const vEdge &e, int n, Key k) {  // walk the public diagram
        cd a(e.w.r, e.w.i);
        const vNode *p = e.n;
        for (int lev = n - 1; lev >= 0; lev--) {
            if (a == cd(0)) return 0;
            if (p == vNode::terminal || p->v != lev) throw Fail("diagram skips level " + std::to_string(lev) + " of a state");
            const vEdge &c = p->children[(size_t)(k >> lev & 1)];
            a *= cd(c.w.r, c.w.i);
            p = c.n;
        }
        return a;
    }
    static double norm2d(const vEdge &e) {
        std::map<const vNode *, double> memo;
        std::function<double(const vNode *)> f = [&](const vNode *p) -> double {
            if (p == vNode::terminal) return 1;
            auto it = memo.find(p);
            if (it != memo.end()) return it->second;
            double s = 0;
            for (auto &c : p->children) if (!(c.w.r == 0 && c.w.i == 0)) s += (c.w.r * c.w.r + c.w.i * c.w.i) * f(c.n);
            return memo[p] = s;
        };
        return (e.w.r * e.w.r + e.w.i * e.w.i) * f(e.n);
    }
    void applyRefW(const Gate &g) {
        Vec m; std::vector<int> q; std::vector<std::pair<int, bool>> c;
        refGate(g, m, q, c);
        if (product) {
            if (q.size() != 1 || !c.empty()) throw Invalid("product states take one-qubit gates");
            auto &s = prod[q[0]];
            s = {m[0] * s[0] + m[1] * s[1], m[2] * s[0] + m[3] * s[1]};
            return;
        }
        size_t K = (size_t)1 << q.size();
        std::map<Key, cd> o;
        for (auto &kv : ref) {
            bool on = true;
            for (auto &x : c) on = on && ((int)(kv.first >> x.first & 1) == (x.second ? 1 : 0));
            if (!on) { o[kv.first] += kv.second; continue; }
            size_t col = 0; Key base = kv.first;
            for (size_t b = 0; b < q.size(); b++) { if (kv.first >> q[b] & 1) col |= (size_t)1 << b; base &= ~((Key)1 << q[b]); }
            for (size_t row = 0; row < K; row++) {
                cd x = m[row * K + col];
                if (x == cd(0)) continue;
                Key t = base;
                for (size_t b = 0; b < q.size(); b++) if (row >> b & 1) t |= (Key)1 << q[b];
                o[t] += x * kv.second;
            }
        }
        ref.clear();
        for (auto &kv : o) if (std::abs(kv.second) > 1e-14) ref.insert(kv);
    }
    double p1(int q) const {
        if (product) return std::norm(prod[q][1]);
        double s = 0;
        for (auto &kv : ref) if (kv.first >> q & 1) s += std::norm(kv.second);
        return s;
    }
    void check(const std::string &w, Rng *r = nullptr) {
        C.checks++;
        double nn = norm2d(v);
        if (!(std::abs(nn - 1) < 1e-8)) throw Fail(w + ": squared norm " + num(nn));
        if (product) {
            for (int t = 0; r && t < 40; t++) {
                Key k = 0; cd a = 1; double lim = 1;
                for (int q = 0; q < n; q++) {  // sample outcomes by their probability, so amplitudes do not vanish
                    int b = r->unit() < std::norm(prod[q][1]);
                    if (b) k |= (Key)1 << q;
                    a *= prod[q][b]; lim *= std::abs(prod[q][b]);
                }
                if (lim < 1e-13) continue;  // weights below the library's documented resolution
                cd g = amp(v, n, k);
                if (!(std::abs(g - a) <= 1e-9 * lim + 1e-14)) { std::ostringstream o; o << w << ": amplitude " << g << " instead of " << a; throw Fail(o.str()); }
            }
        } else
            for (auto &kv : ref) {
                cd g = amp(v, n, kv.first);
                if (!(std::abs(g - kv.second) <= TOL)) { std::ostringstream o; o << w << ": amplitude " << g << " instead of " << kv.second; throw Fail(o.str()); }
            }
        int nodes = get_nNodes(v), lim = product ? n : n * (int)std::max<size_t>(1, ref.size());
        C.maxnodes = std::max<long>(C.maxnodes, nodes);
        if (nodes > lim) throw Fail(w + ": " + std::to_string(nodes) + " nodes, more than " + std::to_string(lim));
    }
    void exec(const std::string &op, std::istringstream &in) {
        if (op == "wn") {
            int p; in >> n >> p; product = p; ref.clear(); prod.clear(); pending.clear();
            C.maxn = std::max<long>(C.maxn, n);
            v = makeZeroState(n); ref[0] = 1;
            prod.assign(n, {cd(1), cd(0)});
        } else if (n == 0) throw Invalid("no register");
        else if (op == "wz" || op == "wo") {
            bool one = op == "wo";
            v = one ? makeOneState(n) : makeZeroState(n);
            ref.clear();
            ref[one ? (((Key)1 << n) - 1) : 0] = 1;
            check(one ? "makeOneState" : "makeZeroState");
        } else if (op == "wg") {
            Gate g = parseGate(in);
            if (g.maxq() >= n) throw Invalid("qubit");
            v = mv_multiply(libGate(n, g), v);
            applyRefW(g);
            if (ref.size() > 4096) throw Invalid("support");
            if (ref.size() <= 64) check("apply " + g.name);
        } else if (op == "wm0" || op == "wm*") {
            Gate g = parseGate(in);
            if (g.maxq() >= n) throw Invalid("qubit");
            if (op == "wm0") { pending.clear(); acc = libGate(n, g); }
            else { if (pending.empty()) throw Invalid("no product"); acc = mm_multiply(libGate(n, g), acc); }
            pending.push_back(g);
        } else if (op == "wma") {
            if (pending.empty()) throw Invalid("no product");
            v = mv_multiply(acc, v);
            for (auto &g : pending) applyRefW(g);
            pending.clear();
            check("apply a product of gates");
        } else if (op == "wck") {
            uint64_t s; in >> s; Rng r(s); check("state", &r);
        } else if (op == "wm") {
            int q; in >> q; std::mt19937_64 mt(1); C.meas++;
            double g = measureOne(v, q, mt), want = 1 - p1(q);
            if (!(std::abs(g - want) <= 1e-8)) throw Fail("measureOne of qubit " + std::to_string(q) + ": " + num(g) + " instead of " + num(want));
            C.checks++;
        } else if (op == "wmc") {
            int q; uint64_t s; in >> q >> s; std::mt19937_64 mt(s); C.meas++;
            if (product) throw Invalid("sparse only");
            char o = measureOneCollapsing(v, q, mt);
            double p = o == '1' ? p1(q) : 1 - p1(q);
            if (p < 1e-11) throw Fail("measureOneCollapsing returned an outcome of probability 0");
            for (auto it = ref.begin(); it != ref.end();) {
                if ((int)(it->first >> q & 1) != o - '0') it = ref.erase(it);
                else { it->second /= std::sqrt(p); ++it; }
            }
            check("state after measureOneCollapsing");
        } else if (op == "wmas") {
            int shots; uint64_t s; in >> shots >> s; std::mt19937_64 mt(s); C.meas++; C.shots += shots;
            std::vector<long> one(n);
            std::map<Key, long> cnt;
            for (int i = 0; i < shots; i++) {
                std::string o = measureAll(v, false, mt);
                if ((int)o.size() != n) throw Fail("measureAll: outcome of length " + std::to_string(o.size()));
                Key k = 0;
                for (int q = 0; q < n; q++) if (o[n - 1 - q] == '1') { k |= (Key)1 << q; one[q]++; }
                if (!product && !ref.count(k)) throw Fail("measureAll returned an outcome of probability 0");
                cnt[k]++;
            }
            for (int q = 0; q < n; q++) checkCount(one[q], shots, p1(q), "measureAll qubit " + std::to_string(q));
            if (!product) for (auto &kv : ref) { auto it = cnt.find(kv.first); checkCount(it == cnt.end() ? 0 : it->second, shots, std::norm(kv.second), "measureAll outcome"); }
            C.checks++;
        } else throw Invalid("unknown op " + op);
    }
};
