// The distributed simulation against the dense reference: every rank runs the same generated program.
//   mpi run SEED SECONDS MAXCASES REPORT      REPORT gets the rank appended
//   mpi gen SEED COUNT WORLD
//   mpi play FILE REPORT
#include <boost/mpi.hpp>
#include <boost/mpi/collectives.hpp>
#include <boost/serialization/complex.hpp>
#include <boost/serialization/string.hpp>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <unordered_set>

#include "lib.hpp"
#include "gen.hpp"

struct M {
    bmpi::communicator &world;
    int n = 0, g = 0, loc = 0;
    vEdge v;
    Vec ref;
    explicit M(bmpi::communicator &w) : world(w) { while ((1 << g) < w.size()) g++; }

    Vec local(const vEdge &e, int q) {
        Vec r((size_t)1 << q);
        if (e.isTerminal()) {
            if (!(e.w.r == 0 && e.w.i == 0)) throw Fail("a rank holds a non-zero scalar");
            return r;
        }
        return libVector(e, q);
    }
    Vec gather(const vEdge &e) {
        Vec mine; std::string err;
        try { mine = local(e, loc); } catch (const Fail &f) { err = f.what(); mine.assign((size_t)1 << loc, NAN); }
        std::vector<Vec> all;
        bmpi::all_gather(world, mine, all);
        Vec r;
        for (auto &x : all) r.insert(r.end(), x.begin(), x.end());
        if (!err.empty()) throw Fail(err);
        return r;
    }
    void ck(const std::string &w) { compare(gather(v), ref, 1, w); }
    int same(int x, const std::string &w) {
        int hi = bmpi::all_reduce(world, x, bmpi::maximum<int>()), lo = bmpi::all_reduce(world, x, bmpi::minimum<int>());
        if (hi != lo) throw Fail(w + ": ranks disagree");
        return x;
    }
    void exec(const std::string &line) {
        std::istringstream in(line); std::string op; in >> op;
        C.ops++;
        size_t D = (size_t)1 << n;
        auto geti = [&]() { long x = 0; in >> x; return (int)x; };
        if (op == "n") {
            n = geti(); loc = n - g;
            if (loc < 1) throw Invalid("register smaller than the ranks need");
            v = makeZeroStateMPI(n, world); ref.assign((size_t)1 << n, 0); ref[0] = 1;
            C.maxn = std::max<long>(C.maxn, n);
            ck("makeZeroStateMPI");
            return;
        }
        if (n == 0) throw Invalid("no register");
        if (op == "one") { v = makeOneStateMPI(n, world); ref.assign(D, 0); ref[D - 1] = 1; ck("makeOneStateMPI"); }
        else if (op == "ap") {  // bcast?, slack on largest_qubit, gate
            int b = geti(), slack = geti(); Gate gt = parseGate(in);
            if (gt.maxq() >= n) throw Invalid("qubit");
            mEdge e = libGate(n, gt);
            std::size_t lq = std::min(n - 1, gt.maxq() + slack);
            v = b ? mv_multiply_MPI_bcast3(e, v, world, n, lq) : mv_multiply_MPI(e, v, world, n, lq);
            applyRef(ref, gt);
            ck(b ? "mv_multiply_MPI_bcast3" : "mv_multiply_MPI");
        } else if (op == "ap2") {  // product of two gates
            int b = geti(); Gate a = parseGate(in), c = parseGate(in);
            if (std::max(a.maxq(), c.maxq()) >= n) throw Invalid("qubit");
            mEdge e = mm_multiply(libGate(n, c), libGate(n, a));
            std::size_t lq = std::max(a.maxq(), c.maxq());
            v = b ? mv_multiply_MPI_bcast3(e, v, world, n, lq) : mv_multiply_MPI(e, v, world, n, lq);
            applyRef(ref, a); applyRef(ref, c);
            ck("apply a product of gates");
        } else if (op == "pr") {
            auto p = probabilitiesMPI(world, v); C.meas++;
            if (p.size() != D) throw Fail("probabilitiesMPI: size " + std::to_string(p.size()));
            double N = norm2v(ref);
            for (size_t i = 0; i < D; i++) if (!(std::abs(p[i] - std::norm(ref[i]) / N) <= 1e-8)) throw Fail("probabilitiesMPI: entry " + std::to_string(i) + " is " + num(p[i]) + " instead of " + num(std::norm(ref[i]) / N));
            C.checks++;
        } else if (op == "m1") {
            int q = geti(); std::mt19937_64 mt(world.rank() + 1); C.meas++;
            double N = norm2v(ref), p0 = 0;
            for (size_t i = 0; i < D; i++) if (!(i >> q & 1)) p0 += std::norm(ref[i]);
            double got = measureOneMPI(world, v, q, n, mt);
            if (!(std::abs(got - p0 / N) <= 1e-8)) throw Fail("measureOneMPI of qubit " + std::to_string(q) + ": " + num(got) + " instead of " + num(p0 / N));
            ck("measureOneMPI changed the state");
        } else if (op == "mc") {
            int q = geti(); uint64_t s; in >> s; std::mt19937_64 mt(s + world.rank()); C.meas++;
            char o = measureOneCollapsingMPI(world, v, q, n, mt);
            same(o, "measureOneCollapsingMPI");
            double p = 0;
            for (size_t i = 0; i < D; i++) if ((int)(i >> q & 1) == o - '0') p += std::norm(ref[i]); else ref[i] = 0;
            if (p < 1e-11) throw Fail("measureOneCollapsingMPI returned an outcome of probability 0");
            for (auto &x : ref) x /= std::sqrt(p);
            ck("state after measureOneCollapsingMPI");
        } else if (op == "mcs") {
            int q = geti(), shots = geti(); uint64_t s; in >> s; std::mt19937_64 mt(s + world.rank()); C.meas++; C.shots += shots;
            double p1 = 0; long k = 0;
            for (size_t i = 0; i < D; i++) if (i >> q & 1) p1 += std::norm(ref[i]);
            for (int i = 0; i < shots; i++) {
                vEdge e = v;
                char o = measureOneCollapsingMPI(world, e, q, n, mt, i % 2 == 0);
                same(o, "measureOneCollapsingMPI");
                k += o == '1';
            }
            checkCount(k, shots, p1, "measureOneCollapsingMPI");
            ck("measuring a copy changed the state");
        } else if (op == "mas") {
            int shots = geti(); uint64_t s; in >> s; std::mt19937_64 mt(s + world.rank()); C.meas++; C.shots += shots;
            std::vector<long> cnt(D);
            for (int i = 0; i < shots; i++) {
                std::string o = measureAllMPI(world, v, false, mt);
                if ((int)o.size() != n) throw Fail("measureAllMPI: outcome " + o);
                size_t x = 0;
                for (char ch : o) x = x << 1 | (ch == '1');
                same((int)x, "measureAllMPI");
                cnt[x]++;
            }
            for (size_t i = 0; i < D; i++) checkCount(cnt[i], shots, std::norm(ref[i]), "measureAllMPI outcome " + std::to_string(i));
            for (int q = 0; q < n; q++) {
                double p = 0; long k = 0;
                for (size_t i = 0; i < D; i++) if (i >> q & 1) { p += std::norm(ref[i]); k += cnt[i]; }
                checkCount(k, shots, p, "measureAllMPI qubit " + std::to_string(q));
            }
            ck("measureAllMPI changed the state");
        } else if (op == "gc") {
            C.gcs++;
            v = gc(v, true);
            ck("state after gc on every rank");
        } else if (op == "gc1") {  // only one rank collects
            C.gcs++;
            if (world.rank() == geti() % world.size()) v = gc(v, true);
            ck("state after gc on one rank");
        } else if (op == "snd") {  // hand the diagrams around the ring
            int d = 1 + geti() % std::max(1, world.size() - 1);
            if (world.size() == 1) return;
            int to = (world.rank() + d) % world.size(), from = (world.rank() - d + world.size()) % world.size();
            vEdge r;
            for (int src = 0; src < world.size(); src++) {
                if (world.rank() == src) send_dd(world, v, to);
                if (from == src) r = receive_dd(world, from);
            }
            Vec got = local(r, loc), want(ref.begin() + ((size_t)from << loc), ref.begin() + ((size_t)(from + 1) << loc));
            compare(got, want, 1, "received diagram");
            ck("sending changed the state");
        } else throw Invalid("unknown op " + op);
    }
};

static Program genMpi(Rng &r, int world) {
    int g = 0; while ((1 << g) < world) g++;
    Program p;
    int n = g + r.range(1, r.chance(1, 6) ? 6 : 4);
    p.add(cat("n", n));
    if (r.chance(1, 4)) p.add("one");
    int ops = r.range(4, 18), glob = 0;
    if (r.chance(1, 2)) for (int q = 0; q < n; q++) if (r.chance(2, 3)) p.add(cat("ap", r.below(2), 0) + " " + gateText(named("H", q)));
    for (int i = 0; i < ops; i++) {
        long long seed = (long long)(r.next() >> 20);
        switch (r.below(16)) {
            case 0: p.add("pr"); break;
            case 1: p.add(cat("m1", r.below(n))); break;
            case 2: p.add(cat("mc", r.below(n), seed)); break;
            case 3: if (r.chance(1, 3)) p.add(cat("mcs", r.below(n), 30, seed)); break;
            case 4: if (r.chance(1, 3)) p.add(cat("mas", 60, seed)); break;
            case 5: p.add(r.chance(1, 2) ? std::string("gc") : cat("gc1", r.below(8))); break;
            case 6: p.add(cat("snd", r.below(7))); break;
            case 7: p.add("ap2 " + cat(r.below(2)) + " " + gateText(genGate(r, n, true, 99, 3)) + " " + gateText(genGate(r, n, true, 99, 3))); glob++; break;
            default: { Gate gt = genGate(r, n, true, 99, 3); if (gt.maxq() >= n - g) glob++; p.add("ap " + cat(r.below(2), r.chance(1, 5) ? r.below(3) : 0) + " " + gateText(gt)); }
        }
    }
    p.add("pr");
    p.nontrivial = glob >= 2;
    return p;
}
static std::string jsonStr(const std::string &s) {
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; }
    return o + "\"";
}
int main(int argc, char **argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "gen") {
        uint64_t seed = strtoull(argv[2], 0, 10);
        for (long k = 0; k < atol(argv[3]); k++) {
            Rng r(seed * 1000003ULL + (uint64_t)k);
            printf("case %ld\n", k);
            for (auto &l : genMpi(r, atoi(argv[4])).lines) printf("%s\n", l.c_str());
        }
        return 0;
    }
    bmpi::environment env(argc, argv);
    bmpi::communicator world;
    std::string rp = std::string(mode == "run" ? argv[5] : argv[3]) + "." + std::to_string(world.rank());
    FILE *rep = fopen(rp.c_str(), "w");
    if (!rep) return 2;
    setvbuf(rep, nullptr, _IONBF, 0);
    if (!freopen("/dev/null", "w", stdout)) return 2;
    auto runOne = [&](long k, const std::vector<std::string> &lines) {
        M m(world);
        std::string cur;
        auto stop = [&](const char *tag, const char *what, int rc) {
            fprintf(rep, "%s %ld %s\nAT %s\n", tag, k, what, cur.substr(0, 300).c_str());
            fclose(rep);
            MPI_Abort(MPI_COMM_WORLD, rc);
        };
        try { for (auto &l : lines) { cur = l; m.exec(l); } }
        catch (const Fail &e) { stop("FAIL", e.what(), 1); }
        catch (const Invalid &e) { stop("INVALID", e.what(), 3); }
        catch (const std::exception &e) { stop("FAIL", e.what(), 1); }
    };
    if (mode == "play") {
        std::ifstream f(argv[2]);
        std::string l; std::vector<std::string> cur; long k = -1;
        while (std::getline(f, l)) {
            if (l.empty() || l[0] == '#') continue;
            if (l.rfind("case", 0) == 0) { if (k >= 0) runOne(k, cur); k = atol(l.c_str() + 5); cur.clear(); fprintf(rep, "case %ld\n", k); continue; }
            cur.push_back(l);
        }
        if (k >= 0 || !cur.empty()) runOne(k, cur);
        world.barrier();
        fprintf(rep, "OK\n");
        fclose(rep);
        MPI_Barrier(MPI_COMM_WORLD);
        return 0;
    }
    uint64_t seed = strtoull(argv[2], 0, 10);
    double secs = atof(argv[3]); long maxc = atol(argv[4]);
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_set<size_t> distinct; std::hash<std::string> H;
    std::string samples; int ns = 0;
    for (long k = 0; k < maxc; k++) {
        int go = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs;
        bmpi::broadcast(world, go, 0);
        if (!go) break;
        Rng r(seed * 1000003ULL + (uint64_t)k);
        Program p = genMpi(r, world.size());
        rewind(rep);
        fprintf(rep, "case %-12ld\n", k);
        C.cases++;
        std::string all;
        for (auto &l : p.lines) { all += l; all += '\n'; C.kinds[l.substr(0, l.find(' '))]++; }
        if (p.nontrivial && distinct.insert(H(all)).second) { C.nontrivial++; if (ns < 2 && all.size() < 1500) samples += (ns++ ? "," : "") + jsonStr(all); }
        runOne(k, p.lines);
    }
    world.barrier();
    rewind(rep);
    fprintf(rep, "OK {\"cases\":%ld,\"nontrivial\":%ld,\"ops\":%ld,\"checks\":%ld,\"gcs\":%ld,\"meas\":%ld,\"shots\":%ld,\"maxerr\":%.3g,\"maxn\":%ld,\"kinds\":{", C.cases, C.nontrivial, C.ops, C.checks, C.gcs, C.meas, C.shots, C.maxerr, C.maxn);
    bool first = true;
    for (auto &kv : C.kinds) { fprintf(rep, "%s\"%s\":%ld", first ? "" : ",", kv.first.c_str(), kv.second); first = false; }
    fprintf(rep, "},\"samples\":[%s]}\n", samples.c_str());
    fclose(rep);
    return 0;
}
