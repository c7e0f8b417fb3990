// C09: periodic chains
#include "lat.hpp"

#include <ieompp/lattices/periodic_chain.hpp>

using namespace lat;
using ieompp::lattices::PeriodicChain;

template <typename F, typename I>
struct Chain {
    using Lat            = PeriodicChain<F, I>;
    static const int dim = 1;
    bool real;
    std::vector<double> given;
    Lat& m;
    const Lat& l;
    std::vector<long> tiny = {0};
    double size(int) const { return static_cast<double>(l.size()); }
    double length(int) const { return l.x_length(); }
    double max(int) const { return l.x_max(); }
    double min(int) const { return l.x_min(); }
    double dx(int) const { return l.dx(); }
    double vec(int, int) const { return l.lattice_vectors()[0]; }
    std::vector<long> position(I i) const { return {static_cast<long>(i)}; }
    long number(const std::vector<long>& p) const { return p[0]; }
    double coord(I i, int) const { return l[i]; }
    long distance(I a, I b, int) const { return static_cast<long>(l.lattice_distance(a, b)); }
    F at0(const std::vector<long>& u) const { return l.x_min() + (static_cast<F>(u[0]) / F(8) + static_cast<F>(tiny[0]) * static_cast<F>(Run<Chain>::little())) * l.dx(); }
    long long at(const std::vector<long>& u) const { return static_cast<long long>(l(at0(u))); }
    long long closest(const std::vector<long>& u) const { return static_cast<long long>(l.closest(at0(u))); }
};

template <typename F, typename I>
void run(long n, bool real, F dx, bool all, unsigned long salt, double unit = 1.)
{
    dx = static_cast<F>(dx * unit);
    PeriodicChain<F, I> c = real ? PeriodicChain<F, I>(static_cast<I>(n), dx) : PeriodicChain<F, I>(static_cast<I>(n));
    Chain<F, I> a{real, {static_cast<double>(dx)}, c, c};
    Run<Chain<F, I>> r{a, {n}};
    r.unit = {unit};
    rec::Rng g(salt);
    r.create();
    r.coords();
    r.iterate();
    auto site = [&] { return g.in(0, n - 1); };
    // beside the points half way between two sites
    for(long k = 0; k < (all ? 30 : 12); ++k) r.lookup({8 * g.in(-2 * n, 3 * n) + 4}, {g.flip() ? 1l : -1l});
    for(long k : {-4l, 4l, 8 * n - 4, 8 * n - 12}) {
        r.lookup({k}, {1});
        r.lookup({k}, {-1});
    }
    if(all) {
        for(long i = 0; i < n; ++i) {
            r.neighbors(i);
            for(long j = 0; j < n; ++j) r.pair(i, j);
        }
        for(long u = -4; u <= 8 * n + 8; ++u) r.lookup({u});
        for(int k = 0; k < 30; ++k) r.lookup({g.in(-3 * 8 * n, 4 * 8 * n)});
        for(int k = 0; k < 6; ++k) r.lookup({8 * g.in(-40 * n, 40 * n) + g.in(-3, 3)});
    } else {
        for(long i : {0l, 1l, n - 2, n - 1, site(), site()}) r.neighbors(i);
        for(int k = 0; k < 60; ++k) {
            const long i = k % 3 ? site() : (k % 2 ? 0 : n - 1);
            r.pair(i, site());
            r.pair(i, (i + 1) % n);
            r.pair(i, (i + n - 1) % n);
            r.pair(i, (i + n / 2 + g.in(-1, 1) + n) % n);
            r.lookup({8 * site() + g.in(-3, 3)});
        }
        for(long u = -8; u < 8; ++u) {
            if(u % 8 != 4 && u % 8 != -4) {
                r.lookup({u});
                r.lookup({8 * n - 8 + u});
                r.lookup({8 * n + u});
            }
        }
    }
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    for(long n = 1; n <= (th ? 64 : 20); ++n) {
        const auto s = std::to_string(n);
        for(bool real : {true, false}) {
            const std::string k = real ? "r" : "k";
            rec::scenario(k + "d-" + s, [=] { run<double, uint64_t>(n, real, 1., true, 1); });
            FULL(rec::scenario(k + "f-" + s, [=] { run<float, uint64_t>(n, real, 0.5f, n <= 12, 2); });)
            FULL(rec::scenario(k + "i-" + s, [=] { run<double, int>(n, real, 0.7321, true, 3); });)
        }
    }
    // lattices in other units
    for(long n : {1l, 2l, 3l, 8l, 13l})
        for(int e : {-40, -20, -8, 8, 12, 24, 60}) {
            const auto s = std::to_string(n) + "e" + std::to_string(e);
            rec::scenario("U-" + s, [=] { run<double, uint64_t>(n, true, 1.3, true, 6, std::ldexp(1., e)); });
            FULL(rec::scenario("UF-" + s, [=] { run<float, int>(n, true, 1.25f, true, 7, std::ldexp(1., e)); });)
        }
    for(long n : {31l, 33l, 64l, 100l, 101l, 128l, 255l, 1000l, 1001l}) {
        for(bool real : {true, false}) {
            rec::scenario((real ? "R" : "K") + std::to_string(n), [=] { run<double, uint64_t>(n, real, 2.25, false, 4); });
            FULL(rec::scenario((real ? "RL" : "KL") + std::to_string(n), [=] { run<long double, unsigned>(n, real, 0.1l, false, 5); });)
        }
    }
    for(long n : {(1l << 33) + 5, 3 * (1l << 38) + 1, (1l << 32) + (1l << 31) - 1})
        for(unsigned long r = 0; r < (th ? 20u : 2u); ++r)
            rec::scenario("vast-" + std::to_string(n) + "-" + std::to_string(r), [=] {
                PeriodicChain<double, uint64_t> c(static_cast<uint64_t>(n), 1.);
                Chain<double, uint64_t> a{true, {1.}, c, c};
                Run<Chain<double, uint64_t>>{a, {n}}.vasts(80 + r, 40);
                PeriodicChain<double, int64_t> ci(n, .5);
                Chain<double, int64_t> ai{true, {.5}, ci, ci};
                Run<Chain<double, int64_t>>{ai, {n}}.vasts(180 + r, 20);
            });
    for(long n : {1l, 2l, 7l, 100l, 1001l})
        rec::scenario("precise-" + std::to_string(n), [=] {
            const double dx = 1. + std::ldexp(1., -30);
            PeriodicChain<double, uint64_t> c(static_cast<uint64_t>(n), dx);
            Chain<double, uint64_t> a{true, {dx}, c, c};
            Run<Chain<double, uint64_t>>{a, {n}}.precise();
            PeriodicChain<double, int> ci(static_cast<int>(n), dx);
            Chain<double, int> ai{true, {dx}, ci, ci};
            Run<Chain<double, int>>{ai, {n}}.precise();
        });
    return rec::run();
}
