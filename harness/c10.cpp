// C10: periodic square lattices (blaze::StaticVector comes from the stand-in)
#include "lat.hpp"

#include <ieompp/lattices/periodic_square_lattice.hpp>

using namespace lat;
using ieompp::lattices::PeriodicSquareLattice;

template <typename F, typename I>
struct Square {
    using Lat            = PeriodicSquareLattice<F, I>;
    using Vector         = typename Lat::Vector;
    static const int dim = 2;
    bool real;
    std::vector<double> given;
    Lat& m;
    const Lat& l;
    std::vector<long> tiny = {0, 0};
    F off(const std::vector<long>& u, std::size_t k) const { return static_cast<F>(u[k]) / F(8) + static_cast<F>(tiny[k]) * static_cast<F>(Run<Square>::little()); }
    double size(int k) const { return static_cast<double>(k ? l.size_y() : l.size_x()); }
    double length(int k) const { return k ? l.y_length() : l.x_length(); }
    double max(int k) const { return k ? l.y_max() : l.x_max(); }
    double min(int k) const { return k ? l.y_min() : l.x_min(); }
    double dx(int k) const { return k ? l.dy() : l.dx(); }
    double vec(int k, int j) const { return l.lattice_vectors()[static_cast<std::size_t>(k)][static_cast<std::size_t>(j)]; }
    std::vector<long> position(I i) const { return {static_cast<long>(l.x_index(i)), static_cast<long>(l.y_index(i))}; }
    long number(const std::vector<long>& p) const { return static_cast<long>(l.index(static_cast<I>(p[0]), static_cast<I>(p[1]))); }
    double coord(I i, int k) const { return l[i][static_cast<std::size_t>(k)]; }
    long distance(I a, I b, int k) const { return static_cast<long>(k ? l.lattice_distance_y(a, b) : l.lattice_distance_x(a, b)); }
    Vector at0(const std::vector<long>& u) const
    {
        return Vector{l.x_min() + off(u, 0) * l.dx(), l.y_min() + off(u, 1) * l.dy()};
    }
    long long at(const std::vector<long>& u) const { return static_cast<long long>(l(at0(u))); }
    long long closest(const std::vector<long>& u) const { return static_cast<long long>(l.closest(at0(u))); }
};

template <typename F, typename I>
void run(long nx, long ny, bool real, F dx, F dy, bool all, unsigned long salt, double ux = 1., double uy = 1.)
{
    dx = static_cast<F>(dx * ux);
    dy = static_cast<F>(dy * uy);
    using L = PeriodicSquareLattice<F, I>;
    L c     = real ? L(static_cast<I>(nx), static_cast<I>(ny), dx, dy) : L(static_cast<I>(nx), static_cast<I>(ny));
    Square<F, I> a{real, {static_cast<double>(dx), static_cast<double>(dy)}, c, c};
    Run<Square<F, I>> r{a, {nx, ny}};
    r.unit = {ux, uy};
    rec::Rng g(salt);
    r.create();
    r.coords();
    r.iterate();
    const long n = nx * ny;
    for(long i = 0; i < n; ++i) r.neighbors(i);
    if(all && n <= 36) {
        for(long i = 0; i < n; ++i)
            for(long j = 0; j < n; ++j) r.pair(i, j);
    } else {
        for(int k = 0; k < 150; ++k) {
            const long i = g.in(0, n - 1);
            r.pair(i, g.in(0, n - 1));
            const auto nb = c.neighbors(static_cast<I>(i));
            r.pair(i, static_cast<long>(nb[static_cast<std::size_t>(g.in(0, 3))]) % n);
        }
    }
    auto off = [&] { return g.in(-3, 3); };
    // beside the points half way between sites
    for(int k = 0; k < 40 && std::abs(std::log2(ux / uy)) < 5; ++k) {
        const long x = 8 * g.in(-1, nx) + (k % 3 ? 4 : off()), y = 8 * g.in(-1, ny) + (k % 3 != 1 ? 4 : off());
        r.lookup({x, y}, {g.flip() ? 1l : -1l, g.flip() ? 1l : -1l});
    }
    // all sites, then the rim, then anything in a few periods
    for(long x = 0; x < nx; ++x)
        for(long y = 0; y < ny; ++y) {
            r.lookup({8 * x, 8 * y});
            r.lookup({8 * x + off(), 8 * y + off()});
        }
    for(int k = 0; k < 60; ++k) {
        r.lookup({8 * (k % 2 ? nx : 0) + off(), 8 * g.in(-1, ny) + off()});
        r.lookup({8 * g.in(-1, nx) + off(), 8 * (k % 2 ? ny : 0) + off()});
        r.lookup({8 * g.in(-2 * nx, 3 * nx) + off(), 8 * g.in(-2 * ny, 3 * ny) + off()});
        if(k < 6) r.lookup({8 * g.in(-40 * nx, 40 * nx) + off(), 8 * g.in(-40 * ny, 40 * ny) + off()});
    }
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const long lim = rec::thorough() ? 9 : 6;
    for(long nx = 1; nx <= lim; ++nx) {
        for(long ny = 1; ny <= lim; ++ny) {
            const auto s = std::to_string(nx) + "x" + std::to_string(ny);
            for(bool real : {true, false}) {
                const std::string k = real ? "r" : "k";
                rec::scenario(k + "d-" + s, [=] { run<double, uint64_t>(nx, ny, real, 1., 1., true, 1); });
                FULL(rec::scenario(k + "i-" + s, [=] { run<double, int>(nx, ny, real, 0.5, 1.75, false, 2); });)
            }
        }
    }
    // other units, also in one direction only
    for(auto p : {std::make_pair(1l, 1l), {2l, 3l}, {4l, 2l}, {5l, 5l}})
        for(auto e : {std::make_pair(9, 9), {0, 8}, {7, 0}, {40, 40}, {-40, -40}, {-12, 3}, {-20, 0}}) {
            const auto s = std::to_string(p.first) + "x" + std::to_string(p.second) + "e" + std::to_string(e.first) + "," + std::to_string(e.second);
            rec::scenario("U-" + s, [=] { run<double, uint64_t>(p.first, p.second, true, 1.3, .9, false, 5, std::ldexp(1., e.first), std::ldexp(1., e.second)); });
        }
    for(auto p : {std::make_pair(16l, 3l), {3l, 17l}, {12l, 13l}, {2l, 40l}, {40l, 2l}, {15l, 15l}}) {
        for(bool real : {true, false}) {
            rec::scenario((real ? "R" : "K") + std::to_string(p.first) + "x" + std::to_string(p.second), [=] { run<double, uint64_t>(p.first, p.second, real, 1.25, 2., false, 3); });
            FULL(rec::scenario((real ? "RF" : "KF") + std::to_string(p.first) + "x" + std::to_string(p.second), [=] { run<float, unsigned>(p.first, p.second, real, 0.5f, 2.f, false, 4); });)
        }
    }
    for(auto p : {std::make_pair((1l << 20) + 3, (1l << 20) + 7), {3l, (1l << 33) + 5}, {(1l << 34) + 1, 33l}, {(1l << 17) - 1, (1l << 18)}})
        for(unsigned long r = 0; r < (rec::thorough() ? 20u : 2u); ++r)
            rec::scenario("vast-" + std::to_string(p.first) + "-" + std::to_string(r), [=] {
                PeriodicSquareLattice<double, uint64_t> c(static_cast<uint64_t>(p.first), static_cast<uint64_t>(p.second), 1., 2.);
                Square<double, uint64_t> a{true, {1., 2.}, c, c};
                Run<Square<double, uint64_t>>{a, {p.first, p.second}}.vasts(80 + r, 30);
            });
    for(auto p : {std::make_pair(1l, 1l), {2l, 3l}, {7l, 5l}, {3l, 40l}, {33l, 12l}})
        rec::scenario("precise-" + std::to_string(p.first), [=] {
            const double dx = 1. + std::ldexp(1., -30);
            PeriodicSquareLattice<double, uint64_t> c(static_cast<uint64_t>(p.first), static_cast<uint64_t>(p.second), dx, dx);
            Square<double, uint64_t> a{true, {dx, dx}, c, c};
            Run<Square<double, uint64_t>>{a, {p.first, p.second}}.precise();
            PeriodicSquareLattice<double, int> ci(static_cast<int>(p.first), static_cast<int>(p.second), dx, dx);
            Square<double, int> ai{true, {dx, dx}, ci, ci};
            Run<Square<double, int>>{ai, {p.first, p.second}}.precise();
        });
    return rec::run();
}
