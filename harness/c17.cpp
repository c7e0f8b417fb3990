// C17: tables of two-point functions and dispersions
#include "hub.hpp"
#include "trig.hpp"

#include <ieompp/types/blaze.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>

using namespace hub;
namespace rs = ieompp::models::hubbard_real_space;
const double pi = 3.14159265358979323846;

template <typename F>
std::string table(uint64_t n, F f)
{
    std::string s = "[";
    for(uint64_t a = 0; a < n; ++a) {
        s += a ? ",[" : "[";
        for(uint64_t b = 0; b < n; ++b) s += (b ? "," : "") + f(a, b);
        s += "]";
    }
    return s + "]";
}
template <typename E>
void emit1(const E& ev, const Chain& l, long k, long M, long filling, double dx)
{
    rec::Ev e("table1");
    trig::emit(e, M);
    e.kv("k", k).kv("filling", filling * 1000);
    e.raw("v", table(l.size(), [&](uint64_t a, uint64_t b) { return rec::fix(ev(a, b) * pi * dx, 1e6); }));
    e.raw("raw", table(l.size(), [&](uint64_t a, uint64_t b) { return rec::fix(ev(a, b), 1e6); }));
    e.raw("dist", table(l.size(), [&](uint64_t a, uint64_t b) { return rec::v(ev.lattice_distance(a, b)); }));
}
void one(uint64_t n, unsigned long salt)
{
    rec::Rng r(salt);
    const double dx = std::vector<double>{1., 1., .5, 2.}[static_cast<std::size_t>(r.in(0, 3))];
    const Chain l(n, dx), l2(n + 3, 1.);
    geometry(l);
    using E = rs::ExpectationValue1DHalfFilled<double, Chain>;
    // half filling and arbitrary fillings
    const E half(l, .5, trig::turn(1, 4) / dx);
    emit1(half, l, 1, 4, 500, dx);
    for(int rep = 0; rep < 3; ++rep) {
        const long M = r.in(3, 50), k = r.in(0, M), f = r.in(0, 1000);
        const E e(l, static_cast<double>(f) / 1000., trig::turn(k, M) / dx);
        const E other(l2, 1., .3);
        emit1(e, l, k, M, f, dx);
        const E copy(e);
        emit1(copy, l, k, M, f, dx);
        emit1(half, l, 1, 4, 500, dx);
        const E filled(l, static_cast<double>(f) / 1000., ieompp::models::hubbard::calculate_fermi_momentum_1d(static_cast<double>(k) / static_cast<double>(M)) * 2 / dx);
        emit1(filled, l, k, M, f, dx);
        (void)other(0, 1);
    }
}
void two(uint64_t x, uint64_t y)
{
    const Square l(x, y, 1., 1.), m(y, x, 1., 1.);
    geometry(l);
    using E = rs::ExpectationValue2DHalfFilled<double, Square>;
    const E e(l), o(m), c(e);
    for(auto* p : {&e, &c}) {
        rec::Ev ev("table2");
        ev.raw("raw", table(l.size(), [&](uint64_t a, uint64_t b) { return rec::fix((*p)(a, b), 1e6); }));
        ev.raw("vp", table(l.size(), [&](uint64_t a, uint64_t b) { return rec::fix((*p)(a, b) * pi, 1e6); }));
        ev.raw("vpp", table(l.size(), [&](uint64_t a, uint64_t b) { return rec::fix((*p)(a, b) * pi * pi, 1e6); }));
    }
    (void)o(0, 0);
}
template <typename K>
void dispersion(const K& k, const K& l, unsigned long salt, const std::vector<std::pair<long, long>>& spacing = {{1, 1}, {1, 1}})
{
    rec::Rng r(salt);
    geometry(k);
    for(int rep = 0; rep < 4; ++rep) {
        const long j = rep == 0 ? 100 : rep == 1 ? -r.in(1, 999) : r.in(-999, 999);
        const double J = static_cast<double>(j) / 100.;
        const auto f   = rep ? ieompp::models::hubbard::make_dispersion(k, l, J) : ieompp::models::hubbard::make_dispersion(k, l);
        const auto g   = ieompp::models::hubbard::Dispersion<double>(k, l, J);
        const auto h   = g;
        auto emit      = [&](const ieompp::models::hubbard::Dispersion<double>& d) {
            rec::Ev e("dispersion");
            e.kv("j", j);
            std::string s = "[", t = "[";
            for(uint64_t i = 0; i < k.size(); ++i) s += (i ? "," : "") + rec::fix(d(i), 1e4);
            std::size_t a = 0;
            for(long n : extents(k)) {
                const auto& sp = spacing[a++];
                const long m   = 2 * n * sp.second;
                std::vector<long> c, z;
                for(long i = 0; i < m; ++i) {
                    c.push_back(std::lround(1e4 * std::cos(trig::turn(i, m))));
                    z.push_back(std::lround(1e4 * std::sin(trig::turn(i, m))));
                }
                rec::Obj o;
                o.kv("cos", c).kv("sin", z).kv("p", sp.first).kv("q", sp.second);
                t += (a == 1 ? "" : ",") + o.done();
            }
            e.raw("e", s + "]").raw("trig", t + "]");
        };
        emit(f);
        emit(g);
        emit(h);
    }
}

// ---- large lattices and the full precision of the number type
long ring(long n, long a, long b)
{
    const long x = std::labs(a - b);
    return std::min(x, n - x);
}
// pairs <<a, b, value, value * pi * distance>> of a chain; k = full turn / M per site (M = 4: half filling, M = 6, M = 3)
void fine1(uint64_t n, long M, unsigned long salt, long count = 0)
{
    rec::Rng r(salt);
    const double dx = salt % 2 ? 1. : .5;
    const Chain l(n, dx);
    if(count) rec::Ev("geometry").kv("d", extents(l)).raw("pos", "[]");
    else geometry(l);
    const rs::ExpectationValue1DHalfFilled<double, Chain> ev(l, 2. / static_cast<double>(M), trig::turn(1, M) / dx);
    const long N = static_cast<long>(n);
    std::string s = "[";
    auto pair = [&](long a, long b) {
        const long d   = ring(N, a, b);
        const double v = ev(static_cast<uint64_t>(a), static_cast<uint64_t>(b));
        s += (s.size() > 1 ? ",[" : "[") + rec::v(a) + "," + rec::v(b) + "," + rec::v(ev.lattice_distance(static_cast<uint64_t>(a), static_cast<uint64_t>(b))) + ","
             + rec::fix(d ? v * pi * dx * static_cast<double>(d) : v * static_cast<double>(M) / 2, 5e8) + "]";
    };
    if(count)
        for(long k = 0; k < count; ++k) pair(r.in(0, N - 1), r.in(0, N - 1));
    else
        for(long b = 0; b < N; ++b) pair(r.in(0, N - 1), b); // nearly all distances
    for(long d : {0l, 1l, N / 2, (N - 1) / 2, N / 2 - 1})
        if(d >= 0) pair(3 % N, (3 + d) % N);
    rec::Ev("fine1").kv("M", M).raw("pairs", s + "]");
}
void fine2(uint64_t x, uint64_t y, unsigned long salt)
{
    rec::Rng r(salt);
    const Square l(x, y, 1., 1.);
    geometry(l);
    const rs::ExpectationValue2DHalfFilled<double, Square> ev(l);
    const long n = static_cast<long>(l.size()), X = static_cast<long>(x), Y = static_cast<long>(y);
    std::string s = "[";
    for(int k = 0; k < 800; ++k) {
        const long a = r.in(0, n - 1);
        long b       = r.in(0, n - 1);
        if(k % 4 == 1) { // small distances
            b = ((a / Y + r.in(0, 3)) % X) * Y + (a % Y + r.in(0, 3)) % Y;
        } else if(k % 4 == 2) {
            b = ((a / Y + X / 2) % X) * Y + (a % Y + Y / 2) % Y;
        } else if(k % 4 == 3) { // the diagonal
            const long t = r.in(0, std::min(X, Y) / 2);
            b            = ((a / Y + t) % X) * Y + (a % Y + t) % Y;
        }
        const long dx = ring(X, a / Y, b / Y), dy = ring(Y, a % Y, b % Y);
        const long p = dx + dy, m = std::labs(dx - dy);
        double v = ev(static_cast<uint64_t>(a), static_cast<uint64_t>(b));
        v *= (p ? pi * static_cast<double>(p) : 1) * (m ? pi * static_cast<double>(m) : 1);
        s += (k ? ",[" : "[") + rec::v(a) + "," + rec::v(b) + "," + rec::fix(v, 2.5e8) + "]";
    }
    rec::Ev("fine2").raw("pairs", s + "]");
}
// extents are multiples of 6
template <typename K>
void finedisp(const K& k, const K& l, double J)
{
    geometry(k);
    const auto f = ieompp::models::hubbard::make_dispersion(k, l, J);
    std::string s = "[";
    for(uint64_t i = 0; i < k.size(); ++i) s += (i ? "," : "") + rec::fix(f(i) / J, 2.5e8);
    rec::Ev("finedisp").raw("e", s + "]");
}

// long chains: energies of every 60th part of the zone, and at other momenta relations to momenta a sixth of the zone away
void vastdisp(uint64_t n, double J, unsigned long salt)
{
    rec::Rng r(salt);
    const Chain k(n), l(n, 1.);
    rec::Ev("geometry").kv("d", extents(k)).raw("pos", "[]");
    const auto f = ieompp::models::hubbard::make_dispersion(k, l, J);
    auto e       = [&](uint64_t i) { return rec::fix(f(i % n) / J, 2.5e8); };
    std::string g, s;
    for(uint64_t i = 0; i < 60; ++i) g += (i ? "," : "") + rec::fix(f(i * (n / 60)) / J, 2e4);
    for(int i = 0; i < 300; ++i) {
        const auto x = static_cast<uint64_t>(r.in(0, static_cast<long>(n) - 1));
        s += (i ? ",[" : "[") + e(x) + "," + e(x + n / 6) + "," + e(x + n - n / 6) + "," + e(n - x) + "]";
    }
    rec::Ev ev("vastdisp");
    trig::emit(ev, 60);
    ev.raw("grid", "[" + g + "]").raw("rel", "[" + s + "]");
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    auto s        = [](uint64_t i) { return std::to_string(i); };
    for(uint64_t n = 1; n <= (th ? 40u : 20u); ++n) rec::scenario("one" + s(n), [=] { one(n, n); });
    for(uint64_t x = 1; x <= (th ? 9u : 6u); ++x)
        for(uint64_t y = 1; y <= (th ? 8u : 5u); ++y) rec::scenario("two" + s(x) + "x" + s(y), [=] { two(x, y); });
    for(uint64_t n = 1; n <= (th ? 128u : 40u); ++n) rec::scenario("d" + s(n), [=] { dispersion(Chain(n), Chain(n, 1.), n); });
    for(uint64_t x = 1; x <= (th ? 12u : 6u); ++x)
        for(uint64_t y = 1; y <= (th ? 12u : 5u); ++y) rec::scenario("d" + s(x) + "x" + s(y), [=] { dispersion(Square(x, y), Square(x, y, 1., 1.), 100 + x * 20 + y); });
    // other spacings
    for(uint64_t n : {2ul, 3ul, 6ul, 11ul}) {
        rec::scenario("spaced" + s(n), [=] { dispersion(Chain(n), Chain(n, .5), 600 + n, {{1, 2}}); });
        rec::scenario("wide" + s(n), [=] { dispersion(Chain(n), Chain(n, 3.), 620 + n, {{3, 1}}); });
        rec::scenario("spaced" + s(n) + "x4", [=] { dispersion(Square(n, 4), Square(n, 4, 1.5, 2.), 640 + n, {{3, 2}, {2, 1}}); });
    }
    const unsigned long salt = 300;
    for(uint64_t n : {7ul, 30ul, 255ul, 256ul, 600ul, 1301ul})
        for(long M : {4l, 6l, 3l, 12l}) rec::scenario("fine" + s(n) + "-" + std::to_string(M), [=] { fine1(n, M, salt + n + static_cast<unsigned long>(M)); });
    for(auto p : {std::make_pair(5ul, 4ul), {40ul, 30ul}, {521ul, 5ul}, {3ul, 520ul}}) rec::scenario("fine" + s(p.first) + "x" + s(p.second), [=] { fine2(p.first, p.second, salt + p.first + p.second); });
    for(uint64_t n : {6ul, 18ul, 60ul, 258ul, 600ul, 1200ul}) rec::scenario("fined" + s(n), [=] { finedisp(Chain(n), Chain(n, 1.), n % 4 ? 1. : -.75); });
    for(auto p : {std::make_pair(6ul, 12ul), {18ul, 30ul}, {66ul, 6ul}, {6ul, 60ul}}) rec::scenario("fined" + s(p.first) + "x" + s(p.second), [=] { finedisp(Square(p.first, p.second), Square(p.first, p.second, 1., 1.), p.first > 6 ? 1. : -1.3); });
    for(uint64_t n : {9001ul, 140002ul})
        for(long M : {4l, 6l, 12l}) rec::scenario("vast" + s(n) + "-" + std::to_string(M), [=] { fine1(n, M, salt + n + static_cast<unsigned long>(M), 500); });
    // other units of the energy
    for(int e : {-900, -200, -60, -30, 20, 45, 90, 700}) {
        rec::scenario("unit" + std::to_string(e), [=] {
            finedisp(Chain(18), Chain(18, 1.), std::ldexp(e % 4 ? -.75 : 1.3, e));
            finedisp(Square(6, 12), Square(6, 12, 1., 1.), std::ldexp(.7, e));
            finedisp(Square(18, 6), Square(18, 6, 1., 1.), std::ldexp(-1., e));
            vastdisp(6000, std::ldexp(-.75, e), 6000);
        });
    }
    for(uint64_t n : {6000ul, 180000ul}) rec::scenario("vastd" + s(n), [=] { vastdisp(n, -.75, n); });
    rec::scenario("fermi", [=] {
        for(long f = 0; f <= 1000; f += 25)
            rec::Ev("fermi").kv("filling", f).raw("turn", rec::num(ieompp::models::hubbard::calculate_fermi_momentum_1d(static_cast<double>(f) / 1000.) / pi * 1000));
    });
    return rec::run();
}
