// C15: site occupation of operator sums in free-fermion states
#include "hub.hpp"

#include <ieompp/constants.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#include <ieompp/models/hubbard_real_space/site_occupation.hpp>

#include <algorithm>
#include <memory>

using namespace hub;
namespace rs = ieompp::models::hubbard_real_space;
using B1     = rs::Basis1Operator<Monomial>;
using B3     = rs::Basis3Operator<Monomial>;
using Vector = std::vector<std::complex<double>>;

// two-point function times den
struct Table {
    long den;
    std::vector<std::vector<long>> g;
    double unit = 1.;
    double operator()(const Op& a, const Op& b) const
    {
        return unit * static_cast<double>(g[a.index1][b.index1]) / static_cast<double>(den);
    }
    void emit() const { rec::Ev("table").kv("den", den).kv("g", g); }
};
Table random_table(rec::Rng& r, uint64_t n, long den, bool symmetric)
{
    Table t{den, std::vector<std::vector<long>>(n, std::vector<long>(n)), 1.};
    for(uint64_t i = 0; i < n; ++i)
        for(uint64_t j = 0; j < n; ++j) t.g[i][j] = (symmetric && j < i) ? t.g[j][i] : r.in(-den, den);
    return t;
}
Vector random_vector(rec::Rng& r, uint64_t n, long m, int kind)
{
    Vector v(n);
    for(auto& x : v) x = {static_cast<double>(r.in(-m, m)), kind == 1 ? 0. : static_cast<double>(r.in(-m, m))};
    if(kind == 2) // sparse
        for(auto& x : v)
            if(r.in(0, 4)) x = 0;
    return v;
}

template <typename B>
void basis_event(const B& b, const B& c)
{
    rec::Ev("basis").raw("els", elements(b)).raw("conj", elements(c));
}

template <typename F>
void row(uint64_t r, const std::vector<uint64_t>& cols, long den, F f)
{
    std::vector<std::string> vals;
    rec::Ev e("pairs");
    e.kv("row", r).kv("cols", cols);
    e.raw("vals", rec::list(cols, [&](uint64_t c) { return rec::num(f(c) * static_cast<double>(den * den * den)); }));
}

// the vector is used in several units (powers of two, so that nothing is rounded), the two-point function in one
template <typename SO, typename B>
void total(const SO& so, const B&, const Vector& v, long den, double unit = 1.)
{
    static const std::vector<int> scales{0, 0, -20, 12, -40, 24, -70};
    static std::size_t next = 0;
    const double scale = den & (den - 1) ? 1. : std::ldexp(1., scales[next++ % scales.size()]);
    auto used          = v;
    for(auto& x : used) x *= scale;
    const auto copy = used;
    const double x  = so(used) / (scale * scale) / unit;
    if(used != copy) rec::bad("vector changed");
    rec::Ev("total").kv("v", v).raw("value", rec::num(x * static_cast<double>(den * den * den)));
}

template <typename L>
void one(const L& l, unsigned long salt)
{
    rec::Rng r(salt);
    const B1 b(l);
    const auto c = b.get_conjugate();
    basis_event(b, c);
    std::vector<uint64_t> all;
    for(uint64_t i = 0; i < b.size(); ++i) all.push_back(i);
    for(long den : {1, 2, 4}) {
        const auto t = random_table(r, l.size(), den, false);
        t.emit();
        const rs::SiteOccupation<double, B1> so{t, std::cref(b), std::cref(c)};
        for(auto i : all) row(i, all, den, [&](uint64_t j) { return so.expectation_value(b[i], c[j]); });
        const auto s = random_table(r, l.size(), den, true);
        s.emit();
        const rs::SiteOccupation<double, B1> ss{s, std::cref(b), std::cref(c)};
        for(int kind = 0; kind < 3; ++kind) total(ss, b, random_vector(r, b.size(), 3, kind), den);
        auto v = random_vector(r, b.size(), 2, 0);
        total(ss, b, v, den);
        total(ss, b, v, den);
        Vector z(b.size(), 0.);
        total(ss, b, z, den);
        z.back() = {0, 1};
        total(ss, b, z, den);
        z.front() = {2, 0};
        total(ss, b, z, den);
        // tiny and huge values of the two-point function
        for(int e : {-50, -25, 30}) {
            auto u = s;
            u.unit = std::ldexp(1., e);
            const rs::SiteOccupation<double, B1> su{u, std::cref(b), std::cref(c)};
            for(int kind = 0; kind < 3; ++kind) total(su, b, random_vector(r, b.size(), 3, kind), den, u.unit);
        }
    }
}

template <typename SO>
double get(const SO& so, const B3& b, const B3& c, uint64_t i, uint64_t j, bool generic)
{
    if(generic) return so.expectation_value(b[i], c[j]);
    const auto N = b.N;
    if(i < N) return j < N ? so.expectation_value_1_1(b[i], c[j]) : so.expectation_value_1_3(b[i], c[j]);
    return j < N ? so.expectation_value_3_1(b[i], c[j]) : so.expectation_value_3_3(b[i], c[j]);
}

template <typename L>
void three(const L& l, unsigned long salt, long den, bool all_pairs)
{
    rec::Rng r(salt);
    const B3 b(l);
    const auto c = b.get_conjugate();
    basis_event(b, c);
    const auto n = b.size();
    // arbitrary two-point functions: every pair (or random ones)
    const auto t = random_table(r, l.size(), den, false);
    t.emit();
    {
        const rs::SiteOccupation<double, B3> so{t, std::cref(b), std::cref(c)};
        for(uint64_t i = 0; i < (all_pairs ? n : 60); ++i) {
            const uint64_t a = all_pairs ? i : static_cast<uint64_t>(r.in(0, static_cast<long>(n) - 1));
            std::vector<uint64_t> cols;
            for(uint64_t j = 0; j < (all_pairs ? n : 30); ++j)
                cols.push_back(all_pairs ? j : static_cast<uint64_t>(r.in(0, static_cast<long>(n) - 1)));
            const bool generic = r.flip();
            row(a, cols, den, [&](uint64_t j) { return get(so, b, c, a, j, generic); });
        }
        // the full sum exploits no symmetry of the two-point function
        rs::SiteOccupation<double, B3> whole{t, std::cref(b), std::cref(c), false};
        for(int k = 0; k < 3; ++k) total(whole, b, random_vector(r, n, 2, 1), den);
        for(int k = 0; k < 6; ++k) {
            Vector v(n, 0.);
            v[static_cast<uint64_t>(r.in(0, static_cast<long>(n) - 1))] = 1;
            v[static_cast<uint64_t>(r.in(0, static_cast<long>(n) - 1))] = 2;
            v[static_cast<uint64_t>(r.in(0, static_cast<long>(b.N) - 1))] = -1;
            total(whole, b, v, den);
        }
        // structured elements: coinciding sites
        for(int k = 0; k < 20; ++k) {
            const auto N = b.N;
            auto s       = [&] { return static_cast<uint64_t>(r.in(0, static_cast<long>(N) - 1)); };
            const auto x = s(), y = s();
            const std::vector<uint64_t> el{x, b.get_3op_index(x, x, x), b.get_3op_index(x, y, y), b.get_3op_index(y, y, x),
                                           b.get_3op_index(y, x, y), b.get_3op_index(y, s(), x), b.get_3op_index(s(), y, x)};
            const auto a = r.pick(el);
            row(a, el, den, [&](uint64_t j) { return get(so, b, c, a, j, k % 2); });
        }
    }
    // symmetric ones: the observable, in both modes, with several objects in use
    const auto s = random_table(r, l.size(), den, true);
    s.emit();
    rs::SiteOccupation<double, B3> so{s, std::cref(b), std::cref(c)};
    rs::SiteOccupation<double, B3> full{s, std::cref(b), std::cref(c), false};
    const B1 b1(l);
    const auto c1 = b1.get_conjugate();
    const rs::SiteOccupation<double, B1> other{s, std::cref(b1), std::cref(c1)};
    for(int k = 0; k < 4; ++k) {
        const auto v = random_vector(r, n, 2, k % 3);
        total(so, b, v, den);
        total(full, b, v, den);
        so.exploit_inversion_symmetry = false;
        other(Vector(b1.size(), 1.));
        total(so, b, v, den);
        so.exploit_inversion_symmetry = true;
    }
    // single components and pairs of components
    for(int k = 0; k < 12; ++k) {
        Vector v(n, 0.);
        v[static_cast<uint64_t>(r.in(0, static_cast<long>(n) - 1))] = {1, 1};
        v[static_cast<uint64_t>(r.in(0, static_cast<long>(n) - 1))] = {-1, 2};
        v[static_cast<uint64_t>(r.in(0, static_cast<long>(b.N) - 1))] = {2, -1};
        total(k % 2 ? so : full, b, v, den);
    }
}

// operators on sites with large numbers; the recording names the sites by their place in a short list
template <typename F>
std::string placed(const std::vector<Monomial>& l, F place)
{
    return rec::list(l, [&](const Monomial& m) {
        return rec::list(m, [&](const Op& o) { return "[" + rec::v(o.creator) + "," + rec::v(place(o.index1)) + "," + rec::v(static_cast<bool>(o.index2)) + "]"; });
    });
}
void wide(std::vector<uint64_t> sites, unsigned long salt)
{
    rec::Rng r(salt);
    const auto n = sites.size();
    auto place   = [&](uint64_t i) { return static_cast<uint64_t>(std::find(sites.begin(), sites.end(), i) - sites.begin()); };
    const long den = 2;
    const auto t   = random_table(r, n, den, false);
    t.emit();
    auto f = [&](const Op& x, const Op& y) { return static_cast<double>(t.g[place(x.index1)][place(y.index1)]) / static_cast<double>(den); };
    std::vector<Monomial> els, conj;
    auto add = [&](uint64_t i) { els.push_back(Monomial{Op{true, sites[i], true}}); };
    for(uint64_t i = 0; i < n; ++i) add(i);
    auto add3 = [&](uint64_t i, uint64_t j, uint64_t k) { els.push_back(Monomial{Op{true, sites[i], true}, Op{true, sites[j], false}, Op{false, sites[k], false}}); };
    for(uint64_t i = 0; i < n; ++i)
        for(uint64_t j = 0; j < n; ++j) add3(static_cast<uint64_t>(r.in(0, static_cast<long>(n) - 1)), i, j);
    for(const auto& m : els) conj.push_back(m.get_conjugate());
    rec::Ev("basis").raw("els", placed(els, place)).raw("conj", placed(conj, place));
    const B3 b(Chain(2, 1.));
    const auto c = b.get_conjugate();
    const rs::SiteOccupation<double, B3> so{f, std::cref(b), std::cref(c)};
    const B1 b1(Chain(2, 1.));
    const auto c1 = b1.get_conjugate();
    const rs::SiteOccupation<double, B1> so1{f, std::cref(b1), std::cref(c1)};
    std::vector<uint64_t> all;
    for(uint64_t i = 0; i < els.size(); ++i) all.push_back(i);
    for(auto i : all) {
        const bool generic = r.flip();
        row(i, all, den, [&](uint64_t j) {
            const auto& x = els[i];
            const auto& y = conj[j];
            if(x.size() == 1) {
                if(y.size() == 1) return r.flip() ? so1.expectation_value(x, y) : generic ? so.expectation_value(x, y) : so.expectation_value_1_1(x, y);
                return generic ? so.expectation_value(x, y) : so.expectation_value_1_3(x, y);
            }
            if(generic) return so.expectation_value(x, y);
            return y.size() == 1 ? so.expectation_value_3_1(x, y) : so.expectation_value_3_3(x, y);
        });
    }
}

// the tabulated two-point functions
template <typename B>
rs::SiteOccupation<double, B> make(std::function<double(const Op&, const Op&)> f, const B& b, const B& c);
template <>
rs::SiteOccupation<double, B1> make(std::function<double(const Op&, const Op&)> f, const B1& b, const B1& c)
{
    return {f, std::cref(b), std::cref(c)};
}
template <>
rs::SiteOccupation<double, B3> make(std::function<double(const Op&, const Op&)> f, const B3& b, const B3& c)
{
    return {f, std::cref(b), std::cref(c)};
}

// half filled/partially filled Fermi seas of rings: exact two-point functions of the finite ring (positive semidefinite)
template <typename B>
void physical(uint64_t n, uint64_t filled, unsigned long salt)
{
    rec::Rng r(salt);
    const Chain l(n, 1.);
    const B b(l);
    const auto c = b.get_conjugate();
    std::vector<double> g(n);
    for(uint64_t d = 0; d < n; ++d) {
        g[d] = 1. / static_cast<double>(n);
        for(uint64_t k = 1; k <= filled; ++k) g[d] += 2. * std::cos(2. * M_PI * static_cast<double>(k * d) / static_cast<double>(n)) / static_cast<double>(n);
    }
    auto f   = [&](const Op& x, const Op& y) { return g[(x.index1 + n - y.index1) % n]; };
    auto so  = make<B>(f, b, c);
    auto so2 = so;
    std::uniform_real_distribution<double> u(-1, 1);
    for(int k = 0; k < 5; ++k) {
        Vector v(b.size());
        for(auto& x : v) x = {u(r.g), u(r.g)};
        rec::Ev e("physical");
        std::string s = "[" + rec::fix(so(v), 1e5);
        s += "," + rec::fix(so2(v), 1e5);
        Vector w = v;
        for(auto& x : w) x *= std::complex<double>(.6, -.8);
        s += "," + rec::fix(so(w), 1e5);
        // translated operator sum
        for(uint64_t i = 0; i < n; ++i) w[(i + 1) % n] = v[i];
        for(uint64_t i = n; i < b.size(); ++i) {
            const auto x = (i - n) / (n * n), y = ((i - n) / n) % n, z = (i - n) % n;
            w[n + ((x + 1) % n) * n * n + ((y + 1) % n) * n + (z + 1) % n] = v[i];
        }
        s += "," + rec::fix(so(w), 1e5) + "]";
        e.raw("values", s);
    }
}
void physical_modes(uint64_t n, uint64_t filled, unsigned long salt)
{
    rec::Rng r(salt);
    const Chain l(n, 1.);
    const B3 b(l);
    const auto c = b.get_conjugate();
    std::vector<double> g(n);
    for(uint64_t d = 0; d < n; ++d) {
        g[d] = 1. / static_cast<double>(n);
        for(uint64_t k = 1; k <= filled; ++k) g[d] += 2. * std::cos(2. * M_PI * static_cast<double>(k * d) / static_cast<double>(n)) / static_cast<double>(n);
    }
    auto f = [&](const Op& x, const Op& y) { return g[(x.index1 + n - y.index1) % n]; };
    rs::SiteOccupation<double, B3> so{f, std::cref(b), std::cref(c)};
    rs::SiteOccupation<double, B3> full{f, std::cref(b), std::cref(c), false};
    std::uniform_real_distribution<double> u(-1, 1);
    for(int k = 0; k < 3; ++k) {
        Vector v(b.size());
        for(auto& x : v) x = {u(r.g), u(r.g)};
        rec::Ev e("physical");
        e.raw("values", "[" + rec::fix(so(v), 1e5) + "," + rec::fix(full(v), 1e5) + "]");
    }
    const Vector h0 = [&] { Vector v(b.size(), 0.); v[0] = 1; return v; }();
    // the initial vector: the filling
    rec::Ev("physical").raw("values", "[" + rec::fix(so(h0), 1e5) + "," + rec::fix(full(h0), 1e5) + "," + rec::fix(g[0], 1e5) + "]");
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    auto chain    = [](uint64_t n) { return Chain(n, 1.); };
    for(uint64_t n = 2; n <= 9; ++n) rec::scenario("one" + std::to_string(n), [=] { one(chain(n), n); });
    rec::scenario("one3x2", [=] { one(Square(3, 2, 1., 1.), 30); });
    for(uint64_t n = 2; n <= 3; ++n)
        for(long den : {2, 4}) rec::scenario("three" + std::to_string(n) + "-" + std::to_string(den), [=] { three(chain(n), 10 + n, den, true); });
    rec::scenario("three4", [=] { three(chain(4), 14, 2, th); });
    rec::scenario("three5", [=] { three(chain(5), 15, 2, false); });
    rec::scenario("three2x2", [=] { three(Square(2, 2, 1., 1.), 16, 2, false); });
    if(th) {
        rec::scenario("three6", [=] { three(chain(6), 17, 2, false); });
        rec::scenario("three3x2", [=] { three(Square(3, 2, 1., 1.), 18, 3, false); });
        for(unsigned long s = 0; s < 6; ++s) rec::scenario("more" + std::to_string(s), [=] { three(chain(3 + s % 2), 100 + s, 1 + static_cast<long>(s) % 4, true); });
    }
    rec::scenario("wide1", [=] { wide({0, 8, 256, 264, 65536}, 80); });
    rec::scenario("wide2", [=] { wide({3, 3 + (1ul << 16), 3 + (1ul << 31), 3 + (1ul << 32), 11}, 81); });
    rec::scenario("wide3", [=] { wide({(1ul << 53), (1ul << 53) + 1, (1ul << 63), ~0ul, 64}, 82); });
    rec::scenario("wide4", [=] { wide({1000, 1016, 1032, 1064, 1128}, 83); });
    for(uint64_t n : {3u, 8u, 33u, 101u}) rec::scenario("p1-" + std::to_string(n), [=] { physical<B1>(n, n / 4, 40 + n); });
    for(uint64_t n : {3u, 6u}) rec::scenario("p3-" + std::to_string(n), [=] { physical<B3>(n, n / 4, 50 + n); });
    for(uint64_t n : {2u, 4u, 5u, 7u}) rec::scenario("modes" + std::to_string(n), [=] { physical_modes(n, n / 4, 60 + n); });
    return rec::run();
}
