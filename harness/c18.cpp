// C18: Runge-Kutta steps
#include "rec.hpp"

#include <ieompp/types/blaze.hpp>
#include <ieompp/types/blaze/dot_product.hpp>
#include <ieompp/types/dot_product.hpp>
#include <ieompp/types/multiply_assign.hpp>
#include <ieompp/types/eigen/multiply_assign.hpp>
#include <ieompp/types/eigen/traits.hpp>
#include <ieompp/ode/rk4.hpp>

#include <map>
#include <memory>

using C = std::complex<double>;
using ieompp::ode::RK4;
using ieompp::types::FunctionMatrix;

// integers: complex entries as pairs
using Z  = std::pair<long, long>;
using ZV = std::vector<Z>;
using ZM = std::vector<ZV>;

inline double to(const Z& z, double*) { return static_cast<double>(z.first); }
inline C to(const Z& z, C*) { return {static_cast<double>(z.first), static_cast<double>(z.second)}; }
inline std::string out(double d, double f) { return "[" + rec::v(d * f) + ",0]"; }
inline std::string out(const C& d, double f) { return "[" + rec::v(d.real() * f) + "," + rec::v(d.imag() * f) + "]"; }

template <typename S>
using BV = blaze::DynamicVector<S>;

template <typename S>
void fill(BV<S>& v, const ZV& u)
{
    v.resize(u.size(), false);
    for(std::size_t i = 0; i < u.size(); ++i) v[i] = to(u[i], static_cast<S*>(nullptr));
}
template <typename V>
std::string vec(const V& v, double f)
{
    std::string s = "[";
    for(std::size_t i = 0; i < static_cast<std::size_t>(v.size()); ++i) s += (i ? "," : "") + out(v[i], f);
    return s + "]";
}
template <typename M>
std::string mat(const M& m, std::size_t n, double f = 1.)
{
    std::string s = "[";
    for(std::size_t i = 0; i < n; ++i) {
        s += i ? ",[" : "[";
        for(std::size_t j = 0; j < n; ++j) s += (j ? "," : "") + out(m(i, j), f);
        s += "]";
    }
    return s + "]";
}
template <typename S>
blaze::DynamicMatrix<S> build(const ZM& a, blaze::DynamicMatrix<S>*, double f = 1.)
{
    blaze::DynamicMatrix<S> m(a.size(), a.size());
    for(std::size_t i = 0; i < a.size(); ++i)
        for(std::size_t j = 0; j < a.size(); ++j) m(i, j) = f * to(a[i][j], static_cast<S*>(nullptr));
    return m;
}
template <typename S, bool O>
blaze::CompressedMatrix<S, O> build(const ZM& a, blaze::CompressedMatrix<S, O>*, double f = 1.)
{
    blaze::CompressedMatrix<S, O> m(a.size(), a.size());
    m.reserve(a.size() * a.size());
    for(std::size_t i = 0; i < a.size(); ++i) {
        for(std::size_t j = 0; j < a.size(); ++j)
            if(a[i][j] != Z(0, 0)) m.append(i, j, f * to(a[i][j], static_cast<S*>(nullptr)));
        m.finalize(i);
    }
    return m;
}
template <typename S>
FunctionMatrix<S> build(const ZM& a, FunctionMatrix<S>*, double f = 1.)
{
    return FunctionMatrix<S>(a.size(), a.size(), [a, f](std::size_t i, std::size_t j) { return f * to(a[i][j], static_cast<S*>(nullptr)); });
}

struct World {
    rec::Rng r;
    explicit World(unsigned long salt) : r(salt) {}
    long q = 1;
};

// one history: several matrices, vectors and integrators of one kind
template <typename S, typename M>
struct History {
    rec::Rng& r;
    struct Int {
        RK4<double> i;
        long n, p, q;
    };
    std::vector<std::unique_ptr<M>> mats;
    std::vector<ZM> zm;
    std::vector<BV<S>> vecs;
    std::vector<double> scale; // the trace knows scale * vector
    std::vector<Int> ints;
    double unit = 1.; // matrices and inverse steps are measured in this unit
    long band   = 0;  // for large matrices: distance of entries from the diagonal
    explicit History(rec::Rng& r_) : r(r_) {}

    Z entry(long lim)
    {
        const bool cx = !std::is_same<S, double>::value;
        return {r.in(-lim, lim), cx ? r.in(-lim, lim) : 0};
    }
    ZM random(std::size_t n, long lim, long factor, bool triangular)
    {
        ZM a(n, ZV(n, Z(0, 0)));
        for(std::size_t i = 0; i < n; ++i)
            for(std::size_t j = 0; j < n; ++j) {
                if(band && std::labs(static_cast<long>(i) - static_cast<long>(j)) > band && r.in(0, static_cast<long>(n))) continue;
                if((!triangular || j > i) && r.in(0, 3)) {
                    a[i][j] = entry(lim);
                    a[i][j].first *= factor;
                    a[i][j].second *= factor;
                }
            }
        return a;
    }
    void matrix(std::size_t n, long lim, long factor, bool triangular)
    {
        const ZM a = random(n, lim, factor, triangular);
        zm.push_back(a);
        mats.emplace_back(new M(build(a, static_cast<M*>(nullptr), unit)));
        rec::Ev("matrix").kv("id", mats.size()).kv("A", a);
    }
    // another content for the same object
    void rewrite(std::size_t m, long lim)
    {
        zm[m]    = random(zm[m].size(), lim, 1, false);
        *mats[m] = build(zm[m], static_cast<M*>(nullptr), unit);
        rec::Ev("rewrite").kv("id", m + 1).kv("A", zm[m]);
    }
    void vector(std::size_t n)
    {
        ZV u;
        for(std::size_t i = 0; i < n; ++i) u.push_back(entry(3));
        vecs.emplace_back();
        fill(vecs.back(), u);
        scale.push_back(1.);
        rec::Ev("vector").kv("id", vecs.size()).kv("u", u);
    }
    ZV last;
    void set(std::size_t x, bool again = false)
    {
        ZV u;
        for(std::size_t i = 0; i < vecs[x].size(); ++i) u.push_back(entry(3));
        if(again && last.size() == u.size()) u = last;
        last = u;
        fill(vecs[x], u);
        scale[x] = 1.;
        if(r.in(0, 2) == 0) { // the same content in another unit
            const double f = std::ldexp(1., static_cast<int>(r.pick(std::vector<long>{-60, -30, 25, 50})));
            for(std::size_t i = 0; i < u.size(); ++i) vecs[x][i] *= f;
            scale[x] = 1. / f;
        }
        rec::Ev("set").kv("id", x + 1).kv("u", u);
    }
    void integrator(long n, long p, long q)
    {
        ints.push_back(Int{RK4<double>(static_cast<std::size_t>(n), static_cast<double>(p) / static_cast<double>(q) / unit), n, p, q});
        rec::Ev("integrator").kv("id", ints.size()).kv("n", n).kv("p", p).kv("q", q);
    }
    void copy_integrator(std::size_t x)
    {
        ints.push_back(ints[x]);
        rec::Ev("copyintegrator").kv("id", ints.size()).kv("from", x + 1);
    }
    void step(std::size_t i, std::size_t m, std::size_t x, bool integral)
    {
        auto& in       = ints[i];
        const long mul = integral ? 1 : 24 * in.q * in.q * in.q * in.q;
        in.i.step(*mats[m], vecs[x]);
        scale[x] *= static_cast<double>(mul);
        rec::Ev("step").kv("int", i + 1).kv("mat", m + 1).kv("vec", x + 1).kv("mul", mul).kv("n", in.i.dimension()).raw("res", vec(vecs[x], scale[x]));
    }
    void look()
    {
        std::string a = "[", b = "[";
        for(std::size_t m = 0; m < mats.size(); ++m) a += (m ? "," : "") + mat(*mats[m], zm[m].size(), 1. / unit);
        for(std::size_t x = 0; x < vecs.size(); ++x) b += (x ? "," : "") + vec(vecs[x], scale[x]);
        rec::Ev("look").raw("mats", a + "]").raw("vecs", b + "]");
    }
};

template <typename S, typename M>
void fractional(unsigned long salt)
{
    rec::Rng r(salt);
    History<S, M> h(r);
    if(r.in(0, 2) == 0) h.unit = std::ldexp(1., static_cast<int>(r.pick(std::vector<long>{-40, -20, 17, 45})));
    const std::vector<std::pair<long, long>> steps = {{1, 1}, {1, 2}, {-1, 2}, {3, 2}, {1, 4}, {-3, 4}, {2, 1}, {0, 1}};
    std::vector<long> dims;
    for(int i = 0; i < 3; ++i) {
        const long n = r.in(1, 5);
        dims.push_back(n);
        const auto s = r.pick(steps);
        h.matrix(static_cast<std::size_t>(n), n > 3 ? 1 : 2, 1, false);
        h.vector(static_cast<std::size_t>(n));
        h.integrator(n, s.first, s.second);
    }
    for(int k = 0; k < 14; ++k) {
        const auto i = static_cast<std::size_t>(r.in(0, 2));
        if(r.in(0, 4) == 0) h.look();
        // any combination of the same dimension
        std::vector<std::size_t> same;
        for(std::size_t j = 0; j < 3; ++j)
            if(dims[j] == dims[i]) same.push_back(j);
        const auto x = r.pick(same);
        if(r.in(0, 4) == 0) h.rewrite(r.pick(same), dims[i] > 3 ? 1 : 2);
        h.set(x, r.in(0, 2) == 0);
        h.step(i, r.pick(same), x, false);
    }
    h.look();
}

// systems of many equations
template <typename S, typename M>
void large(const std::vector<std::size_t>& dims, unsigned long salt)
{
    rec::Rng r(salt);
    History<S, M> h(r);
    h.band = 1;
    for(auto n : dims) {
        h.matrix(n, 1, 1, false);
        h.vector(n);
        h.integrator(static_cast<long>(n), r.flip() ? 1 : -1, r.in(1, 2));
    }
    for(std::size_t k = 0; k < 2 * dims.size(); ++k) {
        const auto i = k % dims.size();
        h.set(i);
        h.step(i, i, i, false);
    }
    h.look();
}

// h A = 6 B with an integer matrix B: all steps give integer vectors
template <typename S, typename M>
void integral(unsigned long salt)
{
    rec::Rng r(salt);
    History<S, M> h(r);
    const std::vector<std::vector<long>> sets = {{1, 1, 6}, {2, 1, 3}, {1, 2, 12}, {1, 4, 24}, {-1, 1, 6}, {3, 1, 2}, {3, 2, 4}, {6, 1, 1}};
    const std::size_t n = static_cast<std::size_t>(r.in(1, 4)), n2 = static_cast<std::size_t>(r.in(1, 6));
    const auto s = r.pick(sets), s2 = r.pick(sets);
    h.matrix(n, 1, s[2], n > 1);
    h.vector(n);
    h.integrator(static_cast<long>(n), s[0], s[1]);
    h.matrix(n2, 1, s2[2], n2 > 1);
    h.vector(n2);
    h.integrator(static_cast<long>(n2), s2[0], s2[1]);
    h.copy_integrator(static_cast<std::size_t>(r.in(0, 1)));
    std::vector<int> count(2, 0);
    for(int k = 0; k < 10; ++k) {
        auto i       = static_cast<std::size_t>(r.in(0, 2));
        const auto x = i < 2 ? i : (h.ints[2].n == static_cast<long>(n) && h.ints[2].p == s[0] && h.ints[2].q == s[1] ? 0 : 1);
        if(++count[x] > 2) {
            h.set(x);
            count[x] = 1;
        }
        h.step(i, x, x, true);
        if(r.in(0, 3) == 0) h.look();
    }
    h.look();
}

template <typename S, typename M>
void kind(const std::string& name, unsigned long salt)
{
    const unsigned long k = rec::thorough() ? 60 : 12;
    for(unsigned long i = 0; i < k; ++i) {
        if(i < (rec::thorough() ? 8u : 2u)) rec::scenario(name + "-large-" + std::to_string(i), [=] { large<S, M>(i % 2 ? std::vector<std::size_t>{150, 33} : std::vector<std::size_t>{17, 66, 257 - 180 * (i > 1)}, salt + 2000 + i); });
        rec::scenario(name + "-fractional-" + std::to_string(i), [=] { fractional<S, M>(salt + i); });
        rec::scenario(name + "-integral-" + std::to_string(i), [=] { integral<S, M>(salt + 1000 + i); });
    }
}

// products of function matrices and vectors, interleaving sizes
template <typename S>
void products(unsigned long salt)
{
    using EV = Eigen::Matrix<S, Eigen::Dynamic, 1>;
    rec::Rng r(salt);
    History<S, FunctionMatrix<S>> h(r);
    for(int k = 0; k < 12; ++k) {
        const auto n = static_cast<std::size_t>(r.in(1, 7));
        h.matrix(n, 4, 1, false);
        ZV u;
        for(std::size_t i = 0; i < n; ++i) u.push_back(h.entry(5));
        BV<S> b;
        fill(b, u);
        ieompp::types::multiply_assign(*h.mats.back(), b);
        EV e(static_cast<long>(n));
        for(std::size_t i = 0; i < n; ++i) e[static_cast<long>(i)] = to(u[i], static_cast<S*>(nullptr));
        ieompp::types::multiply_assign(*h.mats.back(), e);
        rec::Ev("apply").kv("mat", h.mats.size()).kv("u", u).raw("blaze", vec(b, 1.)).raw("eigen", vec(e, 1.));
    }
    h.look();
}

// products of Blaze matrices and vectors through the generic function, scalar products
template <typename S, typename M>
void blaze_products(unsigned long salt)
{
    rec::Rng r(salt);
    History<S, M> h(r);
    for(int k = 0; k < 12; ++k) {
        const auto n = static_cast<std::size_t>(r.in(1, 7));
        h.matrix(n, 4, 1, false);
        ZV u, w;
        for(std::size_t i = 0; i < n; ++i) u.push_back(h.entry(5)), w.push_back(h.entry(5));
        BV<S> b, d;
        fill(b, u);
        fill(d, w);
        const S dot = ieompp::types::dot_product(b, d);
        rec::Ev("dot").kv("x", u).kv("y", w).raw("r", out(dot, 1.)).kv("scalar", ieompp::types::dot_product(u[0].first, w[0].first));
        ieompp::types::multiply_assign(*h.mats.back(), b);
        rec::Ev("apply").kv("mat", h.mats.size()).kv("u", u).raw("blaze", vec(b, 1.)).raw("eigen", vec(b, 1.));
    }
    h.look();
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    kind<double, blaze::DynamicMatrix<double>>("dense", 10000);
    FULL(kind<C, blaze::DynamicMatrix<C>>("dense-complex", 20000);)
    kind<double, blaze::CompressedMatrix<double, blaze::rowMajor>>("sparse", 30000);
    FULL(kind<C, blaze::CompressedMatrix<C, blaze::rowMajor>>("sparse-complex", 40000);)
    kind<double, FunctionMatrix<double>>("function", 50000);
    FULL(kind<C, FunctionMatrix<C>>("function-complex", 60000);)
    for(unsigned long i = 0; i < (rec::thorough() ? 40 : 8); ++i) {
        rec::scenario("products-" + std::to_string(i), [=] { products<double>(70000 + i); });
        FULL(rec::scenario("blaze-products-" + std::to_string(i), [=] { blaze_products<double, blaze::DynamicMatrix<double>>(90000 + i); });)
        FULL(rec::scenario("blaze-products-complex-" + std::to_string(i), [=] { blaze_products<C, blaze::CompressedMatrix<C, blaze::rowMajor>>(95000 + i); });)
        FULL(rec::scenario("products-complex-" + std::to_string(i), [=] { products<C>(80000 + i); });)
    }
    return rec::run();
}
