// C22: everything that runs in parallel regions, under every thread number and many schedules
#include "hub.hpp"
#include "vomp.hpp"

#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>

#include <ieompp/types/blaze.hpp>
#include <ieompp/types/eigen/multiply_assign.hpp>
#include <ieompp/types/blaze/multiply_assign.hpp>
#include <ieompp/constants.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_momentum_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_momentum_space/liouvillian.hpp>
#include <ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp>
#include <ieompp/models/hubbard_momentum_space/particle_number.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse_no.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump_no.hpp>
#include <ieompp/models/hubbard_real_space/liouvillian.hpp>
#include <ieompp/models/hubbard_real_space/site_occupation.hpp>
#include <ieompp/ode/rk4.hpp>

using namespace hub;
namespace rs = ieompp::models::hubbard_real_space;
namespace ms = ieompp::models::hubbard_momentum_space;
namespace hb = ieompp::models::hubbard;
using B1     = rs::Basis1Operator<Monomial>;
using B3     = rs::Basis3Operator<Monomial>;
using M3     = ms::Basis3Operator<Monomial>;
using C      = std::complex<double>;
using SV     = std::vector<C>;

// ------------------------------------------------------------------ runs
// values are compared in units of 1/scale
struct Values {
    std::vector<double> v;
    void operator()(double x) { v.push_back(x); }
    void operator()(const C& x)
    {
        v.push_back(x.real());
        v.push_back(x.imag());
    }
    template <typename B>
    void basis(const B& b)
    {
        v.push_back(static_cast<double>(b.size()));
        for(const auto& m : b) {
            v.push_back(static_cast<double>(m.size()));
            for(const auto& o : m) v.push_back(static_cast<double>(4 * o.index1 + 2 * static_cast<uint64_t>(o.index2) + static_cast<uint64_t>(o.creator)));
        }
    }
    template <typename M>
    void matrix(const M& m)
    {
        for(std::size_t i = 0; i < m.rows(); ++i)
            for(auto it = m.begin(i); it != m.end(i); ++it) {
                v.push_back(static_cast<double>(i));
                v.push_back(static_cast<double>(it->index()));
                (*this)(it->value());
            }
    }
};
using Job = std::function<void(Values&)>;

std::vector<std::vector<int>> patterns;
std::string file;

// fields of an event that may be long: at most 4000 values, the rest folded into sums
std::string encode(const std::vector<double>& v, double scale)
{
    std::vector<double> w(v.begin(), v.begin() + static_cast<long>(std::min<std::size_t>(v.size(), 1500)));
    for(std::size_t i = 1500; i < v.size(); i += 4096) {
        double s = 0, t = 0;
        for(std::size_t j = i; j < std::min(v.size(), i + 4096); ++j) {
            s += v[j];
            t += v[j] * static_cast<double>(1 + j % 7);
        }
        w.push_back(s / 4096.);
        w.push_back(t / 4096.);
    }
    w.push_back(static_cast<double>(v.size()) / scale);
    return rec::list(w, [&](double x) { return rec::fix(x, scale); });
}

std::set<std::string> seen;
void epochs()
{
    char* text    = vomp_take();
    std::string s = text;
    free(text);
#ifndef VOMP_PLAIN
    // [{..},{..}] -> one event per distinct epoch
    std::size_t i = 1;
    while(i < s.size() && s[i] == '{') {
        int depth     = 0;
        std::size_t j = i;
        do {
            if(s[j] == '{') ++depth;
            if(s[j] == '}') --depth;
            ++j;
        } while(depth > 0);
        const std::string e = s.substr(i + 1, j - i - 2);
        if(seen.insert(e).second) {
            rec::Ev ev("epoch");
            ev.s += "," + e;
        }
        i = j + 1;
    }
#endif
}

// detail: 2 all schedules, 1 no schedules of the specification, 0 few teams
void run(const std::string& name, double scale, const Job& job, long tol = 1, int detail = 2)
{
    seen.clear();
    auto once = [&](int max, int actual, int policy, unsigned long seed, const std::vector<int>& p) {
        vomp_setup(max, actual, policy, seed, p.data(), static_cast<long>(p.size()));
        Values x;
        job(x);
        epochs();
        return x.v;
    };
    {
        const auto v = once(1, 1, 0, 0, {});
        rec::Ev("sequential").kv("name", name).raw("vals", encode(v, scale));
    }
    auto par = [&](int max, int actual, int policy, unsigned long seed, const std::vector<int>& p) {
        const auto v = once(max, actual, policy, seed, p);
        rec::Ev("parallel").kv("name", name).kv("max", max).kv("team", actual).kv("policy", policy).kv("switches", vomp_switches()).kv("tol", tol).raw("vals", encode(v, scale));
    };
    const bool th = rec::thorough();
    if(detail == 0) {
        par(5, 5, 0, 0, {});
        par(64, 64, 1, 0, {});
        par(8, 8, 2, 1, {});
        return;
    }
    for(int t : {2, 3, 4, 5, 7, 8, 16, 33, 64}) {
        par(t, t, 0, 0, {});
        par(t, t, 1, 0, {});
    }
    for(auto mt : std::vector<std::pair<int, int>>{{4, 2}, {8, 3}, {16, 1}, {5, 4}, {33, 8}}) {
        par(mt.first, mt.second, 0, 0, {});
        par(mt.first, mt.second, 2, 1, {});
    }
#ifndef VOMP_PLAIN
    const unsigned long reps = th ? 12 : 2;
    for(unsigned long s = 1; s <= reps; ++s)
        for(int t : {2, 3, 5, 8}) par(t, t, 2, s, {});
    if(detail == 2) {
        // behaviours of the specification as schedules
        const std::size_t step = th ? std::max<std::size_t>(1, patterns.size() / 400) : std::max<std::size_t>(1, patterns.size() / 12);
        for(std::size_t i = rec::st().seed % step; i < patterns.size(); i += step)
            for(int t : {2, 3}) par(t, t, 3, 0, patterns[i]);
    }
#else
    for(unsigned long s = 1; s <= 4; ++s)
        for(int t : {2, 3, 5, 8, 33}) par(t, t, 2, s, {});
    (void)th;
    (void)detail;
#endif
    vomp_setup(1, 1, 0, 0, nullptr, 0);
}

// ------------------------------------------------------------------ inputs
struct TwoPoint {
    std::shared_ptr<std::vector<std::vector<double>>> g;
    double operator()(const Op& a, const Op& b) const { return (*g)[a.index1][b.index1]; }
};
TwoPoint symmetric(rec::Rng& r, uint64_t n)
{
    TwoPoint t{std::make_shared<std::vector<std::vector<double>>>(n, std::vector<double>(n))};
    for(uint64_t i = 0; i < n; ++i)
        for(uint64_t j = 0; j < n; ++j) (*t.g)[i][j] = j < i ? (*t.g)[j][i] : static_cast<double>(r.in(-2, 2)) / 2.;
    return t;
}
SV vec(rec::Rng& r, std::size_t n, long m = 2)
{
    SV v(n);
    for(auto& x : v) x = {static_cast<double>(r.in(-m, m)), static_cast<double>(r.in(-m, m))};
    return v;
}
template <typename V>
V to(const SV& v)
{
    V w(v.size());
    for(std::size_t i = 0; i < v.size(); ++i) w[static_cast<long>(i)] = v[i];
    return w;
}

// ------------------------------------------------------------------ computations
template <typename L>
void bases(const L& l)
{
    run("bases", 1, [l](Values& x) {
        const B1 a(l);
        x.basis(a.get_conjugate());
        const B3 b(l);
        x.basis(b.get_conjugate());
        x.basis(b);
    });
}
void momentum_bases(uint64_t n, std::size_t q)
{
    const Chain k(n);
    run("momentum bases", 1, [k, q](Values& x) {
        M3 b(q, k);
        x.basis(b.get_conjugate());
        b.conjugate();
        x.basis(b);
    });
}
template <typename L>
void dispersion(const L& l, const L& k)
{
    run("dispersion", 1e6, [l, k](Values& x) {
        const auto d = hb::make_dispersion(k, l, 1.5);
        for(uint64_t i = 0; i < k.size(); ++i) x(d(i));
    });
}
void table1(uint64_t n, unsigned long salt)
{
    rec::Rng r(salt);
    const Chain l(n, .5);
    const double k = .1 * static_cast<double>(r.in(1, 40));
    run("table1", 1e6, [l, k](Values& x) {
        const rs::ExpectationValue1DHalfFilled<double, Chain> e(l, .25, k);
        for(uint64_t i = 0; i < l.size(); ++i) {
            x(e(0, i));
            x(e(i, l.size() / 2));
        }
    });
}
void table2(uint64_t a, uint64_t b)
{
    const Square l(a, b, 1., 1.);
    run("table2", 1e6, [l](Values& x) {
        const rs::ExpectationValue2DHalfFilled<double, Square> e(l);
        for(uint64_t i = 0; i < l.size(); ++i) x(e(0, i));
    });
}
template <typename S>
auto set_symmetry(S& s, bool b, int) -> decltype(s.exploit_inversion_symmetry = b, void())
{
    s.exploit_inversion_symmetry = b;
}
template <typename S>
void set_symmetry(S&, bool, long)
{
}
template <typename B, typename L>
void occupation(const L& l, bool symmetry, unsigned long salt, int detail)
{
    rec::Rng r(salt);
    const B b(l), c = b.get_conjugate();
    const auto g = symmetric(r, l.size());
    const auto v = vec(r, b.size(), 1), w = vec(r, b.size(), 1);
    run(
        "occupation", 1024,
        [=](Values& x) {
            rs::SiteOccupation<double, B> so{g, b, c};
            set_symmetry(so, symmetry, 0);
            x(so(v));
            x(so(w));
            x(so(to<blaze::DynamicVector<C>>(v)));
        },
        1, detail);
}
void jumps(uint64_t n, unsigned long salt, int detail)
{
    rec::Rng r(salt);
    const Chain l(n, 1.);
    const B1 b1(l);
    const B3 b3(l);
    const auto g = symmetric(r, n);
    const auto v = vec(r, b3.size(), 1), w = vec(r, b3.size(), 1), u = vec(r, b1.size());
    const double big = n > 10 ? 4096. : 1.;
    const double k = .25 * static_cast<double>(r.in(1, 9));
    run(
        "jumps", 1000,
        [=](Values& x) {
            const rs::FermiJump1D<double, B3> three(b3, l, g, k);
            const rs::FermiJump1D<double, B1> one(l, g, k);
            const rs::FermiJump1D_NO<double, B1> no1(l, g);
            const rs::FermiJump1D_NO<double, B3> no3(l, g);
            for(uint64_t i = 0; i < n; ++i) {
                x(one.fourier_coefficient(i));
                x(no1.fourier_coefficient(i));
                x(no3.fourier_coefficient(i));
                x(three.fourier_coefficients()[i]);
            }
            x(three(v) / big);
            x(one(b1, u));
            x(no1(u));
            x(no3(v) / big);
            x(three(w) / big);
            x(three(to<blaze::DynamicVector<C>>(v)) / big);
        },
        2, detail);
}
void jump2(uint64_t a, uint64_t b, unsigned long salt, int detail)
{
    rec::Rng r(salt);
    const Square l(a, b, 1., 1.);
    const B3 b3(l);
    const auto g = symmetric(r, l.size());
    const auto v = vec(r, b3.size(), 1), w = vec(r, b3.size(), 1);
    const double big = l.size() > 10 ? 4096. : 1.;
    const Square::Vector k{{.25 * static_cast<double>(r.in(1, 9)), .25 * static_cast<double>(r.in(1, 9))}};
    run(
        "jump2", 1000,
        [=](Values& x) {
            const rs::FermiJump2D<double, B3> j(b3, l, g, k);
            for(const auto& c : j.fourier_coefficients()) x(c);
            x(j(v) / big);
            x(j(w) / big);
        },
        2, detail);
}
// products with matrices given by functions, alone and inside of Runge-Kutta steps
void function_matrix(std::size_t n, unsigned long salt)
{
    rec::Rng r(salt);
    std::vector<SV> a;
    for(std::size_t i = 0; i < n; ++i) a.push_back(vec(r, n));
    const auto v = vec(r, n), w = vec(r, n);
    run("function matrix", 1000, [=](Values& x) {
        using FM = ieompp::types::FunctionMatrix<C>;
        const FM m(n, n, [&a](std::size_t i, std::size_t j) { return a[i][j]; });
        auto bv = to<blaze::DynamicVector<C>>(v);
        ieompp::types::multiply_assign(m, bv);
        for(std::size_t i = 0; i < n; ++i) x(bv[i]);
        bv = to<blaze::DynamicVector<C>>(w);
        ieompp::types::multiply_assign(m, bv);
        ieompp::types::multiply_assign(m, bv);
        for(std::size_t i = 0; i < n; ++i) x(bv[i]);
        ieompp::ode::RK4<double> rk(n, .125);
        bv = to<blaze::DynamicVector<C>>(v);
        rk.step(m, bv);
        for(std::size_t i = 0; i < n; ++i) x(bv[i] / 1000.);
        // the indices of Eigen are signed
        const ieompp::types::FunctionMatrix<C, Eigen::Index> em(static_cast<long>(n), static_cast<long>(n), [&a](long i, long j) { return a[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)]; });
        Eigen::VectorXcd ev = to<Eigen::VectorXcd>(v);
        ieompp::types::multiply_assign(em, ev);
        for(std::size_t i = 0; i < n; ++i) x(ev[static_cast<long>(i)]);
    },
        1, n < 6 ? 2 : 1);
}
template <typename L>
void matrices(const L& l, unsigned long salt)
{
    rec::Rng r(salt);
    const auto g = symmetric(r, l.size());
    run(
        "matrices", 16,
        [=](Values& x) {
            const B3 b3(l);
            const B1 b1(l);
            const auto liou = rs::make_liouvillian<double>(3., 2.);
            blaze::CompressedMatrix<C, blaze::rowMajor> m;
            rs::init_matrix(liou, m, b3, l);
            x.matrix(m);
            rs::init_kinetic_matrix(liou, m, b1, l);
            x.matrix(m);
            rs::init_matrix_no(liou, m, b3, l, [&g](uint64_t a, uint64_t b) { return (*g.g)[a][b]; });
            x.matrix(m);
        },
        1, 1);
}
void momentum(uint64_t n, std::size_t q, unsigned long salt)
{
    rec::Rng r(salt);
    const Chain l(n, 1.), k(n);
    const M3 basis(q, k);
    const auto v = vec(r, basis.size());
    run(
        "momentum", 1000,
        [=](Values& x) {
            const auto d = hb::make_dispersion(k, l, 1.);
            const auto liou = ms::make_liouvillian(k, l, 1., 2.);
            blaze::CompressedMatrix<C, blaze::rowMajor> m;
            ms::init_matrix(liou, m, basis, k);
            x.matrix(m);
            const auto conj = basis.get_conjugate();
            const auto pn = ms::make_particle_number<M3, decltype(d), double>(basis, conj, d, .3);
            x(pn(v));
        },
        1, 1);
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    for(int i = 1; i + 1 < argc; ++i)
        if(std::string(argv[i]) == "--schedules") {
            std::ifstream f(argv[i + 1]);
            std::string line;
            while(std::getline(f, line)) {
                std::istringstream s(line);
                std::vector<int> p;
                int t;
                while(s >> t) p.push_back(t);
                if(!p.empty()) patterns.push_back(p);
            }
        }
    const bool th = rec::thorough();
    for(uint64_t n : {2, 3, 4}) rec::scenario("bases" + std::to_string(n), [=] { bases(Chain(n, 1.)); });
    rec::scenario("bases2x2", [] { bases(Square(2, 2, 1., 1.)); });
    for(uint64_t n : {2, 4, 7}) rec::scenario("momentum-bases" + std::to_string(n), [=] { momentum_bases(n, n / 2); });
    for(uint64_t n : {2, 5, 16, 41, 100}) rec::scenario("dispersion" + std::to_string(n), [=] { dispersion(Chain(n, 1.), Chain(n)); });
    rec::scenario("dispersion4x3", [] { dispersion(Square(4, 3, 1., 1.), Square(4, 3)); });
    rec::scenario("dispersion9x7", [] { dispersion(Square(9, 7, 1., 1.), Square(9, 7)); });
    for(uint64_t n : {2, 7, 24, 90}) rec::scenario("table" + std::to_string(n), [=] { table1(n, n); });
    rec::scenario("table4x6", [] { table2(4, 6); });
    rec::scenario("table13x8", [] { table2(13, 8); });
    for(uint64_t n : {2, 5, 12, 40}) rec::scenario("occupation1-" + std::to_string(n), [=] { occupation<B1>(Chain(n, 1.), false, n, n < 10 ? 2 : 1); }, 300);
    for(bool s : {false, true}) {
        rec::scenario("occupation3-2" + std::to_string(s), [=] { occupation<B3>(Chain(2, 1.), s, 50 + s, 2); }, 120);
        rec::scenario("occupation3-3" + std::to_string(s), [=] { occupation<B3>(Chain(3, 1.), s, 60 + s, th ? 2 : 1); }, 300);
        rec::scenario("occupation3-6" + std::to_string(s), [=] { occupation<B3>(Chain(6, 1.), s, 85 + s, 0); }, 300);
        if(th) rec::scenario("occupation3-4" + std::to_string(s), [=] { occupation<B3>(Chain(4, 1.), s, 70 + s, 1); }, 600);
        if(th) rec::scenario("occupation3-2x2" + std::to_string(s), [=] { occupation<B3>(Square(2, 2, 1., 1.), s, 80 + s, 1); }, 600);
    }
    for(uint64_t n : {2, 3, 5, 8}) rec::scenario("jumps" + std::to_string(n), [=] { jumps(n, 90 + n, n < 4 ? 2 : 1); }, 120);
    rec::scenario("jump2x2", [] { jump2(2, 2, 110, 2); }, 120);
    rec::scenario("jump3x2", [] { jump2(3, 2, 111, 1); }, 120);
    // more iterations than threads in every region
    rec::scenario("jumps39", [] { jumps(39, 112, 0); }, 300);
    rec::scenario("jump6x6", [] { jump2(6, 6, 113, 0); }, 300);
    rec::scenario("occupation1-130", [] { occupation<B1>(Chain(130, 1.), false, 114, 0); }, 300);
    if(th) rec::scenario("jumps20", [] { jumps(20, 120, 1); }, 600);
    if(th) rec::scenario("jump5x4", [] { jump2(5, 4, 121, 1); }, 600);
    for(std::size_t n : {1, 2, 3, 5, 11, 30}) rec::scenario("function" + std::to_string(n), [=] { function_matrix(n, 130 + n); }, 300);
    rec::scenario("matrices3", [] { matrices(Chain(3, 1.), 140); }, 120);
    rec::scenario("matrices3x3", [] { matrices(Square(3, 3, 1., 1.), 141); }, 300);
    for(uint64_t n : {2, 4, 5}) rec::scenario("momentum" + std::to_string(n), [=] { momentum(n, n / 2, 150 + n); }, 120);
    return rec::run();
}
