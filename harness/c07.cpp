// C07/C08: expectation values in the Fermi sea and the particle number (mode by argument)
#include "alg.hpp"

#include <ieompp/algebra/monomial.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp>
#include <ieompp/models/hubbard_momentum_space/particle_number.hpp>
#include <ieompp/types/number.hpp>

using namespace alg;
using namespace ieompp::models;
using namespace ieompp::models::hubbard_momentum_space;
using ieompp::lattices::PeriodicChain;

using Op   = Operator<uint64_t, bool>;
using Mono = Monomial<Op>;
using Basis = Basis3Operator<Mono>;

template <typename F>
struct Table {
    using Float = F;
    std::vector<F> d;
    F operator()(uint64_t k) const { return d.at(k); }
};

std::string element(const Mono& m)
{
    // the shape of the elements is checked by C12; anything else is reported
    const bool good = (m.size() == 1 && m[0].creator && m[0].index2)
                      || (m.size() == 3 && m[0].creator && m[0].index2 && m[1].creator && !m[1].index2
                          && !m[2].creator && !m[2].index2);
    if(!good) return rec::bad("basis element");
    return rec::list(m, [](const Op& o) { return rec::v(o.index1); });
}

template <typename L>
std::string clist(const L& l)
{
    return rec::list(l, [](const typename L::value_type& c) {
        return "[" + rec::v(c.left_index) + "," + rec::v(c.right_index) + "," + rec::num(c.value) + "]";
    });
}

template <typename Space, typename Disp>
void run(const Space& bz, uint64_t q, const Disp& disp, typename Disp::Float ef, double scale, bool contributions, int vectors, unsigned long salt)
{
    using F = typename Disp::Float;
    const uint64_t n = bz.size();
    const Basis basis(q, bz);
    const auto conj = basis.get_conjugate();
    {
        std::string t;
        for(uint64_t k = 0; k < n; ++k) t += (k ? "," : "") + rec::fix(disp(k), scale);
        rec::Ev("system").kv("n", n).kv("q", q).raw("disp", "[" + t + "]").raw("ef", rec::fix(ef, scale)).raw("basis", rec::list(basis, element));
    }
    if(contributions) {
        NonVanishingExpectationValues<uint64_t, F> c(basis, conj, disp, ef);
        rec::Ev("contributions").raw("list", clist(c));
        auto s = c;
        rec::Rng g(salt);
        std::shuffle(s.begin(), s.end(), g.g);
        const auto before = clist(s);
        s.sort();
        rec::Ev("listsort").raw("before", before).raw("after", clist(s));
        // any contributions, their indices recorded relative to a base
        for(uint64_t base : {uint64_t(256), uint64_t(1) << 16, uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 53, uint64_t(1) << 63}) {
            s.clear();
            for(long k = g.in(2, 40); k > 0; --k) s.emplace_back(typename std::decay<decltype(s[0])>::type{base + static_cast<uint64_t>(g.in(-3, 3)), base + static_cast<uint64_t>(g.in(-3, 3)), F(1)});
            auto rel = [&](decltype(s) l) {
                for(auto& x : l) x.left_index -= base - 8, x.right_index -= base - 8;
                return clist(l);
            };
            const auto b = rel(s);
            s.sort();
            rec::Ev("listsort").raw("before", b).raw("after", rel(s));
        }
    }
    if(vectors) {
        const auto number = make_particle_number<Basis, Disp, F>(basis, conj, disp, ef);
        rec::Rng g(salt + 1);
        for(int v = 0; v < vectors; ++v) {
            std::vector<std::complex<F>> vec(basis.size());
            // initial vector, sparse and dense vectors
            const long density = v == 0 ? 0 : v == 1 ? 100 : g.in(2, 100);
            if(v == 0) {
                vec[0] = 1.;
            } else {
                for(auto& z : vec) {
                    if(g.in(1, 100) <= density) z = std::complex<F>(static_cast<F>(g.in(-3, 3)), static_cast<F>(g.in(-3, 3)));
                }
            }
            if(v > 1 && v % 3 == 0) { // scaled by a Gaussian integer
                for(auto& z : vec) z *= std::complex<F>(2, -1);
            }
            // single precision: rounded to the nearest integer
            const auto whole = [](double x) { return std::numeric_limits<F>::digits < 30 && std::abs(x) < 1e5 ? std::round(x) : x; };
            rec::Ev("number").kv("vec", vec).kv("res", whole(static_cast<double>(number(vec))));
            {   // times a power of two: tiny and huge coefficients
                const int e = std::vector<int>{-20, -40, 40, -3}[static_cast<std::size_t>(v) % 4];
                auto w      = vec;
                for(auto& z : w) z *= std::ldexp(F(1), e);
                rec::Ev("number").kv("vec", vec).kv("res", whole(std::ldexp(static_cast<double>(number(w)), -2 * e)));
            }
            {   // times a number of modulus 1/sqrt(d): values that are no round numbers
                const double d   = static_cast<double>(2 * g.in(1, 12) + 1);
                const double phi = 0.37 * static_cast<double>(g.in(1, 1000));
                std::vector<std::complex<double>> w(vec.begin(), vec.end());
                for(auto& z : w) z *= std::polar(1. / std::sqrt(d), phi);
                std::vector<std::complex<F>> u(w.begin(), w.end());
                rec::Ev("number").kv("vec", vec).kv("res", whole(d * static_cast<double>(number(u))));
            }
            if(v > 1 && v % 2) { // a real vector type
                std::vector<F> re;
                for(auto& z : vec) re.push_back(z.real());
                std::vector<std::complex<F>> rc(re.begin(), re.end());
                rec::Ev("number").kv("vec", rc).kv("res", whole(static_cast<double>(number(rc))));
            }
        }
    }
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    bool contr = false, num = false;
    for(int i = 1; i < argc; ++i) {
        contr = contr || std::string(argv[i]) == "--contributions";
        num   = num || std::string(argv[i]) == "--number";
    }
    const bool th   = rec::thorough();
    const int vecs  = num ? (th ? 14 : 8) : 0;
    // every start momentum and every filling pattern of small chains
    for(uint64_t n = 1; n <= (th ? 5u : 4u); ++n) {
        for(uint64_t q = 0; q < n; ++q) {
            rec::scenario("all-" + to_string(n) + "-" + to_string(q), [=] {
                for(unsigned mask = 0; mask < (1u << n); ++mask) {
                    Table<double> t;
                    // the energies in units of 1 or 2^-30: no gap is too small to count
                    const double unit = mask % 2 ? std::ldexp(1., -30) : 1.;
                    for(uint64_t k = 0; k < n; ++k) t.d.push_back(unit * ((mask >> k) & 1 ? -1. : static_cast<double>(k % 2)));
                    run(PeriodicChain<double>(n), q, t, 0., 1. / unit, contr, vecs / 2, mask + 100 * n);
                }
            });
        }
    }
    // large systems (few vectors, mostly sparse ones)
    for(uint64_t n : {12u, 17u})
        rec::scenario("large-" + to_string(n), [=] {
            rec::Rng g(2000 + n);
            Table<double> t;
            for(uint64_t k = 0; k < n; ++k) t.d.push_back(static_cast<double>(g.in(-2, 2)));
            run(PeriodicChain<double>(n), static_cast<uint64_t>(g.in(0, static_cast<long>(n) - 1)), t, static_cast<double>(g.in(-1, 2)), 1., contr, num ? 4 : 0, n);
        });
    if(num)
        rec::scenario("huge", [=] {
            Table<double> t;
            for(uint64_t k = 0; k < 26; ++k) t.d.push_back(k * k % 7 < 3 ? -1. : 1.);
            run(PeriodicChain<double>(26), 5, t, 0., 1., false, 3, 3);
        });
    // momenta in two dimensions
    for(auto p : {std::make_pair(2ul, 2ul), {1ul, 4ul}, {2ul, 3ul}, {3ul, 2ul}, {3ul, 3ul}})
        for(unsigned long r = 0; r < (p.first * p.second > 8 ? 2u : 6u); ++r)
            rec::scenario("sq-" + to_string(p.first) + "x" + to_string(p.second) + "-" + to_string(r), [=] {
                using ieompp::lattices::PeriodicSquareLattice;
                const PeriodicSquareLattice<double> bz(p.first, p.second);
                rec::Rng g(900 + 7 * r + p.first);
                Table<double> t;
                for(uint64_t k = 0; k < bz.size(); ++k) t.d.push_back(static_cast<double>(g.in(-2, 2)));
                run(bz, static_cast<uint64_t>(g.in(0, static_cast<long>(bz.size()) - 1)), t, .5 * static_cast<double>(g.in(-3, 3)), 4., contr, vecs, r);
            });
    // the Hubbard dispersion at arbitrary fillings, and arbitrary dispersions
    for(int r = 0; r < (th ? 120 : 28); ++r) {
        rec::scenario("hub-" + to_string(r), [=] {
            rec::Rng g(static_cast<unsigned long>(r) * 5 + 1);
            const uint64_t n = static_cast<uint64_t>(g.in(2, th ? 11 : 8));
            PeriodicChain<double> bz(n), real(n, 1.);
            const auto d    = hubbard::make_dispersion(bz, real, 1.);
            const double ef = 0.001234 * static_cast<double>(g.in(-1800, 1800)) + 0.0003;
            run(bz, static_cast<uint64_t>(g.in(0, static_cast<long>(n) - 1)), d, ef, 1e6, contr, vecs, static_cast<unsigned long>(r));
        });
#ifndef LEAN
        rec::scenario("tab-" + to_string(r), [=] {
            rec::Rng g(static_cast<unsigned long>(r) * 5 + 3);
            const uint64_t n = static_cast<uint64_t>(g.in(2, th ? 10 : 7));
            Table<float> d;
            const float unit = r % 2 ? std::ldexp(1.f, -30) : 1.f;
            for(uint64_t k = 0; k < n; ++k) d.d.push_back(unit * static_cast<float>(g.in(-2, 2)));
            run(PeriodicChain<double>(n), static_cast<uint64_t>(g.in(0, static_cast<long>(n) - 1)), d, unit * static_cast<float>(g.in(-2, 3)), 1. / static_cast<double>(unit), contr, vecs, static_cast<unsigned long>(r) + 77);
        });
#endif
    }
    return rec::run();
}
