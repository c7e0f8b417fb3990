// C12: operator bases
#include "hub.hpp"

#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>

using namespace hub;
namespace rs = ieompp::models::hubbard_real_space;
namespace ms = ieompp::models::hubbard_momentum_space;

template <typename B>
void conj(const B& b)
{
    const auto before = elements(b);
    const auto c      = b.get_conjugate();
    rec::Ev("conjugate").kv("inplace", false).raw("els", elements(c)).raw("before", before);
    const auto cc = c.get_conjugate();
    rec::Ev("conjugate").kv("inplace", false).raw("els", elements(c)).raw("before", elements(cc));
}

template <typename L>
void real(const L& l, unsigned long salt)
{
    rec::Rng g(salt);
    geometry(l);
    const long n = static_cast<long>(l.size());
    {
        using B = rs::Basis1Operator<Monomial>;
        B b(l);
        rec::Ev("basis").kv("kind", "real1").kv("n", b.N).raw("els", elements(b)).raw("traits", "[" + rec::v(bool(rs::IsOneOperatorBasis<B>::value)) + "," + rec::v(bool(rs::IsThreeOperatorBasis<B>::value)) + "]");
        conj(b);
    }
    {
        using B = rs::Basis3Operator<Monomial>;
        B b(l);
        rec::Ev("basis").kv("kind", "real3").kv("n", b.N).raw("els", elements(b)).raw("traits", "[" + rec::v(bool(rs::IsOneOperatorBasis<B>::value)) + "," + rec::v(bool(rs::IsThreeOperatorBasis<B>::value)) + "]");
        conj(b);
        rec::Ev("index").raw("of", rec::list(b, [&](const Monomial& m) { return m.size() == 3 ? rec::v(b.get_3op_index(m[0].index1, m[1].index1, m[2].index1)) : std::string("-1"); }));
        for(int k = 0; k < 20; ++k) {
            const std::vector<long> i{g.in(0, n - 1), g.in(0, n - 1), g.in(0, n - 1)};
            rec::Ev("at").kv("i", i).kv("r", b.get_3op_index(static_cast<std::size_t>(i[0]), static_cast<std::size_t>(i[1]), static_cast<std::size_t>(i[2])));
        }
    }
}

template <typename L>
void momentum(const L& l, long q, unsigned long salt)
{
    rec::Rng g(salt);
    geometry(l);
    const long n = static_cast<long>(l.size());
    using B      = ms::Basis3Operator<Monomial>;
    B b(static_cast<std::size_t>(q), l);
    rec::Ev("basis").kv("kind", "momentum3").kv("n", b.N).kv("q", q).raw("els", elements(b)).raw("traits", "[" + rec::v(bool(ms::IsOneOperatorBasis<B>::value)) + "," + rec::v(bool(ms::IsThreeOperatorBasis<B>::value)) + "]");
    conj(b);
    rec::Ev("index").raw("of", rec::list(b, [&](const Monomial& m) { return m.size() == 3 ? rec::v(b.get_3op_index(m[0].index1, m[1].index1)) : std::string("-1"); }));
    for(int k = 0; k < 10; ++k) {
        const std::vector<long> i{g.in(0, n - 1), g.in(0, n - 1)};
        rec::Ev("at").kv("i", i).kv("r", b.get_3op_index(static_cast<std::size_t>(i[0]), static_cast<std::size_t>(i[1])));
    }
    for(int k = 0; k < 3; ++k) {
        const auto before = elements(b);
        b.conjugate();
        rec::Ev("conjugate").kv("inplace", true).raw("els", elements(b)).raw("before", before);
    }
}

// large bases, at sampled positions: element and adjoint there, and where the index function finds operators
template <typename B, typename F, typename G>
void sampled(const char* kind, const B& b, long n, long q, F find, G sites, unsigned long salt, int count)
{
    rec::Rng g(salt);
    const auto c    = b.get_conjugate();
    const long size = static_cast<long>(b.size());
    std::vector<std::string> by_sites, by_position;
    for(int k = 0; k < count; ++k) {
        std::vector<long> i = sites(g, k);
        const auto r        = static_cast<std::size_t>(find(i));
        by_sites.push_back(rec::Obj().kv("i", i).kv("r", r).raw("el", r < b.size() ? element(b[r]) : "[]").raw("adj", r < c.size() ? element(c[r]) : "[]").done());
        const long at = k == 0 ? 0 : k == 1 ? size - 1 : k == 2 ? n - 1 : k == 3 ? std::min(n, size - 1) : k % 4 ? g.in(0, size - 1) : g.in(0, std::min(n, size - 1));
        const auto& m = b[static_cast<std::size_t>(at)];
        std::vector<long> ops;
        for(const auto& o : m) ops.push_back(static_cast<long>(o.index1));
        by_position.push_back(rec::Obj().kv("p", at).raw("el", element(m)).raw("adj", element(c[static_cast<std::size_t>(at)])).kv("r", m.size() == 3 ? static_cast<long>(find(ops)) : -1).done());
    }
    auto join = [](const std::vector<std::string>& l) {
        std::string r = "[";
        for(std::size_t i = 0; i < l.size(); ++i) r += (i ? "," : "") + l[i];
        return r + "]";
    };
    rec::Ev("sampled").kv("kind", kind).kv("n", b.N).kv("q", q).kv("size", size).kv("csize", c.size()).raw("sites", join(by_sites)).raw("positions", join(by_position));
}
template <typename L>
void vast_real(const L& l, unsigned long salt, int count)
{
    geometry(l);
    const long n = static_cast<long>(l.size());
    const rs::Basis3Operator<Monomial> b(l);
    sampled("real3", b, n, 0, [&](const std::vector<long>& i) { return b.get_3op_index(static_cast<uint64_t>(i[0]), static_cast<uint64_t>(i[1]), static_cast<uint64_t>(i[2])); },
            [&](rec::Rng& g, int k) { return k == 0 ? std::vector<long>{n - 1, n - 1, n - 1} : std::vector<long>{g.in(0, n - 1), g.in(0, n - 1), g.in(0, n - 1)}; }, salt, count);
    const rs::Basis1Operator<Monomial> b1(l);
    sampled("real1", b1, n, 0, [](const std::vector<long>& i) { return i[0]; }, [&](rec::Rng& g, int) { return std::vector<long>{g.in(0, n - 1)}; }, salt, 10);
}
// bases of one kind of operators only: long listings
void long_list(long n, unsigned long salt, int count)
{
    const Chain l(static_cast<uint64_t>(n), 1.);
    rec::Ev("geometry").kv("d", extents(l)).raw("pos", rec::list(l, [&](uint64_t i) { return "[" + rec::v(i) + "]"; }));
    const rs::Basis1Operator<Monomial> b(l);
    sampled("real1", b, n, 0, [](const std::vector<long>& i) { return i[0]; }, [&](rec::Rng& g, int k) { return std::vector<long>{k == 0 ? n - 1 : g.in(0, n - 1)}; }, salt, count);
}
template <typename L>
void vast_momentum(const L& l, long q, unsigned long salt, int count)
{
    geometry(l);
    const long n = static_cast<long>(l.size());
    const ms::Basis3Operator<Monomial> b(static_cast<uint64_t>(q), l);
    sampled("momentum3", b, n, q, [&](const std::vector<long>& i) { return b.get_3op_index(static_cast<uint64_t>(i[0]), static_cast<uint64_t>(i[1])); },
            [&](rec::Rng& g, int k) { return k == 0 ? std::vector<long>{n - 1, n - 1} : std::vector<long>{g.in(0, n - 1), g.in(0, n - 1)}; }, salt, count);
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    auto s        = [](long i) { return std::to_string(i); };
    for(long n = 1; n <= (th ? 9 : 6); ++n) rec::scenario("real-" + s(n), [=] { real(Chain(static_cast<uint64_t>(n), 1.), 1); });
    for(auto p : {std::make_pair(1ul, 3ul), {2ul, 2ul}, {2ul, 3ul}, {3ul, 2ul}}) rec::scenario("real-" + s(static_cast<long>(p.first)) + "x" + s(static_cast<long>(p.second)), [=] { real(Square(p.first, p.second, 1., 0.5), 2); });
    for(long n = 1; n <= (th ? 20 : 10); ++n)
        for(long q = 0; q < n; ++q) rec::scenario("mom-" + s(n) + "-" + s(q), [=] { momentum(Chain(static_cast<uint64_t>(n)), q, 3); });
    for(long n : {16l, 17l, 23l, 40l, 61l}) rec::scenario("mom-" + s(n), [=] { momentum(Chain(static_cast<uint64_t>(n)), rec::Rng(static_cast<unsigned long>(n)).in(0, n - 1), 4); });
    for(auto p : {std::make_pair(1ul, 3ul), {2ul, 2ul}, {2ul, 3ul}, {3ul, 2ul}, {3ul, 3ul}, {4ul, 3ul}, {2ul, 5ul}})
        for(unsigned long q = 0; q < p.first * p.second; ++q) rec::scenario("mom-" + s(static_cast<long>(p.first)) + "x" + s(static_cast<long>(p.second)) + "-" + s(static_cast<long>(q)), [=] { momentum(Square(p.first, p.second), static_cast<long>(q), 5); });
    for(auto p : {std::make_pair(5ul, 5ul), {7ul, 4ul}, {4ul, 7ul}, {1ul, 13ul}, {6ul, 6ul}}) rec::scenario("MOM-" + s(static_cast<long>(p.first)) + "x" + s(static_cast<long>(p.second)), [=] { momentum(Square(p.first, p.second), rec::Rng(p.first * 31 + p.second).in(0, static_cast<long>(p.first * p.second) - 1), 6); });
    rec::scenario("REAL-12", [=] { real(Chain(12, 1.), 7); });
    rec::scenario("REAL-4x4", [=] { real(Square(4, 4, 1., 1.), 8); });
    rec::scenario("VAST-real", [=] { vast_real(Chain(70, 1.), 11, 150); });
    rec::scenario("VAST-real2", [=] { vast_real(Square(9, 5, 1., 1.), 12, 150); });
    rec::scenario("VAST-mom", [=] { vast_momentum(Chain(300), 211, 13, 150); });
    rec::scenario("VAST-mom2", [=] { vast_momentum(Square(15, 18), 77, 14, 150); });
    for(long n : {300l, 5000l, 70001l}) rec::scenario("LONG-" + s(n), [=] { long_list(n, static_cast<unsigned long>(n), 60); });
    if(th) {
        rec::scenario("VAST-real3", [=] { vast_real(Chain(120, 1.), 15, 2000); });
        rec::scenario("VAST-mom3", [=] { vast_momentum(Square(24, 31), 123, 16, 2000); });
    }
    return rec::run();
}
