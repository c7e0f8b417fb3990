// C13: matrices of the equations of motion in real space
#include "rows.hpp"

#include <ieompp/types/blaze.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse_no.hpp>
#include <ieompp/models/hubbard_real_space/liouvillian.hpp>

using namespace hub;
namespace rs = ieompp::models::hubbard_real_space;
using B1     = rs::Basis1Operator<Monomial>;
using B3     = rs::Basis3Operator<Monomial>;

// parameters are multiples of 1/part (the equations are linear in them)
inline double number(long p, double part) { return static_cast<double>(p) / part; }
inline double scale(double part) { return part; }

template <typename S, typename L>
void orthogonal(const L& l, const std::vector<std::pair<long, long>>& params, double part = 1, std::size_t sample = 0)
{
    geometry(l);
    blaze::CompressedMatrix<S, blaze::rowMajor> m;
    const B3 b(l);
    if(l.size() % 2) m.resize(b.size() + 3, b.size() + 4, false); // used for something else before
    basis("real3", b);
    for(auto p : params) {
        const auto liou = rs::make_liouvillian<double>(number(p.first, part), number(p.second, part));
        rs::init_matrix(liou, m, b, l);
        matrix("orthogonal", m, p.first, p.second, 1, "[]", scale(part), false, sample);
    }
    const B1 b1(l);
    basis("real1", b1);
    for(auto p : params) {
        const auto liou = rs::make_liouvillian<double>(number(p.first, part), number(p.second, part));
        rs::init_kinetic_matrix(liou, m, b1, l);
        matrix("kinetic", m, p.first, p.second, 1, "[]", scale(part), false, sample);
    }
}

// two-point functions: functions of the distance (symmetric), or of the displacement (skew), times 4
template <typename S, typename L>
void normal(const L& l, const std::vector<std::pair<long, long>>& params, unsigned long salt, double part = 1, std::size_t sample = 0,
            bool skew = false)
{
    geometry(l);
    rec::Rng rng(salt);
    const auto n = l.size();
    auto ring    = [skew](long k, long a, long b) {
        const long x = std::labs(a - b);
        return skew ? (b - a + k) % k : std::min(x, k - x);
    };
    const auto d = extents(l);
    std::vector<std::vector<long>> t(40, std::vector<long>(40));
    for(auto& r : t)
        for(auto& x : r) x = rng.in(-4, 4);
    auto g4 = [&](uint64_t a, uint64_t b) {
        const auto p = position(l, a), q = position(l, b);
        return t[static_cast<std::size_t>(ring(d[0], p[0], q[0]))][d.size() > 1 ? static_cast<std::size_t>(ring(d[1], p[1], q[1])) : 0];
    };
    auto ev = [&](uint64_t a, uint64_t b) { return static_cast<double>(g4(a, b)) / 4.; };
    std::string g = "[";
    for(uint64_t i = 0; i < n; ++i) {
        g += i ? ",[" : "[";
        for(uint64_t j = 0; j < n; ++j) g += (j ? "," : "") + rec::v(g4(i, j));
        g += "]";
    }
    g += "]";
    blaze::CompressedMatrix<S, blaze::rowMajor> m;
    const B3 b(l);
    if(l.size() % 2) m.resize(b.size() + 3, b.size() + 4, false); // used for something else before
    basis("real3", b);
    for(auto p : params) {
        const auto liou = rs::make_liouvillian<double>(number(p.first, part), number(p.second, part));
        rs::init_matrix_no(liou, m, b, l, ev);
        matrix("normal", m, p.first, p.second, 4, g, 16 * scale(part), false, sample);
    }
    const B1 b1(l);
    basis("real1", b1);
    for(auto p : params) {
        const auto liou = rs::make_liouvillian<double>(number(p.first, part), number(p.second, part));
        rs::init_kinetic_matrix_no(liou, m, b1, l);
        matrix("kinetic", m, p.first, p.second, 1, "[]", scale(part), false, sample);
    }
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    using P       = std::vector<std::pair<long, long>>;
    const bool th = rec::thorough();
    auto chain    = [](long n) { return Chain(static_cast<uint64_t>(n), 1.); };
    for(long n = 3; n <= (th ? 9 : 6); ++n) {
        const auto s = std::to_string(n);
        rec::scenario("o" + s, [=] { orthogonal<double>(chain(n), P{{1, 2}, {0, 4}, {3, 0}}); });
        FULL(rec::scenario("oc" + s, [=] { orthogonal<std::complex<double>>(chain(n), P{{-5, 1000}, {2, -6}}); });)
        if(n < 6 || th) rec::scenario("n" + s, [=] { normal<double>(chain(n), P{{1, 1}, {2, -3}}, static_cast<unsigned long>(n)); });
    }
    FULL(rec::scenario("n3c", [=] { normal<std::complex<double>>(chain(3), P{{-1, 2}, {0, 5}, {7, 0}}, 20); });)
    FULL(rec::scenario("n4c", [=] { normal<std::complex<double>>(chain(4), P{{-1, 2}, {0, 5}}, 21); });)
    rec::scenario("o8", [=] { orthogonal<double>(chain(8), P{{1, 2}}); });
    rec::scenario("s3x3", [=] { orthogonal<double>(Square(3, 3, 1., 1.), P{{3, 10}}); });
    rec::scenario("n3x3", [=] { normal<double>(Square(3, 3, 1., 1.), P{{3, 7}}, 22); });
    rec::scenario("ohalf", [=] { orthogonal<double>(chain(4), P{{1, 6}, {-5, 2}, {1, -10}}, 4); });
    rec::scenario("nhalf", [=] { normal<double>(chain(4), P{{1, 3}, {-5, 1}, {1, -2}}, 25, 4); });
    rec::scenario("o17", [=] { orthogonal<double>(chain(17), P{{1, 6}}, 4, 60); });
    rec::scenario("n16", [=] { normal<double>(chain(16), P{{1, 3}}, 26, 2, 12); });
    rec::scenario("o5x4", [=] { orthogonal<double>(Square(5, 4, 1., 1.), P{{1, 6}}, 4, 40); });
    rec::scenario("n4x5", [=] { normal<double>(Square(4, 5, 1., 1.), P{{1, 3}}, 27, 2, 8); });
    rec::scenario("skew3", [=] { normal<double>(chain(3), P{{1, 1}, {2, -3}}, 60, 1, 0, true); });
    rec::scenario("skew4", [=] { normal<double>(chain(4), P{{1, 3}, {-2, 5}}, 61, 1, 0, true); });
    rec::scenario("skew7", [=] { normal<double>(chain(7), P{{1, 3}}, 62, 2, 40, true); });
    rec::scenario("skew4x3", [=] { normal<double>(Square(4, 3, 1., 1.), P{{3, 7}}, 63, 1, 20, true); });
    rec::scenario("n26", [=] { normal<double>(chain(26), P{{1, 3}}, 28, 2, 4); });
    rec::scenario("o27", [=] { orthogonal<double>(chain(27), P{{1, 6}}, 4, 20); });
    // tiny, huge and many-digit parameters
    const double tiny = std::ldexp(1., 40), huge = std::ldexp(1., -40);
    rec::scenario("otiny", [=] { orthogonal<double>(chain(4), P{{1, 6}, {-5, 2}, {1, -10}}, tiny); });
    rec::scenario("ohuge", [=] { orthogonal<double>(chain(4), P{{1, 6}, {-5, 2}}, huge); });
    rec::scenario("ntiny", [=] { normal<double>(chain(4), P{{1, 3}, {1, -2}}, 50, tiny); });
    rec::scenario("nhuge", [=] { normal<double>(chain(4), P{{1, 3}}, 51, huge); });
    rec::scenario("odigits", [=] { orthogonal<double>(chain(4), P{{33554433, 67108866}, {-33554431, 2}, {1, 67108870}}); });
    rec::scenario("ndigits", [=] { normal<double>(chain(4), P{{16777217, 16777219}, {1, -16777217}}, 52); });
    rec::scenario("ratio", [=] { orthogonal<double>(chain(3), P{{1, 2000002}, {1000001, 2}}, std::ldexp(1., 20)); normal<double>(chain(3), P{{1, 1000001}, {1000001, 1}}, 53, std::ldexp(1., 20)); });
    rec::scenario("again", [=] { // the same process, other parameters
        normal<double>(chain(4), P{{1, 1}}, 40);
        normal<double>(chain(3), P{{2, -3}}, 41);
        orthogonal<double>(chain(4), P{{1, 2}});
        normal<double>(chain(4), P{{-2, 5}}, 42);
        orthogonal<double>(chain(3), P{{-1, 4}});
        normal<double>(Square(3, 3, 1., 1.), P{{3, 7}}, 43, 1, 12);
        orthogonal<double>(chain(4), P{{5, -6}});
        normal<double>(chain(4), P{{1, 5}}, 44, 2);
        normal<double>(Square(3, 3, 1., 1.), P{{-1, 5}}, 45, 1, 12);
    });
    if(th) {
        rec::scenario("n5x6", [=] { normal<double>(Square(5, 6, 1., 1.), P{{1, 3}}, 29, 2, 8); }, 300);
        rec::scenario("o6x6", [=] { orthogonal<double>(Square(6, 6, 1., 1.), P{{1, 6}}, 4, 40); }, 300);
        rec::scenario("s3x4", [=] { orthogonal<double>(Square(3, 4, 1., 1.), P{{3, 10}}); });
        rec::scenario("s5x3", [=] { orthogonal<std::complex<double>>(Square(5, 3, 1., .5), P{{3, 10}}); }, 300);
        rec::scenario("n4x3", [=] { normal<double>(Square(4, 3, 1., 1.), P{{3, 7}}, 23); });
        rec::scenario("n7", [=] { normal<double>(chain(10), P{{3, 7}}, 24); });
    }
    return rec::run();
}
