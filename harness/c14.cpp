// C14: matrices of the equations of motion in momentum space
#include "hub.hpp"

#include <ieompp/types/blaze.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_momentum_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_momentum_space/liouvillian.hpp>

using namespace hub;
namespace ms = ieompp::models::hubbard_momentum_space;
using B3     = ms::Basis3Operator<Monomial>;

inline double re(double x) { return x; }
inline double re(const std::complex<double>& x)
{
    if(x.imag() != 0) rec::bad("imaginary part");
    return x.real();
}

template <typename M>
void matrix(const M& m, const std::vector<double>& eps, double U, long n, double scale, long tol, double unit = 1.)
{
    rec::Ev e("matrix");
    auto enc = [&](double x) { return tol ? rec::fix(x, scale) : rec::num(x * scale); };
    e.raw("U", enc(U)).kv("tol", tol).raw("eps", rec::list(eps, enc));
    e.raw("size", "[" + rec::v(m.rows()) + "," + rec::v(m.columns()) + "]").kv("finalized", m.finalized());
    std::string r = "[";
    for(std::size_t i = 0; i < m.rows(); ++i) {
        r += i ? ",[" : "[";
        bool first = true;
        for(auto it = m.begin(i); it != m.end(i); ++it) {
            if(!first) r += ",";
            first = false;
            r += "[" + rec::v(it->index()) + "," + enc(2. * static_cast<double>(n) * re(it->value()) * unit) + "]";
        }
        r += "]";
    }
    e.raw("rows", r + "]");
}

struct Table {
    std::vector<double> t;
    double operator()(uint64_t i) const { return t[i]; }
};

template <typename S, typename K, typename R>
void run(const K& k, const R& r, long q, unsigned long salt)
{
    rec::Rng g(salt);
    geometry(k);
    const long n = static_cast<long>(k.size());
    blaze::CompressedMatrix<S, blaze::rowMajor> m;
    if(salt % 2) m.resize(static_cast<std::size_t>(n * n + 5), static_cast<std::size_t>(n * n + 9), false); // used for something else before
    for(int rep = 0; rep < 3; ++rep) {
        B3 b(static_cast<std::size_t>(rep ? g.in(0, n - 1) : q), k);
        rec::Ev("basis").kv("q", b[0].front().index1).raw("els", elements(b));
        // arbitrary dispersions
        Table t;
        for(long i = 0; i < n; ++i) t.t.push_back(static_cast<double>(g.in(-20, 20)));
        const double U = static_cast<double>(2 * g.in(-30, 30));
        ms::Liouvillian<double, Table> liou{t, U};
        ms::init_matrix(liou, m, b, k);
        matrix(m, t.t, U, n, 1, 0);
        // the same in other units, and numbers with many digits
        for(int e : {-40, 40}) {
            ms::Liouvillian<double, Table> other{t, std::ldexp(U, e)};
            for(auto& x : other.dispersion.t) x = std::ldexp(x, e);
            ms::init_matrix(other, m, b, k);
            matrix(m, t.t, U, n, 1, 0, std::ldexp(1., -e));
        }
        if(n <= 4) {
            Table w;
            for(long i = 0; i < n; ++i) w.t.push_back(static_cast<double>(g.in(-20000000, 20000000)));
            const double W = 2. * static_cast<double>(g.in(10000000, 20000000)) * (g.flip() ? 1 : -1);
            ms::init_matrix(ms::Liouvillian<double, Table>{w, W}, m, b, k);
            matrix(m, w.t, W, n, 1, 0);
        }
        // the nearest-neighbour dispersion
        const double J = static_cast<double>(g.in(-300, 300)) / 100., V = static_cast<double>(g.in(-1000, 1000)) / 100.;
        const auto l2  = ms::make_liouvillian(k, r, J, V);
        ms::init_matrix(l2, m, b, k);
        std::vector<double> eps;
        for(long i = 0; i < n; ++i) {
            // -2J sum of cosines
            double x     = 0;
            const auto p = position(k, static_cast<uint64_t>(i)), d = extents(k);
            for(std::size_t a = 0; a < d.size(); ++a) x += std::cos(-3.14159265358979323846 + 2 * 3.14159265358979323846 * static_cast<double>(p[a]) / static_cast<double>(d[a]));
            eps.push_back(-2 * J * x);
        }
        matrix(m, eps, V, n, 1e5, 8 * n + 4);
    }
}

// large matrices: some rows (with the elements of their columns), and the number of entries of every row
template <typename K, typename R>
void vast(const K& k, const R& r, long q, unsigned long salt, int count)
{
    (void)r;
    rec::Rng g(salt);
    geometry(k);
    const long n = static_cast<long>(k.size());
    const B3 b(static_cast<std::size_t>(q), k);
    Table t;
    for(long i = 0; i < n; ++i) t.t.push_back(static_cast<double>(g.in(-20, 20)));
    const double U = static_cast<double>(2 * g.in(1, 30));
    const ms::Liouvillian<double, Table> liou{t, U};
    blaze::CompressedMatrix<double, blaze::rowMajor> m;
    ms::init_matrix(liou, m, b, k);
    for(int c = 0; c < count; ++c) {
        const auto row = static_cast<std::size_t>(c == 0 ? 0 : c == 1 ? n * n : g.in(0, n * n));
        rec::Ev e("row");
        e.kv("q", q).raw("U", rec::num(U)).raw("eps", rec::list(t.t, [](double x) { return rec::num(x); }));
        e.raw("size", "[" + rec::v(m.rows()) + "," + rec::v(m.columns()) + "]").kv("finalized", m.finalized()).kv("row", row).raw("el", element(b[row]));
        std::string l = "[";
        long cnt = 0, last = -1;
        bool rising = true;
        for(auto it = m.begin(row); it != m.end(row); ++it, ++cnt) {
            const long col = static_cast<long>(it->index());
            rising         = rising && col > last;
            last           = col;
            if(row != 0 || cnt < 3 || cnt % 500 == 7 || cnt + 2 > n * n) {
                l += (l.size() > 1 ? "," : "") + rec::Obj().kv("c", col).raw("el", col <= n * n ? element(b[static_cast<std::size_t>(col)]) : "[]").raw("v", rec::num(2. * static_cast<double>(n) * it->value())).done();
            }
        }
        e.kv("count", cnt).kv("rising", rising).raw("list", l + "]");
    }
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    auto s        = [](long i) { return std::to_string(i); };
    for(long n = 1; n <= (th ? 14 : 8); ++n)
        for(long q = 0; q < n; ++q) rec::scenario("m" + s(n) + "-" + s(q), [=] {
                const auto N = static_cast<uint64_t>(n);
                if(q % 2) run<double>(Chain(N), Chain(N, 1.), q, static_cast<unsigned long>(q));
#ifdef LEAN
                else run<double>(Chain(N), Chain(N, 1.), q, static_cast<unsigned long>(q));
#else
                else run<std::complex<double>>(Chain(N), Chain(N, 1.), q, static_cast<unsigned long>(q));
#endif
            });
    for(auto p : {std::make_pair(2ul, 2ul), {2ul, 3ul}, {3ul, 2ul}, {3ul, 3ul}, {4ul, 3ul}}) rec::scenario("s" + s(static_cast<long>(p.first)) + s(static_cast<long>(p.second)), [=] { run<double>(Square(p.first, p.second), Square(p.first, p.second, 1., 1.), 1, 50); });
    for(long n : {11l, 16l}) rec::scenario("m" + s(n), [=] { run<double>(Chain(static_cast<uint64_t>(n)), Chain(static_cast<uint64_t>(n), 1.), n / 3, 60); });
    rec::scenario("vast", [=] { vast(Chain(257), Chain(257, 1.), 100, 70, 60); });
    rec::scenario("vast2", [=] { vast(Square(17, 19), Square(17, 19, 1., 1.), 200, 71, 60); });
    return rec::run();
}
