// C21: triplet lists and matrix predicates
#include "rec.hpp"

#include <ieompp/types/triplet.hpp>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/blaze/matrix_insert.hpp>
#include <ieompp/types/eigen/traits.hpp>
#include <ieompp/types/function_matrix.hpp>
#include <ieompp/types/matrix_check.hpp>

#include <deque>
#include <map>
#include <sstream>

using C = std::complex<double>;
namespace t = ieompp::types;
using Z  = std::pair<long, long>;
using ZM = std::vector<std::vector<Z>>;

inline std::string enc(long d) { return "[" + rec::v(d) + ",0]"; }
// floating point numbers are recorded in this unit; numbers that differ by less than `tol` units count as equal
static double unit = 1.;
static long tol    = 1;
struct Units {
    Units(double u, long t)
    {
        unit = u;
        tol  = t;
    }
    ~Units()
    {
        unit = 1.;
        tol  = 1;
    }
};
inline std::string enc(double d) { return "[" + rec::v(d / unit) + ",0]"; }
inline std::string enc(const C& d) { return rec::v(d / unit); }
inline void set(const Z& z, long& x) { x = z.first; }
inline void set(const Z& z, double& x) { x = static_cast<double>(z.first) * unit; }
inline void set(const Z& z, C& x) { x = C(static_cast<double>(z.first) * unit, static_cast<double>(z.second) * unit); }
template <typename S>
struct Cx {
    static constexpr bool value = false;
};
template <>
struct Cx<C> {
    static constexpr bool value = true;
};

template <typename S, typename I>
struct Lists {
    using L = t::TripletList<S, I>;
    std::deque<L> ls;
    rec::Rng r;
    // rows and columns are recorded by their position in a list of increasing numbers (empty: as they are)
    std::vector<I> wide;
    explicit Lists(unsigned long salt, std::vector<I> w = std::vector<I>()) : r(salt), wide(std::move(w)) {}
    I to(long i) const { return wide.empty() ? static_cast<I>(i) : wide.at(static_cast<std::size_t>(i)); }
    std::string from(I i) const
    {
        if(wide.empty()) return rec::v(i);
        for(std::size_t k = 0; k < wide.size(); ++k)
            if(wide[k] == i) return rec::v(k);
        return rec::bad("unknown row or column");
    }
    std::string dump(const L& x) const
    {
        return rec::list(x, [this](const t::Triplet<S, I>& y) { return "[" + from(y.row) + "," + from(y.column) + "," + enc(y.value) + "]"; });
    }
    std::string dump() const
    {
        return rec::list(ls, [this](const L& x) { return dump(x); });
    }
    void make()
    {
        ls.emplace_back();
        rec::Ev("new").raw("lists", dump());
    }
    void add(std::size_t id, long row, long col, const Z& z)
    {
        S v;
        set(z, v);
        if(r.flip())
            ls[id].emplace_back(to(row), to(col), v);
        else
            ls[id].push_back(t::Triplet<S, I>(to(row), to(col), v));
        rec::Ev("add").kv("id", id + 1).raw("t", "[" + rec::v(row) + "," + rec::v(col) + "," + enc(v) + "]").raw("lists", dump());
    }
    void clear(std::size_t id)
    {
        ls[id].clear();
        rec::Ev("clear").kv("id", id + 1).raw("lists", dump());
    }
    void sort(std::size_t id)
    {
        ls[id].sort();
        rec::Ev("sort").kv("id", id + 1).raw("lists", dump());
    }
    void unique(std::size_t id)
    {
        const L& x = ls[id];
        auto u     = x.make_columns_unique();
        rec::Ev("unique").kv("id", id + 1).raw("res", dump(u)).raw("lists", dump());
        ls.push_back(u);
    }
    void has(std::size_t id)
    {
        const L& x   = ls[id];
        const bool b = x.has_unique_columns();
        rec::Ev("hasunique").kv("id", id + 1).kv("res", b).raw("lists", dump());
    }
    void run(std::size_t steps)
    {
        make();
        long row = r.in(0, 3);
        std::vector<long> rows{row};
        for(std::size_t k = 0; k < steps; ++k) {
            const auto id = static_cast<std::size_t>(r.in(0, static_cast<long>(ls.size()) - 1));
            switch(r.in(0, 11)) {
            case 0: sort(id); break;
            case 1: if(ls.size() < 5) { unique(id); rows.push_back(rows[id]); } break;
            case 2: has(id); break;
            case 3: sort(id); if(ls.size() < 5) { unique(id); rows.push_back(rows[id]); } has(ls.size() - 1); break;
            case 4: if(r.in(0, 2) == 0) clear(id); break;
            case 5: sort(id); has(id); break;
            default: if(ls[id].size() < 24) add(id, rows[id], r.in(0, 5), Z{r.in(-2, 2), Cx<S>::value ? r.in(-1, 1) : 0});
            }
        }
    }
    // all lists up to three triplets over two columns
    void small()
    {
        const std::vector<long> vals = {-1, 0, 1};
        for(int n = 0; n < 4; ++n) {
            int count = 1;
            for(int i = 0; i < n; ++i) count *= 6;
            for(int c = 0; c < count; ++c) {
                ls.clear();
                rec::Ev("begin").kv("sc", "small");
                make();
                int x = c;
                for(int i = 0; i < n; ++i) {
                    add(0, 2, x % 2, Z{vals[static_cast<std::size_t>(x / 2 % 3)], 0});
                    x /= 6;
                }
                unique(0);
                sort(0);
                has(0);
                unique(0);
                has(2);
            }
        }
    }
};

template <typename S>
std::string zm(const ZM& m)
{
    return rec::v(m);
}
template <typename Mat>
std::string read(const Mat& m, std::size_t rows, std::size_t cols)
{
    std::string s = "[";
    for(std::size_t i = 0; i < rows; ++i) {
        s += i ? ",[" : "[";
        for(std::size_t j = 0; j < cols; ++j) s += (j ? "," : "") + enc(m(i, j));
        s += "]";
    }
    return s + "]";
}
template <typename S>
blaze::DynamicMatrix<S> dense(const ZM& a, std::size_t rows, std::size_t cols)
{
    blaze::DynamicMatrix<S> m(rows, cols);
    for(std::size_t i = 0; i < rows; ++i)
        for(std::size_t j = 0; j < cols; ++j) set(a[i][j], m(i, j));
    return m;
}
template <typename S>
blaze::CompressedMatrix<S> sparse(const ZM& a, std::size_t rows, std::size_t cols)
{
    blaze::CompressedMatrix<S> m(rows, cols);
    m.reserve(rows * cols);
    for(std::size_t i = 0; i < rows; ++i) {
        for(std::size_t j = 0; j < cols; ++j) {
            S v;
            set(a[i][j], v);
            if(a[i][j] != Z(0, 0)) m.append(i, j, v);
        }
        m.finalize(i);
    }
    return m;
}
// the same matrix, filled entry by entry in some order
template <typename S, bool O>
blaze::CompressedMatrix<S, O> inserted(const ZM& a, std::size_t rows, std::size_t cols, rec::Rng& r)
{
    blaze::CompressedMatrix<S, O> m(rows, cols);
    std::vector<std::pair<std::size_t, std::size_t>> todo;
    for(std::size_t i = 0; i < rows; ++i)
        for(std::size_t j = 0; j < cols; ++j)
            if(a[i][j] != Z(0, 0)) todo.emplace_back(i, j);
    while(!todo.empty()) {
        const auto k = static_cast<std::size_t>(r.in(0, static_cast<long>(todo.size()) - 1));
        S v;
        set(a[todo[k].first][todo[k].second], v);
        t::matrix_insert(m, todo[k].first, todo[k].second, v);
        todo.erase(todo.begin() + static_cast<long>(k));
    }
    return m;
}
template <typename S>
t::FunctionMatrix<S> function(const ZM& a, std::size_t rows, std::size_t cols)
{
    return t::FunctionMatrix<S>(rows, cols, [a](std::size_t i, std::size_t j) {
        S v;
        set(a[i][j], v);
        return v;
    });
}
template <typename M>
void check(const char* kind, const M& m, const ZM& a, std::size_t rows, std::size_t cols)
{
    rec::Ev("check").kv("kind", kind).kv("rows", rows).kv("cols", cols).kv("m", a).kv("tol", tol).kv("quadratic", t::is_quadratic(m)).kv("symmetric", t::is_symmetric(m)).kv("hermitian", t::is_hermitian(m)).kv("zero", t::IsZero(m)).raw("read", read(m, rows, cols));
}
template <typename S, typename I>
void check(const char* kind, const t::FunctionMatrix<S, I>& m, const ZM& a, std::size_t rows, std::size_t cols)
{
    if(unit != 1.) {
        rec::Ev("check").kv("kind", kind).kv("rows", rows).kv("cols", cols).kv("m", a).kv("tol", tol).kv("quadratic", t::is_quadratic(m)).kv("symmetric", t::is_symmetric(m)).kv("hermitian", t::is_hermitian(m)).raw("read", read(m, rows, cols));
        return;
    }
    // the printed text: rows of tokens
    std::ostringstream strm;
    strm << m;
    std::istringstream text(strm.str());
    strm.str("");
    strm << 7.25;
    std::vector<std::vector<std::string>> tokens;
    for(std::string line; std::getline(text, line);) {
        tokens.emplace_back();
        std::istringstream words(line);
        for(std::string w; words >> w;) tokens.back().push_back(w);
    }
    rec::Ev("check").kv("kind", kind).kv("rows", rows).kv("cols", cols).kv("m", a).kv("tol", tol).kv("quadratic", t::is_quadratic(m)).kv("symmetric", t::is_symmetric(m)).kv("hermitian", t::is_hermitian(m)).raw("read", read(m, rows, cols)).kv("after", strm.str()).kv("scalar", Cx<S>::value ? "complex" : std::is_floating_point<S>::value ? "float" : "integer").raw("text", rec::list(tokens, [](const std::vector<std::string>& x) { return rec::list(x, [](const std::string& y) { return rec::str(y); }); }));
}

// all small matrices and larger ones that are special up to one entry
template <typename S>
std::vector<ZM> matrices(rec::Rng& r, std::size_t rows, std::size_t cols, int count)
{
    std::vector<ZM> res;
    const std::vector<Z> e = Cx<S>::value ? std::vector<Z>{{0, 0}, {1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-2, 3}} : std::vector<Z>{{0, 0}, {1, 0}, {-1, 0}, {2, 0}};
    for(int k = 0; k < count; ++k) {
        ZM a(rows, std::vector<Z>(cols, Z(0, 0)));
        const int what = static_cast<int>(r.in(0, 5));
        for(std::size_t i = 0; i < rows; ++i)
            for(std::size_t j = 0; j < cols; ++j)
                if(what != 0) a[i][j] = r.pick(e);
        if(what == 2 || what == 3)
            for(std::size_t i = 0; i < std::min(rows, cols); ++i)
                for(std::size_t j = 0; j < std::min(std::min(rows, cols), i + 1); ++j) a[j][i] = a[i][j];
        if(what == 4 || what == 5)
            for(std::size_t i = 0; i < std::min(rows, cols); ++i) {
                for(std::size_t j = 0; j < i; ++j) a[j][i] = Z(a[i][j].first, -a[i][j].second);
                a[i][i].second = 0;
            }
        if(rows && cols && (what == 0 || what == 3 || what == 5) && r.flip()) {
            auto& x = a[static_cast<std::size_t>(r.in(0, static_cast<long>(rows) - 1))][static_cast<std::size_t>(r.in(0, static_cast<long>(cols) - 1))];
            x.first += r.in(0, 1);
            if(Cx<S>::value) x.second += r.in(0, 1);
        }
        res.push_back(a);
    }
    return res;
}

// larger matrices that are special up to at most one entry
template <typename S>
void larger(unsigned long salt)
{
    rec::Rng r(salt);
    for(int k = 0; k < (rec::thorough() ? 40 : 10); ++k) {
        const auto n = static_cast<std::size_t>(r.in(9, 18));
        const bool zero = k % 3 == 0, conj = r.flip();
        ZM a(n, std::vector<Z>(n, Z(0, 0)));
        for(std::size_t i = 0; i < n && !zero; ++i)
            for(std::size_t j = 0; j <= i; ++j) {
                a[i][j] = Z(r.in(-2, 2), Cx<S>::value && (i != j || !conj) ? r.in(-2, 2) : 0);
                a[j][i] = conj ? Z(a[i][j].first, -a[i][j].second) : a[i][j];
            }
        if(k % 2 == 0) {
            // the first and the last row or column are as likely as all others
            const auto place = [&]() { return r.in(0, 2) ? static_cast<std::size_t>(r.in(0, static_cast<long>(n) - 1)) : r.flip() ? std::size_t(0) : n - 1; };
            auto& x = a[place()][place()];
            if(Cx<S>::value && r.flip())
                x.second += 1;
            else
                x.first += 1;
        }
        check("dense", dense<S>(a, n, n), a, n, n);
        check("sparse", sparse<S>(a, n, n), a, n, n);
        check("function", function<S>(a, n, n), a, n, n);
        check("inserted", inserted<S, blaze::columnMajor>(a, n, n, r), a, n, n);
    }
}
// much larger matrices: a known pattern and a few deviating entries
template <typename S>
void large(unsigned long salt)
{
    rec::Rng r(salt);
    for(int k = 0; k < (rec::thorough() ? 150 : 60); ++k) {
        const auto n  = static_cast<std::size_t>(r.in(65, 180));
        const auto pattern = Cx<S>::value ? r.in(0, 3) : r.in(0, 1);
        auto base = [&](std::size_t i, std::size_t j) {
            const auto x = static_cast<long>(i) + 1, y = static_cast<long>(j) + 1;
            const long re = pattern == 0 ? 0 : (x + y) % 3, im = pattern < 2 ? 0 : (x * y) % 4;
            return Z(re, pattern == 3 && x == y ? 0 : pattern == 3 && x > y ? -im : im);
        };
        ZM a(n, std::vector<Z>(n));
        for(std::size_t i = 0; i < n; ++i)
            for(std::size_t j = 0; j < n; ++j) a[i][j] = base(i, j);
        std::vector<std::vector<long>> devs;
        const auto place = [&]() { return r.flip() ? r.in(0, static_cast<long>(n) - 1) : r.flip() ? 0 : static_cast<long>(n) - 1; };
        auto deviate = [&](long i, long j, long re, long im) {
            for(const auto& d : devs)
                if(d[0] == i + 1 && d[1] == j + 1) return;
            devs.push_back({i + 1, j + 1, re, im});
            auto& x = a[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)];
            x.first += re;
            x.second += im;
        };
        if(r.in(0, 3)) {
            const long i = place(), j = place(), re = r.in(0, 1), im = Cx<S>::value ? 1 - re : 0;
            deviate(i, j, re, im);
            if(r.in(0, 2) == 0) deviate(j, i, re, r.flip() ? im : -im); // both entries of a pair
        }
        auto emit = [&](const char* kind, const auto& m, int zero) {
            rec::Ev e("large");
            e.kv("kind", kind).kv("n", n).kv("pattern", pattern).kv("devs", devs).kv("quadratic", t::is_quadratic(m)).kv("symmetric", t::is_symmetric(m)).kv("hermitian", t::is_hermitian(m));
            if(zero >= 0) e.kv("zero", zero != 0);
        };
        const auto d = dense<S>(a, n, n);
        emit("dense", d, t::IsZero(d));
        const auto s = sparse<S>(a, n, n);
        emit("sparse", s, t::IsZero(s));
        emit("function", function<S>(a, n, n), -1);
    }
}
// sums of tenths leave residues far below a tenth of the machine's epsilon: they are zero
template <typename S>
void tenths(unsigned long salt)
{
    const Units u(0.1, 1);
    for(unsigned long k = 0; k < (rec::thorough() ? 60ul : 12ul); ++k) {
        Lists<S, int> ls(salt + k);
        rec::Ev("begin").kv("sc", "tenths");
        ls.make();
        // up to three values of at most four tenths per column
        std::vector<long> todo;
        for(long c = 0; c < 6; ++c)
            for(long x = ls.r.in(0, 3); x > 0; --x) todo.push_back(c);
        std::map<long, std::vector<Z>> values;
        for(long c : todo) {
            auto& v = values[c];
            Z z{ls.r.in(-4, 4), Cx<S>::value ? ls.r.in(-4, 4) : 0};
            if(v.size() == 2 && ls.r.flip()) {
                z = Z{-v[0].first - v[1].first, -v[0].second - v[1].second};
                if(std::abs(z.first) > 4 || std::abs(z.second) > 4) z = Z{1, 0};
            }
            v.push_back(z);
        }
        while(!todo.empty()) {
            const auto at = static_cast<std::size_t>(ls.r.in(0, static_cast<long>(todo.size()) - 1));
            auto& v       = values[todo[at]];
            ls.add(0, 1, todo[at], v.back());
            v.pop_back();
            todo.erase(todo.begin() + static_cast<long>(at));
        }
        if(ls.r.in(0, 3)) ls.sort(0);
        ls.unique(0);
        ls.sort(0);
        ls.has(0);
        ls.unique(0);
        ls.has(2);
    }
}
// numbers around the tolerance, in quarters of the machine's epsilon
template <typename S>
void dust(unsigned long salt)
{
    const Units u(std::ldexp(1., -54), 4);
    rec::Rng r(salt);
    for(int k = 0; k < (rec::thorough() ? 300 : 80); ++k) {
        const auto n = static_cast<std::size_t>(r.in(1, 5)), c = r.in(0, 5) ? n : static_cast<std::size_t>(r.in(1, 5));
        ZM a(n, std::vector<Z>(c, Z(0, 0)));
        const bool big = r.flip(), conj = r.flip();
        for(std::size_t i = 0; i < n; ++i)
            for(std::size_t j = 0; j < c; ++j) {
                const long d = r.in(0, 12) == 0 ? 5 : 3;
                if(n == c && big && j < i) {
                    a[i][j] = Z(a[j][i].first + r.in(-d, d), Cx<S>::value ? (conj ? -1 : 1) * a[j][i].second + r.in(-d, d) : 0);
                } else {
                    a[i][j] = Z(big ? r.in(-1000, 1000) : r.in(-d, d), Cx<S>::value ? (big && i != j ? r.in(-1000, 1000) : r.in(-d / 3, d / 3)) : 0);
                }
            }
        check("dense", dense<S>(a, n, c), a, n, c);
        check("sparse", sparse<S>(a, n, c), a, n, c);
        check("function", function<S>(a, n, c), a, n, c);
        ZM b = a;
        for(auto& x : b)
            for(auto& y : x) {
                const long d = r.in(0, 20) == 0 ? 5 : 3;
                y.first += r.in(-d, d);
                if(Cx<S>::value) y.second += r.in(-d, d);
            }
        const auto f = function<S>(a, n, c);
        const auto g = function<S>(b, n, c);
        rec::Ev("compare").kv("with", "function").kv("a", a).kv("ar", n).kv("ac", c).kv("b", b).kv("br", n).kv("bc", c).kv("tol", tol).kv("eq", f == g).kv("ne", f != g);
    }
}

// ---- what the library knows about types
template <typename X> struct Named { static const char* text() { return "other"; } };
template <> struct Named<long> { static const char* text() { return "long"; } };
template <> struct Named<float> { static const char* text() { return "float"; } };
template <> struct Named<double> { static const char* text() { return "double"; } };
template <> struct Named<C> { static const char* text() { return "complex"; } };
template <typename X, typename S>
void traits(rec::Ev& e, const char* kind)
{
    e.kv("kind", kind).kv("matrix", t::IsMatrix<X>::value + 0 != 0).kv("vector", t::IsVector<X>::value + 0 != 0).kv("row", t::IsRowVector<X>::value + 0 != 0).kv("column", t::IsColumnVector<X>::value + 0 != 0).kv("scalar", Named<typename t::ScalarType<X>::Type>::text()).kv("written", Named<S>::text());
}
template <typename S>
void types_of(unsigned long salt)
{
    rec::Rng r(salt);
    const auto size = [](std::size_t a, std::size_t b) { return std::vector<std::size_t>{a, b}; };
    const auto matrix = [&](auto m) {
        using X = decltype(m);
        m.resize(static_cast<std::size_t>(r.in(0, 9)), static_cast<std::size_t>(r.in(0, 9)));
        rec::Ev e("traits");
        traits<X, S>(e, "matrix"); e.kv("size", size(m.rows(), m.columns())).kv("dims", size(t::MatrixDimensionInfo<X>::rows(m), t::MatrixDimensionInfo<X>::columns(m)));
    };
    matrix(blaze::DynamicMatrix<S, blaze::rowMajor>());
    matrix(blaze::DynamicMatrix<S, blaze::columnMajor>());
    matrix(blaze::CompressedMatrix<S, blaze::rowMajor>());
    matrix(blaze::CompressedMatrix<S, blaze::columnMajor>());
    const auto column = [&](auto v) {
        using X = decltype(v);
        v.resize(static_cast<std::size_t>(r.in(0, 9)));
        rec::Ev e("traits");
        traits<X, S>(e, "column"); e.kv("size", size(v.size(), 0)).kv("dims", size(t::MatrixDimensionInfo<X>::rows(v), t::MatrixDimensionInfo<X>::columns(v)));
    };
    column(blaze::DynamicVector<S, blaze::columnVector>());
    column(blaze::CompressedVector<S, blaze::columnVector>());
    { rec::Ev e("traits"); traits<blaze::DynamicVector<S, blaze::rowVector>, S>(e, "row"); }
    { rec::Ev e("traits"); traits<blaze::CompressedVector<S, blaze::rowVector>, S>(e, "row"); }
    { rec::Ev e("traits"); traits<S, S>(e, "number"); }
}

template <typename S>
void predicates(unsigned long salt)
{
    rec::Rng r(salt);
    for(std::size_t rows = 0; rows < 5; ++rows)
        for(std::size_t cols = 0; cols < 5; ++cols)
            for(const auto& a : matrices<S>(r, rows, cols, rows == cols ? (rec::thorough() ? 60 : 14) : 3)) {
                check("dense", dense<S>(a, rows, cols), a, rows, cols);
                check("sparse", sparse<S>(a, rows, cols), a, rows, cols);
                check("inserted", inserted<S, blaze::rowMajor>(a, rows, cols, r), a, rows, cols);
                check("inserted", inserted<S, blaze::columnMajor>(a, rows, cols, r), a, rows, cols);
                check("function", function<S>(a, rows, cols), a, rows, cols);
            }
}
template <typename S>
void comparisons(unsigned long salt)
{
    using EM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
    rec::Rng r(salt);
    for(int k = 0; k < (rec::thorough() ? 600 : 120); ++k) {
        const auto rows = static_cast<std::size_t>(r.in(1, 4)), cols = static_cast<std::size_t>(r.in(1, 4));
        auto a = matrices<S>(r, rows, cols, 1)[0], b = a;
        std::size_t br = rows, bc = cols;
        const auto what = r.in(0, 4);
        if(what == 1) { br = static_cast<std::size_t>(r.in(1, 4)); bc = cols; b = matrices<S>(r, br, bc, 1)[0]; for(std::size_t i = 0; i < std::min(rows, br); ++i) b[i] = a[i]; }
        if(what == 2) { bc = static_cast<std::size_t>(r.in(1, 4)); b = matrices<S>(r, br, bc, 1)[0]; for(std::size_t i = 0; i < rows; ++i) for(std::size_t j = 0; j < std::min(cols, bc); ++j) b[i][j] = a[i][j]; }
        if(what == 3) { auto& x = b[static_cast<std::size_t>(r.in(0, static_cast<long>(rows) - 1))][static_cast<std::size_t>(r.in(0, static_cast<long>(cols) - 1))]; if(Cx<S>::value && r.flip()) x.second += 1; else x.first += 1; }
        const auto f = function<S>(a, rows, cols);
        const auto g = function<S>(b, br, bc);
        auto emit = [&](const char* with, bool eq, bool ne) {
            rec::Ev("compare").kv("with", with).kv("a", a).kv("ar", rows).kv("ac", cols).kv("b", b).kv("br", br).kv("bc", bc).kv("tol", tol).kv("eq", eq).kv("ne", ne);
        };
        emit("function", f == g, f != g);
        EM e(static_cast<long>(br), static_cast<long>(bc));
        for(std::size_t i = 0; i < br; ++i)
            for(std::size_t j = 0; j < bc; ++j) set(b[i][j], e(static_cast<long>(i), static_cast<long>(j)));
        emit("eigen", f == e, f != e);
    }
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    rec::scenario("small-double", [] { Lists<double, int>(1).small(); });
    FULL(rec::scenario("small-long", [] { Lists<long, uint64_t>(2).small(); });)
    FULL(rec::scenario("small-complex", [] { Lists<C, long>(3).small(); });)
    for(unsigned long i = 0; i < (rec::thorough() ? 60 : 12); ++i) {
        rec::scenario("double-" + std::to_string(i), [=] { Lists<double, uint64_t>(100 + i).run(60); });
        FULL(rec::scenario("complex-" + std::to_string(i), [=] { Lists<C, uint64_t>(200 + i).run(60); });)
        FULL(rec::scenario("long-" + std::to_string(i), [=] { Lists<long, int>(300 + i).run(60); });)
    }
    const std::vector<uint64_t> u{0, 1, 1ul << 31, (1ul << 32) + 1, (1ul << 53) + 1, (1ul << 63) + 1};
    const std::vector<int> w{0, 40000, 70000, 1 << 24, (1 << 30) + 1, 2147483647};
    const std::vector<long> v{-(1l << 40), -1, 0, 255, 1l << 32, 1l << 62};
    for(unsigned long i = 0; i < (rec::thorough() ? 20 : 4); ++i) {
        rec::scenario("wide-uint64-" + std::to_string(i), [=] { Lists<double, uint64_t>(1000 + i, u).run(60); });
        rec::scenario("wide-int-" + std::to_string(i), [=] { Lists<long, int>(1100 + i, w).run(60); });
        FULL(rec::scenario("wide-long-" + std::to_string(i), [=] { Lists<C, long>(1200 + i, v).run(60); });)
    }
    for(unsigned long i = 0; i < (rec::thorough() ? 10 : 2); ++i) {
        rec::scenario("dust-double-" + std::to_string(i), [=] { dust<double>(1400 + i); });
        rec::scenario("dust-complex-" + std::to_string(i), [=] { dust<C>(1500 + i); });
    }
    rec::scenario("types", [] { types_of<double>(1600); types_of<C>(1601); types_of<float>(1602); types_of<long>(1603); });
    rec::scenario("tenths-double", [] { tenths<double>(1700); });
    FULL(rec::scenario("tenths-complex", [] { tenths<C>(1750); });)
    rec::scenario("large-double", [] { large<double>(1800); });
    rec::scenario("large-complex", [] { large<C>(1801); });
    FULL(rec::scenario("large-long", [] { large<long>(1802); });)
    rec::scenario("larger-double", [] { larger<double>(1300); });
    FULL(rec::scenario("larger-complex", [] { larger<C>(1301); });)
    FULL(rec::scenario("larger-long", [] { larger<long>(1302); });)
    for(unsigned long i = 0; i < (rec::thorough() ? 8 : 2); ++i) {
        rec::scenario("predicates-double-" + std::to_string(i), [=] { predicates<double>(400 + i); });
        FULL(rec::scenario("predicates-complex-" + std::to_string(i), [=] { predicates<C>(500 + i); });)
        FULL(rec::scenario("predicates-long-" + std::to_string(i), [=] { predicates<long>(600 + i); });)
        rec::scenario("comparisons-double-" + std::to_string(i), [=] { comparisons<double>(700 + i); });
        FULL(rec::scenario("comparisons-complex-" + std::to_string(i), [=] { comparisons<C>(800 + i); });)
        FULL(rec::scenario("comparisons-long-" + std::to_string(i), [=] { comparisons<long>(900 + i); });)
    }
    return rec::run();
}
