// C11: site iterators
#include "rec.hpp"

#include <algorithm>
#include <limits>
#include <fstream>
#include <iterator>
#include <numeric>

#include <ieompp/iterators/integer_iterator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>

using ieompp::iterators::IntegerIterator;

template <typename T, bool c>
struct Run {
    using It = IntegerIterator<T, c>;
    using D  = typename std::iterator_traits<It>::difference_type;
    std::vector<It> its;
    // positions are recorded relative to this one
    const T base;
    // and in this unit
    const long unit;
    explicit Run(T b = 0, long u = 1) : base(b), unit(u) {}

    static long sgn(T x) { return static_cast<long>(static_cast<typename std::make_signed<T>::type>(x)); }
    // value of what an increment or decrement returns
    long val(It i) const { return val(*i); }
    long val(T x) const { return units(sgn(static_cast<T>(x - base))); }
    T at(long x) const { return static_cast<T>(base + static_cast<T>(x * unit)); }
    long units(long d) const
    {
        if(d % unit) rec::bad("not a multiple of the unit");
        return d / unit;
    }
    std::string pos()
    {
        std::vector<long> r;
        for(auto i : its) r.push_back(val(i));
        return rec::v(r);
    }
    void make(const std::vector<long>& from)
    {
        its.clear();
        for(auto x : from) its.push_back(It(at(x)));
        rec::Ev("make").kv("from", from).raw("pos", pos());
    }
    void op(const std::string& s, long a_, long b_, long n)
    {
        It& a = its[static_cast<std::size_t>(a_ - 1)];
        It& b = its[static_cast<std::size_t>(b_ - 1)];
        const D d = static_cast<D>(n * unit);
        long r = 0;
        if(s == "preinc") r = val(++a);
        else if(s == "postinc") r = val(a++);
        else if(s == "predec") r = val(--a);
        else if(s == "postdec") r = val(a--);
        else if(s == "addassign") r = val(a += d);
        else if(s == "subassign") r = val(a -= d);
        else if(s == "assign") r = val(a = b);
        else if(s == "swap") { a.swap(b); r = val(a); }
        else if(s == "stdswap") { std::swap(a, b); r = val(a); }
        else if(s == "setplus") { a = b + d; r = val(a); }
        else if(s == "setminus") { a = b - d; r = val(a); }
        else if(s == "copy") { It x(a); r = val(x); ++x; }
        else if(s == "deref") r = val(*a);
        else if(s == "plus") r = val(a + d);
        else if(s == "nplus") r = val(d + a);
        else if(s == "index") r = val(T(a[d]));
        else if(s == "next") r = val(std::next(a, d));
        else if(s == "minus") r = val(a - d);
        else if(s == "prev") { It x(a); std::advance(x, -d); r = val(x); }
        else if(s == "diff") r = units(sgn(static_cast<T>(a - b)));
        else if(s == "distance") r = units(sgn(static_cast<T>(std::distance(b, a))));
        rec::Ev("it").kv("do", s).kv("a", a_).kv("b", b_).kv("n", n).kv("r", r).raw("pos", pos());
    }
    void cmp(long a_, long b_)
    {
        const It& a = its[static_cast<std::size_t>(a_ - 1)];
        const It& b = its[static_cast<std::size_t>(b_ - 1)];
        std::string r = "[" + rec::v(a < b) + "," + rec::v(a > b) + "," + rec::v(a <= b) + "," + rec::v(a >= b) + "," + rec::v(a == b) + "," + rec::v(a != b) + "]";
        rec::Ev("cmp").kv("a", a_).kv("b", b_).raw("r", r).raw("pos", pos());
    }
    void algorithms(long a_, long b_, long x)
    {
        const It a = its[static_cast<std::size_t>(a_ - 1)];
        const It b = its[static_cast<std::size_t>(b_ - 1)];
        std::vector<std::vector<long>> vis;
        {
            std::vector<T> w(a, b);
            std::vector<long> r;
            for(auto y : w) r.push_back(val(y));
            vis.push_back(r);
        }
        {
            std::vector<long> r;
            std::for_each(a, b, [&](T y) { r.push_back(val(y)); });
            vis.push_back(r);
        }
        {
            std::vector<long> r;
            std::transform(a, b, std::back_inserter(r), [&](T y) { return val(y); });
            vis.push_back(r);
        }
        {
            // back to front
            std::vector<long> r;
            for(It i = b; i != a;) {
                --i;
                r.push_back(val(i));
            }
            std::reverse(r.begin(), r.end());
            vis.push_back(r);
        }
        {
            // even offsets, then odd ones
            std::vector<long> r(static_cast<std::size_t>(b - a));
            for(std::size_t o = 0; o < 2; ++o)
                for(It i = a + static_cast<D>(o); i < b; i += 2) r[static_cast<std::size_t>(i - a)] = val(i);
            vis.push_back(r);
        }
        std::vector<long> cnt{sgn(static_cast<T>(std::distance(a, b))), static_cast<long>(std::count_if(a, b, [](T) { return true; }))};
        const T t = at(x);
        rec::Ev("algorithms").kv("a", a_).kv("b", b_).kv("x", x).kv("visits", vis).kv("counts", cnt).kv("find", val(std::find_if(a, b, [&](T y) { return y == t; }))).kv("lower", val(std::lower_bound(a, b, t))).kv("binary", std::binary_search(a, b, t)).raw("pos", pos());
    }

    void history(unsigned long salt, long lo, long hi, long steps)
    {
        static const std::vector<std::string> all{"preinc", "postinc", "predec", "postdec", "addassign", "subassign", "assign", "swap", "stdswap", "setplus", "setminus", "copy", "deref", "plus", "nplus", "index", "next", "minus", "prev", "diff", "distance"};
        rec::Rng g(salt);
        const long k = g.in(1, 4);
        std::vector<long> p;
        for(long i = 0; i < k; ++i) p.push_back(g.in(lo, hi));
        make(p);
        auto in = [&](long x) { return x >= lo && x <= hi; };
        for(long s = 0; s < steps; ++s) {
            const auto o = g.pick(all);
            if(unit != 1 && (o == "preinc" || o == "postinc" || o == "predec" || o == "postdec")) continue;
            const long a = g.in(1, k), b = g.in(1, k);
            const long P = p[static_cast<std::size_t>(a - 1)], Q = p[static_cast<std::size_t>(b - 1)];
            long n       = g.in(0, 3) ? g.in(0, 5) : g.in(-(hi - lo), hi - lo);
            if(g.in(0, 3) == 0) n = -n;
            long r = P, q = Q;
            if(o == "preinc" || o == "postinc") r = P + 1;
            else if(o == "predec" || o == "postdec") r = P - 1;
            else if(o == "addassign" || o == "plus" || o == "nplus" || o == "index" || o == "next") r = P + n;
            else if(o == "subassign" || o == "minus" || o == "prev") r = P - n;
            else if(o == "setplus") r = Q + n;
            else if(o == "setminus") r = Q - n;
            else if(o == "assign") r = Q;
            else if(o == "swap" || o == "stdswap") { r = Q; q = P; }
            if(!in(r)) continue;
            if(o == "swap" || o == "stdswap") { p[static_cast<std::size_t>(b - 1)] = q; p[static_cast<std::size_t>(a - 1)] = r; if(a == b) p[static_cast<std::size_t>(a - 1)] = P; }
            else if(o != "plus" && o != "nplus" && o != "index" && o != "next" && o != "minus" && o != "prev" && o != "copy" && o != "deref" && o != "diff" && o != "distance") p[static_cast<std::size_t>(a - 1)] = r;
            op(o, a, b, n);
            if(g.in(0, 3) == 0) cmp(g.in(1, k), g.in(1, k));
            if(unit == 1 && g.in(0, 9) == 0) {
                const long i = g.in(1, k), j = g.in(1, k);
                const long u = p[static_cast<std::size_t>(i - 1)], w = p[static_cast<std::size_t>(j - 1)];
                if(u <= w && w - u < 60) algorithms(i, j, g.in(std::max(lo, u - 2), w + 2));
            }
        }
    }
};

template <typename T, bool c>
void behaviours(const std::string& path, const std::string& name)
{
    std::ifstream f(path);
    std::vector<std::string> lines;
    for(std::string s; std::getline(f, s);) lines.push_back(s);
    const std::size_t chunk = 200;
    for(std::size_t i = 0; i < lines.size(); i += chunk) {
        rec::scenario(name + std::to_string(i), [=] {
            Run<T, c> r;
            for(std::size_t j = i; j < std::min(lines.size(), i + chunk); ++j) {
                std::istringstream s(lines[j]);
                long k;
                s >> k;
                std::vector<long> p(static_cast<std::size_t>(k));
                for(auto& x : p) s >> x;
                r.make(p);
                std::string o;
                long a, b, n;
                while(s >> o >> a >> b >> n) r.op(o, a, b, n);
                for(long x = 1; x <= k; ++x)
                    for(long y = 1; y <= k; ++y) {
                        r.cmp(x, y);
                        r.op("diff", x, y, 0);
                    }
            }
        });
    }
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    std::string path;
    for(int i = 1; i + 1 < argc; ++i)
        if(!std::strcmp(argv[i], "--behaviours")) path = argv[i + 1];
    const long n = rec::thorough() ? 200 : 30;
    for(long i = 0; i < n; ++i) {
        const auto s = std::to_string(i);
        const auto k = static_cast<unsigned long>(i) * 8;
        rec::scenario("i" + s, [=] { Run<int, false>().history(k, -40, 40, 60); });
        rec::scenario("ic" + s, [=] { Run<int, true>().history(k + 1, -5, 5, 60); });
        rec::scenario("u" + s, [=] { Run<uint64_t, false>().history(k + 2, 0, 30, 60); });
        rec::scenario("uc" + s, [=] { Run<uint64_t, true>().history(k + 3, 0, 1000000, 60); });
        FULL(rec::scenario("l" + s, [=] { Run<long, true>().history(k + 4, -1000000, 1000000, 60); });)
        FULL(rec::scenario("32" + s, [=] { Run<uint32_t, false>().history(k + 5, 0, 8, 60); });)
    }
    // around the borders of other number types, and at the ends of their own
    const std::vector<uint64_t> far{(1ul << 31) - 20, (1ul << 32) - 20, (1ul << 53) - 20, (1ul << 63) - 20, ~0ul - 45, 65536 - 20};
    const std::vector<long> farl{(1l << 31) - 20, -(1l << 31) - 20, (1l << 32) - 20, -(1l << 32) - 20, (1l << 62), -(1l << 62), std::numeric_limits<long>::max() - 41, std::numeric_limits<long>::min() + 41};
    const std::vector<int> fari{std::numeric_limits<int>::max() - 41, std::numeric_limits<int>::min() + 41, 65536 - 20, -32768 - 20, 1 << 24};
    const std::vector<uint32_t> far32{(1u << 31) - 20, ~0u - 41, 65536 - 20, 1u << 24};
    for(unsigned long i = 0; i < (rec::thorough() ? 24 : 3); ++i) {
        const auto s = std::to_string(i);
        for(auto b : far) rec::scenario("far-u-" + s + "-" + std::to_string(b), [=] { Run<uint64_t, true>(b).history(7000 + i, 0, 40, 40); Run<uint64_t, false>(b).history(7050 + i, 0, 40, 30); });
        FULL(for(auto b : farl) rec::scenario("far-l-" + s + "-" + std::to_string(b), [=] { Run<long, true>(b).history(7100 + i, -40, 40, 60); });)
        for(auto b : fari) rec::scenario("far-i-" + s + "-" + std::to_string(b), [=] { Run<int, false>(b).history(7200 + i, -40, 40, 60); });
        FULL(for(auto b : far32) rec::scenario("far-32-" + s + "-" + std::to_string(b), [=] { Run<uint32_t, false>(b).history(7300 + i, 0, 40, 60); });)
    }
    // steps and distances as large as the number types allow
    for(unsigned long i = 0; i < (rec::thorough() ? 24 : 4); ++i) {
        const auto s = std::to_string(i);
        for(long e : {15, 16, 24, 31, 32, 33, 48, 53, 57}) {
            rec::scenario("wide-u-" + s + "-" + std::to_string(e), [=] { Run<uint64_t, true>(i * 77, 1l << e).history(7400 + i, 0, 30, 50); Run<uint64_t, false>(i * 1000003, (1l << e) + static_cast<long>(i)).history(7500 + i, 0, 28, 30); });
            FULL(rec::scenario("wide-l-" + s + "-" + std::to_string(e), [=] { Run<long, true>(static_cast<long>(i) - 2, (1l << e) - static_cast<long>(i)).history(7600 + i, -15, 15, 50); });)
        }
        for(long e : {7, 8, 16, 24, 25}) {
            rec::scenario("wide-i-" + s + "-" + std::to_string(e), [=] { Run<int, false>(static_cast<int>(i) - 2, 1l << e).history(7700 + i, -15, 15, 50); });
            FULL(rec::scenario("wide-32-" + s + "-" + std::to_string(e), [=] { Run<uint32_t, true>(static_cast<uint32_t>(i), 1l << e).history(7800 + i, 0, 30, 50); });)
        }
    }
    if(!path.empty()) {
        behaviours<uint64_t, true>(path, "Bu");
        behaviours<int, false>(path, "Bi");
    }
    return rec::run();
}
