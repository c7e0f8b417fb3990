// C05: orders of operators and terms, unique terms
#include "sym.hpp"

#include <ieompp/algebra/term.hpp>
#include <ieompp/algebra/term/list.hpp>
#include <ieompp/algebra/term/order.hpp>

#include <list>

using namespace sym;

// index values as order-preserving integers
static const std::vector<std::string> words{"", "B", "a", "aa", "ab", "b"};
template <typename T>
struct Rk {
    static T make(long r) { return static_cast<T>(r); }
    static std::string text(const T& t) { return rec::v(static_cast<long>(t)); }
};
template <>
struct Rk<std::string> {
    static std::string make(long r) { return words[static_cast<std::size_t>(r)]; }
    static std::string text(const std::string& t)
    {
        for(std::size_t i = 0; i < words.size(); ++i) {
            if(words[i] == t) return rec::v(i);
        }
        return rec::bad("unknown index");
    }
};
template <>
struct Rk<uint64_t> { // large values
    static const std::vector<uint64_t>& all()
    {
        static const std::vector<uint64_t> x{0, 1ull << 33, (1ull << 33) + 1, 1ull << 63, ~0ull};
        return x;
    }
    static uint64_t make(long r) { return all()[static_cast<std::size_t>(r)]; }
    static std::string text(const uint64_t& t)
    {
        for(std::size_t i = 0; i < all().size(); ++i)
            if(all()[i] == t) return rec::v(i);
        return rec::bad("index");
    }
};
template <>
struct Rk<int> { // with the extreme ones
    static int make(long r) { return r == -2 ? std::numeric_limits<int>::min() : r == 2 ? std::numeric_limits<int>::max() : static_cast<int>(r); }
    static std::string text(const int& t) { return rec::v(t == std::numeric_limits<int>::min() ? -2 : t == std::numeric_limits<int>::max() ? 2 : t); }
};

template <typename Op>
struct B;
template <typename A>
struct B<Operator<A>> {
    static Operator<A> make(bool c, const std::vector<long>& i) { return Operator<A>{c, Rk<A>::make(i[0])}; }
    static std::string idx(const Operator<A>& o) { return "[" + Rk<A>::text(o.index) + "]"; }
    static const std::size_t n = 1;
};
template <typename A, typename C>
struct B<Operator<A, C>> {
    static Operator<A, C> make(bool c, const std::vector<long>& i) { return Operator<A, C>{c, Rk<A>::make(i[0]), Rk<C>::make(i[1])}; }
    static std::string idx(const Operator<A, C>& o) { return "[" + Rk<A>::text(o.index1) + "," + Rk<C>::text(o.index2) + "]"; }
    static const std::size_t n = 2;
};
template <typename A, typename C, typename D, typename... Es>
struct B<Operator<A, C, D, Es...>> {
    using Op  = Operator<A, C, D, Es...>;
    using Tup = std::tuple<A, C, D, Es...>;
    static const std::size_t n = 3 + sizeof...(Es);
    template <std::size_t... I>
    static Op mk(bool c, const std::vector<long>& i, std::index_sequence<I...>)
    {
        return Op{c, Tup(Rk<typename std::tuple_element<I, Tup>::type>::make(i[I])...)};
    }
    template <std::size_t... I>
    static std::string tx(const Op& o, std::index_sequence<I...>)
    {
        std::string parts[] = {Rk<typename std::tuple_element<I, Tup>::type>::text(std::get<I>(o.indices))...};
        std::string r = "[";
        for(std::size_t i = 0; i < n; ++i) r += (i ? "," : "") + parts[i];
        return r + "]";
    }
    static Op make(bool c, const std::vector<long>& i) { return mk(c, i, std::make_index_sequence<n>()); }
    static std::string idx(const Op& o) { return tx(o, std::make_index_sequence<n>()); }
};

template <typename Op>
std::string bop(const Op& o)
{
    return rec::Obj().kv("c", o.creator).raw("i", B<Op>::idx(o)).done();
}
template <typename C>
std::string bops(const C& l)
{
    return rec::list(l, [](const typename C::value_type& o) { return bop(o); });
}
template <typename C>
std::string bterms(const C& l)
{
    return rec::list(l, [](const typename C::value_type& t) {
        return rec::Obj().raw("p", pref(t.prefactor)).raw("ops", bops(t.operators)).done();
    });
}

template <typename P, typename Op>
struct Gen {
    using T = Term<P, Op>;
    std::vector<long> lo, hi;
    rec::Rng rng;
    Gen(std::vector<long> l, std::vector<long> h, unsigned long salt) : lo(l), hi(h), rng(salt) {}

    Op one()
    {
        std::vector<long> i;
        for(std::size_t p = 0; p < lo.size(); ++p) i.push_back(rng.in(lo[p], hi[p]));
        return B<Op>::make(rng.flip(), i);
    }
    void opcmp(const Op& x, const Op& y)
    {
        OperatorSmaller<Op> s;
        OperatorGreater<Op> g;
        rec::Ev("opcmp").raw("x", bop(x)).raw("y", bop(y)).kv("xy", s(x, y)).kv("yx", s(y, x)).kv("gxy", g(x, y)).kv("gyx", g(y, x));
    }
    void all_ops()
    {
        std::vector<Op> all;
        std::vector<long> i(lo);
        while(true) {
            all.push_back(B<Op>::make(true, i));
            all.push_back(B<Op>::make(false, i));
            std::size_t p = 0;
            while(p < i.size() && ++i[p] > hi[p]) {
                i[p] = lo[p];
                ++p;
            }
            if(p == i.size()) break;
        }
        for(auto& x : all)
            for(auto& y : all) opcmp(x, y);
    }
    T term(long len)
    {
        T t;
        t.prefactor = MakePref<P>::make(rng.in(-4, 4), rng.in(-4, 4));
        for(long i = 0; i < len; ++i) t.operators.push_back(one());
        return t;
    }
    void termcmp(const T& x, const T& y)
    {
        TermSmaller<T> s;
        TermGreater<T> g;
        rec::Ev("termcmp").raw("x", bops(x.operators)).raw("y", bops(y.operators)).kv("xy", s(x, y)).kv("yx", s(y, x)).kv("gxy", g(x, y)).kv("gyx", g(y, x));
    }
    void terms(int count, long maxlen)
    {
        for(int i = 0; i < count; ++i) {
            auto x = term(rng.in(0, maxlen));
            auto y = term(rng.in(0, maxlen));
            if(i % 3) {
                y = x;
                y.prefactor = MakePref<P>::make(rng.in(-4, 4), rng.in(-4, 4));
                if(i % 3 == 2 && !y.operators.empty()) {
                    y.operators[static_cast<std::size_t>(rng.in(0, static_cast<long>(y.operators.size()) - 1))] = one();
                }
                if(i % 7 == 0) y.operators.push_back(one());
            }
            termcmp(x, y);
        }
    }
    // long products, equal up to some place
    void long_terms(int count)
    {
        static const std::vector<long> lens{14, 15, 16, 17, 31, 32, 64, 127, 128, 129, 255, 256, 257, 300};
        for(int i = 0; i < count; ++i) {
            auto x = term(rng.pick(lens)), y = x;
            switch(rng.in(0, 3)) {
                case 0: y = term(rng.pick(lens)); break;
                case 1: y.operators.erase(y.operators.begin() + rng.in(0, 13)); break;
                default: y.operators[static_cast<std::size_t>(rng.in(0, static_cast<long>(y.operators.size()) - 1))] = one();
            }
            termcmp(x, y);
        }
    }
    // "near": terms of that length, any two of which differ in a single operator (or by one more operator)
    void unique(int count, long maxlist, long distinct, long maxlen, bool near = false)
    {
        for(int k = 0; k < count; ++k) {
            std::vector<T> pool;
            for(long i = 0; i < distinct; ++i) {
                if(near && i > 0) {
                    pool.push_back(pool[0]);
                    if(i % 4 == 3)
                        pool.back().operators.push_back(one());
                    else
                        pool.back().operators[static_cast<std::size_t>(i == 1 ? maxlen - 1 : rng.in(0, maxlen - 1))] = one();
                } else {
                    pool.push_back(term(near ? maxlen : rng.in(0, maxlen)));
                }
            }
            std::vector<T> list;
            for(long n = rng.in(0, maxlist); n > 0; --n) {
                auto t      = pool[static_cast<std::size_t>(rng.in(0, distinct - 1))];
                t.prefactor = MakePref<P>::make(rng.in(-4, 4), rng.in(-4, 4));
                list.push_back(t);
            }
            std::vector<T> sorted(list);
            std::sort(sorted.begin(), sorted.end(), TermSmaller<T>());
            auto justops = [](const std::vector<T>& l) { return rec::list(l, [](const T& t) { return bops(t.operators); }); };
            rec::Ev("sorted").raw("list", justops(list)).raw("res", justops(sorted));
            const auto in = bterms(list);
            if(k % 2) {
                std::vector<T> res;
                if(k % 4 == 1) res.push_back(term(1));
                const auto before = bterms(res);
                copy_as_unique_terms(list, res);
                rec::Ev("unique").raw("list", in).raw("before", before).raw("res", bterms(res)).raw("list2", bterms(list));
            }
#ifndef LEAN
            else {
                std::list<T> res, src(list.begin(), list.end());
                copy_as_unique_terms(src, res);
                rec::Ev("unique").raw("list", in).raw("before", "[]").raw("res", bterms(res)).raw("list2", bterms(src));
            }
#endif
        }
    }
};

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    using St      = std::string;
    rec::scenario("ops1", [] { Gen<double, Operator<uint64_t>>({0}, {4}, 1).all_ops(); });
    rec::scenario("ops1i", [] { Gen<double, Operator<int>>({-2}, {2}, 1).all_ops(); });
    rec::scenario("ops1s", [] { Gen<double, Operator<St>>({0}, {5}, 1).all_ops(); });
    rec::scenario("ops2", [] { Gen<double, Operator<uint64_t, bool>>({0, 0}, {3, 1}, 1).all_ops(); });
    rec::scenario("ops2i", [] { Gen<double, Operator<int, int>>({-1, -1}, {1, 1}, 1).all_ops(); });
    rec::scenario("ops2s", [] { Gen<double, Operator<St, bool>>({0, 0}, {3, 1}, 1).all_ops(); });
    rec::scenario("ops3", [] { Gen<double, Operator<int, int, bool>>({0, -2, 0}, {2, 1, 1}, 1).all_ops(); });
    rec::scenario("ops3i", [] { Gen<double, Operator<int, int, int>>({0, 0, 0}, {2, 1, 2}, 1).all_ops(); });
    FULL(rec::scenario("ops4", [] { Gen<double, Operator<uint64_t, int, St, bool>>({0, 0, 0, 0}, {1, 1, 2, 1}, 1).all_ops(); });)
    FULL(rec::scenario("ops5", [] { Gen<double, Operator<int, int, int, int, int>>({0, 0, 0, 0, 0}, {1, 1, 1, 1, 1}, 1).all_ops(); });)
    for(int r = 0; r < (th ? 20 : 4); ++r) {
        const auto s = static_cast<unsigned long>(9000 + 20 * r);
        rec::scenario("long-" + to_string(r), [=] {
            Gen<double, Operator<uint64_t, bool>>({0, 0}, {4, 1}, s).long_terms(12);
            Gen<double, Operator<int>>({-2}, {2}, s + 1).long_terms(6);
            Gen<double, Operator<uint64_t, bool>>({0, 0}, {4, 1}, s + 2).unique(2, 320, 90, 3);
        });
    }
    for(int r = 0; r < (th ? 200 : 24); ++r) {
        const auto s = static_cast<unsigned long>(100 + 20 * r);
        const auto n = to_string(r);
        rec::scenario("t-" + n, [=] {
            Gen<double, Operator<uint64_t>>({0}, {2}, s).terms(40, 4);
            Gen<double, Operator<uint64_t, bool>>({0, 0}, {1, 1}, s + 1).terms(40, r % 4 ? 5 : 12);
            Gen<int, Operator<int, int, bool>>({0, 0, 0}, {1, 1, 1}, s + 2).terms(40, 4);
        });
        rec::scenario("u-" + n, [=] {
            Gen<double, Operator<uint64_t>>({0}, {2}, s + 3).unique(4, 12, 5, 3);
            Gen<std::complex<double>, Operator<uint64_t, bool>>({0, 0}, {1, 1}, s + 4).unique(4, 25, 6, 4);
            Gen<int, Operator<int, int, bool>>({0, 0, 0}, {1, 1, 1}, s + 5).unique(4, 40, 9, 3);
            Gen<double, Operator<St, bool>>({0, 0}, {5, 1}, s + 6).unique(4, 30, 8, 3);
            if(r % 4 == 0) {
                Gen<double, Operator<uint64_t, bool>>({0, 0}, {1, 1}, s + 7).unique(4, 14, 5, r % 8 ? 20 : 9, true);
                Gen<int, Operator<uint64_t>>({0}, {2}, s + 8).unique(2, 10, 5, 12, true);
                FULL((Gen<int, Operator<uint64_t, int, St, bool>>({0, 0, 0, 0}, {1, 1, 2, 1}, s + 9).unique(2, 12, 5, 2, true));)
            }
        });
    }
    return rec::run();
}
