// C04: conjugation, products, predicates, charges
#include "sym.hpp"

#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/models/hubbard/operator_traits.hpp>
#include <ieompp/algebra/operator/is_symbolic.hpp>
#include <ieompp/algebra/term.hpp>
#include <ieompp/algebra/term/checks.hpp>

#include <array>

using namespace sym;
using Strs = std::vector<std::string>;
namespace hb = ieompp::models::hubbard;

template <typename Op>
std::string rop(const Op& o)
{
    return rec::Obj().kv("c", o.creator).raw("i", S<Op>::idx(o)).done();
}
template <typename C>
std::string rops(const C& l)
{
    return rec::list(l, [](const typename C::value_type& o) { return rop(o); });
}
template <typename T>
std::string rterm(const T& t)
{
    return rec::Obj().raw("p", pref(t.prefactor)).raw("ops", rops(t.operators)).done();
}

template <typename Op, std::size_t I>
std::string get(const Op& o)
{
    using T = typename std::decay<decltype(get_index<I>(o))>::type;
    return Ix<T>::text(get_index<I>(o));
}
template <typename Op, std::size_t... I>
std::string gets(const Op& o, std::index_sequence<I...>)
{
    std::string parts[] = {get<Op, I>(o)...};
    std::string r       = "[";
    for(std::size_t i = 0; i < sizeof...(I); ++i) {
        r += (i ? "," : "") + parts[i];
    }
    return r + "]";
}
template <typename Op, std::size_t I>
std::string getm(Op& o) // through the mutable reference
{
    using T = typename std::decay<decltype(get_index<I>(o))>::type;
    T& ref  = get_index<I>(o);
    return Ix<T>::text(ref);
}
template <typename Op, std::size_t... I>
std::string getsm(Op& o, std::index_sequence<I...>)
{
    std::string parts[] = {getm<Op, I>(o)...};
    std::string r       = "[";
    for(std::size_t i = 0; i < sizeof...(I); ++i) {
        r += (i ? "," : "") + parts[i];
    }
    return r + "]";
}
template <typename Op, std::size_t I>
std::string gett(const Op& o) // of a temporary
{
    using T = typename std::decay<decltype(get_index<I>(o))>::type;
    return Ix<T>::text(T(get_index<I>(Op(o))));
}
template <typename Op, std::size_t... I>
std::string getst(const Op& o, std::index_sequence<I...>)
{
    std::string parts[] = {gett<Op, I>(o)...};
    std::string r       = "[";
    for(std::size_t i = 0; i < sizeof...(I); ++i) {
        r += (i ? "," : "") + parts[i];
    }
    return r + "]";
}
template <typename... Ts, std::size_t... I>
std::string tup(const std::tuple<Ts...>& t, std::index_sequence<I...>)
{
    std::string parts[] = {Ix<Ts>::text(std::get<I>(t))...};
    std::string r       = "[";
    for(std::size_t i = 0; i < sizeof...(I); ++i) {
        r += (i ? "," : "") + parts[i];
    }
    return r + "]";
}

template <typename Op, typename... Ts>
void made(const Op& o, bool c, const Ts&... idx)
{
    const auto seq      = std::make_index_sequence<sizeof...(Ts)>();
    const auto expected = tup(std::make_tuple(idx...), seq);
    rec::Ev("make").kv("c", c).raw("i", expected).raw("res", rop(o)).raw("gets", gets(o, seq))
        .raw("tuple", tup(o.index_tuple(), seq)).raw("indices", tup(get_indices(o), seq));
    rec::Ev("make").kv("c", c).raw("i", expected).raw("res", rop(Op(o))).raw("gets", getst(o, seq))
        .raw("tuple", tup(Op(o).index_tuple(), seq)).raw("indices", tup(get_indices(Op(o)), seq));
    Op m(o);
    rec::Ev("make").kv("c", c).raw("i", expected).raw("res", rop(m)).raw("gets", getsm(m, seq))
        .raw("tuple", tup(m.index_tuple(), seq)).raw("indices", tup(get_indices(m), seq));
}
template <typename... Ts>
void makes(const Ts&... idx)
{
    using Op = Operator<Ts...>;
    made(ieompp::algebra::make_creator(idx...), true, idx...);
    made(ieompp::algebra::make_annihilator(idx...), false, idx...);
    made(Op::make_creator(idx...), true, idx...);
    made(Op::make_annihilator(idx...), false, idx...);
    made(Op::make_creator(Ts(idx)...), true, idx...);
    made(Op::make_annihilator(Ts(idx)...), false, idx...);
    made(ieompp::algebra::make_creator(Ts(idx)...), true, idx...);
    made(ieompp::algebra::make_annihilator(Ts(idx)...), false, idx...);
}

template <typename Op>
struct Gen {
    std::vector<Strs> idx; // index tuples
    rec::Rng rng;
    Gen(std::vector<Strs> i, unsigned long salt) : idx(i), rng(salt) {}

    Op one() { return S<Op>::make(rng.flip(), idx[static_cast<std::size_t>(rng.in(0, static_cast<long>(idx.size()) - 1))]); }

    void ops()
    {
        std::vector<Op> all;
        for(auto& i : idx) {
            all.push_back(S<Op>::make(true, i));
            all.push_back(S<Op>::make(false, i));
        }
        for(const auto& o : all) {
            Op in(o), twice(o);
            in.conjugate();
            twice.conjugate();
            twice.conjugate();
            const auto conj = o.get_conjugate();
            rec::Ev("opconj").raw("o", rop(o)).raw("conj", rop(conj)).raw("inplace", rop(in)).raw("twice", rop(twice)).raw("o2", rop(o));
            for(const auto& p : all) {
                rec::Ev("oprel").raw("x", rop(o)).raw("y", rop(p)).kv("eq", o == p).kv("ne", o != p)
                    .kv("same", o.same_indices(p)).kv("isconj", o.is_conjugate(p));
            }
        }
    }
    Monomial<Op> mon(long len)
    {
        Monomial<Op> m;
        for(long i = 0; i < len; ++i) {
            m.push_back(one());
        }
        return m;
    }
    void monrel(const Monomial<Op>& x, const Monomial<Op>& y)
    {
        const auto sx = rops(x), sy = rops(y);
        Monomial<Op> assign(x), self(x);
        assign *= y;
        self *= self;
        const auto prod = x * y;
        rec::Ev("monrel").raw("x", sx).raw("y", sy).kv("eq", x == y).kv("ne", x != y).kv("isconj", x.is_conjugate(y))
            .raw("prod", rops(prod)).raw("assign", rops(assign)).raw("self", rops(self))
            .raw("x2", rops(x)).raw("y2", rops(y)).raw("prodconj", rops(prod.get_conjugate()));
    }
    void mons(int count, long maxlen)
    {
        for(int i = 0; i < count; ++i) {
            const auto x = mon(rng.in(0, maxlen));
            Monomial<Op> in(x), twice(x);
            in.conjugate();
            twice.conjugate();
            twice.conjugate();
            const auto conj = x.get_conjugate();
            rec::Ev("monconj").raw("x", rops(x)).raw("conj", rops(conj)).raw("inplace", rops(in)).raw("twice", rops(twice)).raw("x2", rops(x));
            auto y = mon(rng.in(0, maxlen));
            switch(i % 6) {
                case 1: y = x; break;
                case 2: y = conj; break;
                case 3: // nearly the conjugate
                    y = conj;
                    if(!y.empty()) y[static_cast<std::size_t>(rng.in(0, static_cast<long>(y.size()) - 1))] = one();
                    break;
                case 4: // prefix
                    y = x;
                    y.push_back(one());
                    break;
                case 5: // nearly equal
                    y = x;
                    if(!y.empty()) y[static_cast<std::size_t>(rng.in(0, static_cast<long>(y.size()) - 1))] = one();
                    break;
                default:;
            }
            monrel(x, y);
            monrel(y, x);
            // conjugate as prefix
            auto z = conj;
            z.push_back(one());
            monrel(x, z);
            monrel(z, x);
        }
    }
    template <typename P>
    void terms(int count, long maxlen)
    {
        using T = Term<P, Op>;
        auto mk = [&](long len) {
            T t;
            t.prefactor = MakePref<P>::make(rng.in(-5, 5), rng.in(-5, 5));
            for(long i = 0; i < len; ++i) t.operators.push_back(one());
            return t;
        };
        for(int i = 0; i < count; ++i) {
            const auto x = mk(rng.in(0, maxlen));
            auto y       = mk(rng.in(0, maxlen));
            T in(x), twice(x);
            in.conjugate();
            twice.conjugate();
            twice.conjugate();
            const auto conj = x.get_conjugate();
            rec::Ev("termconj").raw("x", rterm(x)).raw("conj", rterm(conj)).raw("inplace", rterm(in)).raw("twice", rterm(twice)).raw("x2", rterm(x));
            if(i % 4 == 1) {
                y.operators = x.operators;
            } else if(i % 4 == 2) {
                y.operators = x.operators;
                y.operators.push_back(one());
            } else if(i % 4 == 3 && !x.operators.empty()) {
                y.operators = x.operators;
                y.operators[static_cast<std::size_t>(rng.in(0, static_cast<long>(x.operators.size()) - 1))] = one();
            }
            for(int k = 0; k < 2; ++k) {
                const T& a = k ? y : x;
                const T& b = k ? x : y;
                const auto sa = rterm(a), sb = rterm(b);
                T assign(a), self(a);
                assign *= b;
                self *= self;
                const auto prod = a * b;
                rec::Ev("termrel").raw("x", sa).raw("y", sb).kv("sameops", a.have_same_operators(b))
                    .raw("prod", rterm(prod)).raw("assign", rterm(assign)).raw("self", rterm(self))
                    .raw("x2", rterm(a)).raw("y2", rterm(b)).raw("prodconj", rterm(prod.get_conjugate()));
            }
        }
    }
};

// a momentum space for total_momentum
struct Vec {
    long x = 0, y = 0;
    void setZero() { x = y = 0; }
    Vec& operator+=(const Vec& r) { x += r.x; y += r.y; return *this; }
    Vec& operator-=(const Vec& r) { x -= r.x; y -= r.y; return *this; }
};
struct Space {
    using Vector = Vec;
    std::vector<Vec> sites;
    std::array<Vec, 2> lattice_vectors() const
    {
        Vec a, b;
        a.x = 7; a.y = -3;
        b.y = 1;
        return {{a, b}};
    }
    const Vec& operator[](std::size_t i) const { return sites[i]; }
};

template <typename P, typename... Is>
void charges(unsigned long salt, int count, long longest = 6, bool oneway = false)
{
    using Op = Operator<Is...>;
    constexpr std::size_t spin_pos = sizeof...(Is) - 1;
    rec::Rng rng(salt);
    Space sp;
    for(int i = 0; i < 5; ++i) {
        Vec v;
        v.x = rng.in(-9, 9);
        v.y = rng.in(-9, 9);
        sp.sites.push_back(v);
    }
    const auto tab = rec::list(sp.sites, [](const Vec& v) { return "[" + rec::v(v.x) + "," + rec::v(v.y) + "]"; });
    for(int k = 0; k < count; ++k) {
        Term<P, Op> t;
        t.prefactor = P(1);
        std::string ops = "[";
        const long len = oneway ? longest : rng.in(0, longest);
        for(long i = 0; i < len; ++i) {
            std::vector<long> idx;
            for(std::size_t p = 0; p < spin_pos; ++p) idx.push_back(rng.in(0, 4));
            // "oneway": nearly all operators alike, so that the sums grow with the length
            const bool alike = oneway && rng.in(0, 19) != 0;
            idx.push_back(alike ? k & 1 : rng.in(0, 1));
            const bool c = alike ? (k & 2) != 0 : rng.flip();
            t.operators.push_back(Make<Op>::make(c, idx));
            ops += (i ? "," : "") + rec::Obj().kv("c", c).kv("i", idx).done();
        }
        ops += "]";
        const auto conj = t.get_conjugate();
        const auto m = total_momentum<0>(t, sp), cm = total_momentum<0>(conj, sp);
        rec::Ev("charges").raw("tab", tab).raw("ops", ops).kv("creations", total_creations(t)).kv("spin", total_spin<spin_pos>(t))
            .kv("mx", m.x).kv("my", m.y).kv("ccreations", total_creations(conj)).kv("cspin", total_spin<spin_pos>(conj))
            .kv("cmx", cm.x).kv("cmy", cm.y);
    }
}

// questions about the types of indices
template <typename T>
const char* type_name();
template <>
const char* type_name<int>() { return "int"; }
template <>
const char* type_name<uint64_t>() { return "uint64"; }
template <>
const char* type_name<bool>() { return "bool"; }
template <>
const char* type_name<std::string>() { return "string"; }
template <typename Op, typename... Ts>
struct Traits {
    template <typename Q>
    static void has()
    {
        const std::vector<std::string> types{type_name<Ts>()...};
        rec::Ev("has").raw("types", rec::list(types, [](const std::string& x) { return rec::str(x); })).kv("query", type_name<Q>()).kv("res", bool(ieompp::algebra::HasIndexOfType<Op, Q>::value));
    }
    template <std::size_t... I>
    static void symbolic(std::index_sequence<I...>)
    {
        const std::vector<std::string> types{type_name<Ts>()...};
        const std::vector<bool> each{bool(ieompp::algebra::IsSymbolicIndex<I, Op>::value)...};
        rec::Ev("symbolic").raw("types", rec::list(types, [](const std::string& x) { return rec::str(x); })).kv("any", bool(ieompp::algebra::IsSymbolicOperator<Op>::value)).raw("each", rec::list(each, [](bool b) { return rec::v(b); })).kv("isop", bool(ieompp::algebra::IsOperator<Op>::value)).kv("chain", bool(hb::Is1dHubbardOperator<Op>::value)).kv("square", bool(hb::Is2dHubbardOperator<Op>::value)).kv("hubbard", bool(hb::IsHubbardOperator<Op>::value)).kv("other", bool(ieompp::algebra::IsOperator<std::tuple<Ts...>>::value));
    }
    static void all()
    {
        has<int>();
        has<uint64_t>();
        has<bool>();
        has<std::string>();
        symbolic(std::make_index_sequence<sizeof...(Ts)>());
    }
};
template <typename... Ts>
void traits()
{
    Traits<Operator<Ts...>, Ts...>::all();
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    using St      = std::string;
    rec::scenario("make", [] {
        makes(std::uint64_t(5));
        makes(std::uint64_t(1) << 40);
        makes(-3);
        makes(St("k_1"));
        makes(std::uint64_t(3), true);
        makes(std::uint64_t(3), false);
        makes(2, 3);
        makes(St("q"), St("r"));
        makes(true, 7L);
        makes(1, 2, 3);
        makes(1, 2, true);
        makes(St("q"), 4, false);
        makes(1, 2, 3, 4);
        FULL(makes(9L, 8, 'c', true);)
        FULL(makes(1, 2, 3, 4, 5);)
    });
    FULL(rec::scenario("traits", [] {
        traits<int>();
        traits<St>();
        traits<uint64_t, bool>();
        traits<St, bool>();
        traits<bool, int>();
        traits<int, int, bool>();
        traits<int, St, uint64_t>();
        traits<int, uint64_t, int, bool>();
        traits<bool, uint64_t, int, St, bool>();
        traits<bool, bool, bool, bool, int>();
    });)
    const std::vector<Strs> i1{{"0"}, {"1"}, {"5"}}, s1{{"k"}, {"q"}, {"kk"}},
        i2{{"0", "0"}, {"0", "1"}, {"1", "0"}, {"1", "1"}}, n2{{"2", "3"}, {"3", "2"}, {"2", "2"}, {"3", "3"}},
        i3{{"0", "1", "0"}, {"1", "0", "0"}, {"0", "1", "1"}, {"0", "0", "0"}},
        s3{{"a", "1", "b"}, {"b", "1", "a"}, {"a", "1", "a"}, {"a", "0", "b"}},
        i4{{"0", "1", "0", "0"}, {"0", "1", "0", "1"}, {"1", "0", "0", "0"}, {"0", "1", "1", "0"}},
        i5{{"0", "1", "p", "0", "q"}, {"0", "1", "p", "0", "p"}, {"0", "1", "p", "1", "q"}, {"0", "1", "q", "0", "q"}};
    rec::scenario("ops", [=] {
        Gen<Operator<uint64_t>>(i1, 1).ops();
        Gen<Operator<St>>(s1, 1).ops();
        Gen<Operator<uint64_t, bool>>(i2, 1).ops();
        Gen<Operator<int, int>>(n2, 1).ops();
        Gen<Operator<int, int, bool>>(i3, 1).ops();
        Gen<Operator<St, bool, St>>(s3, 1).ops();
        Gen<Operator<int, int, int, bool>>(i4, 1).ops();
        FULL(Gen<Operator<int, uint64_t, St, bool, St>>(i5, 1).ops();)
    });
    // indices that agree in their low or high digits
    const std::vector<Strs> w1{{"7"}, {"263"}, {"65543"}, {"4294967303"}, {"4611686018427387911"}, {"4611686018427387910"}, {"4294967302"}},
        w2{{"7", "1"}, {"263", "1"}, {"4294967303", "1"}, {"7", "0"}, {"4611686018427387911", "1"}, {"4611686018427387910", "1"}},
        w3{{"7", "-7", "1"}, {"-7", "7", "1"}, {"65543", "-7", "1"}, {"7", "-65543", "1"}, {"16777223", "-7", "1"}, {"7", "-16777223", "0"}, {"-2147483648", "2147483647", "1"}, {"2147483647", "-2147483648", "1"}};
    rec::scenario("wide", [=] {
        Gen<Operator<uint64_t>>(w1, 1).ops();
        Gen<Operator<long>>(w1, 1).ops();
        Gen<Operator<uint64_t, bool>>(w2, 1).ops();
        Gen<Operator<int, int, bool>>(w3, 1).ops();
        Gen<Operator<uint64_t, bool>>(w2, 61).mons(12, 4);
        Gen<Operator<int, int, bool>>(w3, 62).template terms<double>(12, 4);
    });
    rec::scenario("long", [=] {
        Gen<Operator<uint64_t, bool>>(w2, 63).mons(6, 40);
        Gen<Operator<uint64_t>>(i1, 64).mons(2, 300);
        Gen<Operator<uint64_t, bool>>(i2, 65).template terms<std::complex<double>>(8, 40);
        Gen<Operator<int, int>>(n2, 66).template terms<int>(2, 300);
    });
    for(int r = 0; r < (th ? 200 : 25); ++r) {
        const auto s = static_cast<unsigned long>(100 + 20 * r);
        const auto n = to_string(r);
        const int c  = 8;
        rec::scenario("m-" + n, [=] {
            Gen<Operator<uint64_t>>(i1, s).mons(c, 5);
            Gen<Operator<uint64_t, bool>>(i2, s + 1).mons(c, r % 5 ? 6 : 14);
            Gen<Operator<int, int, bool>>(i3, s + 2).mons(c, 5);
            Gen<Operator<St, bool, St>>(s3, s + 3).mons(c, 4);
            Gen<Operator<int, int, int, bool>>(i4, s + 11).mons(c / 2, 4);
            FULL(Gen<Operator<int, uint64_t, St, bool, St>>(i5, s + 12).mons(c / 2, 3);)
        });
        rec::scenario("t-" + n, [=] {
            Gen<Operator<uint64_t>>(i1, s + 4).template terms<double>(c, 5);
            Gen<Operator<uint64_t, bool>>(i2, s + 5).template terms<std::complex<double>>(c, r % 5 ? 6 : 12);
            Gen<Operator<int, int>>(n2, s + 6).template terms<int>(c, 5);
            FULL(Gen<Operator<int, int, bool>>(i3, s + 7).template terms<std::complex<float>>(c, 5);)
            FULL(Gen<Operator<St, bool, St>>(s3, s + 8).template terms<std::complex<double>>(c, 4);)
        });
        rec::scenario("c-" + n, [=] {
            charges<double, uint64_t, bool>(s + 9, 10);
            charges<std::complex<double>, int, int, bool>(s + 10, 10);
        });
    }
    rec::scenario("c-long", [=] {
        charges<double, uint64_t, bool>(71, 4, 24, true);
        charges<double, uint64_t, bool>(72, 4, 300, true);
        charges<std::complex<double>, int, int, bool>(73, 4, 40, true);
    });
    return rec::run();
}
