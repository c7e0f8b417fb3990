// C24: printed text
#include <iostream>
#include <string>
using namespace std;

#include "rec.hpp"

#include <ieompp/algebra/kronecker.hpp>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/algebra/term.hpp>
#include <ieompp/symbolic/index.hpp>
#include <ieompp/symbolic/prefactor.hpp>
#include <ieompp/string.hpp>
#include <ieompp/tuple.hpp>

namespace a = ieompp::algebra;
namespace y = ieompp::symbolic;

#ifdef IEOMPP_DISABLE_ARROWS
static const bool ARROWS = false;
#else
static const bool ARROWS = true;
#endif

// characters outside ASCII as <codepoint>
static std::string ascii(const std::string& s)
{
    std::string r;
    for(std::size_t i = 0; i < s.size();) {
        const unsigned char c = static_cast<unsigned char>(s[i]);
        if(c < 0x80) {
            r += s[i++];
            continue;
        }
        int extra = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : 1;
        unsigned long u = c & (0x3F >> extra);
        for(++i; extra > 0 && i < s.size(); --extra, ++i) u = (u << 6) | (static_cast<unsigned char>(s[i]) & 0x3F);
        char buf[16];
        snprintf(buf, sizeof buf, "<%lX>", u);
        r += buf;
    }
    return r;
}
template <typename T>
void text(rec::Ev& ev, const T& t)
{
    std::ostringstream s;
    s << t;
    const auto x = s.str();
    s.str("");
    s << 7.5;
    ev.kv("text", ascii(x)).kv("after", s.str());
}

static std::string idx(bool b) { return std::string("[\"b\",") + (b ? "true]" : "false]"); }
template <typename T>
typename std::enable_if<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value, std::string>::type idx(const T& t) { return "[\"n\"," + rec::v(t) + "]"; }
static std::string idx(const std::string& s) { return "[\"s\"," + rec::str(ascii(s)) + "]"; }
template <y::IndexType t>
std::string idx(const y::Index<t>& i) { return idx(i.index); }

template <typename... Ts>
struct Enc;
template <typename A>
struct Enc<A> {
    using Op = a::Operator<A>;
    static Op make(bool c, A x) { return Op{c, x}; }
    static std::string list(const Op& o) { return idx(o.index); }
};
template <typename A, typename B>
struct Enc<A, B> {
    using Op = a::Operator<A, B>;
    static Op make(bool c, A x, B y) { return Op{c, x, y}; }
    static std::string list(const Op& o) { return idx(o.index1) + "," + idx(o.index2); }
};
template <typename A, typename B, typename C, typename... Ds>
struct Enc<A, B, C, Ds...> {
    using Op = a::Operator<A, B, C, Ds...>;
    static Op make(bool c, A x, B y, C z, Ds... d) { return Op{c, std::make_tuple(x, y, z, d...)}; }
    template <std::size_t... I>
    static std::string all(const Op& o, std::index_sequence<I...>)
    {
        std::string r;
        int _[] = {0, (r += (r.empty() ? "" : ",") + idx(std::get<I>(o.indices)), 0)...};
        (void)_;
        return r;
    }
    static std::string list(const Op& o) { return all(o, std::make_index_sequence<3 + sizeof...(Ds)>()); }
};
template <typename... Ts>
std::string op(const a::Operator<Ts...>& o) { return std::string("[") + (o.creator ? "true" : "false") + ",[" + Enc<Ts...>::list(o) + "]]"; }

template <typename T>
T gen(rec::Rng& r);
template <> bool gen<bool>(rec::Rng& r) { return r.flip(); }
template <> int gen<int>(rec::Rng& r) { return static_cast<int>(r.in(-120, 120)); }
template <> long gen<long>(rec::Rng& r) { return r.in(-5, 5); }
template <> std::uint64_t gen<std::uint64_t>(rec::Rng& r) { return static_cast<std::uint64_t>(r.in(0, 100000)); }
template <> std::string gen<std::string>(rec::Rng& r)
{
    static const std::vector<std::string> names = {"a", "b", "k_1", "q+p", u8"\u03c3", u8"r_i+\u03b4_j", "10", "x y"};
    return r.pick(names);
}
template <> y::SpaceIndex gen<y::SpaceIndex>(rec::Rng& r) { return r.flip() ? y::SpaceIndex() : y::SpaceIndex(static_cast<int>(r.in(-3, 12))); }
template <> y::MomentumIndex gen<y::MomentumIndex>(rec::Rng& r) { return r.flip() ? y::MomentumIndex() : y::MomentumIndex(static_cast<int>(r.in(-3, 12))); }
template <> y::SpinIndex gen<y::SpinIndex>(rec::Rng& r) { return r.flip() ? y::SpinIndex() : y::SpinIndex(std::string("s'")); }

template <typename P>
struct Num { // a prefactor type
    using Value = P;
    // values are logged in quarters; floating point ones are not always integers
    static P gen(rec::Rng& r)
    {
        const auto x = static_cast<P>(std::is_signed<P>::value ? r.in(-3, 3) : r.in(0, 3));
        return std::is_floating_point<P>::value && r.flip() ? static_cast<P>(static_cast<double>(r.in(-60, 60)) / 4) : x;
    }
    static std::string enc(const P& p) { return "[" + rec::v(p * 4) + ",0]"; }
    static const bool cx = false;
};
template <typename F>
struct Num<std::complex<F>> {
    using Value = std::complex<F>;
    static Value gen(rec::Rng& r)
    {
        const F q = r.flip() ? 4 : 1;
        return {static_cast<F>(r.in(-1, 1)) / q, static_cast<F>(r.in(-2, 2)) / q};
    }
    static std::string enc(const Value& p) { return rec::v(p * F(4)); }
    static const bool cx = true;
};
static std::string delta(const a::Kronecker& k) { return "[" + rec::str(ascii(k.a)) + "," + rec::str(ascii(k.b)) + "]"; }
template <typename V>
std::string pre(const V& value, const std::vector<a::Kronecker>& ds = {})
{
    return rec::Obj().raw("value", Num<V>::enc(value)).kv("cx", bool(Num<V>::cx)).raw("deltas", rec::list(ds, delta)).done();
}
template <typename V>
std::string pre(const y::Prefactor<V>& p) { return pre(p.value, p.kroneckers); }

template <typename V>
y::Prefactor<V> genp(rec::Rng& r)
{
    y::Prefactor<V> p{Num<V>::gen(r), {}};
    const long n = r.in(0, 9) ? r.in(0, 3) : 10;
    for(long i = 0; i < n; ++i) p.kroneckers.push_back(a::Kronecker{gen<std::string>(r), gen<std::string>(r)});
    return p;
}

template <typename P, typename Op>
void term(const P& p, const std::vector<Op>& ops)
{
    a::Term<P, Op> t{p, ops};
    rec::Ev ev("term");
    ev.kv("arrows", ARROWS).raw("p", pre(p)).raw("ops", rec::list(ops, [](const Op& o) { return op(o); }));
    text(ev, t);
}
template <typename... Ts>
void products(rec::Rng& r)
{
    using Op = a::Operator<Ts...>;
    for(int n = 0; n < (rec::thorough() ? 80 : 20); ++n) {
        const auto o = Enc<Ts...>::make(r.flip(), gen<Ts>(r)...);
        {
            rec::Ev ev("operator");
            ev.kv("arrows", ARROWS).raw("o", op(o));
            text(ev, o);
        }
        a::Monomial<Op> m;
        for(int k = 0; k < (n % 20 == 13 ? 45 : n % 10 == 9 ? 12 : n % 5); ++k) m.push_back(Enc<Ts...>::make(r.flip(), gen<Ts>(r)...));
        {
            rec::Ev ev("monomial");
            ev.kv("arrows", ARROWS).raw("ops", rec::list(m, [](const Op& x) { return op(x); }));
            text(ev, m);
        }
        const std::vector<Op> ops(m.begin(), m.end());
        switch(n % 6) {
            case 0: term(Num<int>::gen(r), ops); break;
            case 1: term(Num<double>::gen(r), ops); break;
            case 2: term(Num<std::complex<double>>::gen(r), ops); break;
            default: term(genp<double>(r), ops); break;
            FULL(case 4: term(genp<std::complex<double>>(r), ops); break;)
            FULL(case 5: term(genp<unsigned>(r), ops); break;)
        }
    }
}
template <typename V>
void prefactors(rec::Rng& r)
{
    for(int n = 0; n < (rec::thorough() ? 100 : 40); ++n) {
        const auto p = genp<V>(r);
        rec::Ev ev("prefactor");
        ev.raw("p", pre(p));
        text(ev, p);
    }
}
// values close to one, and others that are no quarters, written with enough digits to be told apart from it
template <typename V>
V fine(rec::Rng& r, int digits)
{
    const double unit = digits < 8 ? 1e-4 : 1e-9;
    const double sign = r.flip() ? 1. : -1.;
    switch(r.in(0, 3)) {
        case 0: return static_cast<V>(sign * (1. + unit * static_cast<double>(r.in(1, 9))));
        case 1: return static_cast<V>(sign * (1. - unit * static_cast<double>(r.in(1, 9))));
        case 2: return static_cast<V>(sign * unit * static_cast<double>(r.in(1, 9)));
        default: return static_cast<V>(static_cast<double>(r.in(-1000, 1000)) / 7. + 1e-3);
    }
}
template <typename V>
void fines(rec::Rng& r)
{
    for(int n = 0; n < (rec::thorough() ? 80 : 24); ++n) {
        auto p             = genp<V>(r);
        const int digits   = std::is_same<V, double>::value && r.flip() ? 17 : 6;
        p.value            = fine<V>(r, digits);
        std::ostringstream number, s;
        number.precision(digits);
        number << p.value;
        s.precision(digits);
        s << p;
        const auto x = s.str();
        s.str("");
        s << 7.5;
        rec::Ev("fine").kv("number", number.str()).raw("deltas", rec::list(p.kroneckers, delta)).kv("text", ascii(x)).kv("after", s.str());
    }
}
template <typename F>
void fines_complex(rec::Rng& r)
{
    using V = std::complex<F>;
    for(int n = 0; n < (rec::thorough() ? 80 : 24); ++n) {
        auto p = genp<V>(r);
        // one coordinate differs from that of one (or is one)
        p.value = r.flip() ? V(fine<F>(r, 6), 0) : V(1, fine<F>(r, 6));
        std::ostringstream number, s;
        number << p.value;
        s << p;
        const auto x = s.str();
        s.str("");
        s << 7.5;
        rec::Ev("fine").kv("number", number.str()).raw("deltas", rec::list(p.kroneckers, delta)).kv("text", ascii(x)).kv("after", s.str());
    }
}
template <typename... Ts>
void tup(const Ts&... xs)
{
    const std::vector<std::string> parts = {ieompp::compose(xs)...};
    const auto t = std::make_tuple(xs...);
    for(int k = 0; k < 2; ++k) {
        const std::string d = k ? "; " : ",", l = k ? "<" : "(", e = k ? "" : ")";
        std::ostringstream s;
        if(k) ieompp::print_tuple(s, t, d, l, e);
        else ieompp::print_tuple(s, t);
        rec::Ev ev("tuple");
        ev.raw("xs", rec::list(parts, [](const std::string& x) { return rec::str(ascii(x)); })).kv("delim", d).kv("left", l).kv("right", e);
        text(ev, s.str());
    }
}
template <typename I>
void symbols(const char* type)
{
    auto log = [&](const char* how, int n, const std::string& name, const I& i) {
        rec::Ev ev("index");
        ev.kv("type", type).kv("how", how).kv("n", n).kv("name", ascii(name));
        text(ev, i);
    };
    log("default", 0, "", I());
    for(int n = -2; n < 13; ++n) log("number", n, "", I(n));
    for(const char* s : {"a", "", "k+q", u8"\u03bb"}) log("name", 0, s, I(std::string(s)));
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    rec::scenario("one", [] { rec::Rng r(1); products<int>(r); products<bool>(r); products<std::string>(r); products<std::uint64_t>(r); });
    rec::scenario("two", [] { rec::Rng r(2); products<std::uint64_t, bool>(r); products<std::string, bool>(r); products<bool, int>(r); products<y::SpaceIndex, y::SpinIndex>(r); });
    rec::scenario("three", [] { rec::Rng r(3); products<int, long, bool>(r); products<bool, bool, int>(r); products<y::SpaceIndex, std::string, bool>(r); products<y::MomentumIndex, int, y::SpinIndex>(r); });
    FULL(rec::scenario("four", [] { rec::Rng r(4); products<int, long, bool, std::string>(r); products<std::string, bool, std::uint64_t, bool>(r); products<int, int, int, int, int>(r); });)
    rec::scenario("deltas", [] {
        rec::Rng r(5);
        for(int i = 0; i < 20; ++i) {
            const auto k = a::make_kronecker(gen<std::string>(r), gen<std::string>(r));
            rec::Ev ev("delta");
            ev.raw("d", delta(k));
            text(ev, k);
        }
        for(int i = -3; i < 4; ++i) {
            const auto k = a::make_kronecker(i, 2 * i + 1);
            rec::Ev ev("delta");
            ev.raw("d", "[" + rec::str(std::to_string(i)) + "," + rec::str(std::to_string(2 * i + 1)) + "]");
            text(ev, k);
        }
        for(long i : {1L << 31, (1L << 53) + 1, -(1L << 40)}) {
            const auto k = a::make_kronecker(i, i - 1);
            rec::Ev ev("delta");
            ev.raw("d", "[" + rec::str(std::to_string(i)) + "," + rec::str(std::to_string(i - 1)) + "]");
            text(ev, k);
        }
        prefactors<double>(r);
        prefactors<int>(r);
        FULL(prefactors<unsigned>(r);)
        FULL(prefactors<float>(r);)
        FULL(prefactors<std::complex<double>>(r);)
    });
    rec::scenario("fine", [] {
        rec::Rng r(7);
        fines<double>(r);
        FULL(fines<float>(r);)
        FULL(fines_complex<double>(r);)
    });
    rec::scenario("tuples", [] {
        tup(1);
        tup(1, 2);
        tup(std::string("x"), 5, 'c');
        tup(3, 1, 4, 1, 5, -9);
        tup(2.5, std::string(u8"\u2191"), true);
        rec::Rng r(6);
        for(int i = 0; i < 10; ++i) tup(gen<int>(r), gen<std::string>(r), gen<long>(r), gen<int>(r));
    });
    rec::scenario("symbols", [] {
        symbols<y::SpaceIndex>("space");
        symbols<y::MomentumIndex>("momentum");
        symbols<y::SpinIndex>("spin");
    });
    return rec::run();
}
