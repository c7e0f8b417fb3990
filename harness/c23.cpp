// C23: number helpers
#include "rec.hpp"

#include <limits>

#include <ieompp/types/number.hpp>

namespace t = ieompp::types;
using Z = std::pair<long, long>;

template <typename S>
struct Kind { // real
    static constexpr bool cx = false;
    using Real = S;
    static S make(const Z& z, Real unit) { return static_cast<S>(z.first) * unit; }
    static std::string enc(const S& s, Real unit) { return "[" + rec::v(static_cast<double>(s / unit)) + ",0]"; }
};
template <typename F>
struct Kind<std::complex<F>> {
    static constexpr bool cx = true;
    using Real = F;
    static std::complex<F> make(const Z& z, Real unit) { return {static_cast<F>(z.first) * unit, static_cast<F>(z.second) * unit}; }
    static std::string enc(const std::complex<F>& s, Real unit)
    {
        return "[" + rec::v(static_cast<double>(s.real() / unit)) + "," + rec::v(static_cast<double>(s.imag() / unit)) + "]";
    }
};
template <typename S>
Z pick(rec::Rng& r, long lim)
{
    return {r.in(-lim, lim), Kind<S>::cx ? r.in(-lim, lim) : 0};
}
inline std::string z(const Z& x) { return "[" + rec::v(x.first) + "," + rec::v(x.second) + "]"; }

template <typename S>
void conj(rec::Rng& r, long lim, typename Kind<S>::Real unit)
{
    const auto a = pick<S>(r, lim);
    rec::Ev("conj").raw("a", z(a)).raw("res", Kind<S>::enc(t::conjugate(Kind<S>::make(a, unit)), unit));
}
template <typename F>
void products(rec::Rng& r, long lim, F unit)
{
    using S      = std::complex<F>;
    const auto a = pick<S>(r, lim), b = pick<S>(r, lim);
    const S x = Kind<S>::make(a, unit), y = Kind<S>::make(b, unit);
    rec::Ev("products").raw("a", z(a)).raw("b", z(b)).raw("mul", Kind<S>::enc(t::multiply_with_conjugate(x, y), unit * unit)).raw("add", rec::v(static_cast<double>(t::add_conjugate_products(x, y) / (unit * unit))));
}
// exact kinds: integers
template <typename S>
void integers(rec::Rng& r)
{
    for(long i = -4; i < 5; ++i)
        for(long j = -4; j < 5; ++j) {
            if(std::is_unsigned<S>::value && (i < 0 || j < 0)) continue;
            const S x = static_cast<S>(i), y = static_cast<S>(j);
            rec::Ev("equal").raw("a", z({i, 0})).raw("b", z({j, 0})).kv("tol", -1).kv("eps", 1).kv("eq", t::IsEqual(x, y)).kv("qe", t::IsEqual(y, x));
            rec::Ev("zero").raw("a", z({i, 0})).kv("tol", -1).kv("eps", 1).kv("zero", t::IsZero(x));
            rec::Ev("conj").raw("a", z({i, 0})).raw("res", "[" + rec::v(t::conjugate(x)) + ",0]");
        }
    for(int k = 0; k < 40; ++k) {
        const long i = r.in(std::is_unsigned<S>::value ? 0 : -100000, 100000), j = r.flip() ? i : r.in(0, 100000);
        rec::Ev("equal").raw("a", z({i, 0})).raw("b", z({j, 0})).kv("tol", -1).kv("eps", 1).kv("eq", t::IsEqual(static_cast<S>(i), static_cast<S>(j))).kv("qe", t::IsEqual(static_cast<S>(j), static_cast<S>(i)));
    }
}
// 64-bit integers: sign and three digits in base 2^22
template <typename S>
std::string digits(S x)
{
    const uint64_t m = x < 0 ? -static_cast<uint64_t>(x) : static_cast<uint64_t>(x);
    return "[" + rec::v(x < 0 ? 1 : 0) + "," + rec::v(m >> 44) + "," + rec::v((m >> 22) & 0x3fffff) + "," + rec::v(m & 0x3fffff) + "]";
}
template <typename S>
void wide(rec::Rng& r)
{
    std::vector<S> base;
    for(int k : {8, 15, 16, 24, 31, 32, 33, 40, 52, 53, 54, 61, 62})
        for(long d : {-1, 0, 1}) base.push_back(static_cast<S>((1l << k) + d));
    base.push_back(0);
    base.push_back(std::numeric_limits<S>::max());
    base.push_back(std::numeric_limits<S>::max() - 1);
    if(std::is_signed<S>::value) {
        for(std::size_t k = base.size(); k-- > 0;) base.push_back(static_cast<S>(-base[k]));
        base.push_back(std::numeric_limits<S>::min());
    }
    for(const S& x : base) {
        const S y = t::conjugate(x);
        rec::Ev("wide").raw("a", digits(x)).raw("b", digits(y)).kv("eq", t::IsEqual(x, y)).kv("zero", t::IsZero(x)).kv("same", true);
    }
    for(int k = 0; k < (rec::thorough() ? 2000 : 300); ++k) {
        const S x = r.pick(base);
        S y       = r.pick(base);
        switch(r.in(0, 3)) {
        case 0: y = x; break;
        case 1: y = static_cast<S>(static_cast<uint64_t>(x) ^ (1ul << r.in(0, 62))); break;
        case 2: y = static_cast<S>(static_cast<uint64_t>(x) + (static_cast<uint64_t>(r.in(1, 7)) << 32)); break;
        }
        rec::Ev("wide").raw("a", digits(x)).raw("b", digits(y)).kv("eq", t::IsEqual(x, y)).kv("zero", t::IsZero(x)).kv("same", false);
    }
}
// comparison: values are multiples of eps/256
template <typename S>
void compare(rec::Rng& r)
{
    using R         = typename Kind<S>::Real;
    const R eps     = std::numeric_limits<R>::epsilon();
    const R unit    = eps / 256;
    const std::vector<long> d = {0, 1, 128, 254, 255, 256, 257, 300, 512, 1000};
    auto off = [&](long tol) { // differences around the limit
        const long lim = (tol < 0 ? 0 : tol) + 256;
        const std::vector<long> c = {0, 1, lim - 1, lim, lim + 1, lim / 2, 2 * lim, r.pick(d), -1, -(lim - 1), -lim, -(lim + 1), -2 * lim};
        return r.pick(c);
    };
    for(int k = 0; k < (rec::thorough() ? 3000 : 500); ++k) {
        const long tol = r.flip() ? -1 : r.pick(d);
        const auto a   = r.in(0, 3) ? pick<S>(r, 1000) : Z{0, 0};
        Z b{a.first + off(tol), Kind<S>::cx ? a.second + off(tol) : 0};
        const int which = static_cast<int>(r.in(0, 3));
        if(which == 0) b.first = a.first;
        if(which == 1) b.second = a.second;
        const S x = Kind<S>::make(a, unit), y = Kind<S>::make(b, unit);
        const R m   = static_cast<R>(tol) * unit;
        const bool eq = tol < 0 ? t::IsEqual(x, y) : t::IsEqual(x, y, m), qe = tol < 0 ? t::IsEqual(y, x) : t::IsEqual(y, x, m);
        rec::Ev("equal").raw("a", z(a)).raw("b", z(b)).kv("tol", tol).kv("eps", 256).kv("eq", eq).kv("qe", qe);
        const Z dz{b.first - a.first, b.second - a.second};
        const S w = Kind<S>::make(dz, unit);
        rec::Ev("zero").raw("a", z(dz)).kv("tol", tol).kv("eps", 256).kv("zero", tol < 0 ? t::IsZero(w) : t::IsZero(w, m));
    }
    // neighbouring numbers of large magnitude: the tolerance is absolute (a and b are recorded without their common part)
    for(int e : {3, 10, 15, 20}) {
        const R base = std::ldexp(R(1), e), step = std::ldexp(eps, e);
        for(long x = 0; x < 4; ++x)
            for(long y = 0; y < 4; ++y) {
                const R s = r.flip() ? R(1) : R(-1);
                const R p = s * (base + static_cast<R>(x) * step), q = s * (base + static_cast<R>(y) * step);
                rec::Ev("equal").raw("a", z({x, 0})).raw("b", z({y, 0})).kv("tol", -1).kv("eps", 1).kv("eq", t::IsEqual(S(p), S(q))).kv("qe", t::IsEqual(S(q), S(p)));
            }
    }
    // larger values: differences far from the limit (eps counts as half a unit of a grid that is much coarser)
    const R big = R(1) / 16;
    for(int k = 0; k < (rec::thorough() ? 2000 : 300); ++k) {
        const long tol = r.in(0, 3) ? 2 * r.in(0, 20) + 1 : -1;
        Z a = pick<S>(r, 1000), b{a.first + 2 * r.in(-30, 30), a.second};
        if(Kind<S>::cx) b.second += 2 * r.in(-30, 30);
        if(r.in(0, 2) == 0) b.first = a.first;
        const S x = Kind<S>::make(a, big), y = Kind<S>::make(b, big);
        const R m = static_cast<R>(tol) * big;
        rec::Ev("equal").raw("a", z(a)).raw("b", z(b)).kv("tol", tol).kv("eps", tol < 0 ? 1 : 0).kv("eq", tol < 0 ? t::IsEqual(x, y) : t::IsEqual(x, y, m)).kv("qe", tol < 0 ? t::IsEqual(y, x) : t::IsEqual(y, x, m));
    }
}
template <typename F>
void floating(unsigned long salt)
{
    rec::Rng r(salt);
    using S = std::complex<F>;
    for(int k = 0; k < (rec::thorough() ? 1000 : 200); ++k) {
        for(F unit : {F(1), F(0.25), F(8)}) {
            conj<F>(r, 1000, unit);
            conj<S>(r, 1000, unit);
            products<F>(r, k % 2 ? 3 : 500, unit);
        }
    }
    compare<F>(r);
    compare<S>(r);
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
#ifndef LEAN
    rec::scenario("types", [] {
        using std::is_same;
        using std::complex;
        std::vector<bool> same{
            is_same<t::RealType<double>::Type, double>::value, is_same<t::RealType<float>::Type, float>::value,
            is_same<t::RealType<complex<double>>::Type, double>::value, is_same<t::RealType<complex<float>>::Type, float>::value,
            is_same<t::RealType<complex<long double>>::Type, long double>::value, is_same<t::RealType<int>::Type, int>::value,
            t::IsComplex<complex<double>>::value, t::IsComplex<complex<float>>::value, !t::IsComplex<double>::value, !t::IsComplex<int>::value,
            is_same<decltype(t::conjugate(1.)), double>::value, is_same<decltype(t::conjugate(complex<float>())), complex<float>>::value};
        rec::Ev("types").raw("same", rec::list(same, [](bool b) { return rec::v(b); }));
    });
#endif
    rec::scenario("int", [] { rec::Rng r(1); integers<int>(r); });
    rec::scenario("long", [] { rec::Rng r(2); integers<long>(r); });
    FULL(rec::scenario("uint64", [] { rec::Rng r(3); integers<uint64_t>(r); });)
    rec::scenario("wide-long", [] { rec::Rng r(5); wide<long>(r); });
    FULL(rec::scenario("wide-uint64", [] { rec::Rng r(6); wide<uint64_t>(r); });)
    FULL(rec::scenario("int8", [] { rec::Rng r(4); for(int i = -4; i < 5; ++i) rec::Ev("zero").raw("a", z({i, 0})).kv("tol", -1).kv("eps", 1).kv("zero", t::IsZero(static_cast<int8_t>(i))); });)
    for(unsigned long i = 0; i < 2; ++i) {
        rec::scenario("float-" + std::to_string(i), [=] { floating<float>(10 + i); });
        rec::scenario("double-" + std::to_string(i), [=] { floating<double>(20 + i); });
        FULL(rec::scenario("long double-" + std::to_string(i), [=] { floating<long double>(30 + i); });)
    }
    return rec::run();
}
