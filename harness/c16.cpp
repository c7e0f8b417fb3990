// C16: Fermi-jump observables
#include "hub.hpp"
#include "trig.hpp"

#include <ieompp/types/blaze.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump_no.hpp>

#include <memory>
#include <thread>

using namespace hub;
namespace rs = ieompp::models::hubbard_real_space;
using B1     = rs::Basis1Operator<Monomial>;
using B3     = rs::Basis3Operator<Monomial>;
using C      = std::complex<double>;
using SV     = std::vector<C>;
using BV     = blaze::DynamicVector<C>;
using J1     = rs::FermiJump1D<double, B1>;
using J3     = rs::FermiJump1D<double, B3>;
using J2     = rs::FermiJump2D<double, B3>;
using N1     = rs::FermiJump1D_NO<double, B1>;
using N3     = rs::FermiJump1D_NO<double, B3>;

using Table = std::vector<std::vector<long>>;
struct TwoPoint {
    std::shared_ptr<Table> g;
    long den;
    double operator()(const Op& a, const Op& b) const { return static_cast<double>((*g)[a.index1][b.index1]) / static_cast<double>(den); }
};
TwoPoint random_table(rec::Rng& r, uint64_t n, long den)
{
    TwoPoint t{std::make_shared<Table>(n, std::vector<long>(n)), den};
    for(auto& x : *t.g)
        for(auto& y : x) y = r.in(-den, den);
    return t;
}
template <typename L>
std::vector<std::vector<long>> positions(const L& l)
{
    std::vector<std::vector<long>> p;
    for(uint64_t i = 0; i < l.size(); ++i) p.push_back(position(l, i));
    return p;
}

// one object with everything it refers to
struct Object {
    virtual ~Object() = default;
    virtual double eval(const SV& v, bool blaze) const = 0;
    virtual Object* copy() const = 0;
    virtual std::size_t dim() const = 0;
    long den = 1;
    uint64_t n = 0;
};
template <typename J, typename B, typename L>
struct Holder : Object {
    std::shared_ptr<const L> l;
    std::shared_ptr<const B> b;
    J j;
    Holder(std::shared_ptr<const L> l_, std::shared_ptr<const B> b_, J j_) : l(l_), b(b_), j(std::move(j_)) {}
    template <typename X, typename V>
    static auto call(const X& x, const B& b, const V& v, int) -> decltype(x(b, v)) { return x(b, v); }
    template <typename X, typename V>
    static auto call(const X& x, const B&, const V& v, long) -> decltype(x(v)) { return x(v); }
    double eval(const SV& v, bool bl) const override
    {
        if(!bl) return call(j, *b, v, 0);
        BV w(v.size());
        for(std::size_t i = 0; i < v.size(); ++i) w[i] = v[i];
        return call(j, *b, w, 0);
    }
    Object* copy() const override
    {
        auto* r = new Holder(l, b, j);
        r->den  = den;
        r->n    = n;
        return r;
    }
    std::size_t dim() const override { return b->size(); }
};
template <typename J, typename B, typename L>
Object* hold(std::shared_ptr<const L> l, std::shared_ptr<const B> b, J j)
{
    return new Holder<J, B, L>(l, b, std::move(j));
}

struct World {
    rec::Rng r;
    std::vector<std::unique_ptr<Object>> objs;
    explicit World(unsigned long salt) : r(salt) {}
    template <typename L>
    void add(Object* o, const char* kind, const L& l, const std::vector<long>& turns, const TwoPoint& t)
    {
        o->den = t.den;
        o->n   = l.size();
        objs.emplace_back(o);
        rec::Ev("make").kv("id", objs.size()).kv("kind", kind).kv("turns", turns).kv("pos", positions(l)).kv("den", t.den).kv("g", *t.g);
    }
    void make_chain(int what, uint64_t n)
    {
        const double dx  = std::vector<double>{1., 2., .5}[static_cast<std::size_t>(r.in(0, 2))];
        const long turns = r.in(-3, 5);
        const bool no    = what == 2 || what == 3;
        // the normal-ordered forms look at a quarter turn per unit length
        const long unit  = std::vector<long>{1, 2, 3, 5}[static_cast<std::size_t>(r.in(0, 3))];
        auto l           = std::make_shared<const Chain>(n, no ? static_cast<double>(unit) : dx);
        const auto t     = n > 100 ? random_table(r, 1, 1) : random_table(r, n, r.in(1, 3));
        const double kF  = trig::turn(turns, 4) / dx;
        auto b1          = std::make_shared<const B1>(*l);
        auto b3          = std::make_shared<const B3>(n > 100 ? Chain(1) : *l);
        if(what == 0) add(hold(l, b1, J1(*l, t, kF)), "plain", *l, {turns}, t);
        if(what == 1) add(hold(l, b3, J3(*b3, *l, t, kF)), "three", *l, {turns}, t);
        if(what == 2) add(hold(l, b1, N1(*l, t)), "plain", *l, {unit}, t);
        if(what == 3) add(hold(l, b3, N3(*l, t)), "plain", *l, {unit}, t);
    }
    void make_square(uint64_t x, uint64_t y)
    {
        const double dx = r.flip() ? 1. : .5, dy = r.flip() ? 1. : 2.;
        const long tx = r.in(-2, 5), ty = r.in(-2, 5);
        auto l       = std::make_shared<const Square>(x, y, dx, dy);
        const auto t = random_table(r, l->size(), r.in(1, 3));
        auto b3      = std::make_shared<const B3>(*l);
        add(hold(l, b3, J2(*b3, *l, t, Square::Vector{trig::turn(tx, 4) / dx, trig::turn(ty, 4) / dy})), "three", *l, {tx, ty}, t);
    }
    SV vector(std::size_t id, int kind)
    {
        const auto n = objs[id]->dim();
        SV v(n);
        for(auto& x : v) x = {static_cast<double>(r.in(-3, 3)), static_cast<double>(r.in(-3, 3))};
        if(kind == 1)
            for(std::size_t i = 1; i < n; ++i)
                if(r.in(0, 5)) v[i] = 0;
        if(kind == 2) {
            std::fill(v.begin(), v.end(), 0.);
            v[static_cast<std::size_t>(r.in(0, static_cast<long>(n) - 1))] = 1;
        }
        return v;
    }
    std::string value(std::size_t id, double x) { return rec::num(x * static_cast<double>(objs[id]->den * objs[id]->den)); }
    void eval(std::size_t id, int kind, bool blaze)
    {
        const auto v = vector(id, kind);
        const auto w = v;
        const double x = objs[id]->eval(v, blaze);
        if(v != w) rec::bad("vector changed");
        rec::Ev("eval").kv("id", id + 1).kv("v", v).raw("value", value(id, x));
        // the same vector in other units
        if(r.in(0, 2) == 0) {
            const int e = static_cast<int>(r.pick(std::vector<long>{-120, -70, -40, -20, 30, 60, 120}));
            auto u      = v;
            for(auto& z : u) z *= std::ldexp(1., e);
            rec::Ev("eval").kv("id", id + 1).kv("v", v).raw("value", value(id, std::ldexp(objs[id]->eval(u, blaze), -2 * e)));
        }
    }
    void copy(std::size_t id)
    {
        objs.emplace_back(objs[id]->copy());
        rec::Ev("copy").kv("id", objs.size()).kv("from", id + 1);
    }
    // evaluations of several objects at the same time
    void overlap(std::vector<std::size_t> ids, bool blaze)
    {
        std::vector<SV> vs;
        std::vector<std::vector<double>> res(ids.size());
        for(auto i : ids) vs.push_back(vector(i, 0));
        {
            std::vector<std::thread> ts;
            for(std::size_t k = 0; k < ids.size(); ++k) ts.emplace_back([&, k] {
                    for(int rep = 0; rep < 25; ++rep) res[k].push_back(objs[ids[k]]->eval(vs[k], blaze));
                });
            for(auto& t : ts) t.join();
        }
        rec::Ev e("overlap");
        std::string s = "[";
        for(std::size_t k = 0; k < ids.size(); ++k) {
            rec::Obj o;
            o.kv("id", ids[k] + 1).kv("v", vs[k]).raw("values", rec::list(res[k], [&](double x) { return value(ids[k], x); }));
            s += (k ? "," : "") + o.done();
        }
        e.raw("evals", s + "]");
    }
};

void history(unsigned long salt, long ops)
{
    World w(salt);
    for(long k = 0; k < ops; ++k) {
        const long c = w.objs.empty() ? 0 : w.r.in(0, 9);
        if(c <= 1) {
            if(w.r.in(0, 3) == 0) w.make_square(static_cast<uint64_t>(w.r.in(1, 3)), static_cast<uint64_t>(w.r.in(1, 2)));
            else w.make_chain(static_cast<int>(w.r.in(0, 3)), static_cast<uint64_t>(w.r.in(1, 5)));
        } else if(c == 2) {
            w.copy(static_cast<std::size_t>(w.r.in(0, static_cast<long>(w.objs.size()) - 1)));
        } else if(c == 3 && w.objs.size() > 4) {
            // destroy the oldest objects' neighbours: nothing refers to another object
            w.eval(w.objs.size() - 1, 0, true);
        } else {
            w.eval(static_cast<std::size_t>(w.r.in(0, static_cast<long>(w.objs.size()) - 1)), static_cast<int>(w.r.in(0, 2)), w.r.flip());
        }
    }
}

// every size in a certain order, then all of them again
void sizes(const std::vector<uint64_t>& ns, int what, bool blaze, unsigned long salt)
{
    World w(salt);
    for(auto n : ns) {
        if(what == 4) w.make_square(n, 2);
        else w.make_chain(what, n);
        w.eval(w.objs.size() - 1, 0, blaze);
    }
    for(std::size_t i = 0; i < w.objs.size(); ++i) w.eval(i, 0, blaze);
    for(std::size_t i = w.objs.size(); i-- > 0;) w.eval(i, 2, blaze);
}

template <typename F>
void fourier(const std::vector<std::vector<long>>& pos, const std::vector<long>& k, long M, F f)
{
    rec::Ev e("fourier");
    trig::emit(e, M);
    e.kv("k", k).kv("pos", pos);
    std::string s = "[";
    for(std::size_t i = 0; i < pos.size(); ++i) {
        const C x = f(i);
        s += (i ? ",[" : "[") + rec::fix(x.real(), 1e4) + "," + rec::fix(x.imag(), 1e4) + "]";
    }
    e.raw("f", s + "]");
}
void coefficients(unsigned long salt)
{
    rec::Rng r(salt);
    for(int rep = 0; rep < 12; ++rep) {
        const auto n    = static_cast<uint64_t>(r.in(1, 24));
        const long M    = r.in(3, 60), k = r.in(-70, 70) + 70;
        const double dx = r.flip() ? 1. : .25;
        const Chain l(n, dx);
        const auto t = random_table(r, n, 1);
        const J1 a(l, t, trig::turn(k, M) / dx);
        fourier(positions(l), {k}, M, [&](std::size_t i) { return a.fourier_coefficient(i); });
        const B3 b(Chain(n < 7 ? n : 7, dx));
        const Chain l7(n < 7 ? n : 7, dx);
        const J3 c(b, l7, t, trig::turn(k, M) / dx);
        fourier(positions(l7), {k}, M, [&](std::size_t i) { return c.fourier_coefficients()[i]; });
        J3 c2(c);
        fourier(positions(l7), {k}, M, [&](std::size_t i) { return c2.fourier_coefficients()[i]; });
        const Chain u(n, 1.);
        const N1 d(u, t);
        fourier(positions(u), {1}, 4, [&](std::size_t i) { return d.fourier_coefficient(i); });
        const N3 e(u, t);
        fourier(positions(u), {1}, 4, [&](std::size_t i) { return e.fourier_coefficient(i); });
        const Square s(static_cast<uint64_t>(r.in(1, 3)), static_cast<uint64_t>(r.in(1, 3)), dx, 2 * dx);
        const B3 bs(s);
        const long ky = r.in(0, 80);
        const J2 f(bs, s, random_table(r, s.size(), 1), Square::Vector{trig::turn(k, M) / dx, trig::turn(ky, M) / 2 / dx});
        fourier(positions(s), {k, ky}, M, [&](std::size_t i) { return f.fourier_coefficients()[i]; });
    }
}
// long chains
void long_chain(uint64_t n, unsigned long salt)
{
    World w(salt);
    w.make_chain(0, n);
    w.eval(0, 0, false);
    w.eval(0, 0, true);
    w.make_chain(2, n);
    w.eval(1, 1, false);
    w.eval(1, 0, true);
    // spacings that are no binary fractions
    for(double dx : {.1, 7.3}) {
        const Chain l(n, dx);
        const long k = w.r.in(1, 30), M = 37;
        const auto t = random_table(w.r, 1, 1);
        const J1 a(l, t, trig::turn(k, M) / dx);
        fourier(positions(l), {k}, M, [&](std::size_t i) { return a.fourier_coefficient(i); });
    }
}
// the two-point function that an object reports
void remember(unsigned long salt)
{
    rec::Rng r(salt);
    World w(salt);
    for(uint64_t n = 1; n < 6; ++n) {
        auto l       = std::make_shared<const Chain>(n, 1.);
        auto b       = std::make_shared<const B1>(*l);
        const auto t = random_table(r, n, 2);
        J1 j(*l, t, 1.);
        N1 d(*l, t);
        N3 e(*l, t);
        auto table = [&](std::function<double(const Op&, const Op&)> f) {
            return rec::list(*b, [&](const Monomial& x) { return rec::list(*b, [&](const Monomial& y) { return rec::num(2. * f(x.front(), y.front())); }); });
        };
        w.add(hold(l, b, J1(*l, t, 0.)), "plain", *l, {0}, t);
        rec::Ev("remember").kv("id", w.objs.size()).raw("g", table([&](const Op& x, const Op& y) { return j.expectation_value(x, y); }));
        rec::Ev("remember").kv("id", w.objs.size()).raw("g", table([&](const Op& x, const Op& y) { return d.expectation_value(x, y); }));
        rec::Ev("remember").kv("id", w.objs.size()).raw("g", table([&](const Op& x, const Op& y) { return e.expectation_value(x, y); }));
    }
}
void overlapping(int what, unsigned long salt)
{
    World w(salt);
    for(int k = 0; k < 3; ++k) {
        if(what == 4) w.make_square(2, 2);
        else w.make_chain(what, static_cast<uint64_t>(4 + (k == 2)));
    }
    for(int rep = 0; rep < 6; ++rep) {
        w.overlap({0, 1, 0}, rep % 2);
        w.overlap({0, 1, 2, 0}, rep % 2);
    }
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    for(unsigned long s = 0; s < (th ? 64 : 24); ++s) rec::scenario("history" + std::to_string(s), [=] { history(s, th ? 60 : 30); });
    for(int what = 0; what < 5; ++what) {
        const auto s = std::to_string(what);
        for(bool bl : {false, true}) {
            const std::string p = bl ? "b" : "s";
            rec::scenario("up" + p + s, [=] { sizes({1, 2, 3, 4, 5}, what, bl, 70); });
            rec::scenario("down" + p + s, [=] { sizes({5, 3, 2, 1}, what, bl, 71); });
            rec::scenario("mixed" + p + s, [=] { sizes({2, 5, 2, 4, 1, 3}, what, bl, 72); });
        }
        rec::scenario("overlap" + s, [=] { overlapping(what, 80 + static_cast<unsigned long>(what)); });
    }
    for(unsigned long s = 0; s < 4; ++s) rec::scenario("fourier" + std::to_string(s), [=] { coefficients(90 + s); });
    for(uint64_t n : {300u, 5000u}) rec::scenario("long" + std::to_string(n), [=] { long_chain(n, n); });
    rec::scenario("remember", [=] { remember(99); });
    return rec::run();
}
