// C06: histories of the excited Fermi sea, generated by TLC (file) and at random
#include "alg.hpp"

#include <ieompp/algebra/monomial.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>

using namespace alg;
using ieompp::models::hubbard_momentum_space::ExcitedFermiSea;

template <typename F>
struct Table {
    using Float = F;
    std::vector<F> d;
    F operator()(uint64_t k) const { return d.at(k); }
};

struct O {
    bool c;
    std::vector<long> m;
};

template <typename Tuple, std::size_t... I>
std::string tup(const Tuple& t, std::index_sequence<I...>)
{
    std::string p[] = {rec::v(static_cast<long>(std::get<I>(t)))...};
    std::string r   = "[";
    for(std::size_t i = 0; i < sizeof...(I); ++i) r += (i ? "," : "") + p[i];
    return r + "]";
}
template <typename... Ts>
std::string tup(const std::tuple<Ts...>& t)
{
    return tup(t, std::make_index_sequence<sizeof...(Ts)>());
}

template <typename Op, typename Disp>
struct Run {
    using Mono  = Monomial<Op>;
    using State = ExcitedFermiSea<Mono>;
    const Disp& disp;
    typename Disp::Float ef;
    State s;

    // the recording shows the energies relative to base
    Run(const Disp& d, typename Disp::Float e, std::size_t n, double scale, double base = 0.) : disp(d), ef(e)
    {
        std::string t = "[";
        for(std::size_t k = 0; k < n; ++k) t += (k ? "," : "") + rec::fix(disp(k) - base, scale);
        show(rec::Ev("start").raw("disp", t + "]").raw("ef", rec::fix(ef - base, scale)));
    }
    void show(rec::Obj& e)
    {
        using Ix = typename State::Indices;
        auto f   = [](const Ix& i) { return tup(i); };
        e.kv("dead", s.vanishes).kv("isfs", s.is_initial_fermi_sea()).raw("cr", rec::list(s.created_particles, f)).raw("an", rec::list(s.annihilated_particles, f));
    }
    static std::string js(const O& o) { return rec::Obj().kv("c", o.c).kv("m", o.m).done(); }
    void single(const O& o)
    {
        const auto op = Make<Op>::make(o.c, o.m);
        const auto ix = get_indices(op);
        rec::Ev e("single");
        e.kv("c", o.c).kv("m", o.m);
        const bool r = o.c ? s.create_particle(ix, disp, ef) : s.annihilate_particle(ix, disp, ef);
        e.kv("ret", r);
        show(e);
    }
    void oper(const O& o)
    {
        rec::Ev e("apply");
        e.raw("ops", "[" + js(o) + "]");
        e.kv("ret", s.apply_operator(Make<Op>::make(o.c, o.m), disp, ef));
        show(e);
    }
    // list in order of application
    void mono(const std::vector<O>& l)
    {
        Mono m;
        std::string j;
        for(auto it = l.rbegin(); it != l.rend(); ++it) {
            m.push_back(Make<Op>::make(it->c, it->m));
            j += (j.empty() ? "" : ",") + js(*it);
        }
        rec::Ev e("apply");
        e.raw("ops", "[" + j + "]");
        e.kv("ret", s.apply_monomial(m, disp, ef));
        show(e);
    }
    void occ(const std::vector<long>& m)
    {
        rec::Ev("occ").kv("m", m).kv("res", State::is_initially_occupied(get_indices(Make<Op>::make(true, m)), disp, ef));
    }
    void play(const std::vector<O>& l, int mode)
    {
        if(mode == 0) {
            for(auto& o : l) single(o);
        } else if(mode == 1) {
            mono(l);
        } else if(mode == 2) {
            for(auto& o : l) oper(o);
        } else {
            for(std::size_t i = 0; i < l.size(); i += 2) {
                mono({l.begin() + static_cast<long>(i), l.begin() + static_cast<long>(std::min(i + 2, l.size()))});
            }
        }
    }
};

// histories that follow the exclusion principle most of the time
template <typename Op, typename Disp>
void random_history(const Disp& d, typename Disp::Float ef, long n, std::size_t nidx, double scale, unsigned long salt, double base = 0.)
{
    rec::Rng rng(salt);
    for(int rep = 0; rep < 6; ++rep) {
        Run<Op, Disp> r(d, ef, static_cast<std::size_t>(n), scale, base);
        std::vector<std::vector<long>> touched;
        const long steps = rng.in(5, 40);
        const long bad   = rng.in(0, 3) == 0 ? 10 : 1000;
        for(long i = 0; i < steps; ++i) {
            std::vector<O> l;
            auto sim = r.s;
            for(long len = rng.in(1, 4); len > 0; --len) {
                std::vector<long> m;
                if(!touched.empty() && rng.in(0, 2)) {
                    m = rng.pick(touched);
                } else {
                    m.push_back(rng.in(0, n - 1));
                    for(std::size_t p = 1; p < nidx; ++p) m.push_back(rng.in(0, 1));
                    touched.push_back(m);
                }
                bool c       = rng.flip();
                auto ix      = get_indices(Make<Op>::make(true, m));
                auto attempt = sim;
                if(!(c ? attempt.create_particle(ix, d, ef) : attempt.annihilate_particle(ix, d, ef)) && rng.in(0, bad)) c = !c;
                c ? sim.create_particle(ix, d, ef) : sim.annihilate_particle(ix, d, ef);
                l.push_back({c, m});
            }
            r.play(l, static_cast<int>(rng.in(0, 3)));
            r.occ(l[0].m);
        }
    }
}

// long products, and many excitations at the same time: first mostly new ones, then they are undone in any order
template <typename Op>
void many(long n, const std::vector<long>& lengths, unsigned long salt)
{
    rec::Rng rng(salt);
    Table<double> d;
    for(long k = 0; k < n; ++k) d.d.push_back(static_cast<double>(rng.in(-3, 3)));
    const double ef = static_cast<double>(rng.in(-1, 2));
    Run<Op, Table<double>> r(d, ef, static_cast<std::size_t>(n), 1.);
    std::vector<O> open;
    auto excite = [&](std::vector<long> m) {
        const bool sea = d(static_cast<uint64_t>(m[0])) < ef;
        for(std::size_t i = 0; i < open.size(); ++i)
            if(open[i].m == m) {
                const O o{!open[i].c, m};
                open.erase(open.begin() + static_cast<long>(i));
                return o;
            }
        open.push_back({!sea, m});
        return open.back();
    };
    for(long len : lengths) {
        std::vector<O> l;
        for(long i = 0; i < len; ++i) {
            if(!open.empty() && rng.in(0, 3) == 0)
                l.push_back(excite(rng.pick(open).m));
            else
                l.push_back(excite({rng.in(0, n - 1), rng.in(0, 1)}));
        }
        r.play(l, len > 8 ? 1 : static_cast<int>(rng.in(0, 3)));
    }
    // undo everything
    std::shuffle(open.begin(), open.end(), rng.g);
    std::vector<O> back;
    for(auto& o : open) back.push_back({!o.c, o.m});
    r.play(back, salt % 2 ? 1 : 3);
    r.occ({n - 1, 1});
    // and once too often
    if(!back.empty()) r.oper(back.back());
}

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    std::string file;
    for(int i = 1; i + 1 < argc; ++i) {
        if(std::string(argv[i]) == "--behaviours") file = argv[i + 1];
    }
    const bool th = rec::thorough();
    using Op2     = Operator<uint64_t, bool>;

    std::vector<std::vector<long>> lines;
    {
        std::ifstream in(file);
        std::string s;
        while(std::getline(in, s)) {
            std::istringstream is(s);
            lines.emplace_back();
            long v;
            while(is >> v) lines.back().push_back(v);
        }
    }
    const std::size_t block = 250;
    for(std::size_t b = 0; b < lines.size(); b += block) {
        rec::scenario("gen-" + to_string(b), [=] {
            for(std::size_t i = b; i < std::min(b + block, lines.size()); ++i) {
                const auto& v = lines[i];
                Table<double> t;
                for(long k = 0; k < v[0]; ++k) t.d.push_back(v[static_cast<std::size_t>(1 + k)] ? -1. : (k % 2 ? 2. : 0.));
                std::vector<O> l;
                for(std::size_t p = static_cast<std::size_t>(1 + v[0]); p + 2 < v.size(); p += 3) l.push_back({v[p] == 1, {v[p + 1], v[p + 2]}});
                Run<Op2, Table<double>> r(t, 0., t.d.size(), 1.);
                r.play(l, static_cast<int>((i / 3) % 4));
            }
        });
    }
    for(unsigned long r = 0; r < (th ? 24u : 6u); ++r) {
        rec::scenario("many-" + to_string(r), [=] { many<Op2>(std::vector<long>{6, 12, 40, 300, 700, 20}[r % 6], {3, 17, 8, 33, 5, 20}, 300 + r); });
        rec::scenario("long-" + to_string(r), [=] { many<Op2>(std::vector<long>{3, 5, 9, 260, 70, 2}[r % 6], {static_cast<long>(60 + 37 * (r % 6)), 4, 129}, 400 + r); });
        // energies that differ in their last digits only
        rec::scenario("fine-" + to_string(r), [=] {
            rec::Rng g(500 + r);
            Table<double> t;
            const long N      = g.in(2, 9);
            const double base = r % 3 == 0 ? 1. : r % 3 == 1 ? -1000. : 1e-7;
            const double unit = std::ldexp(1., r % 3 == 0 ? -40 : r % 3 == 1 ? -30 : -70);
            for(long k = 0; k < N; ++k) t.d.push_back(base + unit * static_cast<double>(g.in(-3, 3)));
            random_history<Op2>(t, base + unit * static_cast<double>(g.in(-3, 4)), N, 2, 1. / unit, 600 + r, base);
        });
    }
    for(int r = 0; r < (th ? 160 : 32); ++r) {
        const auto salt = static_cast<unsigned long>(1000 + r * 10);
        const auto n    = to_string(r);
        rec::scenario("rnd2-" + n, [=] {
            rec::Rng g(salt);
            Table<double> t;
            const long N = g.in(1, 12);
            // the energies in units of 1, 2^-30 or 2^30: no gap is too small to count
            const double unit = r % 3 == 1 ? std::ldexp(1., -30) : r % 3 == 2 ? std::ldexp(1., 30) : 1.;
            for(long k = 0; k < N; ++k) t.d.push_back(unit * static_cast<double>(g.in(-3, 3)));
            random_history<Op2>(t, unit * static_cast<double>(g.in(-3, 4)), N, 2, 1. / unit, salt + 1);
        });
#ifndef LEAN
        rec::scenario("rnd1-" + n, [=] {
            rec::Rng g(salt + 2);
            Table<float> t;
            const long N = g.in(1, 10);
            const float unit = r % 2 ? std::ldexp(1.f, -30) : 1.f;
            for(long k = 0; k < N; ++k) t.d.push_back(unit * static_cast<float>(g.in(-3, 3)));
            random_history<Operator<uint64_t>>(t, unit * static_cast<float>(g.in(-3, 4)), N, 1, 1. / static_cast<double>(unit), salt + 3);
        });
#endif
#ifndef LEAN
        rec::scenario("rnd3-" + n, [=] {
            rec::Rng g(salt + 4);
            Table<double> t;
            const long N = g.in(1, 6);
            for(long k = 0; k < N; ++k) t.d.push_back(static_cast<double>(g.in(-2, 2)));
            random_history<Operator<uint64_t, bool, int>>(t, static_cast<double>(g.in(-2, 2)), N, 3, 1., salt + 5);
        });
#endif
        rec::scenario("hub-" + n, [=] {
            rec::Rng g(salt + 6);
            const uint64_t N = static_cast<uint64_t>(g.in(1, 40));
            ieompp::lattices::PeriodicChain<double> bz(N);
            ieompp::lattices::PeriodicChain<double> real(N, 1.);
            auto d = ieompp::models::hubbard::make_dispersion(bz, real, 1.);
            random_history<Op2>(d, 0.001234 * static_cast<double>(g.in(-1800, 1800)) + 0.0003, static_cast<long>(N), 2, 1e6, salt + 7);
        });
    }
    return rec::run();
}
