// shared by C09 and C10: everything observable about a periodic lattice, independent of dimension
#ifndef VERIF_LAT_HPP_
#define VERIF_LAT_HPP_

#include "rec.hpp"

#include <algorithm>
#include <array>
#include <cmath>
#include <iterator>

namespace lat
{
    static const double U = 8.;

    inline std::string arr(const std::vector<std::string>& l)
    {
        std::string r = "[";
        for(std::size_t i = 0; i < l.size(); ++i) r += (i ? "," : "") + l[i];
        return r + "]";
    }
    template <typename T>
    std::string nums(const T& l)
    {
        std::vector<std::string> r;
        for(auto x : l) r.push_back(rec::v(x));
        return arr(r);
    }
    template <typename It>
    std::string walk(It b, It e)
    {
        std::vector<std::string> r;
        for(; b != e && r.size() < 100000; ++b) r.push_back(rec::v(*b));
        return arr(r);
    }

    // A: adaptor with dim, real, given(a), and accessors below
    template <typename A>
    struct Run {
        A& a;
        using Lat = typename A::Lat;
        using Ix  = typename Lat::SiteIndex;
        std::vector<long> ext;
        // units of the spacings (powers of two)
        std::vector<double> unit = {1., 1.};
        double un(int k) const { return unit[static_cast<std::size_t>(k)]; }

        std::string axes(std::function<std::string(int)> f)
        {
            std::vector<std::string> r;
            for(int k = 0; k < A::dim; ++k) r.push_back(f(k));
            return arr(r);
        }
        void create()
        {
            std::vector<std::string> pos, inv;
            const long n = static_cast<long>(a.l.size());
            for(long i = 0; i < n; ++i) {
                const auto p = a.position(static_cast<Ix>(i));
                pos.push_back(rec::v(p));
                inv.push_back(rec::v(a.number(p)));
            }
            rec::Ev e("lattice");
            e.kv("d", ext).kv("real", a.real).kv("size", a.l.size()).kv("first", a.l.first()).kv("last", a.l.last());
            e.raw("sizes", axes([&](int k) { return rec::v(a.size(k)); }));
            e.raw("pos", arr(pos)).raw("inverse", arr(inv));
            e.raw("length", axes([&](int k) { return rec::fix(a.length(k) / a.dx(k), U); }));
            e.raw("max", axes([&](int k) { return rec::fix((a.max(k) - a.min(k)) / a.dx(k), U); }));
            e.raw("min6", axes([&](int k) { return rec::fix(a.min(k) / un(k), 1e6); }));
            e.raw("dx6", axes([&](int k) { return rec::fix(a.dx(k) / un(k), 1e6); }));
            e.raw("given6", axes([&](int k) { return rec::fix(a.given[static_cast<std::size_t>(k)] / un(k), 1e6); }));
            // momentum spaces: full circle, in units of the number type's precision
            const double eps = std::max<double>(std::numeric_limits<typename Lat::Float>::epsilon(), std::numeric_limits<double>::epsilon());
            const double pi  = std::acos(-1.);
            auto ulps        = [&](double x, double y) { return rec::v(std::lround(std::max(-1e6, std::min(1e6, (x / y - 1) / eps)))); };
            e.raw("ulps", axes([&](int k) {
                return arr({ulps(a.min(k), -pi), ulps(a.max(k), pi), ulps(a.length(k), 2 * pi), ulps(a.dx(k) * static_cast<double>(a.size(k)), 2 * pi)});
            }));
            e.raw("vectors", axes([&](int k) { return axes([&](int m) { return rec::fix(a.vec(k, m) / a.dx(m), U); }); }));
        }
        void coords()
        {
            std::vector<std::string> c;
            for(long i = 0; i < static_cast<long>(a.l.size()); ++i) {
                c.push_back(axes([&](int k) { return rec::fix((a.coord(static_cast<Ix>(i), k) - a.min(k)) / a.dx(k), U); }));
            }
            rec::Ev("coords").raw("c", arr(c));
        }
        void neighbors(long i)
        {
            const auto n = a.l.neighbors(static_cast<Ix>(i));
            const auto u = a.l.unique_neighbors(static_cast<Ix>(i));
            rec::Ev("neighbors").kv("i", i).raw("all", nums(n)).raw("unique", nums(u));
        }
        void pair(long i, long j)
        {
            rec::Ev("pair").kv("a", i).kv("b", j).raw("dist", axes([&](int k) { return rec::v(a.distance(static_cast<Ix>(i), static_cast<Ix>(j), k)); })).kv("neighboring", a.l.neighboring(static_cast<Ix>(i), static_cast<Ix>(j)));
        }
        void lookup(const std::vector<long>& u) { lookup(u, std::vector<long>(u.size(), 0)); }
        // tiny: -1, 0 or 1 per axis, a little off in that direction
        void lookup(const std::vector<long>& u, const std::vector<long>& tiny)
        {
            a.tiny = tiny;
            rec::Ev e("lookup");
            e.kv("u", u).kv("tiny", tiny);
            e.kv("at", a.at(u)).kv("closest", a.closest(u));
            a.tiny.assign(u.size(), 0);
        }
        static double little() { return std::ldexp(1., std::numeric_limits<typename Lat::Float>::digits > 30 ? -20 : -9); }
        // --- lattices with more sites than fit into 32 bits: numbers as <<high, low>> in base 2^20
        static std::string limbs(double x) { return x == std::floor(x) ? limbs(static_cast<long>(x)) : rec::bad("fraction"); }
        static std::string limbs(long x)
        {
            if(x < 0) return rec::bad("negative");
            return "[" + rec::v(x >> 20) + "," + rec::v(x & 0xfffff) + "]";
        }
        std::string where(Ix i)
        {
            const auto p = a.position(i);
            return axes([&](int k) { return limbs(p[static_cast<std::size_t>(k)]); });
        }
        void vast(const std::vector<long>& p, const std::vector<long>& q)
        {
            const auto i = static_cast<Ix>(a.number(p)), j = static_cast<Ix>(a.number(q));
            auto each    = [&](const std::vector<long>& x) { return axes([&](int k) { return limbs(x[static_cast<std::size_t>(k)]); }); };
            rec::Ev e("vast");
            e.raw("d", each(ext)).raw("p", each(p)).raw("q", each(q));
            e.raw("sizes", axes([&](int k) { return limbs(a.size(k)); }));
            // the number of the site, modulo some primes
            e.raw("number", axes2({32749, 32719, 32693, 32687}, [&](long m) { return rec::v(static_cast<long>(i % static_cast<Ix>(m))); }));
            e.raw("size", axes2({32749, 32719, 32693, 32687}, [&](long m) { return rec::v(static_cast<long>(a.l.size() % static_cast<Ix>(m))); }));
            e.raw("last", axes2({32749, 32719, 32693, 32687}, [&](long m) { return rec::v(static_cast<long>(a.l.last() % static_cast<Ix>(m))); }));
            e.raw("back", where(i));
            e.raw("coord", axes([&](int k) { return limbs((a.coord(i, k) - a.min(k)) / a.dx(k)); }));
            std::vector<std::string> n, u;
            for(auto x : a.l.neighbors(i)) n.push_back(where(x));
            for(auto x : a.l.unique_neighbors(i)) u.push_back(where(x));
            e.raw("all", arr(n)).raw("unique", arr(u));
            e.raw("dist", axes([&](int k) { return limbs(a.distance(i, j, k)); })).kv("neighboring", a.l.neighboring(i, j));
            // found again from its coordinates: at the site, a little off, and one period away
            std::vector<std::string> f;
            for(long off : {0l, 3l, -3l}) {
                for(long per : {0l, 1l}) {
                    std::vector<long> c;
                    for(std::size_t k = 0; k < ext.size(); ++k) c.push_back(8 * (p[k] + (k ? -per : per) * ext[k]) + off);
                    f.push_back(where(static_cast<Ix>(a.at(c))));
                }
            }
            e.raw("found", arr(f));
        }
        template <typename Fn>
        static std::string axes2(std::vector<long> l, Fn f)
        {
            std::vector<std::string> r;
            for(long x : l) r.push_back(f(x));
            return arr(r);
        }
        void vasts(unsigned long salt, int count)
        {
            rec::Rng g(salt);
            auto one = [&](long n) {
                const long x = g.in(0, n - 1);
                switch(g.in(0, 5)) {
                    case 0: return 0l;
                    case 1: return n - 1;
                    case 2: return (1l << 32) < n ? (1l << 32) - g.in(0, 1) : x;
                    case 3: return (1l << 31) < n ? (1l << 31) - g.in(0, 1) : x;
                    default: return x;
                }
            };
            for(int c = 0; c < count; ++c) {
                std::vector<long> p, q;
                for(long n : ext) {
                    p.push_back(one(n));
                    q.push_back(one(n));
                }
                if(c % 3 == 0) { // neighbors, possibly across the border
                    q       = p;
                    auto k  = static_cast<std::size_t>(g.in(0, static_cast<long>(ext.size()) - 1));
                    q[k]    = (q[k] + (g.flip() ? 1 : ext[k] - 1)) % ext[k];
                } else if(c % 3 == 1) {
                    q[0] = (p[0] + (1l << 32)) % ext[0];
                }
                vast(p, q);
            }
        }
        // --- spacing 1 + 2^-30: every coordinate is a number <<n, m>> = n + m 2^-30
        static std::string split(double x)
        {
            const double w = std::floor(x);
            return "[" + rec::fix(w, 1.) + "," + rec::fix((x - w) * 1073741824., 1.) + "]";
        }
        void precise()
        {
            rec::Ev e("precise");
            e.kv("d", ext);
            e.raw("dx", axes([&](int k) { return split(a.dx(k)); }));
            e.raw("vectors", axes([&](int k) { return split(a.vec(k, k)); }));
            e.raw("length", axes([&](int k) { return split(a.length(k)); }));
            e.raw("max", axes([&](int k) { return split(a.max(k)); }));
            std::vector<std::string> c;
            for(long i = 0; i < static_cast<long>(a.l.size()); ++i) {
                c.push_back(axes([&](int k) { return split(a.coord(static_cast<Ix>(i), k)); }));
            }
            e.raw("c", arr(c));
        }
        void iterate()
        {
            const auto& cl = a.l;
            auto& ml       = a.m;
            std::vector<std::string> runs;
            {
                std::vector<std::string> r;
                for(auto i : cl) r.push_back(rec::v(i));
                runs.push_back(arr(r));
            }
            {
                std::vector<std::string> r;
                for(auto i : ml) r.push_back(rec::v(i));
                runs.push_back(arr(r));
            }
            runs.push_back(walk(cl.begin(), cl.end()));
            runs.push_back(walk(ml.begin(), ml.end()));
            runs.push_back(walk(cl.cbegin(), cl.cend()));
            runs.push_back(walk(ml.cbegin(), ml.cend()));
            std::vector<long> cnt{static_cast<long>(cl.end() - cl.begin()), static_cast<long>(ml.end() - ml.begin()),
                                  static_cast<long>(cl.cend() - cl.cbegin())};
            rec::Ev("iterate").raw("runs", arr(runs)).kv("counts", cnt);
        }
    };
} // namespace lat

#endif
