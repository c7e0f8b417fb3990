// C01: numeric commutators
#include "alg.hpp"

#include <ieompp/algebra/commutator.hpp>
#include <ieompp/algebra/term.hpp>

#include <list>

using namespace alg;

template <typename T, typename Container>
void call(const T& a, const T& b, Container before)
{
    const auto sa = term(a), sb = term(b);
    const auto sbefore = terms(before);
    commutate(a, b, before);
    rec::Ev("commutate")
        .raw("a", sa)
        .raw("b", sb)
        .raw("before", sbefore)
        .raw("after", terms(before))
        .raw("a2", term(a))
        .raw("b2", term(b));
}

template <typename P, typename Op>
struct Gen {
    using T = Term<P, Op>;
    std::vector<std::vector<long>> pool;
    rec::Rng rng;
    Gen(std::vector<std::vector<long>> p, unsigned long salt) : pool(p), rng(salt) {}

    Op rop(std::size_t k)
    {
        return Make<Op>::make(rng.flip(), pool[static_cast<std::size_t>(rng.in(0, static_cast<long>(k) - 1))]);
    }
    T rterm(long len, std::size_t k)
    {
        T t;
        t.prefactor = MakePref<P>::make(rng.in(-3, 3), rng.in(-3, 3));
        for(long i = 0; i < len; ++i) {
            t.operators.push_back(rop(k));
        }
        return t;
    }
    // products that do not vanish: creators and annihilators of each mode alternate
    T alive(long len, std::size_t k)
    {
        T t;
        t.prefactor = MakePref<P>::make(1 + rng.in(0, 2), rng.in(-3, 3));
        std::vector<int> next(k, -1);
        for(long i = 0; i < len; ++i) {
            const auto m = static_cast<std::size_t>(rng.in(0, static_cast<long>(k) - 1));
            if(next[m] < 0) next[m] = rng.flip();
            t.operators.push_back(Make<Op>::make(next[m] == 1, pool[m]));
            next[m] = 1 - next[m];
        }
        return t;
    }
    void lively(int count, long maxn, long maxm, std::size_t k)
    {
        for(int i = 0; i < count; ++i) {
            long n, m;
            do {
                n = rng.in(maxn - 3, maxn);
                m = rng.in(1, maxm);
            } while((n * m) % 2 != 0);
            if(rng.flip()) std::swap(n, m);
            const auto a = alive(n, k);
            const auto b = alive(m, k);
            call(a, b, std::vector<T>());
        }
    }
    // all products of length len over the first k indices
    std::vector<T> all(long len, std::size_t k)
    {
        std::vector<T> r;
        long total = 1;
        for(long i = 0; i < len; ++i) {
            total *= static_cast<long>(2 * k);
        }
        for(long x = 0; x < total; ++x) {
            T t;
            t.prefactor = MakePref<P>::make(1 + x % 3, 2 - x % 5);
            long y      = x;
            for(long i = 0; i < len; ++i) {
                const auto d = static_cast<std::size_t>(y % static_cast<long>(2 * k));
                y /= static_cast<long>(2 * k);
                t.operators.push_back(Make<Op>::make(d % 2 == 0, pool[d / 2]));
            }
            r.push_back(t);
        }
        return r;
    }

    void exhaustive(long n, long m, std::size_t k)
    {
        const auto as = all(n, k), bs = all(m, k);
        for(const auto& a : as) {
            for(const auto& b : bs) {
                call(a, b, std::vector<T>());
            }
        }
    }
    // "full": so many terms are in the output container before
    void random(int count, long maxlen, std::size_t k, long full = 0)
    {
        for(int i = 0; i < count; ++i) {
            long n, m;
            do {
                n = rng.in(0, maxlen);
                m = rng.in(0, maxlen);
            } while((n * m) % 2 != 0);
            const auto a = rterm(n, k);
            const auto b = rterm(m, k);
            std::vector<T> before;
            for(long j = full ? rng.in(full / 2, full) : rng.in(0, 2); j > 0; --j) {
                before.push_back(rterm(rng.in(0, 3), k));
            }
#ifndef LEAN
            if(i % 3 == 0) {
                call(a, b, std::list<T>(before.begin(), before.end()));
            } else
#endif
            {
                call(a, b, before);
            }
        }
    }
};

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    const std::vector<std::vector<long>> p1{{0}, {7}, {4294967296L}, {8}}, p1s{{2}, {-1}, {0}, {5}},
        p2{{0, 0}, {0, 1}, {3, 0}, {3, 1}}, p2c{{1, 2}, {2, 1}, {1, 1}, {2, 2}},
        p3{{0, 1, 0}, {1, 0, 0}, {0, 1, 1}, {1, 0, 1}}, p3l{{5, 5, 5}, {5, 5, 6}, {5, 6, 5}, {6, 5, 5}},
        p4{{1, 2, 3, 0}, {1, 2, 4, 0}, {4294967297L, 2, 3, 0}, {1, 2, 3, 1}};

    // exhaustive over two modes
    for(long n = 0; n <= 3; ++n) {
        for(long m = 0; m <= 3; ++m) {
            if((n * m) % 2 == 0 && n + m <= 5) {
                rec::scenario("ex2-" + to_string(n) + "-" + to_string(m), [=] {
                    Gen<double, Operator<uint64_t, bool>>(p2, 1).exhaustive(n, m, 2);
                });
            }
        }
    }
    rec::scenario("ex-idx1", [=] {
        Gen<double, Operator<uint64_t>> g(p1, 2);
        g.exhaustive(1, 2, 3);
        g.exhaustive(2, 1, 3);
    });
    rec::scenario("ex-idx3", [=] {
        Gen<int, Operator<int, int, bool>> g(p3, 3);
        g.exhaustive(1, 2, 3);
        g.exhaustive(2, 1, 3);
    });
#ifndef LEAN
    rec::scenario("ex-idx4", [=] {
        Gen<int, Operator<long, int, char, bool>> g(p4, 4);
        g.exhaustive(1, 2, 3);
        g.exhaustive(2, 1, 3);
    });
#endif
    rec::scenario("full", [=] {
        Gen<double, Operator<uint64_t, bool>>(p2, 91).random(4, 4, 3, 140);
        Gen<int, Operator<int, int, bool>>(p3, 92).random(3, 4, 3, 600);
    });
    const int reps = th ? 400 : 40;
    for(int r = 0; r < reps; ++r) {
        const auto s = static_cast<unsigned long>(100 + 10 * r);
        const auto n = to_string(r);
        const int c  = 12;
        rec::scenario("r-d1-" + n, [=] { Gen<double, Operator<uint64_t>>(p1, s).random(c, 5, 4); });
        rec::scenario("r-c1-" + n, [=] { Gen<std::complex<double>, Operator<int>>(p1s, s + 1).random(c, 5, 3); });
        rec::scenario("r-d2-" + n, [=] { Gen<double, Operator<uint64_t, bool>>(p2, s + 2).random(c, 5, 4); });
        FULL(rec::scenario("r-c2-" + n, [=] { Gen<std::complex<float>, Operator<int, int>>(p2c, s + 3).random(c, 5, 4); });)
        rec::scenario("r-i3-" + n, [=] { Gen<int, Operator<int, int, bool>>(p3, s + 4).random(c, 4, 4); });
        FULL(rec::scenario("r-f3-" + n, [=] { Gen<float, Operator<int, char, short>>(p3l, s + 5).random(c, 5, 4); });)
        FULL(rec::scenario("r-d4-" + n, [=] { Gen<double, Operator<long, int, char, bool>>(p4, s + 6).random(c, 4, 4); });)
        rec::scenario("r-long-" + n, [=] { Gen<double, Operator<uint64_t, bool>>(p2, s + 7).random(4, 7, 4); });
        if(r % 2 == 0) {
            rec::scenario("r-live-" + n, [=] { Gen<double, Operator<uint64_t, bool>>(p2, s + 9).lively(4, 12, 4, 3); });
            rec::scenario("r-live2-" + n, [=] { Gen<double, Operator<uint64_t, bool>>(p2, s + 19).lively(4, 6, 6, 3); });
        }
        // long products: every sign exponent and many positions of the contracted pair
        if(r % 4 == 1) {
            rec::scenario("r-live3-" + n, [=] {
                Gen<double, Operator<uint64_t, bool>> g(p2, s + 29);
                g.lively(2, 17, 2, 3);
                g.lively(1, 26, 2, 2);
                g.lively(1, 11, 10, 4);
            });
        }
        if(r % 4 == 0) rec::scenario("r-longer-" + n, [=] { Gen<double, Operator<uint64_t, bool>>(p2, s + 8).random(3, 11, 3); });
    }
    return rec::run();
}
