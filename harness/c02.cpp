// C02: commutators with symbolic (and mixed) indices
#include "sym.hpp"

#include <map>

#include <ieompp/algebra/commutator.hpp>
#include <ieompp/algebra/term.hpp>

using namespace sym;
using Strs = std::vector<std::string>;

template <typename V, typename Op>
struct Gen {
    using P = sy::Prefactor<V>;
    using T = Term<P, Op>;
    std::vector<Strs> pool; // per position: possible values
    rec::Rng rng;
    Gen(std::vector<Strs> p, unsigned long salt) : pool(p), rng(salt) {}

    Op rop(long names)
    {
        Strs i;
        for(auto& v : pool) {
            i.push_back(v[static_cast<std::size_t>(rng.in(0, std::min<long>(static_cast<long>(v.size()), names) - 1))]);
        }
        return S<Op>::make(rng.flip(), i);
    }
    std::string name(long names)
    {
        for(auto& v : pool) {
            if(!isdigit(v[0][0]) && v[0][0] != '-') {
                return v[static_cast<std::size_t>(rng.in(0, std::min<long>(static_cast<long>(v.size()), names) - 1))];
            }
        }
        return "x";
    }
    T rterm(long len, long names, bool deltas)
    {
        T t;
        t.prefactor.value = MakePref<V>::make(rng.in(-3, 3), rng.in(-2, 2));
        for(long i = 0; i < len; ++i) {
            t.operators.push_back(rop(names));
        }
        if(deltas) {
            for(long i = rng.in(0, 2); i > 0; --i) {
                t.prefactor.kroneckers.push_back(make_kronecker(name(names), name(names)));
            }
        }
        return t;
    }
    void call(const T& a, const T& b, std::vector<T> c)
    {
        const auto x = "[" + sterm(a) + "]", y = "[" + sterm(b) + "]", before = sterms(c);
        commutate(a, b, c);
        rec::Ev("symcomm")
            .raw("sym", S<Op>::flags())
            .raw("x", x)
            .raw("y", y)
            .raw("before", before)
            .raw("after", sterms(c));
    }
    void random(int count, long maxlen, long names)
    {
        for(int i = 0; i < count; ++i) {
            long n, m;
            do {
                n = rng.in(0, maxlen);
                m = rng.in(0, maxlen);
            } while((n * m) % 2 != 0);
            std::vector<T> c;
            if(i % 4 == 3) {
                c.push_back(rterm(rng.in(0, 2), names, true));
            }
            call(rterm(n, names, i % 3 == 0), rterm(m, names, i % 5 == 0), c);
        }
    }
    // long products: two operators of each product carry symbols, the others numbers only
    // (so that the family of instances stays small); they alternate so that the products do not vanish
    void longer(int count, long maxn, long maxm)
    {
        for(int i = 0; i < count; ++i) {
            long n, m;
            do {
                n = rng.flip() ? maxn : rng.in(maxn - 3, maxn);
                m = rng.flip() ? maxm : rng.in(1, maxm);
            } while((n * m) % 2 != 0);
            if(rng.in(0, 2) == 0) std::swap(n, m);
            std::map<long, bool> next;
            auto mk = [&](long len) {
                T t;
                t.prefactor.value = MakePref<V>::make(rng.in(1, 3), rng.in(-2, 2));
                for(long j = 0; j < len; ++j) {
                    const auto at = rng.in(0, static_cast<long>(pool[1].size()) - 1);
                    if(!next.count(at)) next[at] = rng.flip();
                    const long pick = rng.in(0, 9) == 0 ? 1 : 0;
                    t.operators.push_back(
                        S<Op>::make(next[at], {pool[0][static_cast<std::size_t>(pick)], pool[1][static_cast<std::size_t>(at)]}));
                    next[at] = !next[at];
                }
                return t;
            };
            const T a = mk(n);
            T b;
            // the last (or first) operators of both may be contracted
            const bool last = rng.in(0, 2) != 0;
            for(int tries = 0; tries < 40; ++tries) {
                next.clear();
                b             = mk(m);
                const auto& x = last ? a.operators.back() : a.operators.front();
                const auto& y = last ? b.operators.back() : b.operators.front();
                if(x.creator != y.creator && x.index2 == y.index2) break;
            }
            call(a, b, {});
        }
    }
    void exhaustive(const std::vector<Strs>& idx, long n, long m)
    {
        long na = 1, nb = 1;
        for(long i = 0; i < n; ++i) na *= 2 * static_cast<long>(idx.size());
        for(long i = 0; i < m; ++i) nb *= 2 * static_cast<long>(idx.size());
        auto mk = [&](long x, long len) {
            T t;
            t.prefactor.value = MakePref<V>::make(1 + x % 2, x % 3);
            for(long i = 0; i < len; ++i) {
                const auto d = x % (2 * static_cast<long>(idx.size()));
                x /= 2 * static_cast<long>(idx.size());
                t.operators.push_back(S<Op>::make(d % 2 == 0, idx[static_cast<std::size_t>(d / 2)]));
            }
            return t;
        };
        for(long x = 0; x < na; ++x) {
            for(long y = 0; y < nb; ++y) {
                call(mk(x, n), mk(y, m), {});
            }
        }
    }
};

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    const bool th = rec::thorough();
    using St      = std::string;
    const Strs names{"i", "j", "k", "kk", "i_1"}, spin{"0", "1"}, nums{"0", "1", "7"}, names2{"s", "t", "i"};

    rec::scenario("ex12", [=] {
        Gen<double, Operator<St, bool>>({names, spin}, 1).exhaustive({{"i", "0"}, {"i", "1"}, {"j", "0"}}, 1, 2);
    });
    rec::scenario("ex21", [=] {
        Gen<double, Operator<St, bool>>({names, spin}, 1).exhaustive({{"i", "0"}, {"i", "1"}, {"j", "1"}}, 2, 1);
    });
    rec::scenario("ex1", [=] {
        Gen<int, Operator<St>> g({names}, 1);
        g.exhaustive({{"i"}, {"j"}, {"k"}}, 1, 2);
        g.exhaustive({{"i"}, {"j"}, {"k"}}, 2, 1);
        g.exhaustive({{"i"}, {"j"}}, 2, 2);
    });
    rec::scenario("ex-ss", [=] {
        Gen<int, Operator<St, St>> g({names, names2}, 1);
        g.exhaustive({{"i", "s"}, {"j", "s"}, {"i", "t"}}, 1, 2);
        g.exhaustive({{"i", "s"}, {"j", "t"}, {"i", "i"}}, 2, 1);
    });
    rec::scenario("ex-bs", [=] {
        Gen<int, Operator<bool, St>> g({spin, names}, 1);
        g.exhaustive({{"0", "s"}, {"1", "s"}, {"0", "t"}}, 1, 2);
        g.exhaustive({{"0", "s"}, {"1", "s"}, {"0", "t"}}, 2, 1);
    });
    rec::scenario("ex-nsb", [=] {
        Gen<int, Operator<int, St, bool>> g({nums, names, spin}, 1);
        g.exhaustive({{"0", "s", "0"}, {"1", "s", "0"}, {"0", "t", "0"}, {"0", "s", "1"}}, 1, 2);
        g.exhaustive({{"0", "s", "0"}, {"1", "s", "0"}, {"0", "t", "0"}}, 2, 1);
    });
    rec::scenario("ex-snn", [=] {
        Gen<int, Operator<St, int, int>> g({names, nums, nums}, 1);
        g.exhaustive({{"i", "0", "1"}, {"i", "1", "0"}, {"j", "0", "1"}, {"i", "0", "0"}}, 1, 2);
        g.exhaustive({{"i", "0", "1"}, {"i", "1", "0"}, {"j", "0", "0"}}, 2, 1);
    });
    rec::scenario("ex-nns", [=] {
        Gen<int, Operator<int, bool, St>> g({nums, spin, names}, 1);
        g.exhaustive({{"0", "0", "i"}, {"1", "0", "i"}, {"0", "0", "j"}, {"0", "1", "i"}}, 1, 2);
        g.exhaustive({{"0", "0", "i"}, {"1", "1", "i"}, {"0", "0", "j"}}, 2, 1);
    });
    rec::scenario("ex-snsn", [=] {
        Gen<int, Operator<St, int, St, char>> g({names, nums, names2, nums}, 1);
        g.exhaustive({{"i", "0", "s", "1"}, {"i", "1", "s", "1"}, {"j", "0", "s", "1"}, {"i", "0", "s", "7"}}, 1, 2);
        g.exhaustive({{"i", "0", "s", "1"}, {"i", "0", "t", "1"}, {"i", "0", "s", "7"}}, 2, 1);
    });
    rec::scenario("ex-nsnns", [=] {
        Gen<int, Operator<int, St, int, bool, St>> g({nums, names, nums, spin, names2}, 1);
        g.exhaustive({{"0", "i", "0", "1", "s"}, {"0", "i", "1", "1", "s"}, {"0", "i", "0", "0", "s"}, {"0", "i", "0", "1", "t"}}, 1, 2);
        g.exhaustive({{"0", "i", "0", "1", "s"}, {"1", "i", "0", "1", "s"}, {"0", "j", "0", "1", "s"}}, 2, 1);
    });
    const int reps = th ? 100 : 12;
    for(int r = 0; r < reps; ++r) {
        const auto s = static_cast<unsigned long>(1000 + 10 * r);
        const auto n = to_string(r);
        rec::scenario("s-" + n, [=] { Gen<double, Operator<St>>({names}, s).random(8, 4, 3); });
        rec::scenario("sb-" + n, [=] { Gen<double, Operator<St, bool>>({names, spin}, s + 1).random(8, 4, 3); });
        rec::scenario("sb5-" + n, [=] { Gen<double, Operator<St, bool>>({names, spin}, s + 2).random(4, 4, 5); });
        FULL(rec::scenario("csi-" + n, [=] { Gen<std::complex<double>, Operator<St, int>>({names, nums}, s + 3).random(6, 4, 3); });)
        rec::scenario("bs-" + n, [=] { Gen<int, Operator<bool, St>>({spin, names}, s + 4).random(6, 4, 3); });
        if(r < 60) {
            rec::scenario("long-" + n, [=] {
                Gen<double, Operator<St, int>> g({{"i", "j"}, {"0", "1", "7"}}, s + 8);
                g.longer(2, 10, 3);
                g.longer(2, 6, 5);
                g.longer(1, 7, 6);
            });
        }
        rec::scenario("ss-" + n, [=] { Gen<double, Operator<St, St>>({names, names2}, s + 5).random(5, 3, 2); });
        FULL(rec::scenario("sbs-" + n, [=] { Gen<double, Operator<St, bool, St>>({names, spin, names2}, s + 6).random(5, 3, 2); });)
        rec::scenario("isb-" + n, [=] { Gen<double, Operator<int, St, bool>>({nums, names, spin}, s + 7).random(6, 3, 3); });
    }
    return rec::run();
}
