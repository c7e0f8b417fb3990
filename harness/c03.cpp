// C03: symbolic prefactors and Kronecker deltas
#include "sym.hpp"

#include <map>

using namespace sym;

// names in byte-wise lexicographic order; events carry the rank
static const std::vector<std::string> names{"",    "A",   "a",   "aa",  "b",    "i",      "i'",
                                            "j",   "k",   "k_1", "k_10", "k_2", "kk",     "q",
                                            "r_i", "r_i+\xce\xb4_j", "z", "\xcf\x81", "\xcf\x81_1", "\xcf\x83"};

static long rank_of(const std::string& s)
{
    for(std::size_t i = 0; i < names.size(); ++i) {
        if(names[i] == s) {
            return static_cast<long>(i);
        }
    }
    return -1;
}

template <typename P>
std::string state(const P& p)
{
    return rec::Obj()
        .raw("val", pref(p.value))
        .raw("ks", rec::list(p.kroneckers,
                             [](const Kronecker& k) {
                                 return "[" + rec::v(rank_of(k.a)) + "," + rec::v(rank_of(k.b)) + "]";
                             }))
        .done();
}

static std::string kraw(const std::vector<Kronecker>& ks)
{
    return rec::list(ks, [](const Kronecker& k) {
        return "[" + rec::v(rank_of(k.a)) + "," + rec::v(rank_of(k.b)) + "]";
    });
}

template <typename V>
struct Hist {
    using P = sy::Prefactor<V>;
    rec::Rng rng;
    std::size_t first, span;
    std::map<int, P> objs;
    int next = 1;

    explicit Hist(unsigned long salt, std::size_t f, std::size_t s) : rng(salt), first(f), span(s) {}

    std::string name()
    {
        return names[(first + static_cast<std::size_t>(rng.in(0, static_cast<long>(span) - 1))) % names.size()];
    }
    Kronecker kron() { return make_kronecker(name(), name()); }
    std::vector<Kronecker> krons(long n)
    {
        std::vector<Kronecker> r;
        for(long i = 0; i < n; ++i) {
            r.push_back(kron());
        }
        return r;
    }
    int any()
    {
        auto it = objs.begin();
        std::advance(it, rng.in(0, static_cast<long>(objs.size()) - 1));
        return it->first;
    }
    void fresh()
    {
        const auto val = MakePref<V>::make(rng.in(-3, 3), rng.in(-2, 2));
        const int id   = next++;
        if(rng.flip()) {
            const auto ks = krons(rng.in(0, 4));
            P p;
            p.value      = val;
            p.kroneckers = ks;
            objs[id]     = p;
            rec::Ev("new").kv("id", id).raw("val", pref(val)).raw("ks", kraw(ks)).raw("res", state(objs[id]));
        } else if(rng.flip()) {
            const auto a = kron(), b = kron();
            objs[id] = sy::make_prefactor(val, {a, b});
            rec::Ev("new").kv("id", id).raw("val", pref(val)).raw("ks", kraw({a, b})).raw("res", state(objs[id]));
        } else {
            objs[id] = sy::make_prefactor(val);
            rec::Ev("new").kv("id", id).raw("val", pref(val)).raw("ks", "[]").raw("res", state(objs[id]));
        }
    }
    bool small(int id) { return std::abs(std::complex<double>(objs[id].value)) < 200 && objs[id].kroneckers.size() < 24; }

    // a factor that is no integer
    template <typename Q>
    typename std::enable_if<!std::is_integral<typename Q::Value>::value>::type half(Q& p, int id)
    {
        p *= 0.5;
        rec::Ev("half").kv("id", id).raw("res", state(p));
    }
    template <typename Q>
    typename std::enable_if<std::is_integral<typename Q::Value>::value>::type half(Q&, int)
    {
    }

    void run(int steps)
    {
        fresh();
        fresh();
        for(int s = 0; s < steps; ++s) {
            const int id = any();
            if(std::complex<double>(objs[id].value).real() == 2 * std::floor(std::complex<double>(objs[id].value).real() / 2)
               && std::complex<double>(objs[id].value).imag() == 2 * std::floor(std::complex<double>(objs[id].value).imag() / 2) && rng.in(0, 5) == 0)
                half(objs[id], id);
            switch(rng.in(0, 8)) {
                case 0: {
                    if(!small(id)) break;
                    const long n = rng.in(-3, 3);
                    objs[id] *= static_cast<int>(n);
                    rec::Ev("mulnum").kv("id", id).raw("val", "[" + rec::v(n) + ",0]").raw("res", state(objs[id]));
                    break;
                }
                case 1: {
                    const auto k = kron();
                    objs[id] *= k;
                    rec::Ev("mulks").kv("id", id).raw("ks", kraw({k})).raw("res", state(objs[id]));
                    break;
                }
                case 2: {
                    const auto ks = krons(rng.in(0, 3));
                    objs[id] *= ks;
                    rec::Ev("mulks").kv("id", id).raw("ks", kraw(ks)).raw("res", state(objs[id]));
                    break;
                }
                case 3:
                case 4: {
                    const int r = rng.in(0, 2) == 0 ? id : any();
                    if(!small(id) || !small(r)) break;
                    objs[id] *= objs[r];
                    rec::Ev("mulpref").kv("id", id).kv("rhs", r).raw("res", state(objs[id])).raw("rres", state(objs[r]));
                    break;
                }
                case 5: {
                    const int r = any(), z = next++;
                    if(!small(id) || !small(r)) break;
                    const P p = objs[id] * objs[r];
                    objs[z]   = p;
                    rec::Ev("times").kv("id", z).kv("x", id).kv("y", r).raw("res", state(objs[z]))
                        .raw("xres", state(objs[id])).raw("yres", state(objs[r]));
                    break;
                }
                case 6:
                case 7: {
                    objs[id].order_kroneckers();
                    rec::Ev("order").kv("id", id).raw("res", state(objs[id]));
                    break;
                }
                default: fresh();
            }
        }
    }
};

int main(int argc, char** argv)
{
    rec::init(argc, argv);
    for(std::size_t i = 1; i < names.size(); ++i) {
        if(!(names[i - 1].compare(names[i]) < 0)) {
            fprintf(stderr, "name table is not sorted at %zu\n", i);
            return 3;
        }
    }
    const bool th = rec::thorough();

    rec::scenario("deltas", [] {
        for(std::size_t a = 0; a < names.size(); a += 2)
            for(std::size_t b = 0; b < names.size(); b += 3)
                for(std::size_t c = 0; c < names.size(); c += 3)
                    for(std::size_t d = 0; d < names.size(); d += 2) {
                        const auto x = make_kronecker(names[a], names[b]), y = make_kronecker(names[c], names[d]);
                        rec::Ev("eq").raw("x", "[" + rec::v(a) + "," + rec::v(b) + "]")
                            .raw("y", "[" + rec::v(c) + "," + rec::v(d) + "]").kv("eq", x == y).kv("ne", x != y);
                    }
        for(std::size_t a = 0; a < 4; ++a)
            for(std::size_t b = 0; b < 4; ++b)
                for(std::size_t c = 0; c < 4; ++c)
                    for(std::size_t d = 0; d < 4; ++d) {
                        const auto x = make_kronecker(names[a], names[b]), y = make_kronecker(names[c], names[d]);
                        rec::Ev("eq").raw("x", "[" + rec::v(a) + "," + rec::v(b) + "]")
                            .raw("y", "[" + rec::v(c) + "," + rec::v(d) + "]").kv("eq", x == y).kv("ne", x != y);
                    }
        for(std::size_t a = 0; a < names.size(); ++a)
            for(std::size_t b = 0; b < names.size(); ++b) {
                auto x = make_kronecker(names[a], names[b]);
                x.order();
                rec::Ev("orderone").raw("x", "[" + rec::v(a) + "," + rec::v(b) + "]")
                    .raw("res", "[" + rec::v(rank_of(x.a)) + "," + rec::v(rank_of(x.b)) + "]");
            }
        for(long a : {0L, 1L, 10L, -3L, 123456L, 2147483648L, (1L << 53) + 1})
            for(long b : {0L, 2L, 10L, -7L, 4294967298L, -(1L << 62)}) {
                const auto x = make_kronecker(a, b);
                rec::Ev("mknum").raw("res", "[" + rec::str(x.a) + "," + rec::str(x.b) + "]")
                    .raw("expect", "[" + rec::str(std::to_string(a)) + "," + rec::str(std::to_string(b)) + "]");
            }
        for(uint64_t a : {0ul, 7ul, 1ul << 32, ~0ul, (1ul << 63) + 1})
            for(uint64_t b : {3ul, (1ul << 33) + 7}) {
                const auto x = make_kronecker(a, b);
                rec::Ev("mknum").raw("res", "[" + rec::str(x.a) + "," + rec::str(x.b) + "]")
                    .raw("expect", "[" + rec::str(std::to_string(a)) + "," + rec::str(std::to_string(b)) + "]");
            }
    });
    // all sequences of up to 3 deltas over three names: ordering is exhaustive
    for(long len = 0; len <= 3; ++len) {
        rec::scenario("order-" + to_string(len), [=] {
            long total = 1;
            for(long i = 0; i < len; ++i) total *= 9;
            for(long x = 0; x < total; ++x) {
                std::vector<Kronecker> ks;
                long y = x;
                for(long i = 0; i < len; ++i, y /= 9) {
                    ks.push_back(make_kronecker(names[7 + static_cast<std::size_t>(y % 3)], names[7 + static_cast<std::size_t>(y / 3 % 3)]));
                }
                sy::Prefactor<double> p;
                p.value      = 2;
                p.kroneckers = ks;
                rec::Ev("new").kv("id", 0).raw("val", "[2,0]").raw("ks", kraw(ks)).raw("res", state(p));
                p.order_kroneckers();
                rec::Ev("order").kv("id", 0).raw("res", state(p));
            }
        });
    }
    // long lists (sorting algorithms switch strategy with the length)
    for(int r = 0; r < (th ? 60 : 10); ++r) {
        rec::scenario("long-" + to_string(r), [=] {
            Hist<double> h(5000 + static_cast<unsigned long>(r), 0, static_cast<std::size_t>(r % 2 ? 4 : 20));
            for(long len : {5L, 15L, 16L, 17L, 20L, 33L, 40L}) {
                sy::Prefactor<double> p;
                p.value       = 1;
                const auto ks = h.krons(len);
                p.kroneckers  = ks;
                rec::Ev("new").kv("id", 0).raw("val", "[1,0]").raw("ks", kraw(ks)).raw("res", state(p));
                p.order_kroneckers();
                rec::Ev("order").kv("id", 0).raw("res", state(p));
                p.order_kroneckers();
                rec::Ev("order").kv("id", 0).raw("res", state(p));
                // and long products
                const auto more = h.krons(len + 2);
                p *= more;
                rec::Ev("mulks").kv("id", 0).raw("ks", kraw(more)).raw("res", state(p));
                p *= p;
                rec::Ev("mulpref").kv("id", 0).kv("rhs", 0).raw("res", state(p)).raw("rres", state(p));
                const auto k = h.kron();
                p *= k;
                rec::Ev("mulks").kv("id", 0).raw("ks", kraw({k})).raw("res", state(p));
                if(len == 40 && r % 2) {
                    p *= p;
                    rec::Ev("mulpref").kv("id", 0).kv("rhs", 0).raw("res", state(p)).raw("rres", state(p));
                }
                p.order_kroneckers();
                rec::Ev("order").kv("id", 0).raw("res", state(p));
            }
        });
    }
    for(int r = 0; r < (th ? 300 : 40); ++r) {
        const auto s = static_cast<unsigned long>(100 + r);
        const auto n = to_string(r);
        rec::scenario("d-" + n, [=] { Hist<double>(s, 7, 3).run(40); });
        rec::scenario("i-" + n, [=] { Hist<int>(s + 1000, s % 20, 5).run(40); });
        FULL(rec::scenario("c-" + n, [=] { Hist<std::complex<double>>(s + 2000, 0, 20).run(40); });)
    }
    return rec::run();
}
