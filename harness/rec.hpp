// Event recorder shared by all conformance drivers.
//
// A driver is a list of scenarios.  Scenarios run in forked children, which write one JSON
// object per line (one event per public API call, with arguments and results).  If a child does
// not end normally (assertion, signal, sanitizer report, exception, endless loop) the parent
// appends an event {"op":"died",...}, which no action of any specification explains.
#ifndef VERIF_REC_HPP_
#define VERIF_REC_HPP_

#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <random>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

// Instantiations beyond those of the repository's own tests and programs.  If they do not compile, the
// driver is built without them (kit.compile defines LEAN).
#ifdef LEAN
#define FULL(...)
#else
#define FULL(...) __VA_ARGS__
#endif

namespace rec
{
    // values that cannot be represented exactly as small integers are replaced by this sentinel
    // and mark the event as bad ("ok":false)
    static const long long BAD = 1999999999LL;
    static const long long LIM = 1000000000LL;

    struct State {
        FILE* out       = stdout;
        long shard      = 0, shards = 1;
        bool thorough   = false;
        unsigned long seed = 1;
        long counter    = 0;
        std::string only;
        bool bad = false; // set by the value encoders, consumed by the event writer
        std::string why;
    };
    inline State& st()
    {
        static State s;
        return s;
    }

    inline std::string bad(const std::string& why)
    {
        st().bad = true;
        if(st().why.empty()) {
            st().why = why;
        }
        return std::to_string(BAD);
    }

    inline std::string str(const std::string& s)
    {
        std::string r = "\"";
        for(char c : s) {
            if(c == '"' || c == '\\') {
                r += '\\';
                r += c;
            } else if(c == '\n') {
                r += "\\n";
            } else if(c == '\t') {
                r += "\\t";
            } else if(static_cast<unsigned char>(c) < 0x20) {
                r += "?";
            } else {
                r += c;
            }
        }
        return r + "\"";
    }

    inline std::string v(bool b) { return b ? "true" : "false"; }
    inline std::string v(const std::string& s) { return str(s); }
    inline std::string v(const char* s) { return str(s); }

    template <typename T>
    typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value,
                            std::string>::type
    v(T t)
    {
        if(t > LIM || t < -LIM) {
            return bad("integer out of range: " + std::to_string(t));
        }
        return std::to_string(t);
    }
    template <typename T>
    typename std::enable_if<std::is_integral<T>::value && std::is_unsigned<T>::value,
                            std::string>::type
    v(T t)
    {
        if(t > static_cast<unsigned long long>(LIM)) {
            return bad("integer out of range: " + std::to_string(t));
        }
        return std::to_string(t);
    }

    // exactly (up to rounding noise of the last bits) integral floating point value
    inline std::string num(double d)
    {
        if(!std::isfinite(d) || std::fabs(d) > LIM) {
            return bad("number out of range: " + std::to_string(d));
        }
        const double r = std::nearbyint(d);
        if(std::fabs(d - r) > 1e-7 * std::max(1., std::fabs(d))) {
            std::ostringstream s;
            s.precision(17);
            s << d;
            return bad("not an integer: " + s.str());
        }
        const long long i = static_cast<long long>(r);
        return std::to_string(i);
    }
    inline std::string v(double d) { return num(d); }
    inline std::string v(float d) { return num(static_cast<double>(d)); }
    template <typename T>
    std::string v(const std::complex<T>& c)
    {
        return "[" + v(c.real()) + "," + v(c.imag()) + "]";
    }
    // fixed point value
    inline std::string fix(double d, double scale) 
    {
        const double x = d * scale;
        if(!std::isfinite(x) || std::fabs(x) > LIM) {
            return bad("number out of range: " + std::to_string(d));
        }
        return std::to_string(static_cast<long long>(std::llround(x)));
    }

    template <typename A, typename B>
    std::string v(const std::pair<A, B>& p);

    template <typename T>
    std::string v(const std::vector<T>& l)
    {
        std::string r = "[";
        bool first    = true;
        for(const auto& x : l) {
            if(!first) {
                r += ",";
            }
            first = false;
            r += v(x);
        }
        return r + "]";
    }
    template <typename A, typename B>
    std::string v(const std::pair<A, B>& p)
    {
        return "[" + v(p.first) + "," + v(p.second) + "]";
    }

    template <typename C, typename F>
    std::string list(const C& c, F f)
    {
        std::string r = "[";
        bool first    = true;
        for(const auto& x : c) {
            if(!first) {
                r += ",";
            }
            first = false;
            r += f(x);
        }
        return r + "]";
    }

    // raw JSON text
    struct Raw {
        std::string s;
    };
    inline std::string v(const Raw& r) { return r.s; }

    struct Obj {
        std::string s = "{";
        bool first    = true;
        template <typename T>
        Obj& kv(const char* k, const T& x)
        {
            return raw(k, v(x));
        }
        Obj& raw(const char* k, const std::string& x)
        {
            if(!first) {
                s += ",";
            }
            first = false;
            s += "\"";
            s += k;
            s += "\":";
            s += x;
            return *this;
        }
        std::string done() const { return s + "}"; }
    };

    // one event; written when the object is destroyed
    struct Ev : Obj {
        explicit Ev(const char* op) { kv("op", op); }
        ~Ev()
        {
            // evaluated after all fields were encoded
            const bool b = st().bad;
            kv("ok", !b);
            if(b) {
                kv("why", st().why);
            }
            st().bad = false;
            st().why.clear();
            const auto line = done() + "\n";
            fwrite(line.data(), 1, line.size(), st().out);
            fflush(st().out);
        }
    };

    inline void init(int argc, char** argv)
    {
        auto& s = st();
        for(int i = 1; i < argc; ++i) {
            const std::string a = argv[i];
            auto val            = [&]() { return std::string(argv[++i]); };
            if(a == "--shard") {
                s.shard = std::stol(val());
            } else if(a == "--shards") {
                s.shards = std::stol(val());
            } else if(a == "--seed") {
                s.seed = std::stoul(val());
            } else if(a == "--thorough") {
                s.thorough = true;
            } else if(a == "--out") {
                s.out = fopen(val().c_str(), "w");
                if(!s.out) {
                    perror("out");
                    exit(3);
                }
            } else if(a == "--only") {
                s.only = val();
            }
        }
    }

    inline bool thorough() { return st().thorough; }

    // deterministic random numbers per scenario
    struct Rng {
        std::mt19937_64 g;
        explicit Rng(unsigned long salt) : g(st().seed * 1000003UL + salt * 7919UL + 17UL) {}
        long in(long a, long b) { return a + static_cast<long>(g() % static_cast<unsigned long>(b - a + 1)); }
        bool flip() { return (g() >> 7) & 1; }
        template <typename T>
        const T& pick(const std::vector<T>& l)
        {
            return l[static_cast<std::size_t>(in(0, static_cast<long>(l.size()) - 1))];
        }
    };

    // Scenarios run in batches, in a random order.  A batch is one child process which goes through several
    // scenarios, one after the other, so that the objects of a scenario meet what earlier ones with other
    // parameters left behind in the process (function-level statics, caches).
    struct Scenario {
        std::string name;
        std::function<void()> f;
        unsigned cpu_seconds;
    };
    inline std::vector<Scenario>& scenarios()
    {
        static std::vector<Scenario> l;
        return l;
    }

    // f must not refer to variables of the place where it is registered
    template <typename F>
    void scenario(const std::string& name, F f, unsigned cpu_seconds = 60)
    {
        auto& s      = st();
        const long i = s.counter++;
        if(s.only.empty() ? i % s.shards == s.shard : name == s.only) {
            scenarios().push_back(Scenario{name, f, cpu_seconds});
        }
    }

    inline double cpu_used()
    {
        struct rusage u;
        getrusage(RUSAGE_SELF, &u);
        return static_cast<double>(u.ru_utime.tv_sec + u.ru_stime.tv_sec) + 1e-6 * static_cast<double>(u.ru_utime.tv_usec + u.ru_stime.tv_usec);
    }

    inline void run_here(const Scenario& sc)
    {
        const double before = cpu_used();
        struct rlimit rl;
        getrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = static_cast<rlim_t>(before) + 1 + sc.cpu_seconds;
        if(rl.rlim_max != RLIM_INFINITY && rl.rlim_cur > rl.rlim_max) {
            rl.rlim_cur = rl.rlim_max;
        }
        setrlimit(RLIMIT_CPU, &rl);
        st().bad = false;
        st().why.clear();
        {
            Ev("begin").kv("sc", sc.name);
        }
        sc.f();
        fflush(st().out);
        if(const char* times = getenv("REC_TIMES")) { // CPU seconds and limit of every scenario
            if(FILE* t = fopen(times, "a")) {
                fprintf(t, "%.2f %u %s\n", cpu_used() - before, sc.cpu_seconds, sc.name.c_str());
                fclose(t);
            }
        }
    }

    // to be called at the end of main; isolate: scenarios must not share a process
    inline int run(bool isolate = false)
    {
        static const std::size_t sizes[] = {6, 1, 12, 3, 30, 2, 1, 20, 4};
        auto& s = st();
        auto& l = scenarios();
        Rng g(static_cast<unsigned long>(s.shard) + 4711);
        for(std::size_t i = l.size(); i > 1; --i) {
            std::swap(l[i - 1], l[static_cast<std::size_t>(g.in(0, static_cast<long>(i) - 1))]);
        }
        // shared with the children: how many scenarios were begun, how many ended
        void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if(p == MAP_FAILED) {
            perror("mmap");
            exit(3);
        }
        std::size_t* const begun = static_cast<std::size_t*>(p);
        std::size_t* const ended = begun + 1;
        *begun = *ended = 0;
        unsigned batches = static_cast<unsigned>(s.shard);
        while(*begun < l.size()) {
            const std::size_t first = *begun, size = isolate ? 1 : sizes[batches++ % (sizeof(sizes) / sizeof(*sizes))];
            *ended                  = first;
            fflush(s.out);
            const pid_t pid = fork();
            if(pid < 0) {
                perror("fork");
                exit(3);
            }
            if(pid == 0) {
                struct rlimit rl;
                rl.rlim_cur = rl.rlim_max = 0;
                setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__ // there, single allocations are limited
                rl.rlim_cur = rl.rlim_max = 8ul << 30;
                setrlimit(RLIMIT_AS, &rl);
#endif
                for(std::size_t i = first; i < l.size() && i < first + size; ++i) {
                    *begun = i + 1;
                    run_here(l[i]);
                    *ended = i + 1;
                }
                _exit(0);
            }
            int status = 0;
            while(waitpid(pid, &status, 0) < 0) {
            }
            fseek(s.out, 0, SEEK_END);
            if(*begun == first) {
                *begun = first + 1;
            }
            if(!WIFEXITED(status) || WEXITSTATUS(status) != 0 || *ended != *begun) {
                const bool sig = WIFSIGNALED(status);
                Ev("died").kv("sc", l[*begun - 1].name).kv("how", std::string(sig ? "signal " : "exit ") + std::to_string(sig ? WTERMSIG(status) : WEXITSTATUS(status)));
                break; // no specification has such an event: this trace is rejected here at the latest
            }
        }
        return 0;
    }
} // namespace rec

#endif
