#include "vomp.hpp"

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>

typedef unsigned long long ull;
static const int MAX = 64;

static void die(const char* what)
{
    fprintf(stderr, "vomp: %s\n", what);
    abort();
}

// ------------------------------------------------------------------ configuration
static int g_max = 4, g_actual = 4, g_policy = 0;
static int* g_pattern = nullptr;
static long g_length = 0, g_pos = 0, g_switches = 0;
static uint64_t g_rng = 1;
static uint64_t rnd()
{
    g_rng ^= g_rng << 13;
    g_rng ^= g_rng >> 7;
    g_rng ^= g_rng << 17;
    return g_rng;
}

// ------------------------------------------------------------------ recorded accesses
struct Byte {
    uint64_t r, w;
    uint32_t held;
};
struct Word {
    uintptr_t key;
    Byte b[8];
};
static Word* g_table = nullptr;
static size_t g_cap = 0, g_used = 0;

static void table_clear()
{
    free(g_table);
    g_cap   = 1u << 12;
    g_used  = 0;
    g_table = static_cast<Word*>(calloc(g_cap, sizeof(Word)));
}
static Word* slot(Word* t, size_t cap, uintptr_t key)
{
    size_t i = (key * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
    while(t[i].key != 0 && t[i].key != key) i = (i + 1) & (cap - 1);
    return &t[i];
}
static Word* word(uintptr_t key)
{
    if(g_table == nullptr) table_clear();
    Word* w = slot(g_table, g_cap, key);
    if(w->key == key) return w;
    if(2 * (g_used + 1) > g_cap) {
        const size_t cap = 2 * g_cap;
        Word* t          = static_cast<Word*>(calloc(cap, sizeof(Word)));
        for(size_t i = 0; i < g_cap; ++i)
            if(g_table[i].key != 0) *slot(t, cap, g_table[i].key) = g_table[i];
        free(g_table);
        g_table = t;
        g_cap   = cap;
        w       = slot(g_table, g_cap, key);
    }
    ++g_used;
    w->key = key;
    for(auto& x : w->b) x.held = ~0u;
    return w;
}

// text of the finished epochs
static char* g_text = nullptr;
static size_t g_len = 0, g_textcap = 0;
static void put(const char* s)
{
    const size_t n = strlen(s);
    if(g_len + n + 1 > g_textcap) {
        g_textcap = 2 * (g_len + n + 64);
        g_text    = static_cast<char*>(realloc(g_text, g_textcap));
    }
    memcpy(g_text + g_len, s, n + 1);
    g_len += n;
}

struct Class {
    uint64_t r, w;
    uint32_t held;
    long bytes;
};
static void close_epoch(int team)
{
    if(g_table == nullptr) return;
    Class* cs  = nullptr;
    size_t n = 0, cap = 0;
    long touched = 0, readonly = 0;
    for(size_t i = 0; i < g_cap; ++i) {
        if(g_table[i].key == 0) continue;
        for(const auto& b : g_table[i].b) {
            if(b.r == 0 && b.w == 0) continue;
            ++touched;
            if(b.w == 0) {
                ++readonly;
                continue;
            }
            size_t j = 0;
            while(j < n && !(cs[j].r == b.r && cs[j].w == b.w && cs[j].held == b.held)) ++j;
            if(j == n) {
                if(n == cap) {
                    cap = 2 * cap + 8;
                    cs  = static_cast<Class*>(realloc(cs, cap * sizeof(Class)));
                }
                cs[n++] = Class{b.r, b.w, b.held, 0};
            }
            ++cs[j].bytes;
        }
    }
    qsort(cs, n, sizeof(Class), [](const void* x, const void* y) {
        const Class &a = *static_cast<const Class*>(x), &b = *static_cast<const Class*>(y);
        if(a.w != b.w) return a.w < b.w ? -1 : 1;
        if(a.r != b.r) return a.r < b.r ? -1 : 1;
        return a.held < b.held ? -1 : a.held > b.held ? 1 : 0;
    });
    char buf[160];
    if(g_len > 0) put(",");
    snprintf(buf, sizeof buf, "{\"team\":%d,\"bytes\":%ld,\"readonly\":%ld,\"cells\":[", team, touched, readonly);
    put(buf);
    for(size_t j = 0; j < n; ++j) {
        snprintf(buf, sizeof buf, "%s{\"n\":%ld,\"users\":[", j ? "," : "", cs[j].bytes);
        put(buf);
        bool first = true;
        for(int t = 0; t < MAX; ++t) {
            const uint64_t m = 1ull << t;
            if(((cs[j].r | cs[j].w) & m) == 0) continue;
            snprintf(buf, sizeof buf, "%s{\"t\":%d,\"w\":%s}", first ? "" : ",", t, (cs[j].w & m) ? "true" : "false");
            put(buf);
            first = false;
        }
        put("],\"held\":[");
        first = true;
        for(int k = 0; k < 32; ++k) {
            if((cs[j].held >> k & 1u) == 0) continue;
            snprintf(buf, sizeof buf, "%s%d", first ? "" : ",", k);
            put(buf);
            first = false;
        }
        put("]}");
    }
    put("]}");
    free(cs);
    table_clear();
}

// ------------------------------------------------------------------ threads
enum State { IDLE, RUN, BARRIER, LOCKED, DONE };
struct Thread {
    int id;
    sem_t sem;
    State state;
    int lock;          // the lock it waits for
    uint32_t held;     // locks it holds
    int init;          // depth of guarded initialisations
    long shares;       // work-sharing constructs met
    pthread_t handle;
    bool made;
};
static Thread g_thread[MAX];
static __thread Thread* self = nullptr;
static __thread bool busy    = false; // inside of the runtime
static bool g_region         = false;
static int g_team = 1, g_current = 0;
static void (*g_fn)(void*) = nullptr;
static void* g_data        = nullptr;
static int g_owner[32]; // of locks

// work-sharing constructs of a region
struct Share {
    bool used, taken;
    bool up;
    ull next, end, incr, chunk;
    long lnext, lend, lincr, lchunk;
    bool is_long;
    long sections, section;
};
static const long SHARES = 1024;
static Share g_share[SHARES];
static Share& share(long k)
{
    if(k < 0 || k >= SHARES) die("too many work-sharing constructs");
    return g_share[k];
}

// blocks freed inside of a region: addresses are not reused before its end
static void** g_dead = nullptr;
static size_t g_ndead = 0, g_capdead = 0;

static int runnable_from(int start)
{
    for(int k = 0; k < g_team; ++k) {
        const int t = (start + k) % g_team;
        if(g_thread[t].state == RUN) return t;
    }
    return -1;
}
static void hand_to(int t)
{
    if(t == self->id) return;
    ++g_switches;
    g_current = t;
    sem_post(&g_thread[t].sem);
    while(sem_wait(&self->sem) != 0) {}
}
// the running thread cannot go on: somebody else has to
static void leave()
{
    int start = self->id + 1;
    if(g_policy == 1) start = self->id + g_team - 1;
    if(g_policy == 2) start = static_cast<int>(rnd() % static_cast<uint64_t>(g_team));
    int t = -1;
    if(g_policy == 1) {
        for(int k = 0; k < g_team && t < 0; ++k) {
            const int x = (start + g_team - k) % g_team;
            if(g_thread[x].state == RUN) t = x;
        }
    } else {
        t = runnable_from(start);
    }
    if(t < 0) die("deadlock");
    hand_to(t);
}
// a point where the schedule may choose another thread
static void point(bool hot)
{
    if(g_team < 2 || g_policy < 2) return;
    int t = self->id;
    if(g_policy == 2) {
        if(rnd() % (hot ? 4 : 256) != 0) return;
        t = static_cast<int>(rnd() % static_cast<uint64_t>(g_team));
    } else {
        if(!hot || g_length == 0) return;
        t = g_pattern[g_pos++ % g_length] % g_team;
    }
    if(g_thread[t].state != RUN) return;
    hand_to(t);
}

static void finish_thread()
{
    self->state = DONE;
    const int t = runnable_from(self->id + 1);
    if(t >= 0) {
        ++g_switches;
        g_current = t;
        if(self->id == 0) {
            sem_post(&g_thread[t].sem);
            while(sem_wait(&self->sem) != 0) {}
        } else {
            sem_post(&g_thread[t].sem);
        }
        return;
    }
    for(int k = 0; k < g_team; ++k)
        if(g_thread[k].state != DONE) die("deadlock at the end of a region");
    if(self->id != 0) {
        g_current = 0;
        sem_post(&g_thread[0].sem);
    }
}

static void* pool(void* p)
{
    Thread* t = static_cast<Thread*>(p);
    busy      = true;
    self      = t;
    for(;;) {
        while(sem_wait(&t->sem) != 0) {}
        busy = false;
        g_fn(g_data);
        busy = true;
        finish_thread();
    }
    return nullptr;
}

static void start_team(void (*fn)(void*), void* data, unsigned wanted)
{
    if(g_region) { // nested regions get a team of one
        static __thread int depth;
        ++depth;
        fn(data);
        --depth;
        return;
    }
    busy = true;
    int n = wanted == 0 ? g_actual : static_cast<int>(wanted);
    if(n > MAX) n = MAX;
    if(n < 1) n = 1;
    if(n > g_actual && g_actual < g_max) n = g_actual; // a smaller team than asked for is allowed
    for(int k = 0; k < n; ++k) {
        Thread& t = g_thread[k];
        if(!t.made) {
            t.made = true;
            t.id   = k;
            sem_init(&t.sem, 0, 0);
            if(k > 0 && pthread_create(&t.handle, nullptr, pool, &t) != 0) die("no thread");
        }
        t.state  = RUN;
        t.lock   = -1;
        t.held   = 0;
        t.init   = 0;
        t.shares = 0;
    }
    g_team   = n;
    g_fn     = fn;
    g_data   = data;
    memset(g_share, 0, sizeof g_share);
    for(int& o : g_owner) o = -1;
    table_clear();
    self     = &g_thread[0];
    g_region = true;
    int first = 0;
    if(g_policy == 1) first = n - 1;
    if(g_policy == 2) first = static_cast<int>(rnd() % static_cast<uint64_t>(n));
    if(g_policy == 3 && g_length > 0) first = g_pattern[g_pos++ % g_length] % n;
    g_current = first;
    hand_to(first);
    busy = false;
    fn(data);
    busy = true;
    finish_thread();
    g_region = false;
    close_epoch(n);
    self   = nullptr;
    g_team = 1;
    for(size_t i = 0; i < g_ndead; ++i) free(g_dead[i]);
    g_ndead = 0;
    busy    = false;
}

struct Busy {
    bool old;
    Busy() : old(busy) { busy = true; }
    ~Busy() { busy = old; }
};

static void barrier()
{
    if(!g_region || g_team < 2) return;
    self->state = BARRIER;
    bool all    = true;
    for(int k = 0; k < g_team; ++k)
        if(g_thread[k].state != BARRIER) all = false;
    if(all) {
        close_epoch(g_team);
        for(int k = 0; k < g_team; ++k) g_thread[k].state = RUN;
        return;
    }
    leave();
}

static void acquire(int k)
{
    if(!g_region || self == nullptr) return;
    while(g_owner[k] >= 0 && g_owner[k] != self->id) {
        self->state = LOCKED;
        self->lock  = k;
        leave();
    }
    g_owner[k] = self->id;
    self->held |= 1u << k;
}
static void release(int k)
{
    if(!g_region || self == nullptr) return;
    g_owner[k] = -1;
    self->held &= ~(1u << k);
    for(int t = 0; t < g_team; ++t)
        if(g_thread[t].state == LOCKED && g_thread[t].lock == k) g_thread[t].state = RUN;
    point(true);
}
// locks by address: 3.. ; 0 unnamed critical, 1 atomic operations, 2 atomic blocks
static const void* g_names[32];
static int lock_of(const void* p)
{
    for(int k = 3; k < 32; ++k) {
        if(g_names[k] == p) return k;
        if(g_names[k] == nullptr) {
            g_names[k] = p;
            return k;
        }
    }
    die("too many locks");
    return 0;
}

static void access(const volatile void* p, size_t n, bool write, bool atomic = false)
{
    if(!g_region || self == nullptr || busy) return;
    Busy b;
    const uintptr_t a   = reinterpret_cast<uintptr_t>(p);
    const uint64_t me   = 1ull << self->id;
    const uint32_t held = self->held | (atomic ? 2u : 0u);
    if(self->init > 0) return;
    bool hot = write;
    for(uintptr_t x = a; x < a + n && !hot; x += 8) {
        const Word* w = slot(g_table, g_cap, x >> 3);
        if(w->key == 0) continue;
        for(const auto& y : w->b) hot = hot || y.w != 0;
    }
    point(hot);
    for(uintptr_t x = a; x < a + n; ++x) {
        Byte& y = word(x >> 3)->b[x & 7];
        (write ? y.w : y.r) |= me;
        y.held &= held;
    }
}

extern "C" {
void vomp_setup(int max, int actual, int policy, unsigned long seed, const int* pattern, long length)
{
    g_max      = max;
    g_actual   = actual;
    g_policy   = policy;
    g_rng      = seed * 2654435761ull + 88172645463325252ull;
    g_pos      = 0;
    g_switches = 0;
    free(g_pattern);
    g_pattern = nullptr;
    g_length  = length;
    if(length > 0) {
        g_pattern = static_cast<int*>(malloc(sizeof(int) * static_cast<size_t>(length)));
        memcpy(g_pattern, pattern, sizeof(int) * static_cast<size_t>(length));
    }
}
char* vomp_take()
{
    char* r = static_cast<char*>(malloc(g_len + 3));
    r[0]    = '[';
    if(g_len > 0) memcpy(r + 1, g_text, g_len);
    r[g_len + 1] = ']';
    r[g_len + 2] = 0;
    g_len        = 0;
    return r;
}
long vomp_switches() { return g_switches; }

// programs: configured by the environment, epochs written at the end
__attribute__((constructor)) static void from_environment()
{
    const char* v = getenv("VOMP");
    int m, a, p;
    unsigned long seed;
    if(v != nullptr && sscanf(v, "%d %d %d %lu", &m, &a, &p, &seed) == 4) vomp_setup(m, a, p, seed, nullptr, 0);
}
__attribute__((destructor)) static void at_end()
{
    const char* v = getenv("VOMP_OUT");
    FILE* f       = v == nullptr ? nullptr : fopen(v, "w");
    if(f == nullptr) return;
    char* text = vomp_take();
    fputs(text, f);
    free(text);
    fclose(f);
}

// ------------------------------------------------------------------ omp_*
int omp_get_thread_num() { return g_region && self != nullptr ? self->id : 0; }
int omp_get_num_threads() { return g_region ? g_team : 1; }
int omp_get_max_threads() { return g_max; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return g_region && g_team > 1; }
int omp_get_level() { return g_region; }
int omp_get_thread_limit() { return MAX; }
int omp_get_dynamic() { return g_actual < g_max; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_num_threads(int n)
{
    g_max    = n;
    g_actual = n;
}
double omp_get_wtime()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* p)
{
    Busy b;
    acquire(lock_of(p));
}
void omp_unset_lock(void* p)
{
    Busy b;
    release(lock_of(p));
}

// ------------------------------------------------------------------ GOMP_*
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { start_team(fn, data, n); }
void GOMP_barrier()
{
    Busy b;
    barrier();
}
void GOMP_critical_start()
{
    Busy b;
    acquire(0);
}
void GOMP_critical_end()
{
    Busy b;
    release(0);
}
void GOMP_critical_name_start(void** p)
{
    Busy b;
    acquire(lock_of(p));
}
void GOMP_critical_name_end(void** p)
{
    Busy b;
    release(lock_of(p));
}
void GOMP_atomic_start()
{
    Busy b;
    acquire(2);
}
void GOMP_atomic_end()
{
    Busy b;
    release(2);
}

static Share& enter()
{
    static Share outside;
    if(!g_region) {
        memset(&outside, 0, sizeof outside);
        return outside;
    }
    return share(self->shares++);
}
static Share* g_outside = nullptr;
static Share& current()
{
    if(!g_region) return *g_outside;
    return share(self->shares - 1);
}
static bool next_long(Share& s, long* a, long* b)
{
    Busy bz;
    if(g_region) point(true);
    if(s.lincr > 0 ? s.lnext >= s.lend : s.lnext <= s.lend) return false;
    long e = s.lnext + s.lincr * s.lchunk;
    if(s.lincr > 0 ? e > s.lend : e < s.lend) e = s.lend;
    *a      = s.lnext;
    *b      = e;
    s.lnext = e;
    return true;
}
static bool next_ull(Share& s, ull* a, ull* b)
{
    Busy bz;
    if(g_region) point(true);
    if(s.up ? s.next >= s.end : s.next <= s.end) return false;
    const ull step = s.chunk * s.incr;
    ull e;
    if(s.up) {
        e = s.end - s.next <= step ? s.end : s.next + step;
    } else {
        e = s.next - s.end <= 0 - step ? s.end : s.next + step;
    }
    *a     = s.next;
    *b     = e;
    s.next = e;
    return true;
}
static void init_long(Share& s, long start, long end, long incr, long chunk)
{
    if(s.used) return;
    s.used   = true;
    s.lnext  = start;
    s.lend   = end;
    s.lincr  = incr;
    s.lchunk = chunk > 0 ? chunk : 1;
}
#define LOOP(name)                                                                                          \
    bool GOMP_loop_##name##_start(long start, long end, long incr, long chunk, long* a, long* b)          \
    {                                                                                                      \
        Busy bz;                                                                                           \
        Share& s = enter();                                                                                \
        g_outside = g_region ? g_outside : &s;                                                             \
        init_long(s, start, end, incr, chunk);                                                             \
        return next_long(s, a, b);                                                                         \
    }                                                                                                      \
    bool GOMP_loop_##name##_next(long* a, long* b)                                                          \
    {                                                                                                      \
        Busy bz;                                                                                           \
        return next_long(current(), a, b);                                                                 \
    }                                                                                                      \
    bool GOMP_loop_ull_##name##_start(bool up, ull start, ull end, ull incr, ull chunk, ull* a, ull* b)   \
    {                                                                                                      \
        Busy bz;                                                                                           \
        Share& s = enter();                                                                                \
        g_outside = g_region ? g_outside : &s;                                                             \
        if(!s.used) {                                                                                      \
            s.used  = true;                                                                                \
            s.up    = up;                                                                                  \
            s.next  = start;                                                                               \
            s.end   = end;                                                                                 \
            s.incr  = incr;                                                                                \
            s.chunk = chunk > 0 ? chunk : 1;                                                               \
        }                                                                                                  \
        return next_ull(s, a, b);                                                                          \
    }                                                                                                      \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b)                                                        \
    {                                                                                                      \
        Busy bz;                                                                                           \
        return next_ull(current(), a, b);                                                                  \
    }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define RUNTIME(name)                                                                                       \
    bool GOMP_loop_##name##_start(long start, long end, long incr, long* a, long* b)                      \
    {                                                                                                      \
        return GOMP_loop_dynamic_start(start, end, incr, 1, a, b);                                        \
    }                                                                                                      \
    bool GOMP_loop_##name##_next(long* a, long* b) { return GOMP_loop_dynamic_next(a, b); }                 \
    bool GOMP_loop_ull_##name##_start(bool up, ull start, ull end, ull incr, ull* a, ull* b)              \
    {                                                                                                      \
        return GOMP_loop_ull_dynamic_start(up, start, end, incr, 1, a, b);                                \
    }                                                                                                      \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return GOMP_loop_ull_dynamic_next(a, b); }
RUNTIME(runtime)
RUNTIME(nonmonotonic_runtime)
RUNTIME(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}

// combined parallel loops: the construct is entered by everyone before the body starts
struct Combined {
    void (*fn)(void*);
    void* data;
    long start, end, incr, chunk;
};
static void combined(void* p)
{
    const Combined c = *static_cast<Combined*>(p);
    {
        Busy bz;
        if(g_region) init_long(enter(), c.start, c.end, c.incr, c.chunk);
    }
    c.fn(c.data);
}
#define PARLOOP(name)                                                                                       \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long start, long end,       \
                                   long incr, long chunk, unsigned)                                        \
    {                                                                                                      \
        Combined c{fn, data, start, end, incr, chunk};                                                     \
        start_team(combined, &c, n);                                                                       \
    }
PARLOOP(static)
PARLOOP(dynamic)
PARLOOP(guided)
PARLOOP(nonmonotonic_dynamic)
PARLOOP(nonmonotonic_guided)
#define PARRUN(name)                                                                                        \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long start, long end,       \
                                   long incr, unsigned)                                                    \
    {                                                                                                      \
        Combined c{fn, data, start, end, incr, 1};                                                         \
        start_team(combined, &c, n);                                                                       \
    }
PARRUN(runtime)
PARRUN(nonmonotonic_runtime)
PARRUN(maybe_nonmonotonic_runtime)

bool GOMP_single_start()
{
    Busy bz;
    if(!g_region) return true;
    Share& s = enter();
    if(s.taken) return false;
    s.taken = true;
    return true;
}
unsigned GOMP_sections_next()
{
    Busy bz;
    Share& s = current();
    if(g_region) point(true);
    return s.section < s.sections ? static_cast<unsigned>(++s.section) : 0u;
}
unsigned GOMP_sections_start(unsigned n)
{
    Busy bz;
    Share& s  = enter();
    g_outside = g_region ? g_outside : &s;
    if(!s.used) {
        s.used     = true;
        s.sections = n;
    }
    return s.section < s.sections ? static_cast<unsigned>(++s.section) : 0u;
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}

#ifndef VOMP_PLAIN
// ------------------------------------------------------------------ statics and mutexes
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g)
{
    const int r = __real___cxa_guard_acquire(g);
    if(r != 0 && self != nullptr) ++self->init;
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    if(self != nullptr && self->init > 0) --self->init;
}
void __wrap___cxa_guard_abort(void* g)
{
    __real___cxa_guard_abort(g);
    if(self != nullptr && self->init > 0) --self->init;
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if(!g_region || self == nullptr || busy) return __real_pthread_mutex_lock(m);
    Busy b;
    acquire(lock_of(m));
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if(!g_region || self == nullptr || busy) return __real_pthread_mutex_unlock(m);
    Busy b;
    release(lock_of(m));
    return 0;
}

// ------------------------------------------------------------------ block operations of libc
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false);
    access(d, n, true);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false);
    access(d, n, true);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    access(d, n, true);
    return __real_memset(d, c, n);
}

#endif

// ------------------------------------------------------------------ instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                     \
    void __tsan_read##n(void* p) { access(p, n, false); }                         \
    void __tsan_write##n(void* p) { access(p, n, true); }                         \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); }               \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); }               \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); }                \
    void __tsan_volatile_write##n(void* p) { access(p, n, true); }                \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); }      \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define OPS(bits, T, name, fun)                                                   \
    T __tsan_atomic##bits##_##name(volatile T* p, T v, int)                       \
    {                                                                             \
        access(p, sizeof(T), true, true);                                         \
        return fun(p, v, __ATOMIC_SEQ_CST);                                       \
    }
#define ATOMIC(bits, T)                                                           \
    T __tsan_atomic##bits##_load(const volatile T* p, int)                        \
    {                                                                             \
        access(p, sizeof(T), false, true);                                        \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                              \
    }                                                                             \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int)                     \
    {                                                                             \
        access(p, sizeof(T), true, true);                                         \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                 \
    }                                                                             \
    OPS(bits, T, exchange, __atomic_exchange_n)                                   \
    OPS(bits, T, fetch_add, __atomic_fetch_add)                                   \
    OPS(bits, T, fetch_sub, __atomic_fetch_sub)                                   \
    OPS(bits, T, fetch_and, __atomic_fetch_and)                                   \
    OPS(bits, T, fetch_or, __atomic_fetch_or)                                     \
    OPS(bits, T, fetch_xor, __atomic_fetch_xor)                                   \
    OPS(bits, T, fetch_nand, __atomic_fetch_nand)                                 \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) \
    {                                                                             \
        access(p, sizeof(T), true, true);                                         \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                             \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) \
    {                                                                             \
        access(p, sizeof(T), true, true);                                         \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                             \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) \
    {                                                                             \
        access(p, sizeof(T), true, true);                                         \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return e;                                                                 \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
} // extern "C"

#ifndef VOMP_PLAIN
// ------------------------------------------------------------------ memory
void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if(p == nullptr) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
    if(!g_region || p == nullptr) {
        free(p);
        return;
    }
    if(g_ndead == g_capdead) {
        g_capdead = 2 * g_capdead + 64;
        g_dead    = static_cast<void**>(realloc(g_dead, g_capdead * sizeof(void*)));
    }
    g_dead[g_ndead++] = p;
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
