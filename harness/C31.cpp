// C31: operations of different threads on objects they do not change together do not interfere.
//
// The operations run as real code in real threads under a scheduler that owns every switch: the
// instrumented code calls back before each memory access, and a thread only runs while it holds the
// baton. Every execution starts in a fresh child process (nothing initialised or cached yet), the switch points are
// the accesses to memory that some operation writes and that is not private to the thread, the atomic
// operations on it, locks and guarded initialisations; all schedules up to a number of preemptions are
// explored. In each, unordered conflicting accesses (by vector clocks over all accesses), a deadlock, and a
// result other than that of the operation alone are violations.
#include "C31.hpp"
#include "mc.hpp"
#include <atomic>
#include <cerrno>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

typedef std::uintptr_t uptr;
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
}
thread_local int ops_window = 0;

namespace
{
constexpr int MAXT = 3;
enum Mode { off, solo, together };
struct Region {
    uptr lo = 0, hi = 0;
    bool has(uptr a) const { return a >= lo && a < hi; }
};
struct Clock {
    unsigned c[MAXT] = {};
    void join(const Clock &o)
    {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
struct Cell {
    uptr key;
    unsigned wclk;
    signed char wtid;
    unsigned char wmask, rmask;
    unsigned rclk[MAXT];
};
constexpr size_t CELLS = 1 << 20, ARENA = size_t(1) << 28, STACK = size_t(1) << 21;
// What a child tells its parent.
struct Report {
    int state; // 0 fine, 1 violation
    char key[40], msg[1500];
    int pos, npos;
    unsigned choice[mc::MAXD], width[mc::MAXD];
    // solo
    int end;
    size_t nv, nt, nw, nu;
    std::uint64_t points;
    char data[1]; // numbers, text, written words
};
constexpr size_t REPORT = 8 << 20;

Mode mode = off;
Region stacks[MAXT], arenas[MAXT], all_arenas, all_stacks;
uptr top[MAXT];
Cell *cells;
Report *rep;
Clock vc[MAXT];
sem_t baton[MAXT], finished_all;
int threads = 0;
bool done[MAXT];
const void *blocked[MAXT];
int preemptions = 0, bound = 0;
std::uint64_t points = 0;
unsigned streak = 0;
mc::Ctx *ctx;
std::vector<uptr> written; // words that the operations of this execution write outside their own memory (sorted)
std::vector<uptr> settled; // of these, the ones that only a first execution writes
std::vector<uptr> solo_writes, warm_writes;
int solo_round = 0;
const char *names[MAXT];
__thread int tid = -1;
__thread int inside = 0;
struct Sync {
    const void *at;
    Clock rel;
    int owner, depth;
    int readers;
    int state; // of an initialisation: 0 new, 1 running, 2 complete
};
Sync syncs[256];
int nsyncs = 0;

[[noreturn]] void report(const char *key, const char *fmt, ...)
{
    tid = -1;
    if (!rep->state) {
        rep->state = 1;
        std::snprintf(rep->key, sizeof rep->key, "%s", key);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(rep->msg, sizeof rep->msg, fmt, ap);
        va_end(ap);
    }
    rep->pos = ctx ? ctx->pos : 0;
    if (ctx) {
        std::memcpy(rep->choice, ctx->choice, sizeof rep->choice);
        std::memcpy(rep->width, ctx->width, sizeof rep->width);
    }
    _exit(0);
}
Sync &sync_of(const void *p)
{
    for (int i = 0; i < nsyncs; ++i)
        if (syncs[i].at == p) return syncs[i];
    if (nsyncs == 256) {
        std::fprintf(stderr, "MC-INTERNAL: too many synchronisation objects\n");
        _exit(77);
    }
    Sync &s = syncs[nsyncs++];
    s       = Sync{};
    s.at    = p;
    s.owner = -1;
    return s;
}
void pass(int to)
{
    const int me = tid;
    streak       = 0;
    sem_post(&baton[to]);
    while (sem_wait(&baton[me]) != 0 && errno == EINTR) {}
}
int runnable(int *out)
{
    int n = 0;
    for (int i = 0; i < threads; ++i)
        if (i != tid && !done[i] && !blocked[i]) out[n++] = i;
    return n;
}
// A place where another thread may go on first.
void point()
{
    if (mode != together) return;
    ++points;
    int o[MAXT];
    const int n = runnable(o);
    if (!n) return;
    if (++streak > 4000) { // a thread that waits in a loop
        pass(o[0]);
        return;
    }
    if (preemptions >= bound || ctx->pos > mc::MAXD - 80) return;
    const unsigned k = ctx->choose(static_cast<unsigned>(n + 1), "switch");
    if (k) {
        ++preemptions;
        pass(o[k - 1]);
    }
}
void leave()
{
    int o[MAXT];
    const int n = runnable(o);
    if (n) {
        const unsigned k = ctx && ctx->pos < mc::MAXD - 4 ? ctx->choose(static_cast<unsigned>(n), "next") : 0;
        streak           = 0;
        sem_post(&baton[o[k]]);
        return;
    }
    for (int i = 0; i < threads; ++i)
        if (i != tid && !done[i]) report("deadlock", "'%s' waits for ever for something that '%s' holds or has begun", names[i], names[tid]);
    sem_post(&finished_all);
}
void wait_on(const void *p)
{
    if (mode == solo) report("deadlock", "'%s' waits for itself", names[tid]);
    blocked[tid] = p;
    int o[MAXT];
    const int n = runnable(o);
    if (!n) report("deadlock", "'%s' and the other threads wait for each other", names[tid]);
    pass(o[ctx->pos < mc::MAXD - 4 ? ctx->choose(static_cast<unsigned>(n), "next") : 0]);
}
void wake(const void *p)
{
    for (int i = 0; i < threads; ++i)
        if (blocked[i] == p) blocked[i] = nullptr;
}
void acquire(const void *p) { vc[tid].join(sync_of(p).rel); }
void release(const void *p)
{
    sync_of(p).rel.join(vc[tid]);
    ++vc[tid].c[tid];
}
bool is_private(uptr a) { return stacks[tid].has(a) || arenas[tid].has(a); }
bool contains(const std::vector<uptr> &set, uptr w)
{
    size_t lo = 0, hi = set.size();
    while (lo < hi) {
        const size_t m = (lo + hi) / 2;
        if (set[m] < w) lo = m + 1;
        else hi = m;
    }
    return lo < set.size() && set[lo] == w;
}
const Cell *find_cell(uptr word)
{
    size_t i = (word ^ (word >> 17)) & (CELLS - 1);
    for (size_t n = 0; cells[i].key && n < 4096; ++n, i = (i + 1) & (CELLS - 1))
        if (cells[i].key == word) return &cells[i];
    return nullptr;
}
// What was initialised before, as this thread knows, and is not written again: no switch is needed there.
bool is_initialised(uptr a)
{
    if (!contains(settled, a >> 3)) return false;
    const Cell *x = find_cell(a >> 3);
    return x && x->wtid >= 0 && (x->wtid == tid || x->wclk <= vc[tid].c[static_cast<int>(x->wtid)]);
}
bool is_visible(uptr a) { return all_arenas.has(a) || all_stacks.has(a) || (contains(written, a >> 3) && !is_initialised(a)); }
const char *where(uptr a)
{
    return all_arenas.has(a) ? "on the heap" : all_stacks.has(a) ? "on a stack or thread-local" : "in an object of static storage or an operand";
}
void log_word(uptr word, unsigned char mask, bool write)
{
    size_t i = (word ^ (word >> 17)) & (CELLS - 1);
    for (size_t n = 0;; ++n, i = (i + 1) & (CELLS - 1)) {
        if (cells[i].key == word) break;
        if (!cells[i].key) {
            cells[i].key  = word;
            cells[i].wtid = -1;
            break;
        }
        if (n > 4096) return;
    }
    Cell &x        = cells[i];
    const Clock &v = vc[tid];
    if (x.wtid >= 0 && x.wtid != tid && (x.wmask & mask) && x.wclk > v.c[static_cast<int>(x.wtid)])
        report("race", "'%s' %s memory %s that '%s' writes at the same time, with nothing that orders the two", names[tid], write ? "writes" : "reads", where(word << 3), names[static_cast<int>(x.wtid)]);
    if (write && (x.rmask & mask))
        for (int t = 0; t < threads; ++t)
            if (t != tid && x.rclk[t] > v.c[t]) report("race", "'%s' writes memory %s that '%s' reads at the same time, with nothing that orders the two", names[tid], where(word << 3), names[t]);
    if (write) {
        x.wtid  = static_cast<signed char>(tid);
        x.wclk  = v.c[tid];
        x.wmask = x.wtid == tid ? static_cast<unsigned char>(x.wmask | mask) : mask;
    } else {
        if (x.rclk[tid] != v.c[tid]) x.rclk[tid] = v.c[tid];
        x.rmask |= mask;
    }
}
void touch(uptr a, size_t n, bool write)
{
    if (tid < 0 || inside || mode == off || !n) return;
    if (stacks[tid].has(a)) return;
    inside = 1;
    if (mode == solo) {
        if (write && !arenas[tid].has(a))
            for (uptr w = a >> 3; w <= (a + n - 1) >> 3; ++w) {
                auto &set  = solo_round ? warm_writes : solo_writes;
                bool known = false;
                for (size_t i = set.size(); i-- > 0 && !known;) known = set[i] == w;
                if (!known && set.size() < 2000) set.push_back(w);
            }
        inside = 0;
        return;
    }
    if (!arenas[tid].has(a)) {
        bool vis = false;
        for (uptr w = a >> 3; w <= (a + n - 1) >> 3 && !vis; ++w) vis = is_visible(w << 3);
        if (vis) point();
    }
    for (uptr w = a >> 3; w <= (a + n - 1) >> 3; ++w) {
        const uptr lo = w << 3;
        unsigned char m = 0;
        for (int b = 0; b < 8; ++b)
            if (lo + static_cast<uptr>(b) >= a && lo + static_cast<uptr>(b) < a + n) m = static_cast<unsigned char>(m | (1 << b));
        log_word(w, m, write);
    }
    inside = 0;
}
// Around an atomic operation: a switch point when others can see it, and the ordering it gives.
struct Atomic {
    bool on;
    const volatile void *p;
    int mo;
    bool store;
    Atomic(const volatile void *at, int order, bool load, bool st) : on(tid >= 0 && !inside && mode != off), p(at), mo(order), store(st)
    {
        if (!on) return;
        inside       = 1;
        const uptr a = reinterpret_cast<uptr>(at);
        if (mode == solo) {
            if (store && !is_private(a) && warm_writes.size() < 4000) solo_writes.push_back(a >> 3), warm_writes.push_back(a >> 3);
            return;
        }
        if (!is_private(a) && is_visible(a)) point();
        (void)load;
        if (load && mo != 0 && mo != 3) acquire(const_cast<const void *>(p)); // not relaxed, not release
    }
    ~Atomic()
    {
        if (!on) return;
        if (mode == together && store && mo >= 3) release(const_cast<const void *>(p));
        inside = 0;
    }
};
} // namespace

// ---- callbacks of the instrumented code ----
extern "C" {
#define RW(n)                                                                             \
    void __tsan_read##n(void *a) { touch(reinterpret_cast<uptr>(a), n, false); }           \
    void __tsan_write##n(void *a) { touch(reinterpret_cast<uptr>(a), n, true); }           \
    void __tsan_unaligned_read##n(void *a) { touch(reinterpret_cast<uptr>(a), n, false); } \
    void __tsan_unaligned_write##n(void *a) { touch(reinterpret_cast<uptr>(a), n, true); } \
    void __tsan_volatile_read##n(void *a) { touch(reinterpret_cast<uptr>(a), n, false); }  \
    void __tsan_volatile_write##n(void *a) { touch(reinterpret_cast<uptr>(a), n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *a, unsigned long n) { touch(reinterpret_cast<uptr>(a), n, false); }
void __tsan_write_range(void *a, unsigned long n) { touch(reinterpret_cast<uptr>(a), n, true); }
void __tsan_vptr_update(void **p, void *v)
{
    if (*p != v) touch(reinterpret_cast<uptr>(p), 8, true);
}
void __tsan_vptr_read(void **p) { touch(reinterpret_cast<uptr>(p), 8, false); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, T)                                                                                                          \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo)                                                                    \
    {                                                                                                                            \
        Atomic x(p, mo, true, false);                                                                                            \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                             \
    }                                                                                                                            \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo)                                                                 \
    {                                                                                                                            \
        Atomic x(p, mo, false, true);                                                                                            \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                \
    }                                                                                                                            \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo)                                                                 \
    {                                                                                                                            \
        Atomic x(p, mo, true, true);                                                                                             \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int)                                     \
    {                                                                                                                            \
        Atomic x(p, mo, true, true);                                                                                             \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
    }                                                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int)                                       \
    {                                                                                                                            \
        Atomic x(p, mo, true, true);                                                                                             \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
    }                                                                                                                            \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int)                                           \
    {                                                                                                                            \
        Atomic x(p, mo, true, true);                                                                                             \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                        \
        return e;                                                                                                                \
    }                                                                                                                            \
    ATOMIC_RMW(bits, T, add) ATOMIC_RMW(bits, T, sub) ATOMIC_RMW(bits, T, and) ATOMIC_RMW(bits, T, or) ATOMIC_RMW(bits, T, xor) ATOMIC_RMW(bits, T, nand)
#define ATOMIC_RMW(bits, T, op)                                        \
    T __tsan_atomic##bits##_fetch_##op(volatile T *p, T v, int mo)     \
    {                                                                  \
        Atomic x(p, mo, true, true);                                   \
        return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);            \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)

// ---- memory: each thread allocates from its own arena, never reusing an address ----
static void *arena_get(size_t n)
{
    n                = (n + 15) & ~size_t(15);
    const uptr at    = (top[tid] + 31) & ~uptr(15);
    if (at + n > arenas[tid].hi || n > ARENA) return nullptr;
    reinterpret_cast<size_t *>(at)[-2] = n;
    top[tid]                           = at + n;
    return reinterpret_cast<void *>(at);
}
void *__wrap_malloc(size_t n) { return tid >= 0 ? arena_get(n) : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return tid >= 0 ? (n && m > ARENA / n ? nullptr : arena_get(n * m)) : __real_calloc(n, m); }
void __wrap_free(void *p)
{
    if (!p) return;
    const uptr a = reinterpret_cast<uptr>(p);
    if (all_arenas.has(a)) {
        if (tid >= 0 && !inside && mode == together) touch(a, reinterpret_cast<size_t *>(a)[-2], true); // others must be done with it
        return;
    }
    if (tid < 0) __real_free(p); // a block from before the threads: stays allocated in this child
}
void *__wrap_realloc(void *q, size_t n)
{
    const uptr a = reinterpret_cast<uptr>(q);
    if (tid < 0 && !all_arenas.has(a)) return __real_realloc(q, n);
    void *p = tid >= 0 ? arena_get(n) : __real_malloc(n);
    if (!p) return nullptr;
    if (q) {
        size_t old = n;
        if (all_arenas.has(a)) old = reinterpret_cast<size_t *>(a)[-2];
        touch(a, old < n ? old : n, false);
        __real_memcpy(p, q, old < n ? old : n);
        __wrap_free(q);
    }
    return p;
}
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    touch(reinterpret_cast<uptr>(s), n, false);
    touch(reinterpret_cast<uptr>(d), n, true);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    touch(reinterpret_cast<uptr>(s), n, false);
    touch(reinterpret_cast<uptr>(d), n, true);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n)
{
    touch(reinterpret_cast<uptr>(d), n, true);
    return __real_memset(d, v, n);
}

// ---- locks and guarded initialisation ----
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (tid < 0 || inside) return __real_pthread_mutex_lock(m);
    inside = 1;
    point();
    for (;;) {
        Sync &s = sync_of(m);
        if (s.owner < 0 && !s.readers) {
            s.owner = tid;
            s.depth = 1;
            break;
        }
        if (s.owner == tid && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            ++s.depth;
            break;
        }
        wait_on(m);
    }
    acquire(m);
    inside = 0;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (tid < 0 || inside) return __real_pthread_mutex_trylock(m);
    inside = 1;
    point();
    Sync &s     = sync_of(m);
    const int r = s.owner < 0 && !s.readers ? 0 : EBUSY;
    if (!r) {
        s.owner = tid;
        s.depth = 1;
        acquire(m);
    }
    inside = 0;
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (tid < 0 || inside) return __real_pthread_mutex_unlock(m);
    inside  = 1;
    Sync &s = sync_of(m);
    if (s.owner == tid && --s.depth == 0) {
        s.owner = -1;
        release(m);
        wake(m);
        point();
    }
    inside = 0;
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return __wrap_pthread_mutex_lock(reinterpret_cast<pthread_mutex_t *>(m)); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (tid < 0) return 0;
    inside = 1;
    point();
    while (sync_of(m).owner >= 0) wait_on(m);
    ++sync_of(m).readers;
    acquire(m);
    inside = 0;
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (tid < 0) return 0;
    Sync &s = sync_of(m);
    if (s.owner == tid) return __wrap_pthread_mutex_unlock(reinterpret_cast<pthread_mutex_t *>(m));
    inside = 1;
    --s.readers;
    release(m);
    wake(m);
    point();
    inside = 0;
    return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)())
{
    Sync &s = sync_of(o);
    if (tid >= 0) {
        inside = 1;
        if (s.state != 2) point();
        while (s.state == 1) wait_on(o);
        inside = 0;
    }
    if (s.state == 2) {
        if (tid >= 0) acquire(o);
        return 0;
    }
    s.state = 1;
    try {
        f();
    } catch (...) {
        s.state = 0;
        if (tid >= 0) wake(o);
        throw;
    }
    s.state = 2;
    if (tid >= 0) {
        inside = 1;
        release(o);
        wake(o);
        point();
        inside = 0;
    }
    return 0;
}
int __wrap_sched_yield()
{
    if (tid < 0 || mode != together) return 0;
    int o[MAXT];
    inside = 1;
    if (runnable(o)) pass(o[0]);
    inside = 0;
    return 0;
}
int __cxa_guard_acquire(std::uint64_t *g)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    if (tid < 0) {
        if (b[0]) return 0;
        return 1;
    }
    inside = 1;
    point();
    while (!b[0] && b[1]) wait_on(g);
    if (b[0]) {
        acquire(g);
        inside = 0;
        return 0;
    }
    b[1]   = 1;
    inside = 0;
    return 1;
}
void __cxa_guard_release(std::uint64_t *g)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    if (tid >= 0) {
        inside = 1;
        release(g);
        wake(g);
    }
    b[1] = 0;
    b[0] = 1;
    if (tid >= 0) {
        point();
        inside = 0;
    }
}
void __cxa_guard_abort(std::uint64_t *g)
{
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    b[1]             = 0;
    if (tid >= 0) wake(g);
}
} // extern "C"
void *operator new(size_t n)
{
    void *p = tid >= 0 ? arena_get(n) : __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

std::string scratch_file()
{
    static int fds[MAXT + 1];
    int &fd = fds[tid + 1];
    if (!fd) fd = memfd_create("ops", 0);
    return "/proc/" + std::to_string(getpid()) + "/fd/" + std::to_string(fd);
}

namespace
{
struct Solo {
    Out out;
    int end = 2;
    std::vector<uptr> writes, rewrites; // words written by the first and by a later execution
};
std::vector<std::vector<Solo>> solos; // [op][variant]
std::vector<size_t> menu;             // the operations that take part
bool (*program)(int, std::string &) = nullptr; // what thread i does; false with a message when it is wrong

struct Step {
    size_t op, variant;
};
std::vector<Step> plan[MAXT];

void *thread_main(void *arg)
{
    const int me = static_cast<int>(reinterpret_cast<long>(arg));
    while (sem_wait(&baton[me]) != 0 && errno == EINTR) {}
    for (size_t i = 0; i < plan[me].size(); ++i) {
        const Step s = plan[me][i];
        names[me]    = ops_name(s.op);
        Out r;
        tid          = me;
        const int e  = ops_run(s.op, s.variant, r);
        tid          = -1;
        const Solo &ref = solos[s.op][s.variant];
        if (e != ref.end) report("result", "'%s' on input %zu %s while '%s' runs in another thread", names[me], s.variant, e ? "ends in an exception" : "returns", names[1 - (me ? 1 : 0)]);
        if (!r.identical(ref.out)) report("result", "'%s' on input %zu while '%s' runs in another thread: %s as when alone", names[me], s.variant, names[me ? 0 : 1], difference(r, ref.out).c_str());
    }
    tid      = me;
    done[me] = true;
    inside   = 1;
    leave();
    inside = 0;
    tid    = -1;
    return nullptr;
}
void *solo_main(void *arg)
{
    const Step s = *static_cast<const Step *>(arg);
    names[0]     = ops_name(s.op);
    Out *r       = new Out[2];
    for (int i = 0; i < 2; ++i) { // cold and warm
        solo_round   = i;
        tid          = 0;
        rep->end     = ops_run(s.op, s.variant, r[i]);
        tid          = -1;
    }
    char *p = rep->data;
    rep->nv = r[0].v.size();
    rep->nt = r[0].text.size();
    rep->nw = solo_writes.size();
    rep->nu = warm_writes.size();
    if (rep->nv) __real_memcpy(p, r[0].v.data(), rep->nv * 8);
    __real_memcpy(p + rep->nv * 8, solo_writes.data(), rep->nw * 8);
    __real_memcpy(p + rep->nv * 8 + rep->nw * 8, warm_writes.data(), rep->nu * 8);
    __real_memcpy(p + rep->nv * 8 + rep->nw * 8 + rep->nu * 8, r[0].text.data(), rep->nt);
    return nullptr;
}
void *map_shared(size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
void *map_private(size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }

void start_thread(int i, void *(*f)(void *), void *arg)
{
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, reinterpret_cast<void *>(stacks[i].lo), STACK);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_t t;
    if (pthread_create(&t, &at, f, arg) != 0) _exit(77);
}
// Runs f in a child process; what it reports is in *rep.
template <typename F>
int in_child(F f)
{
    rep->state = 0;
    rep->nv = rep->nt = rep->nw = rep->nu = 0;
    rep->end                    = 2;
    const pid_t p               = fork();
    if (p == 0) {
        f();
        _exit(0);
    }
    if (p < 0) _exit(77);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
void prepare()
{
    static bool ready = false;
    if (ready) return;
    ready = true;
    rep   = static_cast<Report *>(map_shared(REPORT));
    cells = static_cast<Cell *>(map_private(CELLS * sizeof(Cell)));
    char *a = static_cast<char *>(map_private(ARENA * MAXT)), *s = static_cast<char *>(map_private(STACK * MAXT));
    all_arenas = { reinterpret_cast<uptr>(a), reinterpret_cast<uptr>(a) + ARENA * MAXT };
    all_stacks = { reinterpret_cast<uptr>(s), reinterpret_cast<uptr>(s) + STACK * MAXT };
    for (int i = 0; i < MAXT; ++i) {
        arenas[i].lo = top[i] = all_arenas.lo + ARENA * static_cast<uptr>(i);
        arenas[i].hi          = arenas[i].lo + ARENA;
        stacks[i].lo          = all_stacks.lo + STACK * static_cast<uptr>(i);
        stacks[i].hi          = stacks[i].lo + STACK;
        sem_init(&baton[i], 0, 0);
    }
    sem_init(&finished_all, 0, 0);
    ops_prepare();
    solos.assign(ops_count(), std::vector<Solo>(static_cast<size_t>(ops_variants())));
    for (size_t o = 0; o < ops_count(); ++o) {
        if (ops_flags(o) & F_TOL) continue; // changes the tolerance that all comparisons share
        menu.push_back(o);
        for (size_t v = 0; v < solos[o].size(); ++v) {
            Step s{ o, v };
            const int st = in_child([&] {
                ctx     = nullptr;
                mode    = solo;
                threads = 1;
                solo_writes.reserve(8192);
                warm_writes.reserve(8192);
                pthread_attr_t at;
                pthread_attr_init(&at);
                pthread_attr_setstack(&at, reinterpret_cast<void *>(stacks[0].lo), STACK);
                pthread_t t;
                if (pthread_create(&t, &at, solo_main, &s) != 0) _exit(77);
                pthread_join(t, nullptr);
            });
            Solo &x = solos[o][v];
            if (!WIFEXITED(st) || WEXITSTATUS(st) || rep->state) continue; // "alone" reports it
            x.end           = rep->end;
            const char *p   = rep->data;
            const double *d = reinterpret_cast<const double *>(p);
            x.out.v.assign(d, d + rep->nv);
            const uptr *w = reinterpret_cast<const uptr *>(p + rep->nv * 8);
            x.writes.assign(w, w + rep->nw);
            x.rewrites.assign(w + rep->nw, w + rep->nw + rep->nu);
            x.out.text.assign(p + rep->nv * 8 + rep->nw * 8 + rep->nu * 8, rep->nt);
        }
    }
}
// One execution of the plan, all of its switches chosen by c.
void run(mc::Ctx &c, int n, int preempt)
{
    std::set<uptr> w, u;
    for (int i = 0; i < n; ++i)
        for (auto &s : plan[i]) {
            const Solo &x = solos[s.op][s.variant];
            w.insert(x.writes.begin(), x.writes.end());
            w.insert(x.rewrites.begin(), x.rewrites.end());
            u.insert(x.rewrites.begin(), x.rewrites.end());
        }
    written.assign(w.begin(), w.end());
    settled.clear();
    for (uptr x : w)
        if (!u.count(x)) settled.push_back(x);
    rep->points  = 0;
    const int st = in_child([&] {
        ctx     = &c;
        mode    = together;
        threads = n;
        bound   = preempt;
        for (int i = 0; i < n; ++i) {
            vc[i].c[i] = 1;
            names[i]   = ops_name(plan[i][0].op);
        }
        for (int i = 0; i < n; ++i) start_thread(i, thread_main, reinterpret_cast<void *>(static_cast<long>(i)));
        sem_post(&baton[c.choose(static_cast<unsigned>(n), "first")]);
        while (sem_wait(&finished_all) != 0 && errno == EINTR) {}
        mode = off;
        std::string why;
        if (!ops_inputs_kept(why)) report("operands", "'%s' and '%s' have changed an operand that both only read: %s", names[0], names[1], why.c_str());
        rep->pos = c.pos;
        __real_memcpy(rep->choice, c.choice, sizeof rep->choice);
        __real_memcpy(rep->width, c.width, sizeof rep->width);
        rep->points = points;
    });
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) std::_Exit(77);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        // The choices of the child are in the shared record of the execution.
        if (c.sh) {
            c.pos = c.sh->len;
            for (int i = 0; i < c.pos; ++i) c.choice[i] = c.sh->choice[i], c.width[i] = c.sh->width[i];
        }
        c.fail("crash", "'%s' and '%s' in two threads end in %s %d", ops_name(plan[0][0].op), ops_name(plan[1].empty() ? plan[0][0].op : plan[1][0].op), WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    }
    c.pos = rep->pos;
    for (int i = 0; i < c.pos; ++i) c.choice[i] = rep->choice[i], c.width[i] = rep->width[i];
    if (rep->state) c.fail(rep->key, "%s", rep->msg);
    c.step(static_cast<std::uint64_t>(n) + rep->points);
}
std::uint64_t id(const Step &s) { return s.op * 8 + s.variant + 1; }
} // namespace

// The reference: every operation alone, cold and warm.
MC(alone)
{
    prepare();
    const size_t o = menu[c.choose(static_cast<unsigned>(menu.size()), "op")];
    const size_t v = c.choose(static_cast<unsigned>(ops_variants()), "input");
    c.go();
    c.step(2);
    c.state(id({ o, v }));
    if (solos[o][v].end == 2) c.fail("crash", "'%s' on input %zu does not end normally in a thread of its own", ops_name(o), v);
}
namespace
{
// Two threads, one operation each, the operands shared (same input) or their own.
void pair(mc::Ctx &c, int inputs, int preempt)
{
    prepare();
    const unsigned n = static_cast<unsigned>(menu.size());
    const unsigned i = c.choose(n, "op1");
    const unsigned j = i + c.choose(n - i, "op2");
    static const size_t in[][2] = { { 3, 3 }, { 3, 4 }, { 0, 3 }, { 4, 4 }, { 2, 2 }, { 1, 1 }, { 0, 0 }, { 5, 5 }, { 3, 5 } };
    const auto &x    = in[c.choose(static_cast<unsigned>(inputs), "inputs")];
    c.go();
    plan[0] = { { menu[i], x[0] } };
    plan[1] = { { menu[j], x[1] } };
    plan[2].clear();
    c.state(mc::mix(id(plan[0][0]), id(plan[1][0])));
    run(c, 2, preempt);
}
// Two threads with two operations each: the same one twice, on two inputs in turn.
void twice(mc::Ctx &c, int preempt)
{
    prepare();
    const unsigned i = c.choose(static_cast<unsigned>(menu.size()), "op");
    static const size_t in[][4] = { { 3, 4, 4, 3 }, { 3, 4, 3, 4 }, { 0, 3, 3, 0 }, { 3, 3, 4, 4 }, { 5, 5, 5, 5 }, { 3, 5, 5, 3 } };
    const auto &x    = in[c.choose(preempt > 1 ? 4 : 6, "inputs")];
    c.go();
    plan[0] = { { menu[i], x[0] }, { menu[i], x[1] } };
    plan[1] = { { menu[i], x[2] }, { menu[i], x[3] } };
    plan[2].clear();
    c.state(mc::mix(id(plan[0][0]), id(plan[1][1])));
    run(c, 2, preempt);
}
} // namespace
// With few preemptions first, so that a budget is spent evenly: without any, the order of the threads and
// the clocks alone decide (a conflict is seen whichever of the two goes first).
MC(pairs_unpreempted) { pair(c, c.thorough ? 9 : 7, 0); }
MC(repeated_unpreempted) { twice(c, 0); }
MC(pairs) { pair(c, c.thorough ? 8 : 3, 1); }
MC(repeated) { twice(c, 1); }
// Three threads.
MC(three)
{
    prepare();
    const unsigned i = c.choose(static_cast<unsigned>(menu.size()), "op");
    static const size_t in[][3] = { { 3, 4, 3 }, { 0, 1, 2 }, { 4, 4, 4 } };
    const auto &x    = in[c.choose(3, "inputs")];
    c.go();
    for (int t = 0; t < 3; ++t) plan[t] = { { menu[i], x[t] } };
    c.state(mc::mix(id(plan[0][0]), id(plan[2][0])));
    run(c, 3, 1);
}
MC(pairs_deeper) { pair(c, c.thorough ? 4 : 2, 2); }
MC(repeated_deeper) { twice(c, 2); }
MC_THOROUGH(pairs_deepest) { pair(c, 2, 3); }
MC_THOROUGH(repeated_deepest) { twice(c, 4); }
