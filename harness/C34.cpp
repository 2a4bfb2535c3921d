// C34: the result of every operation depends on its arguments alone: not on the operations before it, not on
// where the operands live and not on what the memory held before. Every sequence (up to a length) of
// the operations in ops.hpp, in one process, must give bit for bit what a fresh process gives for the last one.
#define OPS_NS ops
#include "mc.hpp"
#include "ops.hpp"
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

thread_local int ops_window = 0;
std::string scratch_file()
{
    static int fd = memfd_create("ops", 0);
    return "/proc/" + std::to_string(getpid()) + "/fd/" + std::to_string(fd);
}

// Fresh memory holds whatever byte the current execution has chosen.
static int fill = 0x00;
extern "C" void *__real_malloc(size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" size_t malloc_usable_size(void *);
extern "C" void *__wrap_malloc(size_t n)
{
    void *p = __real_malloc(n);
    if (p) std::memset(p, fill, n);
    return p;
}
extern "C" void *__wrap_realloc(void *q, size_t n)
{
    const size_t old = q ? malloc_usable_size(q) : 0;
    void *p          = __real_realloc(q, n);
    if (p && n > old) std::memset(static_cast<char *>(p) + old, fill, n - old);
    return p;
}
void *operator new(size_t n)
{
    void *p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    std::memset(p, fill, n);
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
// Leaves the chosen byte on the part of the stack that the next call uses.
__attribute__((noinline, no_sanitize("address"))) static void scribble(int b)
{
    volatile char a[24576];
    for (size_t i = 0; i < sizeof a; ++i) a[i] = static_cast<char>(b);
}

namespace
{
using ops::Env;
using ops::Op;
struct World {
    std::vector<Op> menu = ops::menu();
    std::vector<Env> env;               // one for each variant, never written after construction
    std::vector<Env> slot;              // assigned before each use, so that equal shapes live at equal addresses
    std::vector<std::vector<Out>> ref;  // [op][variant], from fresh processes
    std::vector<std::vector<int>> how;  // 0 result, 1 exception
    std::vector<Out> put;               // digest of the inputs
    std::vector<size_t> core;
    World()
    {
        for (int v = 0; v < ops::VARIANTS; ++v) env.emplace_back(v);
        slot.emplace_back(0);
        put.resize(ops::VARIANTS);
        for (int v = 0; v < ops::VARIANTS; ++v) env[static_cast<size_t>(v)].put(put[static_cast<size_t>(v)]);
        ref.assign(menu.size(), std::vector<Out>(ops::VARIANTS));
        how.assign(menu.size(), std::vector<int>(ops::VARIANTS, 0));
        const size_t cap = 1 << 20;
        char *sh         = static_cast<char *>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::fflush(nullptr);
        for (size_t o = 0; o < menu.size(); ++o)
            for (size_t v = 0; v < ops::VARIANTS; ++v) {
                const pid_t p = fork();
                if (p == 0) {
                    Out r;
                    size_t *hd = reinterpret_cast<size_t *>(sh);
                    hd[0]      = exec(menu[o], env[v], r);
                    hd[1]      = r.v.size();
                    hd[2]      = r.text.size();
                    if (!r.v.empty()) std::memcpy(hd + 3, r.v.data(), r.v.size() * 8);
                    std::memcpy(sh + 24 + r.v.size() * 8, r.text.data(), r.text.size());
                    _exit(0);
                }
                int st = 0;
                waitpid(p, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                    how[o][v] = 2; // the scenario "alone" reports it
                    continue;
                }
                const size_t *hd = reinterpret_cast<const size_t *>(sh);
                how[o][v]        = static_cast<int>(hd[0]);
                ref[o][v].v.assign(reinterpret_cast<const double *>(hd + 3), reinterpret_cast<const double *>(hd + 3) + hd[1]);
                ref[o][v].text.assign(sh + 24 + hd[1] * 8, hd[2]);
            }
        munmap(sh, cap);
        static const char *const names[] = { "vector assign", "vector resize", "matrix assign own view", "matrix resize", "matrix move", "view assign", "excluding view", "in place", "product",
                                             "product in place", "powm", "compare matrices", "predicates", "scaling factor", "determinant", "determinant int", "inverse", "qr", "lu", "solve tall", "expm",
                                             "simulate", "poly", "acker", "givens", "eigenvectors", "reject shapes", "text", "files", "random", "tolerance" };
        for (size_t o = 0; o < menu.size(); ++o)
            for (auto n : names)
                if (!std::strcmp(n, menu[o].name)) core.push_back(o);
    }
    static int exec(const Op &op, const Env &e, Out &r)
    {
        try {
            op.run(e, r);
        } catch (const std::exception &) {
            return 1;
        }
        return 0;
    }
    void check(mc::Ctx &c, size_t o, size_t v, const Env &e, const char *when)
    {
        Out r;
        const int h = exec(menu[o], e, r);
        c.step();
        if (h != how[o][v]) c.fail("history", "%s: '%s' on input %zu %s instead of what a fresh process does", when, menu[o].name, v, h ? "ends in an exception" : "returns");
        if (!r.identical(ref[o][v])) c.fail("history", "%s: '%s' on input %zu: %s as in a fresh process", when, menu[o].name, v, difference(r, ref[o][v]).c_str());
    }
    // Every object of the program that no operation was given to write is as it was.
    void bystanders(mc::Ctx &c, const char *after)
    {
        for (size_t v = 0; v < ops::VARIANTS; ++v) {
            Out r;
            env[v].put(r);
            if (!r.identical(put[v])) c.fail("bystander", "after '%s' an object that was only read has changed: %s", after, difference(r, put[v]).c_str());
        }
    }
};
World &world()
{
    static World w;
    return w;
}

std::uint64_t key(size_t a, size_t b, size_t d = 0, size_t e = 0) { return mc::mix(mc::mix(mc::mix(a + 1, b + 1), d + 1), e + 1); }
} // namespace

// Every operation on every input, with every content of fresh memory and of the stack.
MC(memory)
{
    static const int bytes[] = { 0x00, 0xff, 0xbe, 0x3f, 0x7f, 0x01 };
    World &w                 = world();
    const size_t o           = c.choose(static_cast<unsigned>(w.menu.size()), "op");
    const size_t v           = c.choose(ops::VARIANTS, "input");
    const int b              = c.pick(bytes, "byte");
    const bool twice         = c.flip("twice");
    c.go();
    c.state(key(o, v, static_cast<size_t>(b)));
    fill = b;
    struct Restore {
        ~Restore() { fill = 0; }
    } restore;
    scribble(b);
    w.check(c, o, v, w.env[v], "with other bytes in fresh memory");
    if (twice) {
        scribble(b ^ 0xff);
        w.check(c, o, v, w.env[v], "a second time");
    }
    w.bystanders(c, w.menu[o].name);
}

// Every pair of operations on every pair of inputs; the second one on operands at the addresses of the first.
MC(pairs)
{
    World &w        = world();
    const size_t n  = w.menu.size();
    const size_t o1 = c.choose(static_cast<unsigned>(n), "op1");
    const size_t v1 = c.choose(ops::VARIANTS, "input1");
    const size_t o2 = c.choose(static_cast<unsigned>(n), "op2");
    const size_t v2 = c.choose(ops::VARIANTS, "input2");
    c.go();
    c.state(key(o1, v1, o2, v2));
    Env &s = w.slot[0];
    s      = w.env[v1];
    scribble(0);
    w.check(c, o1, v1, s, "first");
    s = w.env[v2];
    w.check(c, o2, v2, s, ("after '" + std::string(w.menu[o1].name) + "' on input " + std::to_string(v1)).c_str());
}

namespace
{
// Adds one to the k-th of all elements of the environment.
template <typename X>
bool nudge_one(X &x, size_t &k)
{
    const size_t n = x.size();
    if (k >= n) return k -= n, false;
    x[k] = x[k] + std::decay_t<decltype(x[0])>(1);
    return true;
}
template <typename... X>
bool nudge_any(size_t k, X &...x)
{
    return (nudge_one(x, k) || ...);
}
bool nudge(Env &e, size_t k) { return nudge_any(k, e.A, e.B, e.S, e.T, e.W, e.C, e.D, e.b, e.p, e.R, e.I, e.J, e.Z, e.Y, e.U, e.F, e.v, e.w, e.u, e.iv, e.zv); }
struct Result {
    int how = 2;
    Out out;
};
// Runs f in a fresh process; it fills up to three results.
template <typename F>
bool aside(std::vector<Result> &to, F f)
{
    static const size_t cap = 1 << 20;
    static char *const sh   = static_cast<char *>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) {
        f(to);
        char *q = sh;
        for (auto &r : to) {
            const size_t hd[3] = { static_cast<size_t>(r.how), r.out.v.size(), r.out.text.size() };
            std::memcpy(q, hd, sizeof hd), q += sizeof hd;
            if (hd[1]) std::memcpy(q, r.out.v.data(), hd[1] * 8), q += hd[1] * 8;
            std::memcpy(q, r.out.text.data(), hd[2]), q += (hd[2] + 7) / 8 * 8;
        }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) return false;
    const char *q = sh;
    for (auto &r : to) {
        size_t hd[3];
        std::memcpy(hd, q, sizeof hd), q += sizeof hd;
        r.how = static_cast<int>(hd[0]);
        r.out = Out{};
        r.out.v.resize(hd[1]);
        if (hd[1]) std::memcpy(r.out.v.data(), q, hd[1] * 8), q += hd[1] * 8;
        r.out.text.assign(q, hd[2]), q += (hd[2] + 7) / 8 * 8;
    }
    return true;
}
} // namespace

// The same operation when a single element of its operands has changed in between, and changed back: what
// is remembered of earlier operands must be told from them by every element. No operation runs
// in the process of this scenario, so that each of the processes starts afresh.
MC(changed)
{
    World &w       = world();
    const size_t o = c.choose(static_cast<unsigned>(w.menu.size()), "op");
    static const size_t quick[] = { 0, 3 }, all[] = { 0, 3, 1, 2, 4 };
    const size_t v = c.thorough ? c.pick(all, "input") : c.pick(quick, "input");
    size_t total   = 0;
    for (Env e = w.env[v]; nudge(e, total);) ++total;
    const size_t k = c.choose(static_cast<unsigned>(total), "element");
    c.go();
    c.state(key(o, v, k));
    Env changed = w.env[v];
    nudge(changed, k);
    std::vector<Result> alone(1), row(3);
    const bool a = aside(alone, [&](std::vector<Result> &r) {
        Env &s   = w.slot[0];
        s        = changed;
        r[0].how = w.exec(w.menu[o], s, r[0].out);
    });
    const bool b = aside(row, [&](std::vector<Result> &r) {
        Env &s = w.slot[0];
        s      = w.env[v];
        for (int i = 0; i < 3; ++i) {
            if (i) s = i == 1 ? changed : w.env[v];
            r[static_cast<size_t>(i)].how = w.exec(w.menu[o], s, r[static_cast<size_t>(i)].out);
        }
    });
    c.step(4);
    if (!a) return; // operands of this kind are no longer ones that it is defined on
    if (!b) c.fail("changed", "'%s' ends abnormally after an element of its operands was changed (%zu, input %zu)", w.menu[o].name, k, v);
    if (alone[0].how != row[1].how || !alone[0].out.identical(row[1].out))
        c.fail("changed", "'%s', after element %zu of the operands (input %zu) was changed: %s as in a fresh process", w.menu[o].name, k, v, difference(row[1].out, alone[0].out).c_str());
    if (row[0].how != row[2].how || !row[0].out.identical(row[2].out))
        c.fail("changed", "'%s', after element %zu of the operands (input %zu) was changed and changed back: %s as before", w.menu[o].name, k, v, difference(row[2].out, row[0].out).c_str());
}

// Longer sequences over a core of the menu.
static void sequence(mc::Ctx &c, const int len, unsigned nin)
{
    World &w         = world();
    const unsigned k = static_cast<unsigned>(w.core.size());
    static const size_t inputs[] = { 3, 4, 0 };
    size_t o[4] = {}, v[4] = {};
    for (int i = 0; i < len; ++i) {
        o[i] = w.core[c.choose(k, "op")];
        v[i] = inputs[c.choose(nin, "input")];
    }
    c.go();
    c.state(key(o[0] * 8 + v[0], o[1] * 8 + v[1], o[2] * 8 + v[2], o[3] * 8 + v[3]));
    Env &s = w.slot[0];
    for (int i = 0; i < len; ++i) {
        s = w.env[v[i]];
        w.check(c, o[i], v[i], s, "in a sequence");
    }
}

MC(sequences) { sequence(c, 3, c.thorough ? 3 : 2); }
MC_THOROUGH(long_sequences) { sequence(c, 4, 2); }

// The same operation on several inputs in turn, four times (a cache that is warm, evicted and warm again).
MC(repeats)
{
    World &w       = world();
    const size_t o = c.choose(static_cast<unsigned>(w.menu.size()), "op");
    size_t v[4];
    for (auto &x : v) x = c.choose(ops::VARIANTS, "input");
    c.go();
    c.state(key(o, v[0] * 8 + v[1], v[2] * 8 + v[3]));
    Env &s = w.slot[0];
    for (size_t x : v) {
        s = w.env[x];
        w.check(c, o, x, s, "again");
    }
    w.bystanders(c, w.menu[o].name);
}
