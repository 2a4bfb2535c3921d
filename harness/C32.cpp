// C32: an allocation that fails inside an operation ends that operation in std::bad_alloc (or leaves it right);
// nothing leaks, operands and bystanders keep their values, changed objects stay usable, and the
// operation succeeds when it is repeated. Every allocation of every operation is made to fail.
#define OPS_NS ops
#include "mc.hpp"
#include "ops.hpp"
#include <map>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

thread_local int ops_window = 0;
std::string scratch_file()
{
    static int fd = memfd_create("ops", 0);
    return "/proc/" + std::to_string(getpid()) + "/fd/" + std::to_string(fd);
}

// ---- the fault injector ----
static long seen = 0, first = -1, last = -1; // allocations in the window; those with first <= number <= last fail
static long failed = 0;
static long second = -1;
static bool streams = false; // the streams turn failures of their own allocations into badbit
static bool failing()
{
    if (ops_window <= 0) return false;
    const long n = seen++;
    if ((first >= 0 && n >= first && n <= last) || n == second) {
        ++failed;
        return true;
    }
    return false;
}
extern "C" void *__real_malloc(size_t);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void *__wrap_malloc(size_t n) { return failing() ? nullptr : __real_malloc(n); }
extern "C" void *__wrap_calloc(size_t n, size_t m) { return failing() ? nullptr : __real_calloc(n, m); }
extern "C" void *__wrap_realloc(void *q, size_t n) { return n && failing() ? nullptr : __real_realloc(q, n); }
void *operator new(size_t n)
{
    void *p = !streams && failing() ? nullptr : __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return failing() ? nullptr : __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return failing() ? nullptr : __real_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }

namespace
{
using ops::Env;
using ops::Op;
struct Faults {
    Faults(long from, long to, long again = -1)
    {
        seen = failed = 0;
        first = from, last = to, second = again;
    }
    ~Faults()
    {
        streams = false;
        first = last = second = -1;
        ops_window = 0;
    }
};
enum End { returned, no_memory, other };
End exec(const Op &op, const Env &e, Out &r, std::string &what)
{
    streams = op.flags & F_FILE;
    try {
        op.run(e, r);
    } catch (const std::bad_alloc &) {
        return no_memory;
    } catch (const std::exception &x) {
        what = x.what();
        return other;
    }
    return returned;
}
struct World {
    std::vector<Op> menu = ops::menu();
    std::vector<Env> env;
    std::vector<Out> put;
    struct Ref {
        Out out;
        End end;
        long allocations;
    };
    std::vector<std::vector<Ref>> ref;
    World()
    {
        for (int v = 0; v < ops::VARIANTS; ++v) env.emplace_back(v);
        put.resize(ops::VARIANTS);
        for (size_t v = 0; v < ops::VARIANTS; ++v) env[v].put(put[v]);
        // Formatted text: the streams of the standard library swallow exceptions by design.
        std::vector<Op> m;
        for (auto &o : menu)
            if (!(o.flags & F_IO) || (o.flags & F_FILE)) m.push_back(o);
        menu.swap(m);
        ref.assign(menu.size(), std::vector<Ref>(ops::VARIANTS));
        for (int pass = 0; pass < 2; ++pass) // one-off allocations happen in the first pass
            for (size_t o = 0; o < menu.size(); ++o)
                for (size_t v = 0; v < ops::VARIANTS; ++v) {
                    Ref &r = ref[o][v];
                    r.out  = Out();
                    std::string w;
                    Faults f(-1, -1);
                    r.end         = exec(menu[o], env[v], r.out, w);
                    r.allocations = seen;
                }
    }
};
World &world()
{
    static World w;
    return w;
}
void faulty(mc::Ctx &c, size_t o, size_t v, long from, long to, long again)
{
    World &w       = world();
    const auto &rf = w.ref[o][v];
    Out r;
    std::string what;
    End end;
    long hits;
    {
        Faults f(from, to, again);
        end  = exec(w.menu[o], w.env[v], r, what);
        hits = failed;
    }
    c.step();
    c.state(mc::mix(mc::mix(o + 1, v + 1), mc::mix(static_cast<std::uint64_t>(from + 1), static_cast<std::uint64_t>(again + 2) * 2 + (to > from))));
    const char *const name = w.menu[o].name;
    if (!hits) c.fail("injector", "'%s' on input %zu made fewer allocations than before", name, v);
    if (end == other && rf.end != other) c.fail("report", "'%s' on input %zu: allocation %ld failing is reported as '%s' instead of std::bad_alloc", name, v, from, what.c_str());
    if (end == returned && !(rf.end == returned && r.identical(rf.out))) c.fail("result", "'%s' on input %zu returns although allocation %ld failed: %s", name, v, from, difference(r, rf.out).c_str());
    Out after;
    w.env[v].put(after);
    if (!after.identical(w.put[v])) c.fail("operands", "'%s' on input %zu with allocation %ld failing has changed an operand: %s", name, v, from, difference(after, w.put[v]).c_str());
    Out retry;
    Faults f(-1, -1);
    const End e2 = exec(w.menu[o], w.env[v], retry, what);
    c.step();
    if (e2 != rf.end || !retry.identical(rf.out)) c.fail("retry", "'%s' on input %zu after a failed allocation: %s", name, v, difference(retry, rf.out).c_str());
}
} // namespace

MC_LEAK(single)
{
    World &w       = world();
    const size_t o = c.choose(static_cast<unsigned>(w.menu.size()), "op");
    const size_t v = c.choose(ops::VARIANTS, "input");
    const long n   = w.ref[o][v].allocations;
    if (!n) {
        c.go();
        return;
    }
    const long k    = c.choose(static_cast<unsigned>(n), "allocation");
    const bool rest = c.flip("and all later");
    c.go();
    faulty(c, o, v, k, rest ? 1L << 40 : k, -1);
}
// Two failures in one call: the second hits whatever the first made the operation do.
MC_LEAK(twofold)
{
    World &w       = world();
    const size_t o = c.choose(static_cast<unsigned>(w.menu.size()), "op");
    const size_t v = c.choose(ops::VARIANTS, "input");
    const long n   = w.ref[o][v].allocations;
    if (n < 2) {
        c.go();
        return;
    }
    const long cap = 120;
    const long k   = c.choose(static_cast<unsigned>(std::min(n - 1, cap)), "allocation");
    const long j   = 1 + static_cast<long>(c.choose(static_cast<unsigned>(std::min(n - 1 - k, 40L)), "next"));
    c.go();
    faulty(c, o, v, k, k, k + j);
}

// ---- objects that are being changed when the allocation fails ----
namespace
{
struct Objects {
    ops::Vec<double> a{ 1, 2, 3, 4 };
    ops::Vec<int> b{ 5, 6, 7 };
    ops::Mat<double> m{ { 1, 2, 3 }, { 4, 5, 6 } };
    ops::Mat<int> k{ { 7, 8 }, { 9, 10 }, { 11, 12 } };
    std::complex<double> z[4] = {};
    ops::Mat<double> other{ { 20, 30, 40, 50 }, { 21, 31, 41, 51 }, { 22, 32, 42, 52 } };
    ops::Vec<double> longer{ 9, 8, 7, 6, 5, 4, 3, 2, 1 };
};
constexpr int CHANGES = 24;
// Applies change n; returns what it is about.
void change(int n, Objects &x)
{
    namespace ut = malg::utility;
    Window in;
    switch (n) {
    case 0: x.a.resize(9); break;
    case 1: x.a.resize(2); break;
    case 2: x.a = x.longer; break;
    case 3: x.a = x.b; break;
    case 4: x.a += x.a; break;
    case 5: x.a = malg::utility::concatenate(x.a, x.b); break;
    case 6: x.m.resize(4, 4); break;
    case 7: x.m.resize(2, 5); break;
    case 8: x.m.resize(1, 2); break;
    case 9: x.m = x.other; break;
    case 10: x.m = x.k; break;
    case 11: x.m *= malg::linalg::transpose(x.m) * x.m; break;
    case 12: if (x.other.rows() > 1 && x.other.cols() > 1) { malg::View v(&x.other, 0, 2, 1, 4); x.m = static_cast<const malg::MatrixBase<double> &>(v); } break;
    case 13: if (x.m.rows() && x.m.cols() > 1) { malg::View v(&x.m, 0, 1, 1, 3); x.m = static_cast<const malg::MatrixBase<double> &>(v); } break;
    case 14: x.m = { { 1, 2, 3, 4 }, { 5, 6, 7, 8 } }; break;
    case 15: ut::remove_row(x.m, 0); break;
    case 16: ut::remove_column(x.m, 1); break;
    case 17: x.m = ut::vstack(x.m, x.m); break;
    case 18: if (x.m.size()) { malg::View v(&x.m, 0, x.m.rows(), 0, x.m.cols()); v = malg::linalg::transpose(malg::linalg::transpose(x.m)) * 2.0; } break;
    case 19: if (x.m.rows() > 1) ut::swap_rows(x.m, 0, 1); break;
    case 20: x.m = std::move(x.other); break;
    case 21: x.k = { { 3 } }; break;
    case 22: x.m.reshape(3, 2); break;
    case 23: x.a.resize(0); x.a.resize(5); break;
    }
}
void look(const Objects &x, Out &o)
{
    ops::put(o, x.a), ops::put(o, x.b), ops::put(o, x.m), ops::put(o, x.k), ops::put(o, x.other), ops::put(o, x.longer);
}
long counts[CHANGES][CHANGES + 1][CHANGES + 1];
void before(Objects &x, int a, int b)
{
    if (b < CHANGES) change(b, x);
    if (a < CHANGES) change(a, x);
}
void count()
{
    static bool done = false;
    if (done) return;
    done = true;
    for (int a = 0; a < CHANGES; ++a)
        for (int b = 0; b <= CHANGES; ++b)
            for (int d = 0; d <= CHANGES; ++d) {
                Objects x;
                try {
                    before(x, b, d);
                    Faults f(-1, -1);
                    change(a, x);
                    counts[a][b][d] = seen;
                } catch (const std::exception &) {
                    counts[a][b][d] = 0;
                }
            }
}
} // namespace
MC_LEAK(changed_objects)
{
    count();
    const int b1 = static_cast<int>(c.choose(CHANGES + 1, "before"));
    const int b2 = b1 < CHANGES ? static_cast<int>(c.choose(CHANGES + 1, "first")) : CHANGES;
    const int what   = static_cast<int>(c.choose(CHANGES, "change"));
    const long n     = counts[what][b1][b2];
    if (!n) {
        c.go();
        return;
    }
    const long k = c.choose(static_cast<unsigned>(n), "allocation");
    const bool rest = c.flip("and all later");
    c.go();
    c.state(mc::mix(static_cast<std::uint64_t>(b1 * 32 + b2 + 1), mc::mix(static_cast<std::uint64_t>(what + 1), static_cast<std::uint64_t>(k * 2 + rest))));
    Objects x, good;
    before(x, b1, b2), before(good, b1, b2);
    Out old, now, right;
    look(x, old);
    change(what, good);
    look(good, right);
    bool threw = false;
    {
        Faults f(k, rest ? 1L << 40 : k);
        try {
            change(what, x);
        } catch (const std::bad_alloc &) {
            threw = true;
        } catch (const std::exception &e) {
            c.fail("report", "change %d: a failed allocation is reported as '%s'", what, e.what());
        }
        if (!failed) c.fail("injector", "fewer allocations than before");
    }
    c.step(2);
    // Every object is consistent: its size is the product of its dimensions and every element can be read.
    MC_CHECK(x.m.size() == x.m.rows() * x.m.cols() && x.k.size() == x.k.rows() * x.k.cols() && x.other.size() == x.other.rows() * x.other.cols(), "state",
             "after change %d with allocation %ld failing a matrix of %zu by %zu holds %zu elements", what, k, x.m.rows(), x.m.cols(), x.m.size());
    look(x, now);
    if (!threw) {
        if (!now.identical(right)) c.fail("result", "change %d returns although allocation %ld failed: %s", what, k, difference(now, right).c_str());
    } else {
        // What the change does not write keeps its value.
        Out p, q;
        ops::put(p, x.longer), ops::put(q, good.longer);
        if (what != 0 && what != 1 && what != 2 && what != 3 && what != 4 && what != 5 && what != 23) {
            Objects y;
            before(y, b1, b2);
            ops::put(p, x.a), ops::put(q, y.a);
            ops::put(p, x.b), ops::put(q, y.b);
            if (what != 21) ops::put(p, x.k), ops::put(q, y.k);
            if (what != 20) ops::put(p, x.other), ops::put(q, y.other);
        }
        if (!p.identical(q)) c.fail("bystander", "change %d with allocation %ld failing has changed another object: %s", what, k, difference(p, q).c_str());
        // A single resize or assignment that fails leaves the object as it was.
        if (what <= 10 && what != 4 && what != 5)
            if (!now.identical(old)) c.fail("unchanged", "change %d with allocation %ld failing has left the object changed: %s", what, k, difference(now, old).c_str());
    }
    // They can be assigned, resized and used afterwards.
    const Objects fresh;
    x.a = fresh.a, x.b = fresh.b, x.m = fresh.m, x.k = fresh.k, x.other = fresh.other, x.longer = fresh.longer;
    before(x, b1, b2);
    change(what, x);
    Out again;
    look(x, again);
    c.step(2);
    if (!again.identical(right)) c.fail("retry", "after change %d with allocation %ld failing, starting over: %s", what, k, difference(again, right).c_str());
}
