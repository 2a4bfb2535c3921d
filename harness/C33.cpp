// C33: the storage order is not observable. The same operations, compiled with row-major and with
// column-major storage, give the same elements by row and column, the same scalars, rejections and text.
#include "C33.hpp"
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <sys/mman.h>
#include <unistd.h>
thread_local int ops_window = 0;
std::string scratch_file()
{
    static int fd = memfd_create("ops", 0);
    return "/proc/" + std::to_string(getpid()) + "/fd/" + std::to_string(fd);
}
static const int variants = 6;
// Equal up to the rounding that another order of summation may leave.
static bool close(const Out &a, const Out &b)
{
    if (a.text != b.text || a.v.size() != b.v.size()) return false;
    for (std::size_t i = 0; i < a.v.size(); ++i) {
        const double x = a.v[i], y = b.v[i];
        if (x == y || (x != x && y != y)) continue;
        if (!(std::fabs(x - y) <= 1e-9 * std::max({ 1.0, std::fabs(x), std::fabs(y) }))) return false;
    }
    return true;
}
static Layout &rows()
{
    static auto p = row_layout();
    return *p;
}
static Layout &columns()
{
    static auto p = column_layout();
    return *p;
}
MC(layouts)
{
    // The two builds really are different ones.
    c.go();
    MC_CHECK(rows().row_major() && !columns().row_major(), "layout", "the storage order does not follow the definition of ROW_MAJOR");
}
MC(operations)
{
    const std::size_t o = c.choose(static_cast<unsigned>(rows().operations()), "op");
    const int v         = static_cast<int>(c.choose(variants, "input"));
    c.go();
    c.state(mc::mix(o + 1, static_cast<std::uint64_t>(v) + 1));
    Out a, b;
    const int x = rows().run(o, v, a), y = columns().run(o, v, b);
    c.step(2);
    if (x != y) c.fail("order", "'%s' on input %d %s with row-major storage only", rows().name(o), v, x ? "ends in an exception" : "succeeds");
    if (!close(a, b)) c.fail("order", "'%s' on input %d with column-major storage: %s as with row-major storage", rows().name(o), v, difference(b, a).c_str());
}
static void history(mc::Ctx &c, int len, int v)
{
    const auto n   = static_cast<unsigned>(rows().actions());
    unsigned act[8];
    for (int i = 0; i < len; ++i) act[i] = c.choose(n, "action");
    c.go();
    rows().start(v);
    columns().start(v);
    for (int i = 0; i < len; ++i) {
        const int x = rows().act(act[i]), y = columns().act(act[i]);
        c.step(2);
        if (x != y) c.fail("order", "action %u of the history %s with row-major storage only", act[i], x ? "ends in an exception" : "succeeds");
        Out a, b;
        rows().observe(a);
        columns().observe(b);
        c.state(a.hash());
        if (!close(a, b)) c.fail("order", "after action %u: with column-major storage %s as with row-major storage", act[i], difference(b, a).c_str());
        if (x) return;
    }
}
MC(histories)
{
    const int v = static_cast<int>(c.choose(c.thorough ? variants - 1 : 2, "input"));
    history(c, c.thorough ? 5 : 4, v);
}
// From large objects.
MC(large_histories) { history(c, c.thorough ? 4 : 3, variants - 1); }
