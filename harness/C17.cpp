// C17: reductions and norms.
#include "exact.hpp"
namespace
{
template <typename T>
ld tolerance(ld size, size_t n)
{
    if (std::is_integral_v<T>) return 0;
    return size * static_cast<ld>(n + 4) * 4 * static_cast<ld>(std::numeric_limits<realof<T>>::epsilon());
}
template <typename T, typename V>
void expect(mc::Ctx &c, const char *what, const V &got, cl want, ld tol, const Tab<T> &t, int kind)
{
    if (!(std::abs(wide(got) - want) <= tol)) c.fail(what, "of %s (%s) is %s, expected %Lg%+Lgi", show(t).c_str(), kname(kind), str(got).c_str(), want.real(), want.imag());
    c.step();
}
template <typename T>
using plain_sqrt = decltype(std::sqrt(realof<T>()));
template <typename T>
ld sqrt_eps() { return static_cast<ld>(std::numeric_limits<plain_sqrt<T>>::epsilon()) * 4; }

template <typename T>
void check(mc::Ctx &c, const Tab<T> &t, int kind)
{
    // Sums in the widest type.
    cl tr = 0;
    ld sq = 0, sub = 0, inf = 0;
    for (size_t i = 0; i < t.r; ++i) {
        ld row = 0;
        for (size_t j = 0; j < t.c; ++j) {
            const cl x = wide(t(i, j));
            if (i == j) tr += x;
            sq += std::norm(x);
            if (j < i) sub += std::norm(x);
            row += std::abs(x);
        }
        inf = std::max(inf, row);
    }
    const size_t n = t.size();
    ld trsize      = 0;
    for (size_t i = 0; i < std::min(t.r, t.c); ++i) trsize += std::abs(wide(t(i, i)));
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        expect(c, "trace", malg::trace(M), tr, tolerance<T>(trsize, n), t, kind);
        static_assert(std::is_same_v<std::remove_const_t<decltype(malg::trace(M))>, T>);
        const ld f = std::sqrt(sq);
        expect(c, "square-norm", malg::square_norm(M), f, tolerance<T>(f, n) + f * sqrt_eps<T>(), t, kind);
        expect(c, "infinity-norm", malg::infinity_norm(M), inf, tolerance<T>(inf, n), t, kind);
        static_assert(std::is_same_v<std::remove_const_t<decltype(malg::infinity_norm(M))>, realof<T>>);
        if (t.r == t.c) {
            const ld s = std::sqrt(sub);
            expect(c, "sub-norm", malg::sub_norm(M), s, tolerance<T>(s, n) + s * sqrt_eps<T>(), t, kind);
        } else if (n && !throws([&] { (void)malg::sub_norm(M); })) c.fail("sub-norm", "accepts %zux%zu", t.r, t.c);
        // Column lengths over every row range.
        const size_t rs = t.r > 8 ? t.r - 1 : 1;
        for (size_t j = 0; j < t.c; j += (t.c > 8 ? t.c - 1 : 1))
            for (size_t a = 0; a <= t.r; a += rs)
                for (size_t b = 0; b <= t.r + 2; b += rs) {
                    const size_t end = b == t.r + 2 ? NPOS : b;
                    ld s = 0;
                    for (size_t i = a; i < std::min(end, t.r); ++i) s += std::norm(wide(t(i, j)));
                    s = std::sqrt(s);
                    expect(c, "column-length", malg::vector_length(M, j, a, end), s, tolerance<T>(s, n) + s * sqrt_eps<T>(), t, kind);
                    if (a == 0 && end == NPOS) expect(c, "column-length", malg::vector_length(M, j), s, tolerance<T>(s, n) + s * sqrt_eps<T>(), t, kind);
                }
        if constexpr (!std::is_integral_v<T>) {
            const auto [it, scale] = malg::log2_ceil(M);
            const auto norm        = malg::infinity_norm(M);
            size_t want            = 0;
            while (std::ldexp(static_cast<ld>(norm), -static_cast<int>(want)) > 1) ++want;
            if (it != want || static_cast<ld>(scale) != std::ldexp(1.0L, -static_cast<int>(want))) c.fail("scaling", "of %s (norm %Lg) is %zu, %Lg; expected %zu halvings", show(t).c_str(), static_cast<ld>(norm), static_cast<size_t>(it), static_cast<ld>(scale), want);
            c.step();
        }
    });
    if (t.c == 1 && kind == 0) {
        const Vector<T> v(mkvec(t.v));
        cl s = 0;
        ld size = 0, mx = 0;
        for (auto &x : t.v) s += wide(x), size += std::abs(wide(x)), mx = std::max(mx, std::abs(wide(x)));
        expect(c, "sum", malg::sum(v), s, tolerance<T>(size, n), t, kind);
        static_assert(std::is_same_v<decltype(malg::sum(v)), T>);
        const ld f = std::sqrt(sq);
        expect(c, "vector-norm", malg::square_norm(v), f, tolerance<T>(f, n) + f * sqrt_eps<T>(), t, kind);
        expect(c, "vector-infinity-norm", malg::infinity_norm(v), mx, tolerance<T>(mx, n), t, kind);
        check_vec(c, "operand-changed", v, t.v);
    }
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T) + std::is_integral_v<T>);
}
template <typename T>
void alphabet(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 }, { 4, 1 }, { 1, 4 } };
    const auto &s  = c.pick(shapes, "shape");
    const int kind = static_cast<int>(c.choose(s[0] * s[1] > 4 ? 3 : K_COUNT, "kind")) * (s[0] * s[1] > 4 ? 2 : 1);
    Tab<T> t(s[0], s[1]);
    for (auto &x : t.v) {
        if constexpr (is_cx_v<T>) {
            static const int z[][2] = { { 0, 0 }, { -3, 4 }, { 0, 2 }, { 5, -12 } };
            const auto &e = z[c.choose(4, "entry")];
            x             = T(static_cast<realof<T>>(e[0]), static_cast<realof<T>>(e[1]));
        } else if constexpr (std::is_integral_v<T>) {
            static const int z[] = { 0, 1, -4, 7 };
            x                    = static_cast<T>(z[c.choose(4, "entry")]);
        } else {
            static const double z[] = { 0, -1, 0.75, 2.5 };
            x                       = static_cast<T>(z[c.choose(4, "entry")]);
        }
    }
    c.go();
    check(c, t, kind);
}
template <typename T>
void shapes(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 9 : 7;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols");
    const int kind      = static_cast<int>(c.choose(K_COUNT, "kind"));
    const unsigned salt = c.choose(5, "content");
    c.go();
    check(c, salt == 4 ? labelled<T>(r, k) : content<T>(r, k, salt), kind);
}
template <typename T>
void sizes(mc::Ctx &c)
{
    static const size_t dims[] = { 1, 2, 9, 16, 33, 64, 65 };
    const size_t r = c.pick(dims, "rows"), k = c.pick(dims, "cols");
    const int kind = static_cast<int>(c.choose(2, "kind")) * 4;
    // One heavy element anywhere on the border or the diagonal.
    const unsigned where = c.choose(5, "heavy");
    c.go();
    auto t = content<T>(r, k, r + k);
    const size_t p[5][2] = { { 0, 0 }, { r - 1, k - 1 }, { r - 1, 0 }, { 0, k - 1 }, { r / 2, k / 2 } };
    t(p[where][0], p[where][1]) = static_cast<T>(-1000);
    check(c, t, kind);
}
// Magnitudes: norms near powers of two and far from one.
void magnitudes(mc::Ctx &c)
{
    static const int ex[] = { 0, 1, -1, 2, 10, -10, 52, 100, -100, 300, -300, 480 };
    const size_t r = 1 + c.choose(3, "rows"), k = 1 + c.choose(3, "cols");
    const int e    = c.pick(ex, "exponent");
    const unsigned off = c.choose(3, "offset");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    const bool cx  = c.flip("complex");
    c.go();
    const double base = std::ldexp(1.0, e) * (off == 0 ? 1 : off == 1 ? 1 + 0x1p-50 : 1 - 0x1p-50);
    Tab<double> t(r, k);
    t(r - 1, k - 1) = -base;
    if (k > 1) t(0, 0) = base;
    if (!cx) return check(c, t, kind);
    Tab<cd> z(r, k);
    for (size_t i = 0; i < t.v.size(); ++i) z.v[i] = cd(i % 2 ? t.v[i] : 0, i % 2 ? 0 : t.v[i]);
    check(c, z, kind);
}
} // namespace
MC(alphabet)
{
    switch (c.choose(4, "type")) {
    case 0: return alphabet<int>(c);
    case 1: return alphabet<double>(c);
    case 2: return alphabet<cd>(c);
    case 3: return alphabet<float>(c);
    }
}
MC(shapes)
{
    switch (c.choose(7, "type")) {
    case 0: return shapes<int>(c);
    case 1: return shapes<double>(c);
    case 2: return shapes<cd>(c);
    case 3: return shapes<float>(c);
    case 4: return shapes<cf>(c);
    case 5: return shapes<ld>(c);
    case 6: return shapes<cl>(c);
    }
}
MC(sizes)
{
    switch (c.choose(2, "type")) {
    case 0: return sizes<double>(c);
    case 1: return sizes<cd>(c);
    }
}
MC(magnitudes) { magnitudes(c); }
MC(long_shapes)
{
    const Shape s       = long_shape(c, 1100, 5000);
    const unsigned type = c.choose(3, "type");
    c.go();
    switch (type) {
    case 0: return check(c, content<double>(s.r, s.k, s.r + s.k), 0);
    case 1: return check(c, content<cd>(s.r, s.k, s.r + s.k), 0);
    case 2: return check(c, content<int>(s.r, s.k, s.r + s.k), 0);
    }
}
// Sums that a narrower type cannot hold.
template <typename T>
void wide_sums(mc::Ctx &c)
{
    const size_t r = c.choose(7, "rows"), k = c.choose(7, "cols");
    const int kind      = static_cast<int>(c.choose(K_COUNT, "kind"));
    const int salt      = static_cast<int>(c.choose(6, "content"));
    c.go();
    Tab<T> t(r, k);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < k; ++j) {
            if constexpr (std::is_integral_v<T>) t(i, j) = label<T>(i, j, salt) / 8 + (i == j); // near 2^57
            else t(i, j) = label<T>(i, j, salt);
        }
    T tr(0), sum(0);
    T inf(0);
    for (size_t i = 0; i < r; ++i) {
        T row(0);
        for (size_t j = 0; j < k; ++j) row += std::abs(t(i, j)), sum += t(i, j);
        inf = std::max(inf, row);
        if (i < k) tr += t(i, i);
    }
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        if (malg::trace(M) != tr) c.fail("wide-trace", "of %s (%s) is %s, expected %s", show(t).c_str(), kname(kind), str(malg::trace(M)).c_str(), str(tr).c_str());
        if (malg::infinity_norm(M) != inf) c.fail("wide-infinity-norm", "of %s (%s) is %s, expected %s", show(t).c_str(), kname(kind), str(malg::infinity_norm(M)).c_str(), str(inf).c_str());
        c.step(2);
    });
    if (r * k <= 30 && kind == 0) {
        const Vector<T> v(mkvec(t.v));
        T mx(0);
        for (auto &x : t.v) mx = std::max<T>(mx, std::abs(x));
        if (malg::sum(v) != sum) c.fail("wide-sum", "of %s is %s, expected %s", show(t).c_str(), str(malg::sum(v)).c_str(), str(sum).c_str());
        if (malg::infinity_norm(v) != mx) c.fail("wide-infinity-norm", "of %s is %s", show(t).c_str(), str(malg::infinity_norm(v)).c_str());
        c.step(2);
    }
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + std::is_integral_v<T>);
}
MC(wide_sums)
{
    switch (c.choose(2, "type")) {
    case 0: return wide_sums<long>(c);
    case 1: return wide_sums<ld>(c);
    }
}
// Every length.
MC(lengths)
{
    const size_t n = c.choose(c.thorough ? 1100 : 300, "length");
    c.go();
    check(c, content<double>(n, 1, n), 0);
}
