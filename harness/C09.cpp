// C09: determinants.
#include "near.hpp"
namespace
{
// How far a computed determinant may be from the exact one: backward stability of elimination.
template <typename T>
ld tolerance(const Tab<T> &t)
{
    if (std::is_integral_v<T>) return 0;
    using R = realof<T>;
    ld had  = 1;
    for (size_t i = 0; i < t.r; ++i) {
        ld s = 0;
        for (size_t j = 0; j < t.c; ++j) s += std::norm(wide(t(i, j)));
        had *= std::sqrt(s);
    }
    return 64 * t.r * t.r * had * std::numeric_limits<R>::epsilon();
}
template <typename T>
void check(mc::Ctx &c, const Tab<T> &t, int kind)
{
    const G e   = exact_det(t);
    const cl ev = num(e);
    // Entries are small integers: the closed forms are exact in every type.
    const ld tol = t.r <= 4 && !std::is_same_v<realof<T>, float> ? 0 : tolerance(t);
    c.note("%s (%s): %Lg%+Lgi", show(t).c_str(), kname(kind), ev.real(), ev.imag());
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const T d = la::determinant(M);
        static_assert(std::is_same_v<std::remove_const_t<decltype(la::determinant(M))>, T>);
        const cl dv = wide(d);
        if (!(std::abs(dv - ev) <= tol)) {
            if constexpr (std::is_integral_v<T>) {
                if (t.r >= 5 && d == truncating_det(t)) {
                    c.known("int-det-truncation", "determinant of %s is %s, should be %Lg", show(t).c_str(), str(d).c_str(), ev.real());
                    return;
                }
            }
            c.fail("determinant", "of %s (%s) is %s, should be %Lg%+Lgi", show(t).c_str(), kname(kind), str(d).c_str(), ev.real(), ev.imag());
        }
    });
    c.step();
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T) + std::is_integral_v<T>);
}
// Entries all over an alphabet.
template <typename T>
void small(mc::Ctx &c)
{
    const size_t n = 1 + c.choose(3, "n");
    const int kind = static_cast<int>(c.choose(n == 3 && !c.thorough ? 3 : K_COUNT, "kind")) * (n == 3 && !c.thorough ? 2 : 1);
    Tab<T> t(n, n);
    for (size_t i = 0; i < n * n; ++i) {
        if constexpr (is_cx_v<T>) {
            static const int z[][2] = { { 0, 0 }, { 1, 0 }, { 0, -1 }, { 2, 1 } };
            // Larger complex matrices vary in their first six entries only.
            const auto &e = z[i < 6 || c.thorough ? c.choose(n == 3 && i > 3 ? 2 : 4, "entry") : (i * 5 + 3) % 4];
            t.v[i] = T(static_cast<realof<T>>(e[0]), static_cast<realof<T>>(e[1]));
        } else {
            static const int z[] = { 0, 1, -2, 3, -7 };
            t.v[i] = static_cast<T>(z[c.choose(n == 3 ? 3 : 5, "entry")]);
        }
    }
    c.go();
    check(c, t, kind);
}
// Every 4x4 matrix of zeros and ones, and with rows from the menu.
template <typename T>
void four(mc::Ctx &c)
{
    const bool bits = c.flip("bits");
    Tab<T> t(4, 4);
    if (bits)
        for (auto &x : t.v) x = T(static_cast<int>(c.choose(2, "bit")));
    else t = menu_matrix<T>(c, 4, 8, 4);
    const int kind = bits ? 0 : static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    check(c, t, kind);
}
// Five and more: every selection of rows from the menu for the first rows.
template <typename T>
void elimination(mc::Ctx &c)
{
    const size_t n  = 5 + c.choose(c.thorough ? 4 : 3, "n");
    const int kind  = static_cast<int>(c.choose(3, "kind")) * 2;
    const bool swap = c.flip("order");
    Tab<T> t        = menu_matrix<T>(c, n, n == 5 || c.thorough ? 8 : 6, n == 5 && !is_cx_v<T> ? 5 : 4);
    c.go();
    if (swap) {
        // Free rows at the bottom.
        Tab<T> u = t;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) t(n - 1 - i, j) = u(i, j);
    }
    check(c, t, kind);
}
// Permutation and scaled permutation matrices: every permutation, sign and zero pivot pattern.
template <typename T>
void permutations(mc::Ctx &c)
{
    const size_t n = 1 + c.choose(c.thorough ? 7 : 6, "n");
    std::vector<size_t> left(n), p;
    for (size_t i = 0; i < n; ++i) left[i] = i;
    for (size_t i = 0; i < n; ++i) {
        const size_t k = c.choose(static_cast<unsigned>(left.size()), "image");
        p.push_back(left[k]);
        left.erase(left.begin() + static_cast<long>(k));
    }
    const unsigned fill = c.choose(3, "fill");
    const int kind      = static_cast<int>(c.choose(2, "kind")) * 4;
    c.go();
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i) {
        t(i, p[i]) = T(fill == 0 ? 1 : fill == 1 ? static_cast<int>(i) - 2 : 2);
        if (fill == 2)
            for (size_t j = p[i] + 1; j < n; ++j) t(i, j) = T(static_cast<int>((i + j) % 3) - 1); // permuted triangular
    }
    check(c, t, kind);
}
// Sizes far above the others.
template <typename T>
void big(mc::Ctx &c)
{
    static const size_t dims[] = { 8, 9, 10, 12, 16, 17 };
    const size_t n      = c.pick(dims, "n");
    const unsigned form = c.choose(5, "form");
    const size_t where  = c.choose(static_cast<unsigned>(n), "where");
    c.go();
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const int x = static_cast<int>((i * 5 + j * 7 + i * j) % 5) - 2;
            switch (form) {
            case 0: t(i, j) = i == j ? T(static_cast<int>(i % 3) + 1) : j > i ? T(x) : T(0); break;            // upper
            case 1: t(i, j) = i == j ? T(i % 2 ? -1 : 1) : j < i ? T(x) : T(0); break;                         // lower
            case 2: t(i, j) = j == (i + where) % n ? T(1) : T(0); break;                                       // cyclic shift
            case 3: t(i, j) = T(i == j ? 2 : (i + 1 == j || j + 1 == i) ? -1 : 0); break;                      // tridiagonal: n + 1
            case 4: t(i, j) = i == j ? T(1) : (i == where || j == where) ? T(1) : T(0); break;                 // arrow
            }
        }
    if (form != 2 && form != 4 && where) return;
    check(c, t, 0);
}
// A singular matrix by construction in floating point: exactly zero for an empty row or column.
void singular(mc::Ctx &c)
{
    const size_t n     = 2 + c.choose(6, "n");
    const unsigned how = c.choose(3, "how");
    const int kind     = static_cast<int>(c.choose(K_COUNT, "kind"));
    const size_t p = c.choose(static_cast<unsigned>(n), "p"), q = c.choose(static_cast<unsigned>(n), "q");
    const bool cx  = c.flip("type");
    c.go();
    if (how == 2 && p == q) return;
    if (how != 2 && q) return;
    auto run = [&](auto zero) {
        using T = decltype(zero);
        Tab<T> t(n, n);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                const double x = std::sin(static_cast<double>(i * 7 + j * 3 + 1)) * 3;
                if constexpr (is_cx_v<T>) t(i, j) = T(x, 0.1 * static_cast<double>(j) - 0.3);
                else t(i, j) = x;
                if (how == 0 && i == p) t(i, j) = T(0);
                if (how == 1 && j == p) t(i, j) = T(0);
            }
        if (how == 2)
            for (size_t j = 0; j < n; ++j) t(q, j) = t(p, j);
        const double scale = tolerance(t);
        with_const(c, "operand-changed", kind, t, [&](const auto &M) {
            const T d = la::determinant(M);
            if (!(std::abs(d) <= (how < 2 ? 0.0 : scale))) c.fail("singular", "determinant of %s is %s", show(t).c_str(), str(d).c_str());
        });
        c.step();
        c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)));
    };
    if (cx) run(cd());
    else run(0.0);
}
// Magnitudes: scaling a row by a power of two scales the determinant exactly.
void scaling(mc::Ctx &c)
{
    static const int ex[] = { 0, 60, -60, 200, -200 };
    const size_t n = 1 + c.choose(7, "n"), p = c.choose(static_cast<unsigned>(n), "row"), q = c.choose(static_cast<unsigned>(n), "column");
    const int e = c.pick(ex, "row exponent"), f = c.pick(ex, "column exponent");
    c.go();
    Tab<double> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) t(i, j) = menu_entry<double>((i * 3 + 5) % 8, j, n) + (i == j ? 4 : 0);
    const ld ev = num(exact_det(t)).real() * std::pow(2.0L, e + f);
    ld tol = tolerance(t) * std::pow(2.0L, e + f);
    for (size_t j = 0; j < n; ++j) t(p, j) = std::ldexp(t(p, j), e);
    for (size_t i = 0; i < n; ++i) t(i, q) = std::ldexp(t(i, q), f);
    // Columns of very different size make elimination lose digits of the small ones: compare relative to the row bound.
    const double d = la::determinant(mat(t));
    if (!(std::abs(d - ev) <= std::max(tol, std::abs(ev) * 1e-9L))) c.fail("scaled", "determinant of %s is %g, should be %Lg", show(t).c_str(), d, ev);
    c.step();
    c.state(t.hash());
}
// Small pivots: one or two entries are tiny, at every position; the exact value is multilinear in them.
template <typename T>
void small_pivots(mc::Ctx &c)
{
    static const int ex[] = { 3, 8, 14, 20, 26, 33, 40, 46 };
    const size_t n = 4 + c.choose(c.thorough ? 6 : 4, "n");
    const int e    = ex[c.choose(8, "exponent")];
    const size_t p = c.choose(static_cast<unsigned>(n), "row"), q = c.choose(static_cast<unsigned>(n), "column");
    const unsigned salt = c.choose(c.thorough ? 4 : 2, "rows"), two = c.choose(3, "second");
    const unsigned graded = c.choose(c.thorough ? 5 : 3, "graded") + (!c.thorough && salt ? 2 : 0);
    c.go();
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) t(i, j) = menu_entry<T>((i * 3 + salt + 1) % 8, j, n) + T(i == j ? 3 : 0);
    const ld tiny = std::pow(2.0L, -e);
    Tab<T> zero = t, one = t;
    // det is an affine function of the entry: det(0) + x (det(1) - det(0)).
    zero(p, q) = T(0), one(p, q) = T(1);
    cl ev;
    if (two) {
        // A second tiny entry next on the diagonal (or in the same column).
        const size_t p2 = (p + 1) % n, q2 = two == 1 ? (q + 1) % n : q;
        auto at = [&](int a, int b) {
            Tab<T> u = t;
            u(p, q) = T(a), u(p2, q2) = T(b);
            return num(exact_det(u));
        };
        const cl d00 = at(0, 0), d10 = at(1, 0) - d00, d01 = at(0, 1) - d00, d11 = at(1, 1) - d10 - d01 - d00;
        ev         = d00 + tiny * (d10 + d01) + tiny * tiny * d11;
        t(p2, q2)  = T(static_cast<realof<T>>(tiny));
    } else {
        const cl d0 = num(exact_det(zero)), d1 = num(exact_det(one));
        ev = d0 + tiny * (d1 - d0);
    }
    t(p, q) = T(static_cast<realof<T>>(tiny));
    ld tol  = tolerance(t);
    if (graded) {
        // Elimination with row exchanges does not see the scale of the columns.
        const int g     = std::is_same_v<realof<T>, float> ? 60 : graded < 3 ? 290 : 560;
        const size_t c1 = q, c2 = (q + (graded % 2 ? 1 : n - 1)) % n;
        // The first of the two columns is scaled down, so that no partial product overflows.
        auto column_scale = [&](size_t j, int by) {
            for (size_t i = 0; i < n; ++i) {
                if constexpr (is_cx_v<T>) t(i, j) = T(std::ldexp(t(i, j).real(), by), std::ldexp(t(i, j).imag(), by));
                else t(i, j) = std::ldexp(t(i, j), by);
            }
        };
        column_scale(std::min(c1, c2), -g);
        column_scale(std::max(c1, c2), g);
    }
    with_const(c, "operand-changed", 0, t, [&](const auto &M) {
        const cl d = wide(la::determinant(M));
        if (!(std::abs(d - ev) <= tol)) c.fail("small-pivot", "determinant of %s is %Lg%+Lgi, should be %Lg%+Lgi (within %Lg)", show(t).c_str(), d.real(), d.imag(), ev.real(), ev.imag(), tol);
    });
    c.step();
    c.state(t.hash() + sizeof(T));
}
// Contents that only the wide types hold.
template <typename T>
void wide_contents(mc::Ctx &c)
{
    const Tab<T> t = wide_matrix<T>(c, std::is_integral_v<T> ? 4 : 7);
    const int kind = static_cast<int>(c.choose(3, "kind")) * 2;
    c.go();
    const cl ev  = num(exact_det(t));
    const ld tol = t.r <= 4 ? 0 : tolerance(t) / (4 * static_cast<ld>(t.r));
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const T d = la::determinant(M);
        if (!(std::abs(wide(d) - ev) <= tol)) c.fail("wide", "determinant of %s is %s, should be %.21Lg%+.21Lgi (within %Lg)", show(t).c_str(), str(d).c_str(), ev.real(), ev.imag(), tol);
    });
    c.step();
    c.state(t.hash() + static_cast<unsigned>(kind));
}
// Matrices that miss a structure by one small element.
template <typename T>
void in_quad(mc::Ctx &c, const Tab<T> &t, int kind)
{
    QM none(t.r, std::vector<Q>());
    const cl ev  = num(quad_solve(quad(t), none));
    const ld tol = tolerance(t);
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const T d = la::determinant(M);
        if (!(std::abs(wide(d) - ev) <= tol)) c.fail("nearly", "determinant of %s is %s, should be %.21Lg%+.21Lgi (within %Lg)", show(t).c_str(), str(d).c_str(), ev.real(), ev.imag(), tol);
    });
    c.step();
    c.state(t.hash() + static_cast<unsigned>(kind) + sizeof(T));
}
template <typename T>
void nearly(mc::Ctx &c)
{
    const Tab<T> t = near_matrix<T>(c, 2, c.thorough ? 9 : 6);
    const int kind = static_cast<int>(c.choose(2, "kind")) * 4;
    c.go();
    in_quad(c, t, kind);
}
template <typename T>
void large(mc::Ctx &c)
{
    const Tab<T> t = large_matrix<T>(c, { 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65 });
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    in_quad(c, t, kind);
}
void rejected(mc::Ctx &c)
{
    const size_t r = c.choose(8, "rows"), k = c.choose(8, "cols");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    if (r == k) return;
    Tab<double> t = labelled<double>(r, k);
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        if (!throws([&] { (void)la::determinant(M); })) c.fail("non-square", "%zux%zu accepted", r, k);
    });
    c.step();
    c.state(mc::mix(r, k) + static_cast<unsigned>(kind));
}
} // namespace
MC(small)
{
    switch (c.choose(4, "type")) {
    case 0: return small<int>(c);
    case 1: return small<double>(c);
    case 2: return small<cd>(c);
    case 3: return small<float>(c);
    }
}
MC(four)
{
    switch (c.choose(3, "type")) {
    case 0: return four<int>(c);
    case 1: return four<double>(c);
    case 2: return four<cd>(c);
    }
}
MC(elimination)
{
    switch (c.choose(3, "type")) {
    case 0: return elimination<double>(c);
    case 1: return elimination<int>(c);
    case 2: return elimination<cd>(c);
    }
}
MC(permutations)
{
    switch (c.choose(3, "type")) {
    case 0: return permutations<double>(c);
    case 1: return permutations<int>(c);
    case 2: return permutations<cd>(c);
    }
}
MC(big)
{
    switch (c.choose(3, "type")) {
    case 0: return big<double>(c);
    case 1: return big<cd>(c);
    case 2: return big<long>(c);
    }
}
MC(wide_contents)
{
    switch (c.choose(3, "type")) {
    case 0: return wide_contents<long>(c);
    case 1: return wide_contents<ld>(c);
    case 2: return wide_contents<cl>(c);
    }
}
MC(nearly)
{
    switch (c.choose(4, "type")) {
    case 0: return nearly<double>(c);
    case 1: return nearly<cd>(c);
    case 2: return nearly<float>(c);
    case 3: return nearly<ld>(c);
    }
}
MC(large)
{
    switch (c.choose(4, "type")) {
    case 0: return large<double>(c);
    case 1: return large<cd>(c);
    case 2: return large<float>(c);
    case 3: return large<ld>(c);
    }
}
MC(singular) { singular(c); }
MC(small_pivots)
{
    switch (c.choose(4, "type")) {
    case 0: return small_pivots<double>(c);
    case 1: return small_pivots<cd>(c);
    case 2: return small_pivots<float>(c);
    case 3: return small_pivots<ld>(c);
    }
}
MC(scaling) { scaling(c); }
MC(rejected) { rejected(c); }
