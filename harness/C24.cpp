// C24: controllability and observability matrices.
#include "exact.hpp"
#include "C06.hpp"
namespace
{
namespace ctl = malg::control;
template <typename T>
Tab<T> flipped(const Tab<T> &t)
{
    Tab<T> r(t.c, t.r);
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) r(j, i) = t(i, j);
    return r;
}
template <typename T>
Tab<T> reference(const Tab<T> &A, const Tab<T> &B)
{
    const size_t n = A.r, q = B.c;
    Tab<T> r(n, q * std::max<size_t>(n, 1)), blk = B;
    for (size_t k = 0; k < n; ++k) {
        if (k) blk = product<T>(A, blk);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < q; ++j) r(i, k * q + j) = blk(i, j);
    }
    return r;
}
// Elements are small whole numbers, so that every power is exact in every type.
template <typename T>
void check(mc::Ctx &c, const Tab<T> &A, const Tab<T> &B, int ka, int kb)
{
    const Tab<T> want = reference(A, B), At = flipped(A), Bt = flipped(B);
    c.note("A = %s, B = %s", show(A).c_str(), show(B).c_str());
    with_const(c, "operand-changed", ka, A, [&](const auto &a) {
        with_const(c, "operand-changed", kb, B, [&](const auto &b) {
            using E = typename std::remove_reference_t<decltype(a)>::value_type;
            using F = typename std::remove_reference_t<decltype(b)>::value_type;
            if constexpr (!std::is_const_v<E> && !std::is_const_v<F>) check_mat(c, "ctrb", ctl::ctrb(a, b), want);
        });
    });
    with_const(c, "operand-changed", kb, At, [&](const auto &a) {
        with_const(c, "operand-changed", ka, Bt, [&](const auto &b) {
            using E = typename std::remove_reference_t<decltype(a)>::value_type;
            using F = typename std::remove_reference_t<decltype(b)>::value_type;
            if constexpr (!std::is_const_v<E> && !std::is_const_v<F>) check_mat(c, "obsv", ctl::obsv(a, b), flipped(want));
        });
    });
    c.step(2);
    c.state(mc::mix(A.hash(), B.hash()) + sizeof(T) + static_cast<unsigned>(ka * 10 + kb));
}
template <typename T>
void two(mc::Ctx &c)
{
    T alpha[] = { T(0), T(1), T(-2), T(3) };
    if constexpr (is_cx_v<T>) alpha[2] = T(-2, 1), alpha[3] = T(0, 1);
    auto A = alphabet_matrix<T>(c, 2, 2, alpha);
    auto B = alphabet_matrix<T>(c, 2, 1 + c.choose(c.thorough ? 2 : 1, "inputs"), alpha);
    c.go();
    check(c, A, B, 0, 0);
}
template <typename T>
void shapes(mc::Ctx &c)
{
    const size_t n = 1 + c.choose(c.thorough ? 8 : 6, "states"), m = 1 + c.choose(5, "inputs");
    const int ka   = static_cast<int>(c.choose(K_MUTABLE, "kind")), kb = static_cast<int>(c.choose(K_MUTABLE, "kind"));
    const unsigned salt = c.choose(4, "content");
    c.go();
    Tab<T> A(n, n), B(n, m);
    static const int v[] = { 1, 0, -1, 2, 0, 1, -2, 0, 0, 1, 0 };
    for (size_t i = 0; i < A.v.size(); ++i) A.v[i] = static_cast<T>(v[(i * (salt + 1) + salt) % 11]);
    for (size_t i = 0; i < B.v.size(); ++i) B.v[i] = static_cast<T>(v[(i * 3 + salt) % 11]);
    if constexpr (is_cx_v<T>) A(0, n - 1) += T(0, 1), B(n - 1, 0) += T(0, -1);
    check(c, A, B, ka, kb);
}
template <typename T>
void menu(mc::Ctx &c)
{
    const size_t n = 3 + c.choose(c.thorough ? 3 : 2, "states");
    auto A         = menu_matrix<T>(c, n, 8, n == 3 ? 3 : 2);
    const unsigned salt = c.choose(3, "input");
    c.go();
    Tab<T> B(n, 1 + salt);
    for (size_t i = 0; i < B.v.size(); ++i) B.v[i] = T(i % 2 + salt == 1 ? 1 : i % 3 == 0 ? -1 : 0);
    check(c, A, B, 0, 1);
}
// Any two shapes: accepted exactly when they fit.
template <typename T>
void misfits(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 6 : 5;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols"), q = c.choose(hi, "rows"), m = c.choose(hi, "cols");
    const int ka = static_cast<int>(c.choose(K_MUTABLE, "kind")), kb = static_cast<int>(c.choose(K_MUTABLE, "kind"));
    c.go();
    const auto A = labelled<T>(r, k), B = labelled<T>(q, m, 3);
    with_const(c, "operand-changed", ka, A, [&](const auto &a) {
        with_const(c, "operand-changed", kb, B, [&](const auto &b) {
            using E = typename std::remove_reference_t<decltype(a)>::value_type;
            using F = typename std::remove_reference_t<decltype(b)>::value_type;
            if constexpr (!std::is_const_v<E> && !std::is_const_v<F>) {
                const bool fit_c = r == k && q == r, fit_o = r == k && m == r;
                const bool tc = throws([&] { (void)ctl::ctrb(a, b); }), to = throws([&] { (void)ctl::obsv(a, b); });
                if (r && tc == fit_c) c.fail("reject", "ctrb of %zux%zu and %zux%zu %s", r, k, q, m, tc ? "is rejected" : "is accepted");
                if (r && to == fit_o) c.fail("reject", "obsv of %zux%zu and %zux%zu %s", r, k, q, m, to ? "is rejected" : "is accepted");
                if (!r && ((!fit_c && !tc) || (!fit_o && !to))) c.fail("reject", "%zux%zu and %zux%zu are accepted", r, k, q, m);
            }
        });
    });
    c.step(2);
    c.state(mc::mix(mc::mix(r, k), mc::mix(q, m)) + static_cast<unsigned>(ka * 10 + kb) + sizeof(T));
}
// Models with many states; their powers stay small.
template <typename T>
void large(mc::Ctx &c)
{
    static const size_t ns[] = { 7, 8, 9, 10, 12, 16, 17, 24, 33 };
    const size_t n      = ns[c.choose(c.thorough ? 9 : 8, "states")], m = 1 + c.choose(4, "inputs") * 2;
    const unsigned form = c.choose(3, "form"), salt = c.choose(2, "content");
    c.go();
    Tab<T> A(n, n), B(n, m);
    for (size_t i = 0; i < n; ++i) {
        A(i, (i + 1) % n) = T(i % 3 || form == 0 ? 1 : -1);
        if (form == 1 && i == 2) A(i, n / 2) = T(1);
        if (form == 2) A(i, i) = T(i + 1 == n ? 1 : 0);
    }
    for (size_t i = 0; i < B.v.size(); ++i) B.v[i] = T(static_cast<int>((i * (salt + 2) + salt) % 4) - 1);
    check(c, A, B, 0, 0);
}
// Contents that only the wide types hold: one wide element per matrix, so that every element of the result is a single product.
template <typename T>
void wide_contents(mc::Ctx &c)
{
    const size_t n = 2 + c.choose(3, "states");
    const size_t i = c.choose(static_cast<unsigned>(n), "row"), j = c.choose(static_cast<unsigned>(n), "input");
    const long v   = (1l << (53 + c.choose(9, "bits"))) + 1 + 2 * static_cast<long>(c.choose(2, "low"));
    const bool neg = c.flip("negative"), shift = c.flip("shift");
    c.go();
    Tab<T> A(n, n), B(n, n);
    for (size_t k = 0; k < n; ++k) {
        A(k, shift ? (k + 1) % n : k) = T(1);
        B(k, k)                       = T(k % 2 ? -1 : 1);
    }
    B(i, j) = static_cast<T>(neg ? -v : v);
    check(c, A, B, 0, 1);
}
} // namespace
MC(wide_contents)
{
    if (c.flip("type")) wide_contents<ld>(c);
    else wide_contents<long>(c);
}
#define TYPES(name)                         \
    MC(name)                                \
    {                                       \
        switch (c.choose(6, "type")) {      \
        case 4: return name<long>(c);       \
        case 5: return name<ld>(c);         \
        case 0: return name<double>(c);     \
        case 1: return name<cd>(c);         \
        case 2: return name<int>(c);        \
        case 3: return name<float>(c);      \
        }                                   \
    }
TYPES(two)
TYPES(shapes)
TYPES(menu)
TYPES(large)
MC(misfits)
{
    switch (c.choose(2, "type")) {
    case 0: return misfits<double>(c);
    case 1: return misfits<int>(c);
    }
}
