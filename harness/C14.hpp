// C14: stacking, extraction, removal, rearrangement, conversions.
#pragma once
#include "C05.hpp"
template <typename R, typename T>
inline R conv(const T &x)
{
    if constexpr (is_cx_v<R> && is_cx_v<T>) return R(static_cast<realof<R>>(x.real()), static_cast<realof<R>>(x.imag()));
    else if constexpr (is_cx_v<R>) return R(static_cast<realof<R>>(x));
    else return static_cast<R>(x);
}
template <typename R, typename T1, typename T2>
inline Tab<R> below(const Tab<T1> &a, const Tab<T2> &b)
{
    Tab<R> t(a.r + b.r, a.c);
    for (size_t j = 0; j < a.c; ++j) {
        for (size_t i = 0; i < a.r; ++i) t(i, j) = conv<R>(a(i, j));
        for (size_t i = 0; i < b.r; ++i) t(a.r + i, j) = conv<R>(b(i, j));
    }
    return t;
}
template <typename R, typename T1, typename T2>
inline Tab<R> beside(const Tab<T1> &a, const Tab<T2> &b)
{
    Tab<R> t(a.r, a.c + b.c);
    for (size_t i = 0; i < a.r; ++i) {
        for (size_t j = 0; j < a.c; ++j) t(i, j) = conv<R>(a(i, j));
        for (size_t j = 0; j < b.c; ++j) t(i, a.c + j) = conv<R>(b(i, j));
    }
    return t;
}
template <typename T>
inline Tab<T> row_of(const std::vector<T> &v)
{
    Tab<T> t(1, v.size());
    t.v = v;
    return t;
}
// Values each type can hold exactly and the other cannot always (so that narrowing shows).
template <typename T>
inline T big(size_t i)
{
    if constexpr (is_cx_v<T>) return T(big<realof<T>>(i), -big<realof<T>>(i + 2));
    else if constexpr (std::is_same_v<T, ld>) return static_cast<ld>(i) * 3000000001 - 7 + static_cast<ld>(i % 5) * 0x1p-25L;
    else if constexpr (std::is_same_v<T, double>) return static_cast<double>(i) * 0.1 - 3e10;
    else if constexpr (std::is_same_v<T, int>) return 16777217 + static_cast<int>(i) * (i % 2 ? 1 : -3);
    else if constexpr (std::is_same_v<T, float>) return static_cast<float>(i) * 0.3f - 1;
    else return static_cast<T>(i) * 3000000001 - 7 + (i % 3 ? static_cast<T>(1) << 60 : 0);
}
template <typename T>
inline Tab<T> bigs(size_t r, size_t c, size_t from)
{
    Tab<T> t(r, c);
    for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = big<T>(i + from);
    return t;
}
template <typename T1, typename T2>
inline void stack_shapes(mc::Ctx &c, size_t r, size_t k, size_t m, int ka, int kb, bool across)
{
    using R   = common_t<T1, T2>;
    auto a    = bigs<T1>(across ? k : r, across ? r : k, 1);
    auto b    = bigs<T2>(across ? k : m, across ? m : k, 5);
    auto e    = across ? beside<R>(a, b) : below<R>(a, b);
    const std::string w = show(a) + (across ? " | " : " over ") + show(b);
    with_const(c, "left-changed", ka, a, [&](const auto &A) {
        with_const(c, "right-changed", kb, b, [&](const auto &B) {
            if (across) expect_mat(c, "hstack", ut::hstack(A, B), e, w);
            else expect_mat(c, "vstack", ut::vstack(A, B), e, w);
        });
        // A vector below / beside the matrix.
        if (m == 1 && kb == 0) {
            const Vector<T2> x(mkvec(b.v));
            if (across) expect_mat(c, "hstack-vector", ut::hstack(A, x), e, w);
            else expect_mat(c, "vstack-vector", ut::vstack(A, x), e, w);
            check_vec(c, "vector-changed", x, b.v);
            c.step();
        }
    });
    c.step();
    // The same object twice.
    if (kb == 0 && m == 0) {
        auto e2 = across ? beside<T1>(a, a) : below<T1>(a, a);
        with_const(c, "operand-changed", ka, a, [&](const auto &A) {
            if (across) expect_mat(c, "hstack-self", ut::hstack(A, A), e2, w);
            else expect_mat(c, "vstack-self", ut::vstack(A, A), e2, w);
        });
        c.step();
    }
    c.state(mc::mix(mc::mix(a.hash(), b.hash()), static_cast<unsigned>(ka * 8 + kb) * 2 + across));
}
template <typename T1, typename T2>
inline void stacking(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 6 : 4;
    const size_t r = c.choose(hi, "first"), k = c.choose(hi, "common"), m = c.choose(hi, "second");
    const int ka = static_cast<int>(c.choose(K_COUNT, "left kind")), kb = static_cast<int>(c.choose(K_COUNT, "right kind"));
    const bool across = c.flip("across");
    c.go();
    stack_shapes<T1, T2>(c, r, k, m, ka, kb, across);
}
// Every ordered pair of element types on small operands.
template <typename T1, typename T2>
inline void type_pair(mc::Ctx &c)
{
    using R           = common_t<T1, T2>;
    const size_t salt = c.choose(6, "content"), n = 1 + c.choose(3, "second");
    c.go();
    const auto a = bigs<T1>(2, 2, salt), l = bigs<T1>(1, 2, salt + 1);
    const auto b = bigs<T2>(n, 2, salt + 2), d = bigs<T2>(2, n, salt + 3);
    const Matrix<T1> A(mat(a)), L(mat(l));
    const Matrix<T2> B(mat(b)), D(mat(d));
    const Vector<T1> x(mkvec(a.v));
    const Vector<T2> y(mkvec(b.v));
    expect_mat(c, "types-vstack", ut::vstack(A, B), below<R>(a, b), show(a) + " over " + show(b));
    expect_mat(c, "types-hstack", ut::hstack(A, D), beside<R>(a, d), show(a) + " | " + show(d));
    auto got = ut::concatenate(x, y);
    static_assert(std::is_same_v<decltype(got), Vector<R>>);
    check_vec(c, "types-concatenate", got, below<R>(column(a.v), column(b.v)).v);
    if (n == 1) {
        const Vector<T2> v(mkvec(b.v)), w(mkvec(d.v));
        expect_mat(c, "types-vstack", ut::vstack(A, v), below<R>(a, b), show(a) + " over vector " + show(b));
        expect_mat(c, "types-hstack", ut::hstack(A, w), beside<R>(a, d), show(a) + " | vector " + show(d));
    }
    check_mat(c, "operand-changed", A, a);
    check_mat(c, "operand-changed", B, b);
    c.step(5);
    c.state(mc::mix(mc::mix(a.hash(), b.hash()), sizeof(T1) * 100 + sizeof(T2) + is_cx_v<T1>));
}
template <typename T1>
inline void type_row(mc::Ctx &c)
{
    switch (c.choose(8, "right type")) {
    case 0: return type_pair<T1, int>(c);
    case 1: return type_pair<T1, long>(c);
    case 2: return type_pair<T1, float>(c);
    case 3: return type_pair<T1, double>(c);
    case 4: return type_pair<T1, ld>(c);
    case 5: return type_pair<T1, cf>(c);
    case 6: return type_pair<T1, cd>(c);
    case 7: return type_pair<T1, cl>(c);
    }
}
