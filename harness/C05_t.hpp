// C05: products of every ordered pair of element types, with contents that only the common type holds.
#pragma once
#include "C05.hpp"
// Small integers, spread over nearly all the digits that both T and the result type R have; every
// product with unspread ones, and sums of a few of them, is then exact in R.
template <typename R, typename T>
inline T spread_value(size_t i, size_t salt, bool wide)
{
    if constexpr (is_cx_v<T>) return T(spread_value<R, realof<T>>(i, salt, wide), spread_value<R, realof<T>>(i + 3, salt + 1, wide));
    else {
        const int k = static_cast<int>((i * 7 + salt * 5 + i * i) % 11) - 5, m = static_cast<int>((i * 3 + salt * 2 + 1) % 7) - 3;
        if (!wide) return static_cast<T>(k);
        const int d = std::min(std::numeric_limits<T>::digits, std::numeric_limits<realof<R>>::digits) - 9;
        if constexpr (std::is_integral_v<T>) return static_cast<T>(static_cast<long>(k) * (1l << d) / 4 + m);
        else return static_cast<T>(k) + std::ldexp(static_cast<T>(m), -d);
    }
}
template <typename T1, typename T2>
inline void type_pair(mc::Ctx &c)
{
    using R           = common_t<T1, T2>;
    const size_t salt = c.choose(6, "content");
    const bool left   = c.flip("wide left"), right = !left && c.flip("wide right");
    const size_t k    = 1 + c.choose(3, "inner");
    c.go();
    Tab<T1> a(2, k);
    Tab<T2> b(k, 2);
    for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = spread_value<R, T1>(i, salt, left);
    for (size_t i = 0; i < b.v.size(); ++i) b.v[i] = spread_value<R, T2>(i, salt + 2, right);
    const auto e = product<R>(a, b);
    const std::string what = show(a) + " * " + show(b);
    const Matrix<T1> A(mat(a));
    const Matrix<T2> B(mat(b));
    expect_mat(c, "types", A * B, e, what);
    std::vector<T2> x(k);
    std::vector<T1> y(k);
    for (size_t i = 0; i < k; ++i) x[i] = b(i, 0), y[i] = a(0, i);
    const auto ex = product<R>(a, column(x));
    const Vector<T2> X(mkvec(x));
    const Vector<T1> Y(mkvec(y));
    check_vec(c, "types-matrix-vector", A * X, ex.v);
    check_vec(c, "types-matrix-vector", malg::dot(A, X), ex.v);
    const auto d = malg::dot(Y, X);
    static_assert(std::is_same_v<std::decay_t<decltype(d)>, R>);
    if (!same<R>(d, ex.v[0])) c.fail("types-dot", "%s . %s = %s, expected %s", show(y).c_str(), show(x).c_str(), str(R(d)).c_str(), str(ex.v[0]).c_str());
    if constexpr (std::is_same_v<R, T1>) {
        if (k == 2) {
            Matrix<T1> P(A);
            P *= B;
            expect_mat(c, "types-in-place", P, e, what);
        }
    }
    check_mat(c, "operand-changed", A, a);
    check_mat(c, "operand-changed", B, b);
    c.step(4);
    c.state(mc::mix(mc::mix(a.hash(), b.hash()), sizeof(T1) * 100 + sizeof(T2) + is_cx_v<T1>));
}
template <typename T1>
inline void type_row(mc::Ctx &c)
{
    switch (c.choose(8, "right type")) {
    case 0: return type_pair<T1, int>(c);
    case 1: return type_pair<T1, long>(c);
    case 2: return type_pair<T1, float>(c);
    case 3: return type_pair<T1, double>(c);
    case 4: return type_pair<T1, ld>(c);
    case 5: return type_pair<T1, cf>(c);
    case 6: return type_pair<T1, cd>(c);
    case 7: return type_pair<T1, cl>(c);
    }
}
