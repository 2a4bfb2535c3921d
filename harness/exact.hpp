// Exact integer / Gaussian-integer linear algebra used as the reference.
#pragma once
#include "C05.hpp"

using i128 = __int128;
struct G {
    i128 re = 0, im = 0;
    bool zero() const { return re == 0 && im == 0; }
};
inline G operator+(G a, G b) { return { a.re + b.re, a.im + b.im }; }
inline G operator-(G a, G b) { return { a.re - b.re, a.im - b.im }; }
inline G operator*(G a, G b) { return { a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re }; }
// Exact quotient (the remainder is known to be zero).
inline G operator/(G a, G b)
{
    if (b.im == 0) return { a.re / b.re, a.im / b.re };
    i128 n = b.re * b.re + b.im * b.im;
    return { (a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n };
}
using GM = std::vector<std::vector<G>>;
template <typename T>
inline GM exact(const Tab<T> &t)
{
    GM m(t.r, std::vector<G>(t.c));
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) {
            if constexpr (is_cx_v<T>) m[i][j] = G{ static_cast<i128>(t(i, j).real()), static_cast<i128>(t(i, j).imag()) };
            else m[i][j] = G{ static_cast<i128>(t(i, j)), 0 };
        }
    return m;
}
// Bareiss elimination.
inline G exact_det(GM m)
{
    const size_t n = m.size();
    G prev{ 1, 0 };
    bool neg = false;
    for (size_t k = 0; k + 1 < n; ++k) {
        size_t p = k;
        while (p < n && m[p][k].zero()) ++p;
        if (p == n) return G{};
        if (p != k) {
            std::swap(m[p], m[k]);
            neg = !neg;
        }
        for (size_t i = k + 1; i < n; ++i)
            for (size_t j = k + 1; j < n; ++j) m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
        prev = m[k][k];
    }
    G d = n ? m[n - 1][n - 1] : G{ 1, 0 };
    return neg ? G{} - d : d;
}
inline GM exact_minor(const GM &m, size_t p, size_t q)
{
    GM r;
    for (size_t i = 0; i < m.size(); ++i) {
        if (i == p) continue;
        r.emplace_back();
        for (size_t j = 0; j < m[i].size(); ++j)
            if (j != q) r.back().push_back(m[i][j]);
    }
    return r;
}
template <typename T>
inline G exact_det(const Tab<T> &t) { return exact_det(exact(t)); }
inline GM exact_mul(const GM &a, const GM &b)
{
    GM r(a.size(), std::vector<G>(b.empty() ? 0 : b[0].size()));
    for (size_t i = 0; i < r.size(); ++i)
        for (size_t j = 0; j < r[i].size(); ++j)
            for (size_t k = 0; k < b.size(); ++k) r[i][j] = r[i][j] + a[i][k] * b[k][j];
    return r;
}
inline size_t exact_rank(GM m)
{
    // Fraction-free elimination with row content kept exact (entries stay small here).
    size_t rank = 0;
    const size_t R = m.size(), C = R ? m[0].size() : 0;
    G prev{ 1, 0 };
    for (size_t c = 0; c < C && rank < R; ++c) {
        size_t p = rank;
        while (p < R && m[p][c].zero()) ++p;
        if (p == R) continue;
        std::swap(m[p], m[rank]);
        for (size_t i = rank + 1; i < R; ++i)
            for (size_t j = c + 1; j < C; ++j) m[i][j] = (m[i][j] * m[rank][c] - m[i][c] * m[rank][j]) / prev;
        for (size_t i = rank + 1; i < R; ++i) m[i][c] = G{};
        prev = m[rank][c];
        ++rank;
    }
    return rank;
}
inline cl num(G g) { return cl(static_cast<ld>(g.re), static_cast<ld>(g.im)); }

// What an elimination in truncating integer arithmetic yields (the recorded int defect of
// determinant for N >= 5): used only to recognise the known finding exactly.
template <typename T>
inline T truncating_det(Tab<T> A)
{
    const size_t N = A.c;
    T det          = 1;
    for (size_t c = 0; c < N; ++c) {
        if (A(c, c) == 0) {
            size_t k = c + 1;
            while (k < N && A(k, c) == 0) ++k;
            if (k == N) return 0;
            for (size_t j = 0; j < N; ++j) std::swap(A(c, j), A(k, j));
            det *= -1;
        }
        for (size_t r = c + 1; r < N; ++r) {
            const T ratio = A(r, c) / A(c, c);
            for (size_t k = c; k < N; ++k) A(r, k) -= ratio * A(c, k);
        }
        det *= A(c, c);
    }
    return det;
}
template <typename T>
inline Tab<T> tab_minor(const Tab<T> &t, size_t p, size_t q)
{
    Tab<T> n(t.r - 1, t.c - 1);
    for (size_t i = 0; i < n.r; ++i)
        for (size_t j = 0; j < n.c; ++j) n(i, j) = t(i + (i >= p), j + (j >= q));
    return n;
}

// ---- square matrices of any size --------------------------------------------------
// Rows of an n x n matrix are drawn from a small menu; every combination of menu rows is a
// matrix.  The menu holds zero, unit, repeated, opposite, dense and sparse rows, so that zero
// pivots, singular matrices, row exchanges and sign changes all occur.
template <typename T>
inline T menu_entry(size_t row, size_t j, size_t n)
{
    const int dense[3][8] = { { 2, -1, 3, 1, -2, 4, 1, -3 }, { 1, 3, -2, 5, 1, -1, 2, 2 }, { -3, 2, 1, -1, 4, 2, -2, 1 } };
    int k = 0;
    switch (row) {
    case 0: k = dense[0][j % 8]; break;
    case 1: k = (j == 0) ? 1 : (j + 1 == n ? -1 : 0); break; // first and last
    case 2: k = (j == 0) ? 0 : dense[1][j % 8]; break;       // zero pivot
    case 3: k = (j + 1 == n) ? 1 : (j == n / 2 ? 2 : 0); break;
    case 4: k = (j < 2) ? 0 : dense[2][j % 8]; break;
    case 5: k = static_cast<int>(j % 2) * 2 - 1; break;
    case 6: k = dense[2][j % 8] + static_cast<int>(j == 1) * 3; break;
    case 7: k = (j == 1) ? -2 : (j == 2 ? 1 : 0); break;
    }
    if constexpr (is_cx_v<T>) {
        using R = typename T::value_type;
        return T(static_cast<R>(k), static_cast<R>(static_cast<int>((row * 3 + j) % 3) - 1));
    } else {
        return static_cast<T>(k);
    }
}
// Draws an n x n table: menu rows in any order and repetition for a few rows, the others fixed.
template <typename T>
inline Tab<T> menu_matrix(mc::Ctx &c, size_t n, unsigned menu, size_t free_rows)
{
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i) {
        if (i < free_rows) {
            const size_t m = c.choose(menu, "row");
            for (size_t j = 0; j < n; ++j) t(i, j) = menu_entry<T>(m, j, n);
        } else {
            for (size_t j = 0; j < n; ++j) {
                t(i, j) = T(i == j ? 2 : (j + i) % 4 == 1 ? -1 : 0);
                if (j == 0 && i % 2) t(i, j) = T(1);
            }
        }
    }
    return t;
}
// Draws a square table with every entry from the alphabet.
template <typename T, size_t K>
inline Tab<T> alphabet_matrix(mc::Ctx &c, size_t r, size_t k, const T (&alpha)[K])
{
    Tab<T> t(r, k);
    for (auto &x : t.v) x = c.pick(alpha, "entry");
    return t;
}
template <typename T>
inline cl wide(const T &x)
{
    // std::real of an integer is a double.
    if constexpr (is_cx_v<T>) return cl(static_cast<ld>(x.real()), static_cast<ld>(x.imag()));
    else return cl(static_cast<ld>(x), 0);
}

// Integer contents whose determinants and minors are exact in T up to 4x4 but not in a narrower type; above that
// (floating point only) diagonally dominant ones, so that elimination in T is good to a few of its own roundings.
template <typename T>
inline Tab<T> wide_matrix(mc::Ctx &c, size_t max_n)
{
    const size_t n      = 1 + c.choose(static_cast<unsigned>(max_n), "n");
    const unsigned salt = c.choose(c.thorough ? 40 : 12, "content"), zero = c.choose(static_cast<unsigned>(n * n) + 1, "zero");
    static const int real_bits[] = { 0, 61, 30, 20, 14, 10, 8, 5 }, cx_bits[] = { 0, 61, 29, 19, 12, 4, 3, 2 };
    const int bits = is_cx_v<T> ? cx_bits[n] : real_bits[n];
    std::uint64_t h = salt * 1000003u + n * 7919u + 12345u;
    auto next       = [&](bool big) {
        h                 = mc::mix(h, salt + 17);
        const long m      = (static_cast<long>(h >> 3) & ((1l << bits) - 1)) | 1;
        const long v      = big ? m | (1l << (bits - 1)) | (n > 4 ? 8l << bits : 0) : m;
        return (h & 4) ? -v : v;
    };
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const long a = next(i == j), b = next(false);
            if constexpr (is_cx_v<T>) t(i, j) = T(static_cast<realof<T>>(a), static_cast<realof<T>>(b));
            else t(i, j) = static_cast<T>(a);
        }
    if (zero < n * n) t.v[zero] = T(0);
    return t;
}
