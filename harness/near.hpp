// Matrices that miss a structure (identity, diagonal, orthogonal, symmetric, triangular, ...) by one small element,
// and references in quadruple precision.  A shortcut taken on an approximate test of the structure loses the element.
#pragma once
#include "exact.hpp"

struct Q { // complex number in quadruple precision
    __float128 re = 0, im = 0;
};
inline Q operator+(Q a, Q b) { return { a.re + b.re, a.im + b.im }; }
inline Q operator-(Q a, Q b) { return { a.re - b.re, a.im - b.im }; }
inline Q operator*(Q a, Q b) { return { a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re }; }
inline Q operator/(Q a, Q b)
{
    const __float128 n = b.re * b.re + b.im * b.im;
    return { (a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n };
}
inline cl num(Q q) { return cl(static_cast<ld>(q.re), static_cast<ld>(q.im)); }
inline __float128 size2(Q q) { return q.re * q.re + q.im * q.im; }
using QM = std::vector<std::vector<Q>>;
template <typename T>
inline QM quad(const Tab<T> &t)
{
    QM m(t.r, std::vector<Q>(t.c));
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) {
            if constexpr (is_cx_v<T>) m[i][j] = Q{ t(i, j).real(), t(i, j).imag() };
            else m[i][j] = Q{ static_cast<__float128>(t(i, j)), 0 };
        }
    return m;
}
// Gauss-Jordan elimination with row exchanges: the determinant, and A^-1 B in place of B.
inline Q quad_solve(QM a, QM &b)
{
    const size_t n = a.size();
    Q det{ 1, 0 };
    for (size_t k = 0; k < n; ++k) {
        size_t p = k;
        for (size_t i = k + 1; i < n; ++i)
            if (size2(a[i][k]) > size2(a[p][k])) p = i;
        if (size2(a[p][k]) == 0) return Q{};
        if (p != k) std::swap(a[p], a[k]), std::swap(b[p], b[k]), det = Q{} - det;
        const Q d = a[k][k];
        det       = det * d;
        for (auto &x : a[k]) x = x / d;
        for (auto &x : b[k]) x = x / d;
        for (size_t i = 0; i < n; ++i) {
            if (i == k) continue;
            const Q f = a[i][k];
            if (size2(f) == 0) continue;
            for (size_t j = 0; j < n; ++j) a[i][j] = a[i][j] - f * a[k][j];
            for (size_t j = 0; j < b[i].size(); ++j) b[i][j] = b[i][j] - f * b[k][j];
        }
    }
    return det;
}
inline QM quad_identity(size_t n)
{
    QM m(n, std::vector<Q>(n));
    for (size_t i = 0; i < n; ++i) m[i][i].re = 1;
    return m;
}
enum { NEAR_FORMS = 10 };
// One well-conditioned matrix per form and position; permuted forms have zeros on their diagonal.
template <typename T>
inline Tab<T> near_matrix(mc::Ctx &c, size_t lo, size_t hi, bool with_permutations = true)
{
    using R          = realof<T>;
    static const int ex[] = { 12, 18, 24, 32, 42 };
    const size_t n   = lo + c.choose(static_cast<unsigned>(hi - lo + 1), "size");
    const unsigned f = c.choose(with_permutations ? NEAR_FORMS : NEAR_FORMS - 1, "form");
    const unsigned e = c.choose(std::is_same_v<R, float> ? 2 : 5, "exponent");
    const size_t p = c.choose(static_cast<unsigned>(n), "row"), q = c.choose(static_cast<unsigned>(n), "column");
    const bool imaginary = is_cx_v<T> ? c.flip("imaginary") : false;
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const double k = static_cast<double>((i * 5 + j * 3 + i * j) % 5) - 2; // -2 ... 2
            const double s = static_cast<double>((i + j) % 3) - 1;
            double x       = 0;
            switch (f) {
            case 0: x = i == j; break;                                                        // identity
            case 1: x = i == j ? (i % 2 ? -1.0 : 1.0) * (1 + static_cast<double>(i) / 2) : 0; break; // diagonal
            case 2: x = (i == j) - 2.0 / static_cast<double>(n); break;                       // orthogonal (reflection), symmetric
            case 3: x = i == j ? 4.0 + static_cast<double>(n) : s; break;                     // symmetric
            case 4: x = i == j ? 3 : i < j ? 1 : -1; break;                                   // skew-symmetric plus a multiple of the identity
            case 5: x = i == j ? (i % 2 ? -2 : 3) : i < j ? k / 2 : 0; break;                 // upper triangular
            case 6: x = i == j ? (i % 2 ? 2 : -3) : i > j ? k / 2 : 0; break;                 // lower triangular
            case 7: x = i == j ? 4 : (i + 1 == j || j + 1 == i) ? -1 : 0; break;              // tridiagonal
            case 8: x = i / 2 != j / 2 ? 0 : i == j ? 1 : i < j ? 0.75 : -0.75; break;        // blocks
            case 9: x = j == (i + 1) % n; break;                                              // permutation, orthogonal
            }
            t(i, j) = T(static_cast<R>(x));
        }
    const R tiny = static_cast<R>(std::ldexp((p + q) % 2 ? -1.0 : 1.0, -ex[e]));
    if constexpr (is_cx_v<T>) t(p, q) += imaginary ? T(R(0), tiny) : T(tiny);
    else t(p, q) += tiny;
    return t;
}
// Well-conditioned matrices of larger sizes, with determinants of moderate size.
template <typename T>
inline Tab<T> large_matrix(mc::Ctx &c, std::initializer_list<size_t> sizes, bool with_permutations = true)
{
    using R          = realof<T>;
    const size_t n   = sizes.begin()[c.choose(static_cast<unsigned>(sizes.size()), "size")];
    const unsigned f = c.choose(with_permutations ? 6 : 4, "form"), salt = c.choose(3, "content");
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const double k = (static_cast<double>((i * 7 + j * 3 + i * j + salt) % 7) - 3) / static_cast<double>(4 * n);
            const double d = (i + salt) % 3 ? 1 : -1.25;
            const double s = static_cast<double>((i + j * (salt + 1)) % 5) - 2;
            double x       = 0;
            switch (f) {
            case 0: x = (i == j ? d : 0) + k; break;                                              // dense
            case 1: x = i == j ? d : (i + 1 == j || j + 1 == i) ? s / 8 : 0; break;               // tridiagonal
            case 2: x = i == j ? d : i < j ? k : 0; break;                                        // upper triangular
            case 3: x = i == j ? d : i > j ? k : 0; break;                                        // lower triangular
            case 4: x = (j == (i + 1 + salt) % n ? d : 0) + k; break;                             // dense, rows exchanged
            case 5: x = (i == j) - 2.0 / static_cast<double>(n) * (salt && (i + j) % 2 ? -1 : 1); break; // reflection
            }
            if constexpr (is_cx_v<T>) t(i, j) = T(static_cast<R>(x), static_cast<R>(i == j || (i + j) % 3 || f == 5 ? 0 : k / 2 * (f == 0 || f == 4)));
            else t(i, j) = static_cast<R>(x);
        }
    return t;
}
