// Extended-precision matrix exponential used as the reference.
#pragma once
#include "exact.hpp"
namespace
{
using CM = std::vector<std::vector<cl>>;
CM mul(const CM &a, const CM &b)
{
    const size_t n = a.size();
    CM r(n, std::vector<cl>(n));
    for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k < n; ++k)
            if (a[i][k] != cl(0))
                for (size_t j = 0; j < n; ++j) r[i][j] += a[i][k] * b[k][j];
    return r;
}
ld norm(const CM &a)
{
    ld m = 0;
    for (auto &r : a) {
        ld s = 0;
        for (auto &x : r) s += std::abs(x);
        m = std::max(m, s);
    }
    return m;
}
// e^A in extended precision: Taylor series of A / 2^q with norm at most 1/2, squared q times.
CM reference(CM a)
{
    const size_t n = a.size();
    int q          = 0;
    while (std::ldexp(norm(a), -q) > 0.5L) ++q;
    for (auto &r : a)
        for (auto &x : r) x = cl(std::ldexp(x.real(), -q), std::ldexp(x.imag(), -q));
    CM sum(n, std::vector<cl>(n)), term = sum;
    for (size_t i = 0; i < n; ++i) sum[i][i] = term[i][i] = 1;
    for (int k = 1; k < 40; ++k) {
        term = mul(term, a);
        for (auto &r : term)
            for (auto &x : r) x /= static_cast<ld>(k);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) sum[i][j] += term[i][j];
    }
    for (int k = 0; k < q; ++k) sum = mul(sum, sum);
    return sum;
}
// How an error of the requested size (and rounding) at the scaled matrix grows over the squarings.
ld allowance(const CM &a, ld accuracy, ld eps, ld tiny)
{
    int s = 0;
    while (std::ldexp(norm(a), -s) > 1) ++s;
    CM scaled = a;
    for (auto &r : scaled)
        for (auto &x : r) x = cl(std::ldexp(x.real(), -s), std::ldexp(x.imag(), -s));
    CM e         = reference(scaled);
    const ld n   = static_cast<ld>(a.size());
    ld error     = norm(e) * (std::ldexp(accuracy, -s) + 4 * n * eps);
    for (int k = 0; k < s; ++k) {
        const ld m = norm(e);
        error      = 2 * m * error + error * error + n * eps * m * m + n * tiny;
        e          = mul(e, e);
    }
    return error;
}
template <typename T>
CM widen(const Tab<T> &t)
{
    CM m(t.r, std::vector<cl>(t.c));
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) m[i][j] = wide(t(i, j));
    return m;
}
} // namespace
