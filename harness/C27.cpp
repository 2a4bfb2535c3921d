// C27: generators.
#include "exact.hpp"
namespace
{
struct Tol {
    double old = malg::feq::tolerance();
    explicit Tol(double t) { malg::feq::tolerance() = t; }
    ~Tol() { malg::feq::tolerance() = old; }
};
const double ends[] = { 0, 1, -1, 2.5, 1e6, 1e6 + 0.5, -1e-9, 1e-9, 1e300, -7.75, 1 + 1e-7, 1e-300 };
const size_t counts[] = { 0, 1, 2, 3, 4, 7, 10, 50, 100, 257, 1000, 4097 };
constexpr size_t N_COUNTS = sizeof counts / sizeof *counts, N_ENDS = sizeof ends / sizeof *ends;

template <typename T>
void lin(mc::Ctx &c)
{
    const T a = static_cast<T>(c.pick(ends, "start")), b = static_cast<T>(c.pick(ends, "stop"));
    const unsigned k = c.choose(N_COUNTS + 1, "count");
    const double tol = c.flip("tolerance") ? 1e-3 : 1e-6;
    c.go();
    if (!(std::abs(a) < std::numeric_limits<T>::max() && std::abs(b) < std::numeric_limits<T>::max())) return;
    Tol keep(tol);
    const size_t n = k < N_COUNTS ? counts[k] : 100;
    const auto v   = k < N_COUNTS ? ut::linspace(a, b, static_cast<unsigned>(n)) : ut::linspace(a, b);
    static_assert(std::is_same_v<std::remove_const_t<decltype(v)>, Vector<T>>);
    if (v.size() != n) c.fail("linspace", "%zu points instead of %zu", v.size(), n);
    const ld A = static_cast<ld>(a), B = static_cast<ld>(b);
    const ld e = 6 * static_cast<ld>(std::numeric_limits<T>::epsilon()) * (std::abs(A) + std::abs(B)) + static_cast<ld>(n) * std::numeric_limits<T>::denorm_min();
    for (size_t i = 0; i < n; ++i) {
        const ld want = n == 1 ? B : A + (B - A) * static_cast<ld>(i) / static_cast<ld>(n - 1);
        if (!(std::abs(static_cast<ld>(v[i]) - want) <= e)) c.fail("linspace", "point %zu of %zu from %s to %s is %s instead of %.17Lg", i, n, str(a).c_str(), str(b).c_str(), str(v[i]).c_str(), want);
        if (v[i] < std::min(a, b) || v[i] > std::max(a, b)) c.fail("range", "point %zu of %zu from %s to %s leaves the range: %s", i, n, str(a).c_str(), str(b).c_str(), str(v[i]).c_str());
    }
    if (n && v[n - 1] != b) c.fail("end", "%zu points from %s to %s end at %s", n, str(a).c_str(), str(b).c_str(), str(v[n - 1]).c_str());
    if (n > 1 && v[0] != a) c.fail("start", "%zu points from %s to %s start at %s", n, str(a).c_str(), str(b).c_str(), str(v[0]).c_str());
    c.step();
    c.state(mc::mix(mc::mix(mc::hv(a), mc::hv(b)), k) + sizeof(T) + (tol > 1e-4));
}
template <typename T>
void lin_int(mc::Ctx &c)
{
    const int a = static_cast<int>(c.choose(13, "start")) - (std::is_unsigned_v<T> ? 0 : 6), b = static_cast<int>(c.choose(13, "stop")) - (std::is_unsigned_v<T> ? 0 : 6);
    const unsigned n = c.choose(16, "count");
    c.go();
    const auto v = ut::linspace(static_cast<T>(a), static_cast<T>(b), n);
    if (v.size() != n) c.fail("linspace", "%zu points instead of %u", v.size(), n);
    const bool whole = n > 1 && (b - a) % static_cast<int>(n - 1) == 0;
    for (size_t i = 0; i < n; ++i) {
        const long x = static_cast<long>(v[i]);
        if (n == 1 && x != b) c.fail("linspace", "one point from %d to %d is %ld", a, b, x);
        if (whole && x != a + (b - a) / static_cast<int>(n - 1) * static_cast<int>(i)) c.fail("linspace", "point %zu of %u from %d to %d is %ld", i, n, a, b, x);
        if (x < std::min(a, b) || x > std::max(a, b)) c.fail("linspace", "point %zu of %u from %d to %d leaves the range: %ld", i, n, a, b, x);
    }
    c.step();
    c.state(mc::mix(mc::mix(static_cast<unsigned>(a + 10), static_cast<unsigned>(b + 10)), n) + sizeof(T) + std::is_unsigned_v<T>);
}
template <typename T>
void logs(mc::Ctx &c)
{
    static const double ex[] = { 0, 1, -1, 2, -2.5, 3, 0.5, 2 + 1e-7, -6 };
    static const double bases[] = { 10, 2, 0.5, 2.718281828459045, 1 };
    const T a = static_cast<T>(c.pick(ex, "start")), b = static_cast<T>(c.pick(ex, "stop"));
    const unsigned k  = c.choose(N_COUNTS + 1, "count");
    const unsigned bi = k < N_COUNTS ? c.choose(6, "base") : 5; // 5: the default
    const double tol  = c.flip("tolerance") ? 1e-3 : 1e-6;
    c.go();
    Tol keep(tol);
    const size_t n = k < N_COUNTS ? counts[k] : 50;
    const T base   = bi < 5 ? static_cast<T>(bases[bi]) : T(10);
    const auto v   = k >= N_COUNTS ? ut::logspace(a, b) : bi < 5 ? ut::logspace(a, b, n, base) : ut::logspace(a, b, n);
    if (v.size() != n) c.fail("logspace", "%zu points instead of %zu", v.size(), n);
    for (size_t i = 0; i < n; ++i) {
        const ld x    = n == 1 ? static_cast<ld>(b) : static_cast<ld>(a) + (static_cast<ld>(b) - static_cast<ld>(a)) * static_cast<ld>(i) / static_cast<ld>(n - 1);
        const ld want = std::pow(static_cast<ld>(base), x);
        // The rounding of the exponent, magnified by the power.
        const bool end     = i == 0 || i + 1 == n; // the ends are the powers of the given exponents
        const ld roundings = end ? 4 : 8 + 6 * std::abs(std::log(static_cast<ld>(base))) * (std::abs(static_cast<ld>(a)) + std::abs(static_cast<ld>(b)));
        if (!(std::abs(static_cast<ld>(v[i]) - want) <= roundings * static_cast<ld>(std::numeric_limits<T>::epsilon()) * want))
            c.fail("logspace", "point %zu of %zu from %s^%s to ^%s is %s instead of %.17Lg", i, n, str(base).c_str(), str(a).c_str(), str(b).c_str(), str(v[i]).c_str(), want);
    }
    c.step();
    c.state(mc::mix(mc::mix(mc::hv(a), mc::hv(b)), mc::mix(k, bi)) + sizeof(T) + (tol > 1e-4));
}
void logs_int(mc::Ctx &c)
{
    const int a = static_cast<int>(c.choose(6, "start")), b = static_cast<int>(c.choose(6, "stop"));
    const unsigned n = c.choose(7, "count");
    const int base = 2 + static_cast<int>(c.choose(9, "base"));
    c.go();
    const auto v = ut::logspace(a, b, n, base);
    if (v.size() != n) c.fail("logspace", "%zu points instead of %u", v.size(), n);
    auto power = [&](int e) {
        long p = 1;
        while (e-- > 0) p *= base;
        return p;
    };
    const bool whole = n > 1 && (b - a) % static_cast<int>(n - 1) == 0;
    for (size_t i = 0; i < n; ++i) {
        if (!whole && n > 1) break;
        const long want = power(n == 1 ? b : a + (b - a) / static_cast<int>(n - 1) * static_cast<int>(i));
        if (v[i] != want) c.fail("logspace", "point %zu of %u from %d^%d to ^%d is %d", i, n, base, a, b, v[i]);
    }
    c.step();
    c.state(mc::mix(mc::mix(static_cast<unsigned>(a), static_cast<unsigned>(b)), n * 100 + static_cast<unsigned>(base)));
}
template <typename T>
Tab<T> on_diagonal(size_t r, size_t k, T v)
{
    Tab<T> t(r, k);
    for (size_t i = 0; i < std::min(r, k); ++i) t(i, i) = v;
    return t;
}
template <typename T>
void constants(mc::Ctx &c)
{
    static const size_t big[] = { 15, 16, 17, 63, 64, 65 };
    const unsigned hi = c.thorough ? 12 : 9;
    const unsigned ri = c.choose(hi + 6, "rows"), ki = c.choose(hi + 6, "cols");
    const unsigned vi = c.choose(4, "value");
    c.go();
    const size_t r = ri < hi ? ri : big[ri - hi], k = ki < hi ? ki : big[ki - hi];
    T v = T(static_cast<int>(vi) * 3 - 1);
    if constexpr (is_cx_v<T>) v = T(static_cast<realof<T>>(static_cast<int>(vi) - 1), static_cast<realof<T>>(vi));
    if (vi == 3) v = T(0);
    const bool empty = r == 0 || k == 0;
    auto matrix      = [&](const char *key, const Tab<T> &want, auto &&f) {
        Matrix<T> m;
        const bool rej = throws([&] {
            auto got = f();
            static_assert(std::is_same_v<decltype(got), Matrix<T>>);
            m = std::move(got);
        });
        if (rej != empty) c.fail(key, "%zux%zu is %s", r, k, rej ? "rejected" : "accepted");
        if (!rej) check_mat(c, key, m, want);
        c.step();
    };
    matrix("zeros", Tab<T>(r, k, T(0)), [&] { return ut::zeros<T>(r, k); });
    matrix("ones", Tab<T>(r, k, T(1)), [&] { return ut::ones<T>(r, k); });
    matrix("eye", on_diagonal<T>(r, k, v), [&] { return ut::eye<T>(r, k, v); });
    // The same under a constant element type.
    matrix("zeros", Tab<T>(r, k, T(0)), [&] { return ut::zeros<const T>(r, k); });
    matrix("ones", Tab<T>(r, k, T(1)), [&] { return ut::ones<const T>(r, k); });
    matrix("eye", on_diagonal<T>(r, k, v), [&] { return ut::eye<const T>(r, k, v); });
    if (r == k) {
        matrix("identity", on_diagonal<T>(r, r, v), [&] { return ut::identity<T>(r, v); });
        matrix("identity", on_diagonal<T>(r, r, T(1)), [&] { return ut::identity<T>(r); });
        Vector<T> z, o;
        const bool rz = throws([&] { z = ut::zeros<T>(r); }), ro = throws([&] { o = ut::ones<T>(r); });
        if (rz != empty || ro != empty) c.fail("vector", "size %zu is %s", r, rz || ro ? "rejected" : "accepted");
        if (!rz) check_vec(c, "zeros", z, std::vector<T>(r, T(0)));
        if (!ro) check_vec(c, "ones", o, std::vector<T>(r, T(1)));
        // Vector to diagonal and back.
        std::vector<T> d = labelled_vec<T>(r);
        if (r > 1) d[vi % r] = T(0);
        const Vector<T> D(mkvec(d));
        Tab<T> want(r, r);
        for (size_t i = 0; i < r; ++i) want(i, i) = d[i];
        check_mat(c, "diag", ut::diag(D), want);
        check_vec(c, "diag", ut::diag(ut::diag(D)), d);
        check_vec(c, "operand-changed", D, d);
        c.step(3);
    }
    c.state(mc::mix(mc::mix(r, k), vi) + sizeof(T) + std::is_integral_v<T>);
}
template <typename T>
void folds(mc::Ctx &c)
{
    static const int alpha[] = { 0, 1, -3 };
    const size_t n = c.choose(c.thorough ? 6 : 5, "length");
    std::vector<T> a(n), b(n);
    auto value = [](int x, int y) {
        if constexpr (is_cx_v<T>) return T(static_cast<realof<T>>(x), static_cast<realof<T>>(y));
        else return (void)y, static_cast<T>(x);
    };
    for (auto &x : a) {
        const int k = c.pick(alpha, "first");
        x           = value(k, 1 - k);
    }
    for (auto &x : b) {
        const int k = c.pick(alpha, "second");
        x           = value(k + 1, k);
    }
    const T init = value(static_cast<int>(c.choose(3, "init")) * 4 - 4, 2);
    c.go();
    Vector<T> A(mkvec(a)), B(mkvec(b));
    T sum = init, inner = init;
    for (size_t i = 0; i < n; ++i) sum += a[i], inner += a[i] * b[i];
    const T s = ut::accumulate(A.begin(), A.end(), init), p = ut::inner_product(A.begin(), A.end(), B.begin(), init);
    if (!same<T>(s, sum)) c.fail("accumulate", "%s of %s from %s", str(s).c_str(), show(a).c_str(), str(init).c_str());
    if (!same<T>(p, inner)) c.fail("inner_product", "%s of %s and %s from %s", str(p).c_str(), show(a).c_str(), show(b).c_str(), str(init).c_str());
    // Partial ranges and a matrix as the source.
    for (size_t from = 0; from <= n; ++from)
        for (size_t to = from; to <= n; ++to) {
            T ps = init, pp = init;
            for (size_t i = from; i < to; ++i) ps += a[i], pp += a[i] * b[i - from];
            if (!same<T>(ut::accumulate(A.begin() + from, A.begin() + to, init), ps)) c.fail("accumulate", "part %zu..%zu of %s", from, to, show(a).c_str());
            if (!same<T>(ut::inner_product(A.begin() + from, A.begin() + to, B.begin(), init), pp)) c.fail("inner_product", "part %zu..%zu of %s", from, to, show(a).c_str());
        }
    Tab<T> t(1, n);
    t.v = a;
    if (n) {
        Matrix<T> M(mat(t));
        if (!same<T>(ut::accumulate(M.begin(), M.end(), init), sum)) c.fail("accumulate", "matrix %s", show(t).c_str());
    }
    check_vec(c, "operand-changed", A, a);
    check_vec(c, "operand-changed", B, b);
    c.step(3);
    c.state(mc::mix(mc::mix(column(a).hash(), column(b).hash()), mc::hv(init)) + sizeof(T) + std::is_integral_v<T>);
}
// Factorials of floating type far past the whole-number types, to the rounding of the product.
template <typename T>
void factorial_float(mc::Ctx &c)
{
    const unsigned n = c.choose(c.thorough ? 171 : 101, "n");
    c.go();
    ld want = 1;
    for (unsigned i = 2; i <= n; ++i) want *= i;
    const T got = la::factorial(static_cast<T>(n));
    if (want > static_cast<ld>(std::numeric_limits<T>::max())) {
        if (!(got > std::numeric_limits<T>::max())) c.fail("factorial", "%u! is %s, past the range of the type", n, str(got).c_str());
    } else if (!(std::abs(static_cast<ld>(got) - want) <= static_cast<ld>(n + 2) * static_cast<ld>(std::numeric_limits<T>::epsilon()) * want))
        c.fail("factorial", "%u! is %s instead of %.17Lg", n, str(got).c_str(), want);
    c.step();
    c.state(n * 32 + sizeof(T));
}
// Whole numbers: factorial and the base of the number representation.
void scalars(mc::Ctx &c)
{
    const int n = static_cast<int>(c.choose(24, "n")) - 3;
    c.go();
    unsigned long long f = 1;
    for (int i = 2; i <= n; ++i) f *= static_cast<unsigned long long>(i);
    if (n <= 12 && la::factorial<int>(n) != static_cast<int>(f)) c.fail("factorial", "%d! is %d", n, la::factorial<int>(n));
    if (la::factorial<long>(n) != static_cast<long>(f)) c.fail("factorial", "%d! is %ld", n, la::factorial<long>(n));
    if (n >= 0 && la::factorial<unsigned long>(static_cast<unsigned long>(n)) != f) c.fail("factorial", "%d! (unsigned)", n);
    if (la::factorial<double>(n) != static_cast<double>(f) && n <= 18) c.fail("factorial", "%d! is %g", n, la::factorial<double>(n));
    if (ut::basis<double>() != 2 || ut::basis<float>() != 2) c.fail("basis", "%d %d", ut::basis<double>(), ut::basis<float>());
    c.step(4);
    c.state(static_cast<unsigned>(n + 3));
}
} // namespace
MC(linear)
{
    switch (c.choose(3, "type")) {
    case 0: return lin<double>(c);
    case 1: return lin<float>(c);
    case 2: return lin<long double>(c);
    }
}
MC(linear_int)
{
    switch (c.choose(4, "type")) {
    case 0: return lin_int<int>(c);
    case 1: return lin_int<unsigned>(c);
    case 2: return lin_int<long>(c);
    case 3: return lin_int<short>(c);
    }
}
MC(logarithmic)
{
    switch (c.choose(3, "type")) {
    case 2: return logs<ld>(c);
    case 0: return logs<double>(c);
    case 1: return logs<float>(c);
    }
}
MC(logarithmic_int) { logs_int(c); }
MC(constants)
{
    switch (c.choose(8, "type")) {
    case 5: return constants<long>(c);
    case 6: return constants<ld>(c);
    case 7: return constants<cl>(c);
    case 0: return constants<double>(c);
    case 1: return constants<int>(c);
    case 2: return constants<cd>(c);
    case 3: return constants<float>(c);
    case 4: return constants<cf>(c);
    }
}
MC(folds)
{
    switch (c.choose(3, "type")) {
    case 0: return folds<double>(c);
    case 1: return folds<int>(c);
    case 2: return folds<cd>(c);
    }
}
MC(factorials)
{
    switch (c.choose(3, "type")) {
    case 0: return factorial_float<double>(c);
    case 1: return factorial_float<float>(c);
    case 2: return factorial_float<ld>(c);
    }
}
MC(scalars) { scalars(c); }
