// C04: element-wise arithmetic (shared by the translation units of the check).
#pragma once
#include "common.hpp"

template <typename T>
using realof = typename is_cx<std::remove_const_t<T>>::real;
template <typename A, typename B>
struct common_of {
    using R    = std::common_type_t<realof<A>, realof<B>>;
    using type = std::conditional_t<is_cx_v<A> || is_cx_v<B>, std::complex<R>, R>;
};
template <typename A, typename B>
using common_t = typename common_of<A, B>::type;

template <typename R, typename X>
inline R widen(const X &x)
{
    if constexpr (is_cx_v<R> && is_cx_v<X>) return R(static_cast<realof<R>>(x.real()), static_cast<realof<R>>(x.imag()));
    else if constexpr (is_cx_v<R>) return R(static_cast<realof<R>>(x), 0);
    else return static_cast<R>(x);
}
enum Op { ADD, SUB, MUL, DIV };
// The scalar operation in the common type (by components for complex numbers).
template <typename R>
inline R scalar(int op, const R &x, const R &y)
{
    if constexpr (is_cx_v<R>) {
        using S = realof<R>;
        S a = x.real(), b = x.imag(), p = y.real(), q = y.imag();
        switch (op) {
        case ADD: return R(a + p, b + q);
        case SUB: return R(a - p, b - q);
        case MUL: return R(a * p - b * q, a * q + b * p);
        default: {
            ld d = ld(p) * p + ld(q) * q;
            return R(static_cast<S>((ld(a) * p + ld(b) * q) / d), static_cast<S>((ld(b) * p - ld(a) * q) / d));
        }
        }
    } else {
        switch (op) {
        case ADD: return x + y;
        case SUB: return x - y;
        case MUL: return x * y;
        default: return x / y;
        }
    }
}
template <typename T>
inline bool near_eq(const T &a, const T &b)
{
    if constexpr (is_cx_v<T>) {
        if (same(a, b)) return true;
        auto eps = std::numeric_limits<realof<T>>::epsilon();
        return std::abs(a - b) <= 16 * eps * std::abs(b);
    } else if constexpr (std::is_floating_point_v<T>) {
        return same(a, b) || std::abs(a - b) <= 4 * std::numeric_limits<T>::epsilon() * std::abs(b);
    } else {
        return a == b;
    }
}
// Exact comparison, or to rounding for division and complex products.
template <typename T, typename M>
inline void expect_mat(mc::Ctx &c, const char *key, const char *what, const M &got, const Tab<T> &t, bool rounding)
{
    static_assert(std::is_same_v<std::remove_const_t<typename M::value_type>, T>, "common element type");
    if (got.rows() != t.r || got.cols() != t.c) c.fail(key, "%s: result %zux%zu, expected %zux%zu", what, got.rows(), got.cols(), t.r, t.c);
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) {
            const T x = got(i, j);
            if (rounding ? !near_eq<T>(x, t(i, j)) : !same<T>(x, t(i, j))) c.fail(key, "%s: element (%zu,%zu) is %s, expected %s", what, i, j, str(x).c_str(), str<T>(t(i, j)).c_str());
        }
}
template <typename T, typename V>
inline void expect_vec(mc::Ctx &c, const char *key, const char *what, const V &got, const std::vector<T> &t, bool rounding)
{
    static_assert(std::is_same_v<typename V::value_type, T>, "common element type");
    if (got.size() != t.size()) c.fail(key, "%s: size %zu, expected %zu", what, got.size(), t.size());
    for (size_t i = 0; i < t.size(); ++i)
        if (rounding ? !near_eq<T>(got[i], t[i]) : !same<T>(got[i], t[i])) c.fail(key, "%s: element %zu is %s, expected %s", what, i, str(T(got[i])).c_str(), str<T>(t[i]).c_str());
}

// Values chosen so that a narrowing of either operand shows up.
template <typename T>
inline T alpha(size_t k)
{
    if constexpr (is_cx_v<T>) {
        using R = realof<T>;
        return T(alpha<R>(k), alpha<R>(k + 2 + k / 4));
    } else if constexpr (std::is_same_v<T, double>) {
        static const double a[] = { 0.0, 1.5, -2.25, 1.0 + 1.0 / (1ll << 40), -123456789.0625, 1e200, -0.0, 3e-200 };
        return a[k % 8];
    } else if constexpr (std::is_same_v<T, float>) {
        static const float a[] = { 0.0f, 1.5f, -2.25f, 1.0f + 1.0f / (1 << 20), -12345.0625f, 1e20f, 7.0f, -1e-10f };
        return a[k % 8];
    } else if constexpr (std::is_same_v<T, ld>) {
        static const ld a[] = { 0.0L, 1.5L, -2.25L, 1.0L + 0x1p-60L, -123456789.0625L - 0x1p-35L, 1e4000L, -0.0L, 3e-4000L };
        return a[k % 8];
    } else if constexpr (std::is_same_v<T, long>) {
        static const long a[] = { 0, 1, -2, 7, 3037000493, -2147483653, 3, -9007199254740993 };
        return a[k % 8];
    } else {
        static const int a[] = { 0, 1, -2, 7, -13, 16385, 3, -32769 };
        return static_cast<T>(a[k % 8]);
    }
}
inline constexpr size_t ALPHA = 8;
// Division and int products stay inside the representable range.
template <typename T>
inline bool is_zero_value(const T &x) { return x == T(0); }

// Whether the values of the result can be converted to the element type of the left operand.
template <typename T1, typename R>
inline bool converts(const R &y)
{
    if constexpr (std::is_integral_v<T1> && !std::is_integral_v<R>) return std::abs(y) < 1e9L;
    else if constexpr (!std::is_integral_v<realof<T1>> && sizeof(realof<T1>) < sizeof(realof<R>)) return std::abs(y) < 1e30L;
    else if constexpr (std::is_integral_v<T1> && std::is_integral_v<R>) return y <= std::numeric_limits<T1>::max() && y >= std::numeric_limits<T1>::lowest();
    else return true;
}
template <typename T1, typename R>
inline bool all_convert(const std::vector<R> &v)
{
    for (auto &y : v)
        if (!converts<T1>(y)) return false;
    return true;
}
template <typename T1, typename T2>
inline bool representable(int o, const T1 &x, const T2 &y)
{
    using R = common_t<T1, T2>;
    if (o == DIV && std::is_integral_v<R> && is_zero_value(y)) return false;
    if constexpr (is_cx_v<R>) {
        // Division by zero and overflow of complex numbers have no portable value.
        if (o == DIV && is_zero_value(y)) return false;
        if (o >= MUL && (std::abs(x) > 1e15 || std::abs(y) > 1e15 || (std::abs(y) > 0 && std::abs(y) < 1e-15) || (std::abs(x) > 0 && std::abs(x) < 1e-15))) return false;
    }
    if constexpr (std::is_integral_v<R>) {
        const __int128 p = x, q = y, v = o == ADD ? p + q : o == SUB ? p - q : o == MUL ? p * q : 0;
        if (v > std::numeric_limits<R>::max() || v < std::numeric_limits<R>::lowest()) return false;
    }
    return true;
}

template <typename T>
inline ld ulp()
{
    if constexpr (std::is_integral_v<realof<T>>) return 0;
    else return std::numeric_limits<realof<T>>::epsilon();
}
template <typename T1, typename T2>
inline void matrix_matrix(mc::Ctx &c)
{
    using R        = common_t<T1, T2>;
    const int hi   = c.thorough ? 6 : 4;
    const size_t r = static_cast<size_t>(c.range(0, hi, "rows")), k = static_cast<size_t>(c.range(0, hi, "cols"));
    const int ka = static_cast<int>(c.choose(K_COUNT, "left kind")), kb = static_cast<int>(c.choose(K_COUNT, "right kind"));
    const size_t salt = c.choose(static_cast<unsigned>(ALPHA), "content");
    c.go();
    Tab<T1> a(r, k);
    Tab<T2> b(r, k);
    for (size_t i = 0; i < r * k; ++i) a.v[i] = alpha<T1>(i + salt), b.v[i] = alpha<T2>(3 * i + 2 * salt + 1);
    for (size_t i = 0; i < r * k; ++i)
        if (std::is_integral_v<R> && !representable(MUL, a.v[i], b.v[i])) b.v[i] = T2(3);
    Tab<R> e[3], lc(r, k);
    for (int o = 0; o < 3; ++o) {
        e[o] = Tab<R>(r, k);
        for (size_t i = 0; i < r * k; ++i) e[o].v[i] = scalar<R>(o, widen<R>(a.v[i]), widen<R>(b.v[i]));
    }
    for (size_t i = 0; i < r * k; ++i) lc.v[i] = scalar<R>(ADD, scalar<R>(MUL, widen<R>(a.v[i]), widen<R>(2)), scalar<R>(MUL, widen<R>(b.v[i]), widen<R>(-3)));
    const bool cx = is_cx_v<R>;
    c.note("%s (%s) op %s (%s)", show(a).c_str(), kname(ka), show(b).c_str(), kname(kb));
    with_const(c, "left-changed", ka, a, [&](const auto &A) {
        with_const(c, "right-changed", kb, b, [&](const auto &B) {
            expect_mat(c, "matrix-matrix", "A + B", A + B, e[ADD], false);
            expect_mat(c, "matrix-matrix", "A - B", A - B, e[SUB], false);
            expect_mat(c, "matrix-matrix", "element_wise_product(A, B)", malg::element_wise_product(A, B), e[MUL], cx);
            // Each product may be rounded in the type of its own operand.
            const auto L = malg::linear_combination(A, T1(2), B, T2(-3));
            static_assert(std::is_same_v<std::remove_const_t<typename std::decay_t<decltype(L)>::value_type>, R>, "common element type");
            if (L.rows() != r || L.cols() != k) c.fail("matrix-matrix", "linear_combination(A, 2, B, -3): result %zux%zu", L.rows(), L.cols());
            for (size_t i = 0; i < r * k; ++i) {
                const R x = L[i], y = lc.v[i];
                bool ok = same<R>(x, y);
                if constexpr (!std::is_integral_v<realof<R>>) {
                    const ld bound = 8 * std::max(ulp<T1>(), ulp<T2>()) * (2 * std::abs(widen<cl>(a.v[i])) + 3 * std::abs(widen<cl>(b.v[i])));
                    ok             = ok || std::abs(widen<cl>(x) - widen<cl>(y)) <= bound;
                }
                if (!ok) c.fail("matrix-matrix", "linear_combination(A, 2, B, -3): element %zu is %s, expected %s", i, str(x).c_str(), str(y).c_str());
            }
            c.step(4);
        });
    });
    // In-place forms.
    if constexpr (is_cx_v<T1> || !is_cx_v<T2>) {
        if (ka < K_MUTABLE) {
            for (int o = 0; o < 2; ++o) {
                if (!all_convert<T1>(e[o].v)) continue;
                Tab<T1> after(r, k);
                for (size_t i = 0; i < r * k; ++i) after.v[i] = widen<T1>(e[o].v[i]);
                with_mutable(c, "in-place", ka, a, after, [&](auto &A) {
                    with_const(c, "right-changed", kb, b, [&](const auto &B) {
                        auto &res = o == 0 ? (A += B) : (A -= B);
                        if (&res != &A) c.fail("in-place", "does not return its left operand");
                    });
                });
                c.step();
            }
        }
    }
    c.state(mc::mix(mc::mix(a.hash(), b.hash()), mc::mix(static_cast<unsigned>(ka), static_cast<unsigned>(kb)) + sizeof(T1) * 100 + sizeof(T2)));
}


template <typename T1, typename T2>
inline void matrix_scalar(mc::Ctx &c)
{
    using R        = common_t<T1, T2>;
    const int hi   = c.thorough ? 5 : 3;
    const size_t r = static_cast<size_t>(c.range(0, hi, "rows")), k = static_cast<size_t>(c.range(0, hi, "cols"));
    const int ka   = static_cast<int>(c.choose(K_COUNT, "kind"));
    const size_t salt = c.choose(static_cast<unsigned>(ALPHA), "content");
    const size_t sb   = c.choose(static_cast<unsigned>(ALPHA), "scalar");
    const int o       = static_cast<int>(c.choose(4, "op"));
    c.go();
    Tab<T1> a(r, k);
    const T2 b = alpha<T2>(sb);
    Tab<R> e(r, k);
    for (size_t i = 0; i < r * k; ++i) {
        a.v[i] = alpha<T1>(i + salt);
        if (!representable(o, a.v[i], b)) a.v[i] = T1(3);
        if (!representable(o, a.v[i], b)) return;
        e.v[i] = scalar<R>(o, widen<R>(a.v[i]), widen<R>(b));
    }
    if (!representable(o, T1(1), b)) return;
    const bool round = o == DIV || (is_cx_v<R> && o == MUL);
    c.note("%s (%s) op%d %s", show(a).c_str(), kname(ka), o, str(b).c_str());
    with_const(c, "matrix-changed", ka, a, [&](const auto &A) {
        switch (o) {
        case ADD: expect_mat(c, "matrix-scalar", "A + b", A + b, e, false); break;
        case SUB: expect_mat(c, "matrix-scalar", "A - b", A - b, e, false); break;
        case MUL:
            expect_mat(c, "matrix-scalar", "A * b", A * b, e, round);
            expect_mat(c, "matrix-scalar", "b * A", b * A, e, round);
            break;
        case DIV: expect_mat(c, "matrix-scalar", "A / b", A / b, e, round); break;
        }
        c.step();
    });
    if constexpr (is_cx_v<T1> || !is_cx_v<T2>) {
        if (all_convert<T1>(e.v) && ka < K_MUTABLE) {
            Tab<T1> after(r, k);
            for (size_t i = 0; i < r * k; ++i) after.v[i] = widen<T1>(e.v[i]);
            Tab<T1> got(r, k);
            // The window is read back before with_mutable compares, so that rounding is tolerated.
            with_operand(c, "in-place", ka, a, &got, [&](auto &A) {
                if constexpr (!std::is_const_v<typename std::remove_reference_t<decltype(A)>::value_type>) {
                    switch (o) {
                    case ADD: A += b; break;
                    case SUB: A -= b; break;
                    case MUL: A *= b; break;
                    case DIV: A /= b; break;
                    }
                    expect_mat(c, "in-place", "A op= b", A, after, round);
                    got = tab(A);
                }
            });
            c.step();
        }
    }
    c.state(mc::mix(mc::mix(a.hash(), mc::hv(b)), mc::mix(static_cast<unsigned>(ka), static_cast<unsigned>(o)) + sizeof(T1) * 100 + sizeof(T2)));
}

template <typename T1, typename T2>
inline void vectors(mc::Ctx &c)
{
    using R        = common_t<T1, T2>;
    const size_t n = static_cast<size_t>(c.range(0, 5, "n"));
    const size_t salt = c.choose(static_cast<unsigned>(ALPHA), "content"), sb = c.choose(static_cast<unsigned>(ALPHA), "second");
    const int o       = static_cast<int>(c.choose(4, "op"));
    c.go();
    std::vector<T1> a(n);
    std::vector<T2> b(n);
    const T2 s = alpha<T2>(sb);
    std::vector<R> e(n), es(n);
    for (size_t i = 0; i < n; ++i) {
        a[i] = alpha<T1>(i + salt), b[i] = alpha<T2>(3 * i + sb);
        if (!representable(o, a[i], b[i])) b[i] = T2(2);
        if (!representable(o, a[i], s)) return;
        if (!representable(o, a[i], b[i])) return;
        e[i]  = scalar<R>(o, widen<R>(a[i]), widen<R>(b[i]));
        es[i] = scalar<R>(o, widen<R>(a[i]), widen<R>(s));
    }
    if (!representable(o, T1(1), s)) return;
    const bool round = o == DIV || (is_cx_v<R> && o == MUL);
    const Vector<T1> A(mkvec(a));
    const Vector<T2> B(mkvec(b));
    c.note("%s op%d %s", show(a).c_str(), o, show(b).c_str());
    switch (o) {
    case ADD: expect_vec(c, "vector-vector", "a + b", A + B, e, false), expect_vec(c, "vector-scalar", "a + s", A + s, es, false); break;
    case SUB: expect_vec(c, "vector-vector", "a - b", A - B, e, false), expect_vec(c, "vector-scalar", "a - s", A - s, es, false); break;
    case MUL:
        expect_vec(c, "vector-vector", "a * b", A * B, e, round), expect_vec(c, "vector-scalar", "a * s", A * s, es, round);
        if constexpr (std::is_arithmetic_v<T2>) expect_vec(c, "vector-scalar", "s * a", s * A, es, round);
        break;
    case DIV: expect_vec(c, "vector-scalar", "a / s", A / s, es, round); break;
    }
    check_vec(c, "left-changed", A, a);
    check_vec(c, "right-changed", B, b);
    c.step(2);
    if constexpr (is_cx_v<T1> || !is_cx_v<T2>) {
        auto fits = [&](const std::vector<R> &x) { return all_convert<T1>(x); };
        auto narrow = [&](const std::vector<R> &x) {
            std::vector<T1> y;
            for (auto &z : x) y.push_back(widen<T1>(z));
            return y;
        };
        if (fits(e) && o < MUL) {
            Vector<T1> X(A);
            switch (o) {
            case ADD: X += B; break;
            case SUB: X -= B; break;
            }
            expect_vec(c, "vector-in-place", "a op= b", X, narrow(e), round);
            check_vec(c, "right-changed", B, b);
            c.step();
        }
        if (fits(es)) {
            Vector<T1> X(A);
            switch (o) {
            case ADD: X += s; break;
            case SUB: X -= s; break;
            case MUL: X *= s; break;
            case DIV: X /= s; break;
            }
            expect_vec(c, "vector-in-place", "a op= s", X, narrow(es), round);
            c.step();
        }
    }
    std::uint64_t h = mc::mix(static_cast<unsigned>(o), n);
    for (auto &x : a) h = mc::mix(h, mc::hv(x));
    for (auto &x : b) h = mc::mix(h, mc::hv(x));
    c.state(mc::mix(h, mc::hv(s)) + sizeof(T1) * 100 + sizeof(T2));
}
