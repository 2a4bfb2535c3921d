#include "C04.hpp"
MC(vectors)
{
    switch (c.choose(12, "types")) {
    case 0: return vectors<double, double>(c);
    case 1: return vectors<int, int>(c);
    case 2: return vectors<int, double>(c);
    case 3: return vectors<double, int>(c);
    case 4: return vectors<float, double>(c);
    case 5: return vectors<cd, cd>(c);
    case 6: return vectors<cd, double>(c);
    case 7: return vectors<cf, cd>(c);
    case 8: return vectors<long, long>(c);
    case 9: return vectors<ld, ld>(c);
    case 10: return vectors<double, ld>(c);
    case 11: return vectors<int, long>(c);
    }
}
// Element-wise mappings.
namespace
{
// Equal to rounding in the real type of the elements.
template <typename T>
bool near_mapped(const cl &a, const cl &b)
{
    if constexpr (std::is_integral_v<T>) return a == b;
    else return same(a, b) || std::abs(a - b) <= 16 * ld(std::numeric_limits<realof<T>>::epsilon()) * std::abs(b);
}
template <typename T>
void mappings(mc::Ctx &c)
{
    const size_t r = static_cast<size_t>(c.range(0, 4, "rows")), k = static_cast<size_t>(c.range(0, 4, "cols"));
    const int ka      = static_cast<int>(c.choose(K_COUNT, "kind"));
    const size_t salt = c.choose(static_cast<unsigned>(ALPHA), "content");
    c.go();
    Tab<T> a(r, k);
    for (size_t i = 0; i < r * k; ++i) a.v[i] = alpha<T>(i + salt);
    auto map = [&](auto f) {
        using R = decltype(f(T()));
        Tab<R> t(r, k);
        for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = f(a.v[i]);
        return t;
    };
    auto eq = [&](const char *what, const auto &got, const auto &t, bool round) {
        if (got.rows() != t.r || got.cols() != t.c) c.fail("mapping", "%s: shape", what);
        for (size_t i = 0; i < t.r; ++i)
            for (size_t j = 0; j < t.c; ++j) {
                cl x = widen<cl>(std::remove_const_t<typename std::decay_t<decltype(got)>::value_type>(got(i, j))), y = widen<cl>(t(i, j));
                if (round ? !near_mapped<T>(x, y) : !same(x, y)) c.fail("mapping", "%s: element (%zu,%zu) of %s is %s, expected %s", what, i, j, show(a).c_str(), str(x).c_str(), str(y).c_str());
            }
    };
    auto absf  = [](T x) { if constexpr (is_cx_v<T>) return std::hypot(x.real(), x.imag()); else return x < T(0) ? T(-x) : T(x == T(0) ? T(0) : x); };
    auto signf = [](T x) {
        if constexpr (is_cx_v<T>) return T(x.real() > 0 ? 1 : -1, x.imag() > 0 ? 1 : -1);
        else return x > T(0) ? 1 : -1;
    };
    // A user function of the same type, a narrowing-prone one and one to another type.
    auto twice = [](const T &x) { return x + x; };
    auto half  = [](const T &x) { if constexpr (is_cx_v<T>) return x; else return static_cast<double>(x) / 4.0; };
    with_const(c, "operand-changed", ka, a, [&](const auto &A) {
        eq("abs", malg::abs(A), map(absf), true);
        eq("sign", malg::sign(A), map(signf), false);
        eq("element_wise_function(twice)", malg::element_wise_function(A, twice), map(twice), false);
        eq("element_wise_function(quarter)", malg::element_wise_function(A, half), map(half), false);
        int calls = 0;
        malg::element_wise_function(A, [&](const T &x) { ++calls; return x; });
        if (calls != static_cast<int>(r * k)) c.fail("mapping", "the function is called %d times for %zu elements", calls, r * k);
        eq("element_wise_binary_function", malg::element_wise_binary_function(A, A, [](const T &x, const T &y) { return x - y - y; }), map([](const T &x) { return T(x - x - x); }), false);
        if constexpr (is_cx_v<T>) {
            if constexpr (!std::is_const_v<typename std::decay_t<decltype(A)>::value_type>) {
                eq("real", malg::real(A), map([](const T &x) { return T(x.real(), 0); }), false);
                eq("imag", malg::imag(A), map([](const T &x) { return T(x.imag(), 0); }), false);
            }
        }
        c.step(6);
    });
    if (ka == 0) {
        const Vector<T> v(mkvec(a.v));
        auto eqv = [&](const char *what, const auto &got, const auto &t, bool round) {
            if (got.size() != t.v.size()) c.fail("mapping", "%s: size", what);
            for (size_t i = 0; i < got.size(); ++i) {
                cl x = widen<cl>(got[i]), y = widen<cl>(t.v[i]);
                if (round ? !near_mapped<T>(x, y) : !same(x, y)) c.fail("mapping", "%s: element %zu is %s, expected %s", what, i, str(x).c_str(), str(y).c_str());
            }
        };
        eqv("abs", malg::abs(v), map(absf), true);
        eqv("sign", malg::sign(v), map(signf), false);
        eqv("element_wise_function", malg::element_wise_function(v, twice), map(twice), false);
        eqv("element_wise_function(quarter)", malg::element_wise_function(v, half), map(half), false);
        eqv("element_wise_binary_function", malg::element_wise_binary_function(v, v, [](const T &x, const T &y) { return x - y - y; }), map([](const T &x) { return T(x - x - x); }), false);
        if constexpr (is_cx_v<T>) {
            eqv("real", malg::real(v), map([](const T &x) { return T(x.real(), 0); }), false);
            eqv("imag", malg::imag(v), map([](const T &x) { return T(x.imag(), 0); }), false);
        }
        check_vec(c, "operand-changed", v, a.v);
    }
    c.state(mc::mix(a.hash(), static_cast<unsigned>(ka) * 10 + sizeof(T)));
}
// The operands of an in-place operation may be the same object, or an element of it.
template <typename T>
void aliasing(mc::Ctx &c)
{
    const size_t r = static_cast<size_t>(c.range(1, 4, "rows")), k = static_cast<size_t>(c.range(1, 4, "cols"));
    const int ka   = static_cast<int>(c.choose(K_MUTABLE, "kind"));
    const int what = static_cast<int>(c.choose(7, "operation"));
    const size_t p = c.choose(static_cast<unsigned>(r * k), "element");
    c.go();
    Tab<T> a(r, k), e(r, k), got(r, k);
    for (size_t i = 0; i < r * k; ++i) a.v[i] = label<T>(i, i % 3, static_cast<int>(what));
    const T s = a.v[p];
    for (size_t i = 0; i < r * k; ++i) {
        T x = a.v[i];
        switch (what) {
        case 0: e.v[i] = scalar<T>(ADD, x, x); break;
        case 1: e.v[i] = scalar<T>(SUB, x, x); break;
        case 2: e.v[i] = scalar<T>(ADD, x, s); break;
        case 3: e.v[i] = scalar<T>(SUB, x, s); break;
        case 4: e.v[i] = scalar<T>(MUL, x, s); break;
        case 5: e.v[i] = scalar<T>(DIV, x, s); break;
        case 6: e.v[i] = scalar<T>(ADD, x, scalar<T>(MUL, x, T(2))); break;
        }
    }
    with_operand(c, "aliasing", ka, a, &got, [&](auto &A) {
        if constexpr (!std::is_const_v<typename std::remove_reference_t<decltype(A)>::value_type>) {
            switch (what) {
            case 0: A += A; break;
            case 1: A -= A; break;
            case 2: A += A[p]; break;
            case 3: A -= A(p / k, p % k); break;
            case 4: A *= A[p]; break;
            case 5: A /= A(p / k, p % k); break;
            case 6: A += A * T(2); break;
            }
            expect_mat(c, "aliasing", "in-place operation with an aliased operand", A, e, what >= 4);
            got = tab(A);
        }
    });
    if (ka == 0) {
        Vector<T> v(mkvec(a.v));
        switch (what) {
        case 0: v += v; break;
        case 1: v -= v; break;
        case 2: v += v[p]; break;
        case 3: v -= v[p]; break;
        case 4: v *= v[p]; break;
        case 5: v /= v[p]; break;
        case 6: v += v * T(2); break;
        }
        expect_vec(c, "aliasing", "in-place vector operation with an aliased operand", v, e.v, what >= 4);
    }
    c.step();
    c.state(mc::mix(a.hash(), static_cast<unsigned>(ka * 100 + what) + p * 1000));
}
} // namespace
MC(mappings)
{
    switch (c.choose(7, "type")) {
    case 0: return mappings<double>(c);
    case 1: return mappings<int>(c);
    case 2: return mappings<cd>(c);
    case 3: return mappings<float>(c);
    case 4: return mappings<long>(c);
    case 5: return mappings<ld>(c);
    case 6: return mappings<cl>(c);
    }
}
MC(aliasing)
{
    switch (c.choose(4, "type")) {
    case 0: return aliasing<double>(c);
    case 1: return aliasing<int>(c);
    case 2: return aliasing<cd>(c);
    case 3: return aliasing<ld>(c);
    }
}
MC(long_operands)
{
    const Shape s      = long_shape(c);
    const unsigned ty  = c.choose(4, "type");
    c.go();
    auto run = [&](auto zero) {
        using T = decltype(zero);
        const size_t n = s.r * s.k;
        Tab<T> a = labelled<T>(s.r, s.k), b = labelled<T>(s.r, s.k, 7);
        auto map = [&](auto f) {
            Tab<T> e(s.r, s.k);
            for (size_t i = 0; i < n; ++i) e.v[i] = f(a.v[i], b.v[i]);
            return e;
        };
        const auto sum = map([](T x, T y) { return static_cast<T>(x + y); }), dif = map([](T x, T y) { return static_cast<T>(x - y); }), pro = map([](T x, T y) { return static_cast<T>(x * y); });
        const T k      = T(3);
        const auto sk = map([&](T x, T) { return static_cast<T>(x + k); }), dk = map([&](T x, T) { return static_cast<T>(x - k); }), pk = map([&](T x, T) { return static_cast<T>(x * k); }), qk = map([&](T x, T) { return static_cast<T>(x / k); });
        Matrix<T> A(mat(a)), X(A);
        const Matrix<T> B(mat(b));
        expect_mat(c, "long", "A + B", A + B, sum, false);
        expect_mat(c, "long", "A - B", A - B, dif, false);
        expect_mat(c, "long", "product", malg::element_wise_product(A, B), pro, true);
        expect_mat(c, "long", "A + k", A + k, sk, false);
        expect_mat(c, "long", "A - k", A - k, dk, false);
        expect_mat(c, "long", "A * k", A * k, pk, true);
        expect_mat(c, "long", "k * A", k * A, pk, true);
        expect_mat(c, "long", "A / k", A / k, qk, true);
        X = A, X += B, expect_mat(c, "long", "A += B", X, sum, false);
        X = A, X -= B, expect_mat(c, "long", "A -= B", X, dif, false);
        X = A, X += k, expect_mat(c, "long", "A += k", X, sk, false);
        X = A, X -= k, expect_mat(c, "long", "A -= k", X, dk, false);
        X = A, X *= k, expect_mat(c, "long", "A *= k", X, pk, true);
        X = A, X /= k, expect_mat(c, "long", "A /= k", X, qk, true);
        Vector<T> va(mkvec(a.v)), vx(va);
        const Vector<T> vb(mkvec(b.v));
        expect_vec(c, "long", "a + b", va + vb, sum.v, false);
        expect_vec(c, "long", "a - b", va - vb, dif.v, false);
        expect_vec(c, "long", "a * b", va * vb, pro.v, true);
        expect_vec(c, "long", "a + k", va + k, sk.v, false);
        expect_vec(c, "long", "a - k", va - k, dk.v, false);
        expect_vec(c, "long", "a * k", va * k, pk.v, true);
        expect_vec(c, "long", "a / k", va / k, qk.v, true);
        vx = va, vx += vb, expect_vec(c, "long", "a += b", vx, sum.v, false);
        vx = va, vx -= vb, expect_vec(c, "long", "a -= b", vx, dif.v, false);
        vx = va, vx += k, expect_vec(c, "long", "a += k", vx, sk.v, false);
        vx = va, vx *= k, expect_vec(c, "long", "a *= k", vx, pk.v, true);
        vx = va, vx /= k, expect_vec(c, "long", "a /= k", vx, qk.v, true);
        check_mat(c, "operand-changed", A, a);
        check_mat(c, "operand-changed", B, b);
        c.step(28);
        c.state(mc::mix(mc::mix(s.r, s.k), ty));
    };
    switch (ty) {
    case 0: return run(double());
    case 1: return run(int());
    case 2: return run(cd());
    case 3: return run(ld());
    }
}
// Large operands (blocked or unrolled loops would start to matter here).
MC(large)
{
    static const size_t dims[] = { 1, 4, 8, 15, 16, 17, 31, 64, 65, 130 };
    const size_t r = c.pick(dims, "rows"), k = c.pick(dims, "cols");
    c.go();
    Tab<double> a = labelled<double>(r, k), b = labelled<double>(r, k, 7), s(r, k), d(r, k), p(r, k);
    for (size_t i = 0; i < r * k; ++i) s.v[i] = a.v[i] + b.v[i], d.v[i] = a.v[i] - b.v[i], p.v[i] = a.v[i] * b.v[i];
    Matrix<double> A(mat(a));
    const Matrix<double> B(mat(b));
    expect_mat(c, "large", "A + B", A + B, s, false);
    expect_mat(c, "large", "A - B", A - B, d, false);
    expect_mat(c, "large", "product", malg::element_wise_product(A, B), p, false);
    A += B;
    expect_mat(c, "large", "A += B", A, s, false);
    A -= B;
    A -= B;
    expect_mat(c, "large", "A -= B", A, d, false);
    Vector<double> va(mkvec(a.v)), vb(mkvec(b.v));
    expect_vec(c, "large", "a + b", va + vb, s.v, false);
    expect_vec(c, "large", "a * b", va * vb, p.v, false);
    c.step(7);
    c.state(mc::mix(r, k));
}
