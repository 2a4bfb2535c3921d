// C05: products.
#pragma once
#include "common.hpp"
template <typename T>
using realof = typename is_cx<std::remove_const_t<T>>::real;
template <typename A, typename B>
struct common_of {
    using R    = std::common_type_t<realof<A>, realof<B>>;
    using type = std::conditional_t<is_cx_v<A> || is_cx_v<B>, std::complex<R>, R>;
};
template <typename A, typename B>
using common_t = typename common_of<A, B>::type;

// Small integers (and quarters for double): every sum of products is exact in every type.
template <typename T>
inline T small(size_t i, size_t salt)
{
    const int k = static_cast<int>((i * 7 + salt * 5 + i * i) % 11) - 5;
    const int m = static_cast<int>((i * 3 + salt * 2 + 1) % 7) - 3;
    if constexpr (is_cx_v<T>) return T(static_cast<realof<T>>(k), static_cast<realof<T>>(m));
    else if constexpr (std::is_same_v<T, double>) return k + (m % 2 ? 0.25 : 0.0);
    // Products and sums which only the wide types can hold.
    else if constexpr (std::is_same_v<T, long>) return i < 8 ? k * (1l << 27) + m : k;
    else if constexpr (std::is_same_v<T, ld>) return k + m * 0x1p-28L;
    else return static_cast<T>(k);
}
template <typename T>
inline Tab<T> content(size_t r, size_t c, size_t salt)
{
    Tab<T> t(r, c);
    for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = small<T>(i, salt);
    return t;
}
// (std::real of an integer is a double.)
template <typename T>
inline cl exactly(const T &x)
{
    if constexpr (is_cx_v<T>) return cl(static_cast<ld>(x.real()), static_cast<ld>(x.imag()));
    else return cl(static_cast<ld>(x));
}
// Exact product with long double components (all values are small multiples of 1/16).
template <typename R, typename A, typename B>
inline Tab<R> product(const Tab<A> &a, const Tab<B> &b)
{
    Tab<R> t(a.r, b.c);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            ld re = 0, im = 0;
            if constexpr (std::is_same_v<R, long>) {
                __int128 sum = 0;
                for (size_t k = 0; k < a.c; ++k) sum += static_cast<__int128>(a(i, k)) * b(k, j);
                if (sum > std::numeric_limits<long>::max() || sum < std::numeric_limits<long>::min()) std::abort();
                t(i, j) = static_cast<long>(sum);
                continue;
            }
            for (size_t k = 0; k < a.c; ++k) {
                const cl x = exactly(a(i, k)), y = exactly(b(k, j));
                re += x.real() * y.real() - x.imag() * y.imag();
                im += x.real() * y.imag() + x.imag() * y.real();
            }
            if constexpr (is_cx_v<R>) t(i, j) = R(static_cast<realof<R>>(re), static_cast<realof<R>>(im));
            else t(i, j) = static_cast<R>(re);
        }
    return t;
}
template <typename T, typename M>
inline void expect_mat(mc::Ctx &c, const char *key, const M &got, const Tab<T> &t, const std::string &what)
{
    static_assert(std::is_same_v<std::remove_const_t<typename M::value_type>, T>, "common element type");
    if (got.rows() != t.r || got.cols() != t.c) c.fail(key, "%s: result %zux%zu, expected %zux%zu", what.c_str(), got.rows(), got.cols(), t.r, t.c);
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j)
            if (!same<T>(got(i, j), t(i, j))) c.fail(key, "%s: element (%zu,%zu) is %s, expected %s", what.c_str(), i, j, str(T(got(i, j))).c_str(), str<T>(t(i, j)).c_str());
}
template <typename T>
inline Tab<T> column(const std::vector<T> &v)
{
    Tab<T> t(v.size(), 1);
    t.v = v;
    return t;
}

template <typename T1, typename T2>
inline void products(mc::Ctx &c)
{
    using R        = common_t<T1, T2>;
    const int hi   = c.thorough ? 5 : 3;
    const size_t r = static_cast<size_t>(c.range(0, hi, "rows")), k = static_cast<size_t>(c.range(0, hi, "inner")), n = static_cast<size_t>(c.range(0, hi, "cols"));
    const int ka = static_cast<int>(c.choose(K_COUNT, "left kind")), kb = static_cast<int>(c.choose(K_COUNT, "right kind"));
    const size_t salt = c.choose(c.thorough ? 6 : 3, "content");
    c.go();
    Tab<T1> a = content<T1>(r, k, salt);
    Tab<T2> b = content<T2>(k, n, salt + 3);
    // Bits of the wider operand that the type of the other one cannot hold.
    if constexpr (std::is_same_v<realof<T2>, double> && (std::is_same_v<realof<T1>, float> || std::is_same_v<T1, int>))
        for (size_t i = 0; i < b.v.size(); i += 2) b.v[i] += 0x1p-30;
    if constexpr (std::is_same_v<T2, ld> && std::is_same_v<T1, double>)
        for (size_t i = 0; i < b.v.size(); i += 2) b.v[i] = small<double>(i, salt) + 0x1p-54L;
    auto e    = product<R>(a, b);
    std::string what = show(a) + " (" + kname(ka) + ") * " + show(b) + " (" + kname(kb) + ")";
    c.note("%s", what.c_str());
    with_const(c, "left-changed", ka, a, [&](const auto &A) {
        with_const(c, "right-changed", kb, b, [&](const auto &B) { expect_mat(c, "product", A * B, e, what); });
    });
    c.step();
    // Matrix times vector.
    if (n >= 1 && kb == 0) {
        std::vector<T2> x(k);
        for (size_t i = 0; i < k; ++i) x[i] = b(i, 0);
        const Vector<T2> X(mkvec(x));
        auto ev = product<R>(a, column(x));
        with_const(c, "left-changed", ka, a, [&](const auto &A) {
            auto p1 = A * X;
            auto p2 = malg::dot(A, X);
            static_assert(std::is_same_v<decltype(p1), Vector<R>> && std::is_same_v<decltype(p2), Vector<R>>);
            check_vec(c, "matrix-vector", p1, ev.v);
            check_vec(c, "dot-matrix-vector", p2, ev.v);
        });
        check_vec(c, "vector-changed", X, x);
        c.step(2);
        if (r >= 1 && ka == 0) {
            std::vector<T1> y(k);
            for (size_t i = 0; i < k; ++i) y[i] = a(0, i);
            const Vector<T1> Y(mkvec(y));
            auto d = malg::dot(Y, X);
            static_assert(std::is_same_v<decltype(d), R>);
            if (!same<R>(d, ev.v.at(0))) c.fail("dot", "%s . %s = %s, expected %s", show(y).c_str(), show(x).c_str(), str(d).c_str(), str(ev.v[0]).c_str());
            c.step();
        }
    }
    // In place.
    if constexpr (std::is_same_v<R, T1>) {
        if (k == n && ka < K_MUTABLE) {
            with_mutable(c, "in-place", ka, a, e, [&](auto &A) {
                with_const(c, "right-changed", kb, b, [&](const auto &B) {
                    auto &res = (A *= B);
                    if (&res != &A) c.fail("in-place", "does not return its left operand");
                });
            });
            c.step();
        }
    }
    c.state(mc::mix(mc::mix(a.hash(), b.hash()), mc::mix(static_cast<unsigned>(ka), static_cast<unsigned>(kb)) + sizeof(T1) * 100 + sizeof(T2)));
}
