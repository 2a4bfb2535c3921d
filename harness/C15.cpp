// C15: transposition, conjugation, minors.
#include "C05.hpp"
namespace
{
template <typename T>
T conjugated(const T &x)
{
    if constexpr (is_cx_v<T>) return T(x.real(), -x.imag());
    else return x;
}
template <typename T>
Tab<T> turned(const Tab<T> &t, bool conj)
{
    Tab<T> e(t.c, t.r);
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) e(j, i) = conj ? conjugated(t(i, j)) : t(i, j);
    return e;
}
template <typename T>
Tab<T> minor_of(const Tab<T> &t, size_t p, size_t q)
{
    Tab<T> e(t.r - 1, t.c - 1);
    for (size_t i = 0; i < e.r; ++i)
        for (size_t j = 0; j < e.c; ++j) e(i, j) = t(i + (i >= p), j + (j >= q));
    return e;
}
template <typename T>
void check(mc::Ctx &c, const Tab<T> &t, int kind)
{
    const auto e = turned(t, false);
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        auto r = la::transpose(M);
        static_assert(std::is_same_v<decltype(r), Matrix<T>>);
        check_mat(c, "transpose", r, e);
        check_mat(c, "transpose-twice", la::transpose(r), t);
        c.step(2);
        if constexpr (is_cx_v<T> && !std::is_const_v<typename std::remove_reference_t<decltype(M)>::value_type>) {
            const auto ec = turned(t, true);
            auto h = la::hermitian_transpose(M), k = la::conjugate_transpose(M);
            static_assert(std::is_same_v<decltype(h), Matrix<T>> && std::is_same_v<decltype(k), Matrix<T>>);
            check_mat(c, "hermitian", h, ec);
            check_mat(c, "conjugate", k, ec);
            check_mat(c, "hermitian-twice", la::hermitian_transpose(h), t);
            check_mat(c, "conjugate-twice", la::conjugate_transpose(k), t);
            c.step(4);
        }
        if (t.r <= 8 && t.c <= 8)
            for (size_t p = 0; p < t.r; ++p)
                for (size_t q = 0; q < t.c; ++q) {
                    auto m = la::cofactor(M, p, q);
                    static_assert(std::is_same_v<decltype(m), Matrix<T>>);
                    check_mat(c, "cofactor", m, minor_of(t, p, q));
                    c.step();
                }
    });
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T));
}
template <typename T>
void shapes(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 9 : 7;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols");
    const int kind      = static_cast<int>(c.choose(K_COUNT, "kind"));
    const unsigned salt = c.choose(3, "content");
    c.go();
    check(c, salt == 2 ? content<T>(r, k, r + k) : labelled<T>(r, k, static_cast<int>(salt) * 13), kind);
}
// Zero, negative zero, infinities and NaN travel unchanged; every 2x2 content of them.
template <typename T>
void values(mc::Ctx &c)
{
    using R = realof<T>;
    const R v[] = { R(0), R(-1.5), std::numeric_limits<R>::infinity(), std::numeric_limits<R>::quiet_NaN(), std::numeric_limits<R>::max(), std::numeric_limits<R>::denorm_min(), R(-0.0) };
    Tab<T> t(2, 2);
    for (auto &x : t.v) {
        const R a = c.pick(v, "value");
        if constexpr (is_cx_v<T>) x = T(a, c.flip("imaginary") ? R(-2) : a);
        else x = a;
    }
    c.go();
    check(c, t, 0);
}
template <typename T>
void sizes(mc::Ctx &c)
{
    static const size_t dims[] = { 1, 2, 3, 8, 16, 31, 33, 64, 65 };
    const size_t r = c.pick(dims, "rows"), k = c.pick(dims, "cols");
    const int kind = static_cast<int>(c.choose(2, "kind")) * 5;
    c.go();
    check(c, labelled<T>(r, k), kind);
    // A few minors of the large ones.
    auto t = labelled<T>(r, k);
    if (r < 2 || k < 2) return;
    for (size_t p : { size_t(0), r / 2, r - 1 })
        for (size_t q : { size_t(0), k / 2, k - 1 }) check_mat(c, "cofactor", la::cofactor(mat(t), p, q), minor_of(t, p, q));
}
template <typename T>
void products_transposed(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 5 : 4;
    const size_t r = 1 + c.choose(hi, "rows"), n = 1 + c.choose(hi, "inner"), k = 1 + c.choose(hi, "cols");
    const int kind      = static_cast<int>(c.choose(K_COUNT, "kind"));
    const unsigned salt = c.choose(4, "content");
    c.go();
    auto a = content<T>(r, n, salt), b = content<T>(n, k, salt + 2);
    auto e = turned(product<T>(a, b), false);
    with_const(c, "operand-changed", kind, a, [&](const auto &A) {
        with_const(c, "operand-changed", kind, b, [&](const auto &B) {
            check_mat(c, "product-transposed", la::transpose(A * B), e);
            check_mat(c, "reversed-product", la::transpose(B) * la::transpose(A), e);
        });
    });
    if constexpr (is_cx_v<T>) {
        auto h = turned(product<T>(a, b), true);
        check_mat(c, "hermitian-product", la::hermitian_transpose(mat(b)) * la::hermitian_transpose(mat(a)), h);
        check_mat(c, "conjugate-product", la::conjugate_transpose(mat(b)) * la::conjugate_transpose(mat(a)), h);
    }
    c.step(2);
    c.state(mc::mix(mc::mix(a.hash(), b.hash()), static_cast<unsigned>(kind)));
}
} // namespace
MC(shapes)
{
    switch (c.choose(8, "type")) {
    case 0: return shapes<int>(c);
    case 1: return shapes<double>(c);
    case 2: return shapes<cd>(c);
    case 3: return shapes<float>(c);
    case 4: return shapes<cf>(c);
    case 5: return shapes<long>(c);
    case 6: return shapes<ld>(c);
    case 7: return shapes<cl>(c);
    }
}
MC(values)
{
    switch (c.choose(2, "type")) {
    case 0: return values<double>(c);
    case 1: return values<cd>(c);
    }
}
MC(sizes)
{
    switch (c.choose(2, "type")) {
    case 0: return sizes<int>(c);
    case 1: return sizes<cd>(c);
    }
}
MC(products_transposed)
{
    switch (c.choose(3, "type")) {
    case 0: return products_transposed<int>(c);
    case 1: return products_transposed<double>(c);
    case 2: return products_transposed<cd>(c);
    }
}
MC(long_shapes)
{
    const Shape s = long_shape(c);
    const bool cx = c.flip("complex");
    c.go();
    if (cx) check(c, labelled<cd>(s.r, s.k), 0);
    else check(c, labelled<int>(s.r, s.k), 0);
}
