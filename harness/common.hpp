// Shared reference structures of the harnesses.
#pragma once
#include "mc.hpp"

#include <malg/complex_math.hpp>
#include <malg/control/control.hpp>
#include <malg/feq.hpp>
#include <malg/linalg.hpp>
#include <malg/math.hpp>
#include <malg/matrix.hpp>
#include <malg/utility.hpp>
#include <malg/vector.hpp>
#include <malg/view.hpp>

#include <sstream>

using cd = std::complex<double>;
using cf = std::complex<float>;
using ld = long double;
using cl = std::complex<long double>;
using std::size_t;
using malg::Matrix;
using malg::MatrixBase;
using malg::Vector;
using malg::View;
using malg::CofactorView;
using malg::Range;
namespace ut = malg::utility;
namespace la = malg::linalg;

static constexpr size_t NPOS = static_cast<size_t>(-1);

template <typename T>
struct is_cx : std::false_type {
    using real = T;
};
template <typename T>
struct is_cx<std::complex<T>> : std::true_type {
    using real = T;
};
template <typename T>
inline constexpr bool is_cx_v = is_cx<std::remove_const_t<T>>::value;

// Equality that treats NaN as equal to NaN.
template <typename T>
inline bool same(const T &a, const T &b)
{
    if constexpr (is_cx_v<T>) {
        return same(a.real(), b.real()) && same(a.imag(), b.imag());
    } else {
        return a == b || (a != a && b != b);
    }
}

template <typename T>
inline std::string str(const T &v)
{
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}
inline std::string str(const bool &v) { return v ? "true" : "false"; }

// Row-major reference table.
template <typename T>
struct Tab {
    size_t r = 0, c = 0;
    std::vector<T> v;
    Tab() = default;
    Tab(size_t r_, size_t c_, T x = T(0)) : r(r_), c(c_), v(r_ * c_, x) {}
    T &operator()(size_t i, size_t j) { return v.at(i * c + j); }
    const T &operator()(size_t i, size_t j) const { return v.at(i * c + j); }
    size_t size() const { return r * c; }
    bool operator==(const Tab &o) const
    {
        if (r != o.r || c != o.c) return false;
        for (size_t i = 0; i < v.size(); ++i)
            if (!same(v[i], o.v[i])) return false;
        return true;
    }
    bool operator!=(const Tab &o) const { return !(*this == o); }
    std::uint64_t hash() const
    {
        std::uint64_t h = mc::mix(r, c);
        for (const T &x : v) h = mc::mix(h, mc::hv(x));
        return h;
    }
};
template <>
struct Tab<bool> {
    size_t r = 0, c = 0;
    std::vector<char> v;
    Tab() = default;
    Tab(size_t r_, size_t c_, bool x = false) : r(r_), c(c_), v(r_ * c_, x) {}
    char &operator()(size_t i, size_t j) { return v.at(i * c + j); }
    const char &operator()(size_t i, size_t j) const { return v.at(i * c + j); }
    size_t size() const { return r * c; }
    bool operator==(const Tab &o) const { return r == o.r && c == o.c && v == o.v; }
    bool operator!=(const Tab &o) const { return !(*this == o); }
};
template <typename T>
inline std::string show(const Tab<T> &t)
{
    std::string s = std::to_string(t.r) + "x" + std::to_string(t.c) + "[";
    for (size_t i = 0; i < t.r; ++i) {
        s += i ? " ;" : "";
        for (size_t j = 0; j < t.c; ++j) s += " " + str(t(i, j));
        if (s.size() > 700) return s + "...";
    }
    return s + " ]";
}
template <typename T>
inline std::string show(const std::vector<T> &t)
{
    std::string s = std::to_string(t.size()) + "{";
    for (size_t i = 0; i < t.size(); ++i) {
        s += " " + str(t[i]);
        if (s.size() > 700) return s + "...";
    }
    return s + " }";
}

template <typename T>
inline Tab<std::remove_const_t<T>> tab(const MatrixBase<T> &m)
{
    Tab<std::remove_const_t<T>> t(m.rows(), m.cols());
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) t(i, j) = m(i, j);
    return t;
}
template <typename T>
inline std::vector<T> vec(const Vector<T> &m)
{
    std::vector<T> t(m.size());
    for (size_t i = 0; i < t.size(); ++i) t[i] = m[i];
    return t;
}
inline std::vector<char> vec(const Vector<bool> &m)
{
    std::vector<char> t(m.size());
    for (size_t i = 0; i < t.size(); ++i) t[i] = m[i];
    return t;
}
template <typename T>
inline Matrix<T> mat(const Tab<T> &t)
{
    Matrix<T> m(t.r, t.c);
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) m(i, j) = t(i, j);
    return m;
}
template <typename T>
inline Vector<T> mkvec(const std::vector<T> &t)
{
    Vector<T> m(t.size());
    for (size_t i = 0; i < t.size(); ++i) m[i] = t[i];
    return m;
}
template <typename T>
inline bool veq(const Vector<T> &a, const std::vector<T> &b)
{
    if (a.size() != b.size() || a.empty() != b.empty()) return false;
    for (size_t i = 0; i < b.size(); ++i)
        if (!same<T>(a[i], b[i])) return false;
    return true;
}

// Shape, emptiness, size and every element by position; linear access in row-major order.
template <typename M, typename T>
inline void check_mat(mc::Ctx &c, const char *key, const M &m, const Tab<T> &t)
{
    static_assert(std::is_same_v<std::remove_const_t<typename M::value_type>, T>, "element type of the result");
    if (m.rows() != t.r || m.cols() != t.c) c.fail(key, "shape %zux%zu, expected %s", m.rows(), m.cols(), show(t).c_str());
    if (m.size() != t.r * t.c) c.fail(key, "size() %zu of a %zux%zu object", m.size(), t.r, t.c);
    if (m.empty() != (t.r * t.c == 0)) c.fail(key, "empty() is %d for a %zux%zu object", static_cast<int>(m.empty()), t.r, t.c);
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) {
            const T x = m(i, j);
            if (!same<T>(x, t(i, j))) c.fail(key, "element (%zu,%zu) is %s, expected %s of %s", i, j, str(x).c_str(), str<T>(t(i, j)).c_str(), show(t).c_str());
#ifdef ROW_MAJOR
            const T y = m[i * t.c + j];
            if (!same<T>(y, t(i, j))) c.fail(key, "linear element %zu is %s, expected %s of %s", i * t.c + j, str(y).c_str(), str<T>(t(i, j)).c_str(), show(t).c_str());
#endif
        }
}
template <typename T, typename U>
inline void check_vec(mc::Ctx &c, const char *key, const Vector<T> &m, const std::vector<U> &t)
{
    if (m.size() != t.size()) c.fail(key, "size %zu, expected %s", m.size(), show(t).c_str());
    for (size_t i = 0; i < t.size(); ++i)
        if (!same<T>(m[i], static_cast<T>(t[i]))) c.fail(key, "element %zu is %s, expected %s", i, str(static_cast<T>(m[i])).c_str(), show(t).c_str());
}

// ---- operand kinds ------------------------------------------------------------
enum Kind { K_MATRIX, K_VIEW, K_NESTED, K_COFACTOR, K_CONST_VIEW, K_CONST_COFACTOR, K_COUNT };
inline const char *kname(int k)
{
    static const char *n[] = { "matrix", "view", "view of view", "excluding view", "constant view", "constant excluding view" };
    return n[k];
}
inline constexpr int K_MUTABLE = 4; // the first four kinds can be written through

template <typename T>
inline T sentinel(size_t i)
{
    if constexpr (is_cx_v<T>) {
        using R = typename T::value_type;
        return T(static_cast<R>(1000 + static_cast<int>(i)), static_cast<R>(-2000 - static_cast<int>(i)));
    } else {
        return static_cast<T>(100 + i % 20);
    }
}

// Builds an operand of the given kind holding the table, calls f(operand) and then checks that
// everything around the window is unchanged; 'after' is what the window must hold afterwards.
template <typename T, typename F>
inline void with_operand(mc::Ctx &c, const char *key, int kind, const Tab<T> &t, const Tab<T> *after, F &&f)
{
    if ((t.r == 0 || t.c == 0) && kind != K_MATRIX) kind = K_MATRIX;
    const size_t er = t.r / 2, ec = (t.c + 1) / 2; // excluded row / column
    size_t ro = 0, co = 0, R = t.r, C = t.c;
    if (kind == K_VIEW || kind == K_CONST_VIEW) {
        ro = 1, co = 2, R += 2, C += 3;
    } else if (kind == K_NESTED) {
        ro = 2, co = 1, R += 3, C += 3;
    } else if (kind == K_COFACTOR || kind == K_CONST_COFACTOR) {
        R += 1, C += 1;
    }
    Matrix<T> back(R, C);
    auto where = [&](size_t i, size_t j) {
        if (kind == K_COFACTOR || kind == K_CONST_COFACTOR) return std::make_pair(i + (i >= er), j + (j >= ec));
        return std::make_pair(i + ro, j + co);
    };
    Tab<T> expect(R, C);
    for (size_t i = 0; i < R * C; ++i) expect.v[i] = sentinel<T>(i);
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) {
            auto [a, b]  = where(i, j);
            expect(a, b) = t(i, j);
        }
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C; ++j) back(i, j) = expect(i, j);
    const Matrix<T> &cback = back;
    switch (kind) {
    case K_MATRIX: f(static_cast<MatrixBase<T> &>(back)); break;
    case K_VIEW: {
        View<Matrix<T>> v(&back, ro, ro + t.r, co, co + t.c);
        f(static_cast<MatrixBase<T> &>(v));
        break;
    }
    case K_NESTED: {
        View<Matrix<T>> o(&back, 1, R, 0, C - 1);
        View<View<Matrix<T>>> v(&o, 1, 1 + t.r, 1, 1 + t.c);
        f(static_cast<MatrixBase<T> &>(v));
        break;
    }
    case K_COFACTOR: {
        CofactorView<Matrix<T>> v(&back, er, ec);
        f(static_cast<MatrixBase<T> &>(v));
        break;
    }
    case K_CONST_VIEW: {
        View<const Matrix<T>> v(&cback, ro, ro + t.r, co, co + t.c);
        f(static_cast<MatrixBase<const T> &>(v));
        break;
    }
    case K_CONST_COFACTOR: {
        CofactorView<const Matrix<T>> v(&cback, er, ec);
        f(static_cast<MatrixBase<const T> &>(v));
        break;
    }
    }
    if (after) {
        for (size_t i = 0; i < t.r; ++i)
            for (size_t j = 0; j < t.c; ++j) {
                auto [a, b]  = where(i, j);
                expect(a, b) = (*after)(i, j);
            }
    }
    Tab<T> now = tab(back);
    if (now != expect) c.fail(key, "%s operand (or its surroundings) holds %s, expected %s", kname(kind), show(now).c_str(), show(expect).c_str());
}
template <typename T, typename F>
inline void with_const(mc::Ctx &c, const char *key, int kind, const Tab<T> &t, F &&f)
{
    with_operand(c, key, kind, t, static_cast<const Tab<T> *>(nullptr), [&](auto &m) {
        const auto &cm = m;
        f(cm);
    });
}
// Only the kinds that can be written through (one element type to instantiate).
template <typename T, typename F>
inline void with_mutable(mc::Ctx &c, const char *key, int kind, const Tab<T> &t, const Tab<T> &after, F &&f)
{
    with_operand(c, key, kind, t, &after, [&](auto &m) {
        if constexpr (!std::is_const_v<typename std::remove_reference_t<decltype(m)>::value_type>) f(m);
        else c.fail("harness", "constant operand asked to change");
    });
}

// ---- contents ------------------------------------------------------------------
// Distinct, sign-alternating label of a position, exactly representable in every type.
template <typename T>
inline T label(size_t i, size_t j, int salt = 0)
{
    const int k = static_cast<int>(i * 17 + j * 3 + 1) + salt;
    const int s = ((i + 2 * j + static_cast<size_t>(salt)) % 3 == 1) ? -k : k;
    if constexpr (is_cx_v<T>) {
        using R = typename T::value_type;
        if constexpr (std::is_same_v<R, long double>) return T(label<R>(i, j, salt), -2 * k - 1 - 0x1p-50L);
        else return T(static_cast<R>(s), static_cast<R>(-2 * k - 1));
    } else if constexpr (std::is_same_v<T, double>) {
        return s + 0.25;
    } else if constexpr (std::is_same_v<T, long double>) {
        return s < 0 ? s - 0x1p-50L : s + 0x1p-50L; // not a double
    } else if constexpr (std::is_same_v<T, std::int64_t>) {
        return s < 0 ? s - (std::int64_t(1) << 60) : s + (std::int64_t(1) << 60); // not a double
    } else {
        return static_cast<T>(s);
    }
}
template <typename T>
inline Tab<T> labelled(size_t r, size_t c, int salt = 0)
{
    Tab<T> t(r, c);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) t(i, j) = label<T>(i, j, salt);
    return t;
}
template <typename T>
inline std::vector<T> labelled_vec(size_t n, int salt = 0)
{
    std::vector<T> t(n);
    for (size_t i = 0; i < n; ++i) t[i] = label<T>(i, i, salt);
    return t;
}

// Sizes at which a blocked, unrolled, buffered or two-phase loop would behave differently from a short one.
inline size_t long_size(mc::Ctx &c, size_t upto = 1100)
{
    static const size_t dims[] = { 7, 10, 11, 12, 15, 16, 17, 18, 20, 21, 24, 25, 31, 32, 33, 34, 40, 41, 48, 49, 50, 51, 63, 64, 65, 66, 96, 97, 99, 100, 101, 102, 120, 127, 128, 129, 130, 150, 151,
                                   192, 193, 199, 200, 201, 202, 250, 251, 255, 256, 257, 258, 299, 300, 301, 400, 401, 499, 500, 501, 511, 512, 513, 514, 600, 999, 1000, 1001, 1002, 1023, 1024, 1025, 1026 };
    unsigned n = 0;
    while (n < sizeof(dims) / sizeof(*dims) && dims[n] <= upto) ++n;
    return dims[c.choose(n, "size")];
}
struct Shape {
    size_t r, k;
};
inline Shape long_shape(mc::Ctx &c, size_t upto = 1100, size_t biggest = 20000)
{
    static const Shape rect[] = { { 12, 11 }, { 11, 12 }, { 17, 33 }, { 20, 20 }, { 31, 33 }, { 33, 31 }, { 40, 40 }, { 33, 65 }, { 65, 33 }, { 64, 64 }, { 65, 65 }, { 101, 100 }, { 65, 130 }, { 130, 65 }, { 128, 128 }, { 129, 130 } };
    switch (c.choose(7, "form")) {
    case 0: return { 1, long_size(c, upto) };
    case 1: return { long_size(c, upto), 1 };
    case 2: return { 2, long_size(c, upto) };
    case 3: return { long_size(c, upto), 2 };
    case 4: return { 3, long_size(c, upto) };
    case 5: return { long_size(c, upto), 5 };
    }
    unsigned n = 0;
    while (n < sizeof(rect) / sizeof(*rect) && rect[n].r * rect[n].k <= biggest) ++n;
    return rect[c.choose(n, "rectangle")];
}

// Runs f and tells whether it threw a std::exception.
template <typename F>
inline bool throws(F &&f)
{
    try {
        f();
    } catch (mc::Violation &) {
        throw;
    } catch (mc::Skip &) {
        throw;
    } catch (std::exception &) {
        return true;
    }
    return false;
}

// Silences the library's diagnostics on std::cerr/std::cout are already discarded by the engine.
