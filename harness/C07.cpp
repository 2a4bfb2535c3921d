// C07: comparisons follow the scalar comparison with the configured tolerance.
#include "common.hpp"

namespace
{
template <typename T>
using realof = typename is_cx<std::remove_const_t<T>>::real;
// The tolerance is a process-wide setting: restored whatever happens.
struct Tol {
    double old;
    explicit Tol(double t) : old(malg::feq::tolerance()) { malg::feq::tolerance() = t; }
    ~Tol() { malg::feq::tolerance() = old; }
};
const double tols[] = { 1e-6, 0.0, 1e-12, 0.25, 2.0, 1e-3 };
// Values around the tolerance boundaries of either sign, zeros, tiny, huge.
const double dvals[] = { 0.0, 1.0, 1.0 + 1e-13, 1.0 + 5e-7, 1.0 + 2e-6, 1.0 + 5e-4, 1.2, 1.5, -1.0, -1.0 - 5e-7, -1.2, 4.0, -0.0, 1e-300, -1e-9, 1e9, 1e9 + 100, 1e9 + 1e4, -1e9 };

// Relative equality; the sharp boundary itself is exempt (its rounding is not specified).
// 1: equal, 0: different, -1: too close to the boundary to tell.
int near(ld a, ld b, ld tol)
{
    const ld d = std::abs(a - b), m = std::max(std::abs(a), std::abs(b));
    if (a == b) return 1;
    if (d == 0 && m == 0) return 1;
    const ld t = tol * m;
    if (std::abs(d - t) <= 1e-9L * (t + 1e-12L * m)) return -1;
    return d <= t;
}
int near_c(const cl &a, const cl &b, ld tol)
{
    int x = near(a.real(), b.real(), tol), y = near(a.imag(), b.imag(), tol);
    if (x == 0 || y == 0) return 0;
    return x < 0 || y < 0 ? -1 : 1;
}
// Expected equality of two elements of the element types T1, T2.
template <typename T1, typename T2>
int equal(const T1 &a, const T2 &b)
{
    const ld tol = malg::feq::tolerance();
    using C      = std::common_type_t<realof<T1>, realof<T2>>;
    if constexpr (is_cx_v<T1> != is_cx_v<T2>) {
        // By components or by the modulus of the difference: decided where the two agree.
        const cl x(std::real(a), std::imag(a)), y(std::real(b), std::imag(b));
        const ld d = std::abs(x - y), t = tol * std::max(std::abs(x), std::abs(y));
        const int by_parts = near_c(x, y, tol), by_modulus = x == y ? 1 : std::abs(d - t) <= 1e-6L * t ? -1 : d <= t;
        return by_parts == by_modulus ? by_parts : -1;
    } else if constexpr (is_cx_v<T1>) {
        return near_c(cl(std::real(a), std::imag(a)), cl(std::real(b), std::imag(b)), tol);
    } else if constexpr (std::is_floating_point_v<C>) {
        return near(static_cast<ld>(static_cast<C>(a)), static_cast<ld>(static_cast<C>(b)), tol);
    } else {
        return a == b;
    }
}
template <typename T>
T value(unsigned i)
{
    if constexpr (is_cx_v<T>) {
        return T(static_cast<realof<T>>(dvals[i]), static_cast<realof<T>>(dvals[(i * 5 + 3) % (sizeof dvals / sizeof *dvals)]));
    } else if constexpr (std::is_same_v<T, long>) {
        static const long iv[] = { 0, 9007199254740992, 9007199254740993, 2, 5, -5, 1000000, 1000001, -9007199254740993, 3, 4611686018427387904, 12, 1, -2, -9007199254740992, 4611686018427387905, 4, 6, 9 };
        return iv[i];
    } else if constexpr (std::is_integral_v<T>) {
        static const int iv[] = { 0, 1, -1, 2, 5, -5, 1000000, 1000001, -7, 3, 0, 12, 1, -2, 8, 999999, 4, 6, 9 };
        return static_cast<T>(iv[i]);
    } else if constexpr (std::is_same_v<T, ld>) {
        // Neighbours of 1 and 1e9 that a double cannot tell apart.
        return i == 2 ? 1.0L + 0x1p-60L : i == 16 ? 1e9L + 0x1p-30L : i == 13 ? 1e-4000L : static_cast<ld>(dvals[i]);
    } else {
        return static_cast<T>(dvals[i]);
    }
}
constexpr unsigned NV = sizeof dvals / sizeof *dvals;

template <typename M>
void expect_bits(mc::Ctx &c, const char *key, const M &m, size_t r, size_t k, const std::vector<int> &e)
{
    static_assert(std::is_same_v<typename M::value_type, bool>);
    if constexpr (!std::is_base_of_v<MatrixBase<bool>, M>) {
        if (m.size() != r * k) c.fail(key, "size %zu, expected %zu", m.size(), r * k);
        for (size_t i = 0; i < r * k; ++i)
            if (e[i] >= 0 && m[i] != (e[i] == 1)) c.fail(key, "element %zu is %d", i, static_cast<int>(m[i]));
    } else {
        if (m.rows() != r || m.cols() != k) c.fail(key, "shape %zux%zu, expected %zux%zu", m.rows(), m.cols(), r, k);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < k; ++j)
                if (e[i * k + j] >= 0 && m(i, j) != (e[i * k + j] == 1)) c.fail(key, "element (%zu,%zu) is %d", i, j, static_cast<int>(m(i, j)));
    }
}
std::vector<int> negated(std::vector<int> e)
{
    for (int &x : e) x = x < 0 ? -1 : 1 - x;
    return e;
}
template <typename M, typename N>
void opposite(mc::Ctx &c, const M &eq, const N &ne)
{
    for (size_t i = 0; i < eq.size(); ++i)
        if (eq[i] == ne[i]) c.fail("negation", "== and != agree at %zu", i);
}

// Every ordered pair of values: matrices, vectors, scalars of each type pair.
template <typename T1, typename T2>
void pairs(mc::Ctx &c)
{
    const double tol = c.pick(tols, "tolerance");
    const unsigned i = c.choose(NV, "a"), pos = c.choose(3, "position");
    c.go();
    Tol set(tol);
    const T1 x = value<T1>(i);
    for (unsigned j = 0; j < NV; ++j) {
        const T2 y = value<T2>(j);
        c.note("%s (type size %zu) against %s, tolerance %g", str(x).c_str(), sizeof(T1), str(y).c_str(), tol);
        // Neighbours are different values, so that a shifted or repeated element shows.
        Tab<T1> a(1, 3);
        Tab<T2> b(1, 3);
        for (unsigned p = 0; p < 3; ++p) a.v[p] = value<T1>(3 + p * 4), b.v[p] = value<T2>(8 + p);
        a.v[pos] = x;
        b.v[pos] = y;
        std::vector<int> eq(3), es(3), gt(3), ge(3), lt(3), le(3), gts(3), ges(3), lts(3), les(3);
        for (unsigned p = 0; p < 3; ++p) {
            eq[p] = equal(a.v[p], b.v[p]);
            es[p] = equal(a.v[p], y);
            if constexpr (!is_cx_v<T1> && !is_cx_v<T2>) {
                gt[p] = a.v[p] > b.v[p], ge[p] = a.v[p] >= b.v[p], lt[p] = a.v[p] < b.v[p], le[p] = a.v[p] <= b.v[p];
                gts[p] = a.v[p] > y, ges[p] = a.v[p] >= y, lts[p] = a.v[p] < y, les[p] = a.v[p] <= y;
            }
        }
        Matrix<T1> A(mat(a));
        Matrix<T2> B(mat(b));
        const Vector<T1> va(mkvec(a.v));
        const Vector<T2> vb(mkvec(b.v));
        expect_bits(c, "matrix==", A == B, 1, 3, eq);
        expect_bits(c, "matrix!=", A != B, 1, 3, negated(eq));
        opposite(c, A == B, A != B);
        expect_bits(c, "vector==", va == vb, 1, 3, eq);
        expect_bits(c, "vector!=", va != vb, 1, 3, negated(eq));
        opposite(c, va == vb, va != vb);
        expect_bits(c, "matrix==scalar", A == y, 1, 3, es);
        expect_bits(c, "matrix!=scalar", A != y, 1, 3, negated(es));
        opposite(c, A == y, A != y);
        expect_bits(c, "vector==scalar", va == y, 1, 3, es);
        expect_bits(c, "vector!=scalar", va != y, 1, 3, negated(es));
        opposite(c, va == y, va != y);
        if constexpr (!is_cx_v<T1> && !is_cx_v<T2>) {
            expect_bits(c, "matrix>", A > B, 1, 3, gt);
            expect_bits(c, "matrix>=", A >= B, 1, 3, ge);
            expect_bits(c, "matrix<", A < B, 1, 3, lt);
            expect_bits(c, "matrix<=", A <= B, 1, 3, le);
            expect_bits(c, "matrix>scalar", A > y, 1, 3, gts);
            expect_bits(c, "matrix>=scalar", A >= y, 1, 3, ges);
            expect_bits(c, "matrix<scalar", A < y, 1, 3, lts);
            expect_bits(c, "matrix<=scalar", A <= y, 1, 3, les);
        }
        if (tab(A) != a || tab(B) != b || !veq(va, a.v) || !veq(vb, b.v)) c.fail("operand-changed", "comparison");
        // The scalar predicates themselves.
        if constexpr (!is_cx_v<T1> && !is_cx_v<T2> && std::is_floating_point_v<T1> && std::is_floating_point_v<T2>) {
            const bool e = malg::feq::approximately_equal(x, y);
            int n        = near(static_cast<ld>(x), static_cast<ld>(y), tol);
            if (n >= 0 && e != (n == 1)) c.fail("approximately_equal", "(%s, %s) is %d", str(x).c_str(), str(y).c_str(), e);
            if (e != malg::feq::approximately_equal(y, x)) c.fail("symmetry", "(%s, %s)", str(x).c_str(), str(y).c_str());
            if (!malg::feq::approximately_equal(x, x)) c.fail("reflexivity", "%s", str(x).c_str());
            if (malg::feq::approximately_lesser_than_equal(x, y) != (x < y || e)) c.fail("lesser", "(%s, %s)", str(x).c_str(), str(y).c_str());
            if (malg::feq::approximately_greater_than_equal(x, y) != (x > y || e)) c.fail("greater", "(%s, %s)", str(x).c_str(), str(y).c_str());
            if (tol < 1 && malg::feq::approximately_equal_to_zero(x) != (x == 0)) c.fail("zero", "%s at tolerance %g", str(x).c_str(), tol);
        } else if constexpr (is_cx_v<T1> && is_cx_v<T2>) {
            const bool e = malg::feq::approximately_equal(x, y);
            if (e != malg::feq::approximately_equal(y, x)) c.fail("symmetry", "(%s, %s)", str(x).c_str(), str(y).c_str());
            if (!malg::feq::approximately_equal(x, x)) c.fail("reflexivity", "%s", str(x).c_str());
            if (tol < 1 && malg::feq::approximately_equal_to_zero(x) != (x == T1(0))) c.fail("zero", "%s at tolerance %g", str(x).c_str(), tol);
        }
        c.step(20);
    }
    if (malg::feq::tolerance() != tol) c.fail("tolerance", "changed by a comparison");
    c.state(mc::mix(mc::mix(i, pos), mc::hv(tol)) + sizeof(T1) * 50 + sizeof(T2) * 3 + is_cx_v<T1>);
}
template <typename T1, typename T2>
void compare_at(mc::Ctx &c, size_t r, size_t k, size_t d, int ka, int kb);
// Every shape and operand kind; a single element differs.
template <typename T1, typename T2>
void shapes(mc::Ctx &c)
{
    static const size_t more[][2] = { { 1, 70 }, { 70, 1 }, { 9, 9 }, { 3, 17 }, { 16, 16 } };
    const unsigned hi = c.thorough ? 6 : 4;
    unsigned i        = c.choose(hi * hi + 5, "shape");
    const size_t r = i < hi * hi ? i / hi : more[i - hi * hi][0], k = i < hi * hi ? i % hi : more[i - hi * hi][1];
    const int ka = static_cast<int>(c.choose(K_COUNT, "left kind")), kb = static_cast<int>(c.choose(K_COUNT, "right kind"));
    size_t n = r * k;
    const size_t d = n == 0 ? 0 : n <= 25 ? c.choose(static_cast<unsigned>(n) + 1, "different") : (n * c.choose(5, "different")) / 4;
    c.go();
    compare_at<T1, T2>(c, r, k, d, ka, kb);
}
// Long operands: the first, the last and the elements in between.
template <typename T1, typename T2>
void long_shapes(mc::Ctx &c)
{
    const Shape s  = long_shape(c);
    const size_t n = s.r * s.k, at[] = { 0, 1, n / 3, n / 2, n - 2, n - 1, n };
    const size_t d = c.pick(at, "different");
    c.go();
    compare_at<T1, T2>(c, s.r, s.k, d, 0, 0);
}
template <typename T1, typename T2>
void compare_at(mc::Ctx &c, size_t r, size_t k, size_t d, int ka, int kb)
{
    const size_t n = r * k;
    Tab<T1> a(r, k);
    Tab<T2> b(r, k);
    std::vector<int> eq(n, 1), gt(n, 0), ge(n, 1), lt(n, 0), le(n, 1);
    for (size_t p = 0; p < n; ++p) {
        int v  = static_cast<int>(p % 50) - 20;
        a.v[p] = T1(v);
        b.v[p] = T2(v);
        if (p == d) b.v[p] = T2(v + 1), eq[p] = 0, ge[p] = 0, lt[p] = 1;
        if (d < n && p == n - 1 - d && p != d) b.v[p] = T2(v - 1), eq[p] = 0, gt[p] = 1, le[p] = 0;
    }
    with_const(c, "operand-changed", ka, a, [&](const auto &A) {
        with_const(c, "operand-changed", kb, b, [&](const auto &B) {
            expect_bits(c, "matrix==", A == B, r, k, eq);
            expect_bits(c, "matrix!=", A != B, r, k, negated(eq));
            if constexpr (!is_cx_v<T1> && !is_cx_v<T2>) {
                expect_bits(c, "matrix>", A > B, r, k, gt);
                expect_bits(c, "matrix>=", A >= B, r, k, ge);
                expect_bits(c, "matrix<", A < B, r, k, lt);
                expect_bits(c, "matrix<=", A <= B, r, k, le);
            }
            using A_t = typename std::remove_reference_t<decltype(A)>::value_type;
            using B_t = typename std::remove_reference_t<decltype(B)>::value_type;
            if constexpr (std::is_same_v<A_t, B_t>) {
                const bool differ = d < n;
                if (ut::all_close(A, B, 0.5) == differ) c.fail("all_close", "%s, %s", show(a).c_str(), show(b).c_str());
                if (!ut::all_close(A, B, 1.0)) c.fail("all_close", "difference of exactly the tolerance");
            }
        });
        if (kb == 0 && n) {
            const T2 y = b.v[d % n];
            std::vector<int> es(n);
            for (size_t p = 0; p < n; ++p) es[p] = equal(a.v[p], y);
            expect_bits(c, "matrix==scalar", A == y, r, k, es);
            expect_bits(c, "matrix!=scalar", A != y, r, k, negated(es));
            if constexpr (!is_cx_v<T1> && !is_cx_v<T2>) {
                std::vector<int> g(n), l(n);
                for (size_t p = 0; p < n; ++p) g[p] = a.v[p] > y, l[p] = a.v[p] < y;
                expect_bits(c, "matrix>scalar", A > y, r, k, g);
                expect_bits(c, "matrix<scalar", A < y, r, k, l);
                expect_bits(c, "matrix<=scalar", A <= y, r, k, negated(g));
                expect_bits(c, "matrix>=scalar", A >= y, r, k, negated(l));
            }
        }
    });
    const Vector<T1> va(mkvec(a.v));
    const Vector<T2> vb(mkvec(b.v));
    expect_bits(c, "vector==", va == vb, r, k, eq);
    expect_bits(c, "vector!=", va != vb, r, k, negated(eq));
    c.step(10);
    c.state(mc::mix(mc::mix(mc::mix(r, k), d), static_cast<unsigned>(ka * 10 + kb)) + sizeof(T1));
}
// all_close: every difference around the tolerance, NaN, infinities, every position.
template <typename T>
void close(mc::Ctx &c)
{
    static const double tl[] = { 0.0, 1e-4, 0.5, 1.0 };
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    const double vals[] = { 0, 1, 1.5, -1, 1.00005, 1.0002, -0.5, nan, inf, -inf };
    const unsigned n = 1 + c.choose(3, "size"), pos = c.choose(n, "position");
    const unsigned i = c.choose(10, "a"), j = c.choose(10, "b"), t = c.choose(5, "tolerance");
    const bool im = is_cx_v<T> && c.flip("imaginary");
    const int ka = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    auto mk = [&](double v) {
        if constexpr (is_cx_v<T>) return im ? T(2, static_cast<realof<T>>(v)) : T(static_cast<realof<T>>(v), 2);
        else return static_cast<T>(v);
    };
    Tab<T> a(1, n, T(3)), b(1, n, T(3));
    a.v[pos] = mk(vals[i]);
    b.v[pos] = mk(vals[j]);
    const double tol = t < 4 ? tl[t] : 0.0001;
    const ld d       = std::abs(static_cast<ld>(static_cast<realof<T>>(vals[i])) - static_cast<ld>(static_cast<realof<T>>(vals[j])));
    const bool sharp = std::abs(d - tol) < 1e-7L * tol && d != tol; // float rounding of the difference
    const bool e     = d <= tol;                                    // false for NaN
    if (sharp) return;
    const Vector<T> va(mkvec(a.v)), vb(mkvec(b.v));
    const bool gv = t < 4 ? ut::all_close(va, vb, tol) : ut::all_close(va, vb);
    if (gv != e) c.fail("all_close", "vectors %s, %s within %g: %d", show(a.v).c_str(), show(b.v).c_str(), tol, gv);
    with_const(c, "operand-changed", ka, a, [&](const auto &A) {
        with_const(c, "operand-changed", ka, b, [&](const auto &B) {
            if constexpr (std::is_same_v<decltype(A), decltype(B)>) {
            const bool gm = t < 4 ? ut::all_close(A, B, tol) : ut::all_close(A, B);
            if (gm != e) c.fail("all_close", "matrices %s, %s within %g: %d", show(a).c_str(), show(b).c_str(), tol, gm);
            }
        });
    });
    c.step(2);
    c.state(mc::mix(mc::mix(mc::mix(i, j), mc::mix(n, pos)), t * 10 + static_cast<unsigned>(ka)) + im + sizeof(T));
}
// The largest and smallest numbers, infinities (equal to themselves only) and not-a-number
// (equal to nothing).
template <typename T1, typename T2>
void extremes(mc::Ctx &c)
{
    auto values = [](auto zero) {
        using T      = decltype(zero);
        using L      = std::numeric_limits<T>;
        const T big  = L::max();
        return std::vector<T>{ T(0), big, -big, static_cast<T>(static_cast<ld>(big) * (1 - 5e-7L)), static_cast<T>(static_cast<ld>(big) * (1 - 1.5e-6L)), static_cast<T>(static_cast<ld>(big) * (1 - 3e-3L)), static_cast<T>(big / 2), L::infinity(), -L::infinity(), L::quiet_NaN(), L::min(), -L::min(), L::denorm_min(), static_cast<T>(L::denorm_min() * 2), T(1), T(-3) };
    };
    static const double ts[] = { 1e-6, 1e-3, 1e-12 };
    const double tol = c.pick(ts, "tolerance");
    const auto xs = values(T1(0));
    const auto ys = values(T2(0));
    const unsigned i = c.choose(static_cast<unsigned>(xs.size()), "a"), pos = c.choose(3, "position");
    c.go();
    Tol set(tol);
    const T1 x = xs[i];
    for (const T2 y : ys) {
        c.note("%s against %s, tolerance %g", str(x).c_str(), str(y).c_str(), tol);
        Tab<T1> a(1, 3, T1(1));
        Tab<T2> b(1, 3, T2(2));
        a.v[pos] = x, b.v[pos] = y;
        auto same = [&](const T1 &p, const T2 &q) -> int {
            if (std::isnan(p) || std::isnan(q)) return 0;
            if (std::isinf(p) || std::isinf(q)) return p == q;
            return near(static_cast<ld>(p), static_cast<ld>(q), static_cast<ld>(tol));
        };
        std::vector<int> eq(3), es(3), gt(3), ge(3), lt(3), le(3), gts(3), ges(3), lts(3), les(3);
        for (unsigned p = 0; p < 3; ++p) {
            const T1 u = a.v[p];
            const T2 v = b.v[p];
            eq[p] = same(u, v), es[p] = same(u, y);
            gt[p] = u > v, ge[p] = u >= v, lt[p] = u < v, le[p] = u <= v;
            gts[p] = u > y, ges[p] = u >= y, lts[p] = u < y, les[p] = u <= y;
        }
        const Matrix<T1> A(mat(a));
        const Matrix<T2> B(mat(b));
        const Vector<T1> va(mkvec(a.v));
        const Vector<T2> vb(mkvec(b.v));
        expect_bits(c, "matrix==", A == B, 1, 3, eq);
        expect_bits(c, "matrix!=", A != B, 1, 3, negated(eq));
        opposite(c, A == B, A != B);
        expect_bits(c, "vector==", va == vb, 1, 3, eq);
        expect_bits(c, "vector!=", va != vb, 1, 3, negated(eq));
        opposite(c, va == vb, va != vb);
        expect_bits(c, "matrix==scalar", A == y, 1, 3, es);
        expect_bits(c, "matrix!=scalar", A != y, 1, 3, negated(es));
        opposite(c, A == y, A != y);
        expect_bits(c, "vector==scalar", va == y, 1, 3, es);
        expect_bits(c, "vector!=scalar", va != y, 1, 3, negated(es));
        opposite(c, va == y, va != y);
        expect_bits(c, "matrix>", A > B, 1, 3, gt);
        expect_bits(c, "matrix>=", A >= B, 1, 3, ge);
        expect_bits(c, "matrix<", A < B, 1, 3, lt);
        expect_bits(c, "matrix<=", A <= B, 1, 3, le);
        expect_bits(c, "matrix>scalar", A > y, 1, 3, gts);
        expect_bits(c, "matrix>=scalar", A >= y, 1, 3, ges);
        expect_bits(c, "matrix<scalar", A < y, 1, 3, lts);
        expect_bits(c, "matrix<=scalar", A <= y, 1, 3, les);
        const bool e = malg::feq::approximately_equal(x, y);
        const int n  = same(x, y);
        if (n >= 0 && e != (n == 1)) c.fail("approximately_equal", "(%s, %s) is %d", str(x).c_str(), str(y).c_str(), e);
        if (e != malg::feq::approximately_equal(y, x)) c.fail("symmetry", "(%s, %s)", str(x).c_str(), str(y).c_str());
        if (!std::isnan(x) && !malg::feq::approximately_equal(x, x)) c.fail("reflexivity", "%s", str(x).c_str());
        if (malg::feq::approximately_lesser_than_equal(x, y) != (x < y || e)) c.fail("lesser", "(%s, %s)", str(x).c_str(), str(y).c_str());
        if (malg::feq::approximately_greater_than_equal(x, y) != (x > y || e)) c.fail("greater", "(%s, %s)", str(x).c_str(), str(y).c_str());
        if (malg::feq::approximately_equal_to_zero(x) != (x == 0)) c.fail("zero", "%s at tolerance %g", str(x).c_str(), tol);
        // Complex: the same values as either part.
        if constexpr (std::is_same_v<T1, T2>) {
            using C = std::complex<T1>;
            const Matrix<C> P(1, 2, C(x, T1(1))), Q(1, 2, C(y, T1(1))), R(1, 2, C(T1(2), x)), S(1, 2, C(T1(2), y));
            const std::vector<int> two(2, n);
            expect_bits(c, "complex==", P == Q, 1, 2, two);
            expect_bits(c, "complex!=", P != Q, 1, 2, negated(two));
            expect_bits(c, "complex==", R == S, 1, 2, two);
            expect_bits(c, "complex!=", R != S, 1, 2, negated(two));
            opposite(c, P == Q, P != Q);
            opposite(c, R == S, R != S);
        }
        c.step(20);
    }
    c.state(mc::mix(mc::mix(i, pos), mc::hv(tol)) + sizeof(T1) * 50 + sizeof(T2) * 3);
}
} // namespace
MC(extremes)
{
    switch (c.choose(6, "type")) {
    case 0: return extremes<double, double>(c);
    case 1: return extremes<float, float>(c);
    case 2: return extremes<ld, ld>(c);
    case 3: return extremes<float, double>(c);
    case 4: return extremes<double, float>(c);
    case 5: return extremes<double, ld>(c);
    }
}
MC(pairs_same)
{
    switch (c.choose(6, "type")) {
    case 0: return pairs<double, double>(c);
    case 1: return pairs<int, int>(c);
    case 2: return pairs<cd, cd>(c);
    case 3: return pairs<float, float>(c);
    case 4: return pairs<long, long>(c);
    case 5: return pairs<ld, ld>(c);
    }
}
MC(pairs_mixed)
{
    switch (c.choose(46, "type")) {
    case 0: return pairs<int, long>(c);
    case 1: return pairs<int, float>(c);
    case 2: return pairs<int, double>(c);
    case 3: return pairs<int, ld>(c);
    case 4: return pairs<long, int>(c);
    case 5: return pairs<long, float>(c);
    case 6: return pairs<long, double>(c);
    case 7: return pairs<long, ld>(c);
    case 8: return pairs<float, int>(c);
    case 9: return pairs<float, long>(c);
    case 10: return pairs<float, double>(c);
    case 11: return pairs<float, ld>(c);
    case 12: return pairs<float, cf>(c);
    case 13: return pairs<float, cd>(c);
    case 14: return pairs<float, cl>(c);
    case 15: return pairs<double, int>(c);
    case 16: return pairs<double, long>(c);
    case 17: return pairs<double, float>(c);
    case 18: return pairs<double, ld>(c);
    case 19: return pairs<double, cf>(c);
    case 20: return pairs<double, cd>(c);
    case 21: return pairs<double, cl>(c);
    case 22: return pairs<ld, int>(c);
    case 23: return pairs<ld, long>(c);
    case 24: return pairs<ld, float>(c);
    case 25: return pairs<ld, double>(c);
    case 26: return pairs<ld, cf>(c);
    case 27: return pairs<ld, cd>(c);
    case 28: return pairs<ld, cl>(c);
    case 29: return pairs<cf, float>(c);
    case 30: return pairs<cf, double>(c);
    case 31: return pairs<cf, ld>(c);
    case 32: return pairs<cf, cf>(c);
    case 33: return pairs<cf, cd>(c);
    case 34: return pairs<cf, cl>(c);
    case 35: return pairs<cd, float>(c);
    case 36: return pairs<cd, double>(c);
    case 37: return pairs<cd, ld>(c);
    case 38: return pairs<cd, cf>(c);
    case 39: return pairs<cd, cl>(c);
    case 40: return pairs<cl, float>(c);
    case 41: return pairs<cl, double>(c);
    case 42: return pairs<cl, ld>(c);
    case 43: return pairs<cl, cf>(c);
    case 44: return pairs<cl, cd>(c);
    case 45: return pairs<cl, cl>(c);
    }
}
MC(shapes)
{
    switch (c.choose(3, "type")) {
    case 0: return shapes<double, double>(c);
    case 1: return shapes<int, double>(c);
    case 2: return shapes<cd, cd>(c);
    }
}
MC(long_shapes)
{
    switch (c.choose(4, "type")) {
    case 0: return long_shapes<double, double>(c);
    case 1: return long_shapes<int, int>(c);
    case 2: return long_shapes<long, long>(c);
    case 3: return long_shapes<cd, cd>(c);
    }
}
MC(close)
{
    switch (c.choose(4, "type")) {
    case 0: return close<double>(c);
    case 1: return close<cd>(c);
    case 2: return close<float>(c);
    case 3: return close<ld>(c);
    }
}
// The tolerance in force at the time of the call: every sequence of settings and comparisons.
MC(tolerance_history)
{
    static const double seq[] = { 1e-6, 1e-3, 0.0, 0.3 };
    Tol keep(1e-6);
    const double x = 1.0, near1 = 1.0 + 1e-5, near2 = 1.2;
    const int depth = c.thorough ? 7 : 5;
    for (int k = 0; k < depth; ++k) {
        const double t = c.pick(seq, "tolerance");
        malg::feq::tolerance() = t;
        const bool e1 = malg::feq::approximately_equal(x, near1), e2 = malg::feq::approximately_equal(x, near2);
        Matrix<double> A(1, 2, x), B(1, 2, near1);
        B(0, 1) = near2;
        auto m  = A == B;
        Vector<cd> u(1, cd(x, x)), w(1, cd(near1, near1));
        if (e1 != (t >= 1e-5 * 1.01) || m(0, 0) != e1 || (u == w)[0] != e1 || (u != w)[0] == e1) c.fail("tolerance", "%g: 1 against 1.00001", t);
        if (e2 != (t > 0.2) || m(0, 1) != e2) c.fail("tolerance", "%g: 1 against 1.2", t);
        c.step(5);
    }
    c.go();
}
// The setting is one setting for the whole program, whichever of its translation units sets it
// and whichever compares.
void unit_b_set(double);
double unit_b_get();
bool unit_b_scalar(double, double), unit_b_matrix(double, double), unit_b_vector(double, double);
MC(tolerance_units)
{
    static const double seq[] = { 1e-6, 1e-3, 0.0, 0.3 };
    Tol keep(1e-6);
    const double x = 1.0, y = 1.0 + 1e-5;
    const int depth = c.thorough ? 5 : 3;
    for (int k = 0; k < depth; ++k) {
        const double t = c.pick(seq, "tolerance");
        const bool b   = c.flip("set in the second unit");
        if (b) unit_b_set(t);
        else malg::feq::tolerance() = t;
        if (malg::feq::tolerance() != t || unit_b_get() != t)
            c.fail("tolerance-units", "set to %g by the %s unit, reads %g in the first and %g in the second", t, b ? "second" : "first", malg::feq::tolerance(), unit_b_get());
        const bool e = t >= 1e-5 * 1.01;
        const bool here[] = { malg::feq::approximately_equal(x, y), malg::all(Matrix<double>(1, 1, x) == Matrix<double>(1, 1, y)) };
        const bool there[] = { unit_b_scalar(x, y), unit_b_matrix(x, y), unit_b_vector(x, y) };
        for (bool g : here)
            if (g != e) c.fail("tolerance-units", "first unit compares with a different tolerance than %g", t);
        for (bool g : there)
            if (g != e) c.fail("tolerance-units", "second unit compares with a different tolerance than %g", t);
        c.step(7);
    }
    c.go();
}
