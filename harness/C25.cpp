// C25: polynomials from roots and matrices.
#include "exact.hpp"
namespace
{
namespace ctl = malg::control;
using GV = std::vector<G>;
GV exact_roots(const GM &roots)
{
    GV p{ G{ 1, 0 } };
    for (auto &row : roots)
        for (auto &x : row) {
            p.push_back(G{});
            for (size_t i = p.size() - 1; i >= 1; --i) p[i] = p[i] - x * p[i - 1];
        }
    return p;
}
// Samuelson-Berkowitz: no division at all.
GV exact_charpoly(const GM &a)
{
    const size_t n = a.size();
    GV p{ G{ 1, 0 } };
    for (size_t k = 0; k < n; ++k) {
        // Leading block M = a[0..k), row R = a[k][0..k), column S = a[0..k)[k].
        GV t{ G{ 1, 0 }, G{} - a[k][k] }, s(k);
        for (size_t i = 0; i < k; ++i) s[i] = a[i][k];
        for (size_t m = 0; m < k; ++m) {
            G d{};
            for (size_t i = 0; i < k; ++i) d = d + a[k][i] * s[i];
            t.push_back(G{} - d);
            GV ms(k);
            for (size_t i = 0; i < k; ++i)
                for (size_t j = 0; j < k; ++j) ms[i] = ms[i] + a[i][j] * s[j];
            s = ms;
        }
        GV q(k + 2);
        for (size_t i = 0; i < k + 2; ++i)
            for (size_t j = 0; j <= i && j < p.size(); ++j) q[i] = q[i] + t[i - j] * p[j];
        p = q;
    }
    return p;
}
// Coefficients: exact for integer types, to rounding (relative to the size of the contributions)
// otherwise.
template <typename T>
void expect(mc::Ctx &c, const char *key, const Vector<T> &got, const GV &want, ld size, const std::string &what)
{
    if (got.size() != want.size()) c.fail(key, "%zu coefficients instead of %zu for %s", got.size(), want.size(), what.c_str());
    for (size_t i = 0; i < want.size(); ++i) {
        const cl w = num(want[i]);
        if constexpr (std::is_integral_v<T>) {
            if (got[i] != static_cast<T>(want[i].re)) c.fail(key, "coefficient %zu is %s instead of %Lg for %s", i, str(got[i]).c_str(), w.real(), what.c_str());
        } else {
            const ld tol = 64 * std::numeric_limits<realof<T>>::epsilon() * std::pow(1 + size, static_cast<ld>(i));
            if (!(std::abs(wide(got[i]) - w) <= tol)) c.fail(key, "coefficient %zu is %s instead of %Lg%+Lgi for %s", i, str(got[i]).c_str(), w.real(), w.imag(), what.c_str());
        }
    }
    // Monic exactly.
    if (!same<T>(got[0], T(1))) c.fail(key, "leading coefficient %s for %s", str(got[0]).c_str(), what.c_str());
}
template <typename T>
ld row_norm(const Tab<T> &t)
{
    ld m = 0;
    for (size_t i = 0; i < t.r; ++i) {
        ld s = 0;
        for (size_t j = 0; j < t.c; ++j) s += std::abs(wide(t(i, j)));
        m = std::max(m, s);
    }
    return m;
}
template <typename T>
void check_roots(mc::Ctx &c, const std::vector<T> &roots)
{
    Tab<T> row(1, roots.size()), col(roots.size(), 1);
    row.v = col.v = roots;
    const GV want = exact_roots(exact(col));
    ld size       = 0;
    for (auto &x : roots) size = std::max(size, std::abs(wide(x)));
    size *= 2;
    const Vector<T> v(mkvec(roots));
    expect(c, "roots", ctl::poly(v), want, size, "the roots " + show(roots));
    check_vec(c, "operand-changed", v, roots);
    c.step();
    if (roots.empty()) return;
    for (int kind = 0; kind < K_MUTABLE; ++kind)
        for (auto *t : { &row, &col })
            with_const(c, "operand-changed", kind, *t, [&](const auto &m) {
                using E = typename std::remove_reference_t<decltype(m)>::value_type;
                if constexpr (!std::is_const_v<E>) expect(c, "roots", ctl::poly(m), want, size, std::string("the ") + kname(kind) + " " + show(*t));
                c.step();
            });
    c.state(row.hash() + sizeof(T) + std::is_integral_v<T>);
}
template <typename T>
void check_matrix(mc::Ctx &c, const Tab<T> &t, int kind)
{
    const GM a    = exact(t);
    const GV want = exact_charpoly(a);
    // The reference itself: signed determinant, and the matrix satisfies it.
    const G det = exact_det(a), last = want.back();
    if (!((t.r % 2 ? G{} - det : det) - last).zero()) c.fail("harness", "reference polynomial of %s", show(t).c_str());
    with_const(c, "operand-changed", kind, t, [&](const auto &m) {
        using E = typename std::remove_reference_t<decltype(m)>::value_type;
        if constexpr (!std::is_const_v<E>) expect(c, "characteristic", ctl::poly(m), want, 2 * row_norm(t), std::string("the ") + kname(kind) + " " + show(t));
    });
    c.step();
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T) + std::is_integral_v<T>);
}
template <typename T>
T root_value(unsigned i)
{
    static const int v[][2] = { { 0, 0 }, { 1, 0 }, { -1, 2 }, { 3, -1 }, { -2, 0 }, { 0, 1 }, { 7, 0 } };
    if constexpr (is_cx_v<T>) return T(static_cast<realof<T>>(v[i][0]), static_cast<realof<T>>(v[i][1]));
    else return static_cast<T>(v[i][0]);
}
template <typename T>
void roots(mc::Ctx &c)
{
    const size_t n = c.choose(c.thorough ? 7 : 5, "size");
    std::vector<T> r(n);
    for (auto &x : r) x = root_value<T>(c.choose(n > 4 ? 5 : 7, "root"));
    c.go();
    check_roots(c, r);
}
template <typename T>
void many_roots(mc::Ctx &c)
{
    const size_t n = 5 + c.choose(16, "size");
    const unsigned salt = c.choose(4, "content");
    c.go();
    std::vector<T> r(n);
    for (size_t i = 0; i < n; ++i) {
        const int k = static_cast<int>((i * (salt + 1) + salt) % 3) - 1;
        r[i]        = T(k);
        if constexpr (is_cx_v<T>) r[i] = T(static_cast<realof<T>>(k), static_cast<realof<T>>(k == 0 ? 1 : 0));
    }
    check_roots(c, r);
}
// Larger matrices whose polynomials have small coefficients.
template <typename T>
void large_matrices(mc::Ctx &c)
{
    static const size_t ns[] = { 7, 8, 9, 10, 12, 16, 17, 20 };
    const size_t n      = c.pick(ns, "size");
    const unsigned form = c.choose(n > 10 ? 2 : 3, "form"), salt = c.choose(3, "content");
    const int kind      = static_cast<int>(c.choose(3, "kind"));
    c.go();
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i) {
        switch (form) {
        case 0: t(i, (i + 1) % n) = T((i + salt) % 3 ? 1 : -1); break; // cycle
        case 1:                                                       // two cycles
            t(i, i < n / 2 ? (i + 1) % (n / 2) : i + 1 < n ? i + 1 : n / 2) = T((i + salt) % 4 ? 1 : -1);
            break;
        default: // triangular
            t(i, i) = T(static_cast<int>((i + salt) % 3) - 1);
            if (i + 1 < n) t(i, i + 1) = T(1);
            if (i + 3 < n) t(i, i + 3) = T(-1);
        }
    }
    if constexpr (is_cx_v<T>) t(n - 1, form == 0 ? 0 : form == 1 ? n / 2 : n - 1) = T(0, 1);
    check_matrix(c, t, kind);
}
template <typename T>
void two(mc::Ctx &c)
{
    const T alpha[] = { T(0), T(1), T(-2), T(3), root_value<T>(2), root_value<T>(5) };
    auto t          = alphabet_matrix<T>(c, 2, 2, alpha);
    const int kind  = static_cast<int>(c.choose(K_MUTABLE, "kind"));
    c.go();
    check_matrix(c, t, kind);
}
template <typename T>
void three(mc::Ctx &c)
{
    const T alpha[] = { T(0), root_value<T>(5) + T(1), T(-2) };
    auto t          = alphabet_matrix<T>(c, 3, 3, alpha);
    c.go();
    check_matrix(c, t, 0);
}
template <typename T>
void menu(mc::Ctx &c)
{
    const size_t n = 3 + c.choose(c.thorough ? 7 : 5, "size");
    auto t         = menu_matrix<T>(c, n, 8, n <= 4 ? 3 : 2);
    const int kind = static_cast<int>(c.choose(2, "kind")) * 3;
    c.go();
    check_matrix(c, t, kind);
}
// Shapes: empty gives 1, anything neither square nor a strip is rejected.
template <typename T>
void shapes(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 10 : 7;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols");
    const int kind = static_cast<int>(c.choose(K_MUTABLE, "kind"));
    c.go();
    Tab<T> t(r, k);
    for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = T(static_cast<int>((i * 5 + r) % 5) - 2);
    if (t.size() && r == k && r > 1) return check_matrix(c, t, kind);
    if (t.size() && (r == 1 || k == 1)) return check_roots(c, t.v);
    with_const(c, "operand-changed", kind, t, [&](const auto &m) {
        using E = typename std::remove_reference_t<decltype(m)>::value_type;
        if constexpr (!std::is_const_v<E>) {
            Vector<T> p;
            const bool rejected = throws([&] { p = ctl::poly(m); });
            if (t.size() == 0 && (rejected || !veq(p, std::vector<T>{ T(1) }))) c.fail("empty", "poly of a %zux%zu matrix is %s", r, k, rejected ? "rejected" : show(vec(p)).c_str());
            if (t.size() && !rejected) c.fail("reject", "poly of a %zux%zu matrix gives %s", r, k, show(vec(p)).c_str());
        }
    });
    c.step();
    c.state(mc::mix(r, k) + static_cast<unsigned>(kind) + sizeof(T));
}
// Removing leading zeros.
template <typename T>
void reduce(mc::Ctx &c)
{
    T alpha[] = { T(0), T(1), T(-2), T(0) };
    if constexpr (is_cx_v<T>) alpha[2] = T(0, -2), alpha[3] = T(-0.0f, -0.0f);
    else if constexpr (std::is_floating_point_v<T>) alpha[2] = std::numeric_limits<T>::denorm_min(), alpha[3] = T(-0.0f);
    const size_t n = c.choose(c.thorough ? 9 : 7, "size");
    std::vector<T> p(n);
    for (auto &x : p) x = alpha[c.choose(n > 5 ? 3 : 4, "coefficient")];
    c.go();
    const Vector<T> v(mkvec(p));
    auto got = ctl::polyreduce(v);
    size_t z = 0;
    while (z < n && p[z] == T(0)) ++z;
    std::vector<T> want(p.begin() + static_cast<long>(z), p.end());
    if (want.empty()) want.push_back(T(0));
    check_vec(c, "reduce", got, want);
    check_vec(c, "operand-changed", v, p);
    c.step();
    c.state(column(p).hash() + sizeof(T) + std::is_integral_v<T>);
}
void reduce_long(mc::Ctx &c)
{
    static const size_t sizes[] = { 8, 63, 64, 65, 1000 };
    const size_t n = c.pick(sizes, "size"), z = c.choose(6, "zeros");
    c.go();
    const size_t zeros = z == 0 ? 0 : z == 1 ? 1 : z == 2 ? n / 2 : z == 3 ? n - 2 : z == 4 ? n - 1 : n;
    std::vector<double> p(n, 0.0);
    for (size_t i = zeros; i < n; ++i) p[i] = i % 3 == 1 && i != zeros ? 0.0 : static_cast<double>(i) + 1;
    auto got = ctl::polyreduce(mkvec(p));
    std::vector<double> want(p.begin() + static_cast<long>(zeros), p.end());
    if (want.empty()) want.push_back(0);
    check_vec(c, "reduce", got, want);
    c.step();
    c.state(mc::mix(n, zeros));
}
} // namespace
// Contents that only the wide types hold: roots and matrices whose every coefficient (and trace on the way) is exact.
template <typename T>
void wide_contents(mc::Ctx &c)
{
    if (c.flip("roots")) {
        const size_t n = 1 + c.choose(4, "roots");
        static const int bits[] = { 0, 61, 30, 19, 14 };
        std::vector<T> r(n);
        for (auto &x : r) {
            const long v = (1l << bits[n]) - static_cast<long>(c.choose(4, "root"));
            x            = static_cast<T>(c.flip("negative") ? -v : v);
        }
        c.go();
        const GV want = exact_roots(exact(column(r)));
        const Vector<T> v(mkvec(r));
        const auto got = ctl::poly(v);
        Tab<T> row(1, n);
        row.v           = r;
        const auto also = ctl::poly(mat(row));
        if (got.size() != n + 1 || also.size() != n + 1) c.fail("wide", "%zu coefficients for %s", got.size(), show(r).c_str());
        for (size_t i = 0; i <= n; ++i)
            if (got[i] != static_cast<T>(want[i].re) || also[i] != static_cast<T>(want[i].re)) c.fail("wide", "coefficient %zu is %s, %s instead of %.21Lg for the roots %s", i, str(got[i]).c_str(), str(also[i]).c_str(), num(want[i]).real(), show(r).c_str());
        c.step(2);
        c.state(column(r).hash());
    } else {
        auto t = wide_matrix<T>(c, 3);
        c.go();
        // The sums on the way are larger than the coefficients.
        for (auto &x : t.v) x = static_cast<T>(static_cast<long>(x) / (t.r == 3 ? 4 : t.r == 2 ? 2 : 1));
        const GV want = exact_charpoly(exact(t));
        const auto got = ctl::poly(mat(t));
        if (got.size() != t.r + 1) c.fail("wide", "%zu coefficients for %s", got.size(), show(t).c_str());
        for (size_t i = 0; i <= t.r; ++i)
            if (got[i] != static_cast<T>(want[i].re)) c.fail("wide", "coefficient %zu is %s instead of %.21Lg for %s", i, str(got[i]).c_str(), num(want[i]).real(), show(t).c_str());
        c.step();
        c.state(t.hash());
    }
}
MC(wide_contents)
{
    if (c.flip("type")) wide_contents<ld>(c);
    else wide_contents<long>(c);
}
#define TYPES(name)                        \
    MC(name)                               \
    {                                      \
        switch (c.choose(8, "type")) {     \
        case 5: return name<long>(c);      \
        case 6: return name<ld>(c);        \
        case 7: return name<cl>(c);        \
        case 0: return name<double>(c);    \
        case 1: return name<cd>(c);        \
        case 2: return name<int>(c);       \
        case 3: return name<float>(c);     \
        case 4: return name<cf>(c);        \
        }                                  \
    }
TYPES(roots)
TYPES(many_roots)
TYPES(large_matrices)
TYPES(two)
TYPES(three)
TYPES(menu)
TYPES(shapes)
TYPES(reduce)
MC(reduce_long) { reduce_long(c); }
