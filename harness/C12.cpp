// C12: QR factors.
#include "near.hpp"
namespace
{
template <typename T>
void check(mc::Ctx &c, const Tab<T> &t)
{
    using D        = common_t<T, double>;
    const size_t r = t.r, n = t.c;
    c.note("%s", show(t).c_str());
    const Matrix<T> M(mat(t));
    const auto res = la::qr_decomposition(M);
    const auto &q  = res.first;
    const auto &R  = res.second;
    static_assert(std::is_same_v<std::decay_t<decltype(q)>, Matrix<D>> && std::is_same_v<std::decay_t<decltype(R)>, Matrix<D>>);
    if (tab(M) != t) c.fail("operand-changed", "%s now %s", show(t).c_str(), show(tab(M)).c_str());
    if (q.rows() != r || q.cols() != r || R.rows() != r || R.cols() != n) c.fail("shape", "factors of %s are %zux%zu and %zux%zu", show(t).c_str(), q.rows(), q.cols(), R.rows(), R.cols());
    const ld eps = std::numeric_limits<D>::epsilon(), slack = 40 * (static_cast<ld>(r) + 2) * (static_cast<ld>(n) + 2) * eps;
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < r; ++j) {
            ld s = 0, o = 0;
            for (size_t k = 0; k < r; ++k) s += static_cast<ld>(q(k, i)) * q(k, j), o += static_cast<ld>(q(i, k)) * q(j, k);
            if (!(std::abs(s - (i == j)) <= slack) || !(std::abs(o - (i == j)) <= slack)) c.fail("orthogonal", "Q of %s is not orthogonal at (%zu,%zu): %Lg %Lg", show(t).c_str(), i, j, s, o);
        }
    for (size_t j = 0; j < n; ++j) {
        ld norm = 0;
        for (size_t i = 0; i < r; ++i) norm = std::max(norm, std::abs(static_cast<ld>(t(i, j))));
        for (size_t i = 0; i < r; ++i) {
            if (i > j && R(i, j) != 0) c.fail("upper", "R of %s has %g at (%zu,%zu)", show(t).c_str(), double(R(i, j)), i, j);
            ld s = 0;
            for (size_t k = 0; k < r; ++k) s += static_cast<ld>(q(i, k)) * R(k, j);
            if (!(std::abs(s - static_cast<ld>(t(i, j))) <= slack * std::sqrt(static_cast<ld>(r)) * norm)) c.fail("product", "Q*R of %s has %Lg at (%zu,%zu): Q = %s, R = %s", show(t).c_str(), s, i, j, show(tab(q)).c_str(), show(tab(R)).c_str());
        }
    }
    c.step();
    c.state(t.hash() + sizeof(T) + std::is_integral_v<T>);
}
// Every content from an alphabet on small shapes.
template <typename T>
void alphabet(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 1 }, { 2, 1 }, { 2, 2 }, { 3, 1 }, { 3, 2 }, { 3, 3 }, { 4, 1 }, { 4, 2 }, { 5, 1 } };
    const auto &s    = c.pick(shapes, "shape");
    static const int z[] = { 0, 1, -2, 5, -1 };
    const unsigned k = s[0] * s[1] >= 9 ? (c.thorough ? 4 : 3) : s[0] * s[1] >= 8 ? 3 : 5;
    Tab<T> t(s[0], s[1]);
    for (auto &x : t.v) x = static_cast<T>(z[c.choose(k, "entry")]);
    c.go();
    check(c, t);
}
// Every choice of columns from a menu (repeated, opposite, zero, sparse, dense).
template <typename T>
void columns(mc::Ctx &c)
{
    const size_t r = 2 + c.choose(c.thorough ? 8 : 6, "rows"), n = 1 + c.choose(static_cast<unsigned>(r), "cols");
    Tab<T> t(r, n);
    for (size_t j = 0; j < n; ++j) {
        const unsigned m = j < (n > 4 ? 3u : 4u) ? c.choose(n > 4 ? 8 : 7, "column") : static_cast<unsigned>(j * 5 + 2) % 8;
        for (size_t i = 0; i < r; ++i) {
            int x = 0;
            if (m == 0) x = 0;
            else if (m == 1) x = i + 1 == r ? 3 : 0;
            else if (m == 2) x = i == 0 ? -2 : 0;
            else if (m == 3) x = 1;
            else x = static_cast<int>(menu_entry<double>((m * 2 + 1) % 8, i, r));
            t(i, j) = static_cast<T>(x);
        }
    }
    c.go();
    check(c, t);
}
// Tall and large shapes.
void sizes(mc::Ctx &c)
{
    static const size_t rows[] = { 7, 8, 9, 15, 16, 17, 31, 33, 64, 65 };
    const size_t r      = c.pick(rows, "rows");
    const unsigned w    = c.choose(4, "width"), form = c.choose(5, "form");
    c.go();
    const size_t n = w == 0 ? 1 : w == 1 ? 3 : w == 2 ? r - 1 : r;
    Tab<double> t(r, n);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j) switch (form) {
            case 0: t(i, j) = std::sin(static_cast<double>(i * 7 + j * 3 + i * j)); break;
            case 1: t(i, j) = i == j ? 1 : 0; break;
            case 2: t(i, j) = i > j ? 0 : static_cast<double>(i + j) - 3; break;
            case 3: t(i, j) = i + j + 1 == r ? -1 : 0; break;
            case 4: t(i, j) = static_cast<double>(i + 1) * static_cast<double>(j % 2 ? -1 : 2); break; // rank one
            }
    check(c, t);
}
// Rows and columns of very different size.
void scaled(mc::Ctx &c)
{
    static const int ex[] = { 0, 100, -100, 400, -400 };
    const size_t r = 1 + c.choose(5, "rows"), n = 1 + c.choose(static_cast<unsigned>(r), "cols");
    const size_t q = c.choose(static_cast<unsigned>(n), "column"), z = c.choose(static_cast<unsigned>(r), "zero entry");
    const int f = c.pick(ex, "column exponent"), all = c.pick(ex, "exponent");
    c.go();
    Tab<double> t(r, n);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j) {
            t(i, j) = menu_entry<double>((i * 3 + 5) % 8, j, n) + (i == j ? 4 : 0);
            if (i == z) t(i, j) = 0;
            t(i, j) = std::ldexp(t(i, j), j == q ? f / 2 + all : all);
        }
    check(c, t);
}
// Elements of very different size next to each other.
template <typename T>
void graded(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 2, 1 }, { 2, 2 }, { 3, 1 }, { 3, 2 }, { 3, 3 }, { 4, 1 }, { 4, 2 } };
    const auto &s     = c.pick(shapes, "shape");
    const size_t n    = s[0] * s[1];
    const unsigned m  = n <= 4 ? 7 : n <= 6 ? 5 : c.thorough && n == 9 ? 4 : 3;
    const int half    = std::numeric_limits<T>::digits / 2 + 1;
    const T z[] = { T(1), std::ldexp(T(-1), half), std::ldexp(T(1), -half), T(0), std::ldexp(T(3), 2 * half), std::ldexp(T(-5), half / 2), std::ldexp(T(-3), -2 * half) };
    Tab<T> t(s[0], s[1]);
    for (auto &x : t.v) x = z[c.choose(m, "entry")];
    c.go();
    check(c, t);
}
// Matrices that miss a structure by one small element; the last columns may be missing.
template <typename T>
void nearly(mc::Ctx &c)
{
    const Tab<T> t = near_matrix<T>(c, 2, c.thorough ? 9 : 7);
    const size_t k = c.choose(static_cast<unsigned>(std::min<size_t>(t.c, 3)), "columns left out");
    c.go();
    Tab<T> u(t.r, t.c - k);
    for (size_t i = 0; i < u.r; ++i)
        for (size_t j = 0; j < u.c; ++j) u(i, j) = t(i, j);
    check(c, u);
}
} // namespace
MC(nearly)
{
    switch (c.choose(3, "type")) {
    case 0: return nearly<double>(c);
    case 1: return nearly<float>(c);
    case 2: return nearly<ld>(c);
    }
}
MC(graded)
{
    switch (c.choose(3, "type")) {
    case 0: return graded<double>(c);
    case 1: return graded<float>(c);
    case 2: return graded<ld>(c);
    }
}
MC(alphabet)
{
    switch (c.choose(5, "type")) {
    case 3: return alphabet<long>(c);
    case 4: return alphabet<ld>(c);
    case 0: return alphabet<double>(c);
    case 1: return alphabet<int>(c);
    case 2: return alphabet<float>(c);
    }
}
MC(columns)
{
    switch (c.choose(3, "type")) {
    case 2: return columns<ld>(c);
    case 0: return columns<double>(c);
    case 1: return columns<int>(c);
    }
}
MC(sizes) { sizes(c); }
MC(scaled) { scaled(c); }
