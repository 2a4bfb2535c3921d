// C08: structural predicates decide exactly their definition.
#include "exact.hpp"
namespace
{
template <typename T>
void definitions(mc::Ctx &c, const Tab<T> &t, int kind, bool det_too)
{
    const size_t r = t.r, k = t.c;
    bool square = r == k, sym = square, skew = square, diag = square, zero = true, constant = true, ident = square, up = square, lo = square;
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < k; ++j) {
            const T x = t(i, j);
            if (x != T(0)) {
                zero = false;
                if (i != j) diag = false;
                if (i > j) up = false;
                if (i < j) lo = false;
            }
            if (x != t.v[0]) constant = false;
            if (x != T(i == j ? 1 : 0)) ident = false;
            if (square && x != t(j, i)) sym = false;
            if (square && x != -t(j, i)) skew = false;
        }
    const std::string w = show(t) + " (" + kname(kind) + ")";
    c.note("%s", w.c_str());
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        auto is = [&](const char *name, bool got, bool want) {
            if (got != want) c.fail(name, "%s answers %s for %s", name, got ? "true" : "false", w.c_str());
        };
        is("is_square", ut::is_square(M), square);
        is("is_column_vector", ut::is_column_vector(M), k == 1);
        is("is_row_vector", ut::is_row_vector(M), r == 1);
        is("is_symmetric", ut::is_symmetric(M), sym);
        is("is_skew_symmetric", ut::is_skew_symmetric(M), skew);
        is("is_diagonal", ut::is_diagonal(M), diag);
        is("is_zero", ut::is_zero(M), zero);
        is("is_constant", ut::is_constant(M), constant);
        is("is_identity", ut::is_identity(M), ident);
        is("is_upper_triangular", ut::is_upper_triangular(M), up);
        is("is_lower_triangular", ut::is_lower_triangular(M), lo);
        c.step(11);
        if (!square) {
            is("is_orthogonal", ut::is_orthogonal(M), false);
            is("is_invertible", ut::is_invertible(M), false);
        } else if (det_too && r > 0) {
            const bool singular = exact_det(t).zero();
            is("is_invertible", ut::is_invertible(M), !singular);
            is("is_linearly_dependent", ut::is_linearly_dependent(M), singular);
            is("is_linearly_independent", ut::is_linearly_independent(M), !singular);
            if constexpr (!is_cx_v<T>) {
                bool orth = true;
                for (size_t i = 0; i < r; ++i)
                    for (size_t j = 0; j < r; ++j) {
                        i128 s = 0;
                        for (size_t l = 0; l < r; ++l) s += static_cast<i128>(t(i, l)) * static_cast<i128>(t(j, l));
                        if (s != (i == j ? 1 : 0)) orth = false;
                    }
                is("is_orthogonal", ut::is_orthogonal(M), orth);
            }
            c.step(4);
        }
    });
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T));
}
template <typename T>
const T *alphabet();
const double ad[] = { 0, 1, -1 };
const int ai[]    = { 0, 1, -1 };
const cd ac[]     = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { -1, 0 } };
} // namespace
// Every content of every shape of at most nine elements.
MC(all_small)
{
    static const size_t shapes[][2] = { { 0, 0 }, { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 1, 3 }, { 3, 1 }, { 2, 3 }, { 3, 2 }, { 0, 3 }, { 3, 0 }, { 1, 4 }, { 4, 1 }, { 3, 3 } };
    const auto &s  = c.pick(shapes, "shape");
    const int kind = static_cast<int>(c.choose(s[0] * s[1] == 9 && !c.thorough ? 3 : K_COUNT, "kind")) * (s[0] * s[1] == 9 && !c.thorough ? 2 : 1);
    if (c.flip("type")) {
        auto t = alphabet_matrix<int>(c, s[0], s[1], ai);
        c.go();
        definitions<int>(c, t, kind, true);
    } else {
        auto t = alphabet_matrix<double>(c, s[0], s[1], ad);
        c.go();
        definitions<double>(c, t, kind, true);
    }
}
MC(complex_small)
{
    static const size_t shapes[][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 } };
    const auto &s  = c.pick(shapes, "shape");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    auto t         = alphabet_matrix<cd>(c, s[0], s[1], ac);
    c.go();
    definitions<cd>(c, t, kind, true);
}
// 4x4 over {0,1}: all of them (also the limit of the closed-form determinants).
MC(bits4)
{
    Tab<double> t(4, 4);
    for (auto &x : t.v) x = c.flip("bit");
    c.go();
    definitions<double>(c, t, K_MATRIX, true);
    Tab<int> u(4, 4);
    for (size_t i = 0; i < 16; ++i) u.v[i] = static_cast<int>(t.v[i]);
    definitions<int>(c, u, K_CONST_VIEW, true);
}
// Unusual values in 2x2 matrices: the definitions are exact, not approximate.
MC(values)
{
    static const double alpha[] = { 0, -0.0, 1, 1 + 1e-12, 1e-9, 1e-300, -1e-9, 5e-324 };
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    auto t         = alphabet_matrix<double>(c, 2, 2, alpha);
    c.go();
    definitions<double>(c, t, kind, false);
}
// Larger matrices that meet a definition except for one element.
namespace
{
template <typename T>
void deviations(mc::Ctx &c)
{
    static const size_t dims[] = { 2, 3, 4, 5, 8, 9, 17, 33, 40, 65, 101 };
    const size_t n    = c.pick(dims, "n");
    const unsigned b  = c.choose(9, "base");
    const int kind    = static_cast<int>(c.choose(K_COUNT, "kind"));
    const size_t pos  = n <= 9 ? c.choose(static_cast<unsigned>(n * n) + 1, "position") : (c.choose(12, "position") * (n * n - 1) + 5) / 10;
    const unsigned dv = c.choose(3, "delta");
    c.go();
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const int lo = static_cast<int>(std::min(i, j)), hi = static_cast<int>(std::max(i, j));
            const T s = T(lo * 3 + hi + 1);
            switch (b) {
            case 0: t(i, j) = T(i == j); break;
            case 1: t(i, j) = T(0); break;
            case 2: t(i, j) = T(7); break;
            case 3: t(i, j) = s; break;
            case 4: t(i, j) = i == j ? T(0) : i < j ? s : -s; break;
            case 5: t(i, j) = i == j ? s : T(0); break;
            case 6: t(i, j) = i <= j ? s : T(0); break;
            case 7: t(i, j) = i >= j ? s : T(0); break;
            case 8: t(i, j) = T(static_cast<int>(i * n + j)); break;
            }
        }
    const double dd[] = { 1, -2, std::is_same_v<realof<T>, ld> ? 0x1p-52 : 1e-7 };
    // Large enough for a narrower type to miss the difference.
    if constexpr (std::is_same_v<T, long>)
        for (auto &x : t.v)
            if (b >= 2) x *= 1l << 48;
    if (pos < n * n) {
        if (dv == 2 && std::is_integral_v<T>) return;
        if constexpr (is_cx_v<T>) t.v[pos] += T(0, dd[dv]);
        else t.v[pos] += static_cast<T>(dd[dv]);
    }
    definitions<T>(c, t, kind, false);
}
// One element off in a large matrix: in every corner, next to it, and in the middle of every side.
template <typename T>
void far_deviations(mc::Ctx &c)
{
    static const size_t dims[] = { 12, 20, 32, 33, 64, 65, 100, 129 };
    const size_t n = c.pick(dims, "n"), at[] = { 0, 1, n / 2, n - 2, n - 1 };
    const unsigned b = c.choose(6, "base");
    const size_t i0 = c.pick(at, "row"), j0 = c.pick(at, "col");
    c.go();
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const T s = T(static_cast<int>(std::min(i, j) * 3 + std::max(i, j) + 1));
            t(i, j)   = b == 0 ? T(i == j) : b == 1 ? T(0) : b == 2 ? s : b == 3 ? (i == j ? T(0) : i < j ? s : -s) : b == 4 ? (i <= j ? s : T(0)) : (i >= j ? s : T(0));
        }
    t(i0, j0) += T(2);
    definitions<T>(c, t, 0, false);
}
// Strips and rectangles with a single deviating element.
template <typename T>
void strips(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 9 }, { 9, 1 }, { 1, 70 }, { 70, 1 }, { 2, 9 }, { 9, 2 }, { 5, 6 }, { 6, 5 } };
    const auto &s     = c.pick(shapes, "shape");
    const unsigned b  = c.choose(3, "base");
    const size_t pos  = c.choose(static_cast<unsigned>(s[0] * s[1]) + 1, "position");
    const int kind    = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    Tab<T> t(s[0], s[1], T(b == 0 ? 0 : b == 1 ? 4 : -1));
    if (pos < t.v.size()) t.v[pos] += T(1);
    definitions<T>(c, t, kind, false);
}
// Orthogonality: rotations, reflections and permutations, exact and perturbed.
void orthogonal(mc::Ctx &c)
{
    const size_t n = 2 + c.choose(5, "n");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    Matrix<double> Q(n, n, 0);
    for (size_t i = 0; i < n; ++i) Q(i, i) = 1;
    Tab<double> q = tab(Q);
    for (int g = 0; g < 3; ++g) {
        const unsigned w = c.choose(6, "factor");
        static const double ang[] = { 0.0, 0.3, 1.2, -2.5 };
        const size_t a = static_cast<size_t>(g) % n, b = (static_cast<size_t>(g) + 1 + w % 2) % n;
        Tab<double> o = q;
        if (w < 4) {
            if (a == b) continue;
            const double s = std::sin(ang[w]), co = std::cos(ang[w]);
            for (size_t j = 0; j < n; ++j) q(a, j) = co * o(a, j) - s * o(b, j), q(b, j) = s * o(a, j) + co * o(b, j);
        } else if (w == 4) {
            for (size_t j = 0; j < n; ++j) std::swap(q(a, j), q(b, j));
        } else {
            for (size_t j = 0; j < n; ++j) q(a, j) = -o(a, j);
        }
    }
    const size_t pos  = c.choose(static_cast<unsigned>(n * n), "position");
    const unsigned dv = c.choose(4, "delta");
    c.go();
    const double dd[] = { 0, 1e-9, 1e-2, -0.5 };
    // A perturbation moves the orthogonality defect by at least delta^2.
    q.v[pos] += dd[dv];
    double defect = 0;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double s = i == j ? -1 : 0;
            for (size_t k = 0; k < n; ++k) s += q(i, k) * q(j, k);
            defect = std::max(defect, std::abs(s));
        }
    if (defect > 1e-8 && defect < 1e-5) return; // around the tolerance
    with_const(c, "operand-changed", kind, q, [&](const auto &M) {
        if (ut::is_orthogonal(M) != (defect < 1e-7)) c.fail("is_orthogonal", "defect %g of %s", defect, show(q).c_str());
    });
    c.step();
    c.state(mc::mix(q.hash(), static_cast<unsigned>(kind)));
}
// Invertibility of larger matrices (floating point: exactly singular by a zero or repeated row, or a zero column).
void larger(mc::Ctx &c)
{
    const size_t n = 5 + c.choose(3, "n");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    Tab<double> t  = menu_matrix<double>(c, n, 5, 2);
    const unsigned how = c.choose(4, "defect");
    const size_t p = c.choose(static_cast<unsigned>(n), "p"), q = c.choose(static_cast<unsigned>(n), "q");
    c.go();
    if (how == 1)
        for (size_t j = 0; j < n; ++j) t(p, j) = 0;
    if (how == 2)
        for (size_t i = 0; i < n; ++i) t(i, p) = 0;
    if (how == 3) {
        if (p == q) return;
        for (size_t j = 0; j < n; ++j) t(q, j) = t(p, j);
    }
    const bool singular = exact_det(t).zero();
    if (how == 0 && (singular || p || q)) return; // singular by another dependency: within rounding only
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        if (ut::is_invertible(M) == singular) c.fail("is_invertible", "%s", show(t).c_str());
        if (ut::is_linearly_dependent(M) != singular) c.fail("is_linearly_dependent", "%s", show(t).c_str());
        if (ut::is_linearly_independent(M) == singular) c.fail("is_linearly_independent", "%s", show(t).c_str());
    });
    c.step(3);
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)));
}
} // namespace
MC(deviations)
{
    switch (c.choose(5, "type")) {
    case 3: return deviations<long>(c);
    case 4: return deviations<ld>(c);
    case 0: return deviations<double>(c);
    case 1: return deviations<int>(c);
    case 2: return deviations<cd>(c);
    }
}
MC(far_deviations)
{
    if (c.flip("type")) far_deviations<int>(c);
    else far_deviations<double>(c);
}
MC(long_strips)
{
    const Shape s     = long_shape(c, 520, 5000);
    const unsigned b  = c.choose(3, "base");
    const size_t n = s.r * s.k, at[] = { 0, n / 2, n - 2, n - 1, n };
    const size_t pos = c.pick(at, "position");
    c.go();
    Tab<double> t(s.r, s.k, b == 0 ? 0 : b == 1 ? 4 : -1);
    if (pos < n) t.v[pos] += 1;
    definitions<double>(c, t, 0, false);
}
MC(strips)
{
    if (c.flip("type")) strips<int>(c);
    else strips<double>(c);
}
MC(orthogonal) { orthogonal(c); }
MC(larger) { larger(c); }
