// C13: linear systems.
#include "near.hpp"
namespace
{
GM transposed(const GM &m, size_t cols)
{
    GM r(cols, std::vector<G>(m.size()));
    for (size_t i = 0; i < m.size(); ++i)
        for (size_t j = 0; j < cols; ++j) r[j][i] = m[i][j];
    return r;
}
// Adjoint of an exact matrix.
GM adjugate(const GM &m)
{
    const size_t n = m.size();
    GM a(n, std::vector<G>(n));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const G d = n == 1 ? G{ 1, 0 } : exact_det(exact_minor(m, j, i));
            a[i][j]   = (i + j) % 2 ? G{} - d : d;
        }
    return a;
}
template <typename T>
struct Solution {
    bool unique = false;
    std::vector<cl> x;
    std::vector<ld> size; // sum of the absolute contributions
};
// The exact answer: A^-1 b, (A'A)^-1 A'b or A'(AA')^-1 b.
template <typename T>
Solution<T> reference(const Tab<T> &a, const std::vector<T> &b)
{
    Solution<T> s;
    const GM A = exact(a), At = transposed(A, a.c);
    const bool square = a.r == a.c;
    const GM K  = square ? A : a.r > a.c ? exact_mul(At, A) : exact_mul(A, At);
    const G det = exact_det(K);
    if (det.zero()) return s;
    s.unique      = true;
    const GM W    = square ? adjugate(K) : a.r > a.c ? exact_mul(adjugate(K), At) : exact_mul(At, adjugate(K));
    const cl d    = num(det);
    for (size_t i = 0; i < a.c; ++i) {
        cl x    = 0;
        ld size = 0;
        for (size_t j = 0; j < a.r; ++j) x += num(W[i][j]) * wide(b[j]) / d, size += std::abs(num(W[i][j]) / d) * std::abs(wide(b[j]));
        s.x.push_back(x);
        s.size.push_back(size);
    }
    // Size of everything for the tolerance: condition of the (squared) system.
    ld na = 0, nw = 0, nb = 0;
    for (auto &x : a.v) na = std::max(na, std::abs(wide(x)));
    for (auto &x : b) nb = std::max(nb, std::abs(wide(x)));
    for (auto &r : W)
        for (auto &g : r) nw = std::max(nw, std::abs(num(g) / d));
    const ld n    = static_cast<ld>(std::max(a.r, a.c));
    const ld cond = n * n * na * nw;
    for (auto &z : s.size) z = (z + n * nw * nb) * (1 + cond) * (1 + cond);
    return s;
}
template <typename T>
void check(mc::Ctx &c, const Tab<T> &a, const std::vector<T> &b)
{
    const auto s = reference(a, b);
    using D      = common_t<T, double>;
    c.note("%s x = %s", show(a).c_str(), show(b).c_str());
    const Matrix<T> A(mat(a));
    const Vector<T> B(mkvec(b));
    Vector<D> x;
    const bool thrown = throws([&] {
        auto got = la::solve(A, B);
        static_assert(std::is_same_v<decltype(got), Vector<D>>);
        x = std::move(got);
    });
    if (tab(A) != a) c.fail("matrix-changed", "%s", show(a).c_str());
    if (!veq(B, b)) c.fail("vector-changed", "%s", show(b).c_str());
    c.step();
    c.state(mc::mix(a.hash(), column(b).hash()) + sizeof(T) + std::is_integral_v<T>);
    if (!s.unique) return; // not claimed; memory is still watched
    if (thrown) c.fail("rejected", "%s x = %s is rejected", show(a).c_str(), show(b).c_str());
    if (x.size() != a.c) c.fail("length", "the solution of %s has %zu elements", show(a).c_str(), x.size());
    for (size_t i = 0; i < a.c; ++i)
        if (!(std::abs(wide(x[i]) - s.x[i]) <= 450 * static_cast<ld>(std::numeric_limits<D>::epsilon()) * s.size[i])) c.fail("solution", "of %s x = %s: element %zu is %s, should be %Lg%+Lgi", show(a).c_str(), show(b).c_str(), i, str(x[i]).c_str(), s.x[i].real(), s.x[i].imag());
}
template <typename T>
std::vector<T> rhs(unsigned k, size_t n)
{
    std::vector<T> b(n);
    for (size_t i = 0; i < n; ++i) b[i] = static_cast<T>(k == 0 ? static_cast<int>(i * i % 7) - 2 : k == 1 ? (i + 1 == n ? 1 : 0) : k == 2 ? (i == 0 ? -3 : 0) : k == 3 ? 0 : 1);
    return b;
}
// Every content from an alphabet on small shapes, every right-hand side.
template <typename T>
void alphabet(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 1 }, { 2, 2 }, { 3, 3 }, { 2, 1 }, { 3, 1 }, { 3, 2 }, { 4, 2 }, { 1, 2 }, { 1, 3 }, { 2, 3 }, { 2, 4 } };
    const auto &s        = c.pick(shapes, "shape");
    static const int z[] = { 1, -2, 0, 5, -1 };
    const unsigned k     = s[0] * s[1] >= 8 ? 3 : 5, m = s[0] * s[1] == 9 && !c.thorough ? 1 : 3;
    Tab<T> t(s[0], s[1]);
    for (auto &x : t.v) x = static_cast<T>(z[c.choose(k, "entry")]);
    const unsigned r = c.choose(m, "rhs");
    c.go();
    check(c, t, rhs<T>(r, s[0]));
}
template <typename T>
void menus(mc::Ctx &c)
{
    const size_t r = 1 + c.choose(c.thorough ? 7 : 6, "rows"), n = 1 + c.choose(c.thorough ? 7 : 6, "cols");
    const size_t m = std::max(r, n);
    const unsigned k = c.choose(5, "rhs"), d = c.choose(2, "diagonal");
    Tab<T> t(r, n), w(m, m);
    w = menu_matrix<T>(c, m, 8, std::min<size_t>(m, c.thorough ? 4 : 3));
    c.go();
    if (std::is_integral_v<T> && std::min(r, n) > 4) return; // truncating integer determinants are recorded under C09
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j) t(i, j) = w(i, j) + static_cast<T>(i == j ? 4 * d : 0);
    check(c, t, rhs<T>(k, r));
}
void sizes(mc::Ctx &c)
{
    static const size_t dims[][2] = { { 20, 1 }, { 20, 2 }, { 33, 3 }, { 65, 2 }, { 1, 20 }, { 2, 33 }, { 3, 65 }, { 9, 8 }, { 8, 9 }, { 8, 8 }, { 10, 4 }, { 4, 10 } };
    const auto &d       = c.pick(dims, "shape");
    const unsigned form = c.choose(3, "form"), k = c.choose(5, "rhs");
    c.go();
    Tab<double> t(d[0], d[1]);
    for (size_t i = 0; i < t.r; ++i)
        for (size_t j = 0; j < t.c; ++j) t(i, j) = form == 0 ? (i == j ? 4 : static_cast<int>((i * 5 + j * 3) % 5) - 2) : form == 1 ? (i % d[1] == j || j % d[0] == i ? 2 : 0) : (i + j) % 7 < 2 ? 1 : (i == j ? 3 : 0);
    if (std::min(t.r, t.c) > 5) { // small determinants for the exact reference
        for (size_t i = 0; i < t.r; ++i)
            for (size_t j = 0; j < t.c; ++j) t(i, j) = i == j ? 2 : i + 1 == j ? -1 : (form && i == j + 1) ? 1 : 0;
    }
    check(c, t, rhs<double>(k, d[0]));
}
// Overdetermined systems whose columns are nearly dependent (Laeuchli: a row of ones over multiples of a tiny
// diagonal, in every row order, with extra rows): the equations can be satisfied exactly, so the error allowed
// grows with the condition number, not with its square.
void nearly_dependent(mc::Ctx &c)
{
    const size_t n = 2 + c.choose(2, "cols");
    const size_t m = n + 1 + c.choose(3, "extra rows");
    const int e    = 2 + static_cast<int>(c.choose(n == 2 ? 23 : 17, "exponent"));
    const size_t shift = c.choose(static_cast<unsigned>(m), "row order");
    const unsigned which = c.choose(4, "solution"), signs = c.choose(2, "signs");
    c.go();
    // The matrix times 2^e is exact in integers; x satisfies both.
    const i128 one = i128(1) << e;
    Tab<double> t(m, n);
    std::vector<double> b(m, 0.0);
    std::vector<double> x(n);
    for (size_t j = 0; j < n; ++j) x[j] = which == 0 ? 1 : which == 1 ? (j == 0 ? 2 : -1) : which == 2 ? static_cast<double>(j) + 1 : (j ? 0 : 1);
    for (size_t i = 0; i < m; ++i) {
        const size_t r = (i + shift) % m;
        for (size_t j = 0; j < n; ++j) {
            i128 v = 0;
            if (i == 0) v = (signs && j == 1) ? -one : one;
            else if (i <= n) v = i - 1 == j ? 1 : 0;
            else v = j == (i % n) ? 2 : 0;
            t(r, j) = std::ldexp(static_cast<double>(v), -e);
            b[r] += t(r, j) * x[j];
        }
    }
    c.note("%s x = %s", show(t).c_str(), show(b).c_str());
    const Matrix<double> A(mat(t));
    const Vector<double> B(mkvec(b));
    const auto got = la::solve(A, B);
    const double cond = std::ldexp(2.0 * static_cast<double>(n), e);
    if (got.size() != n) c.fail("length", "the solution of %s has %zu elements", show(t).c_str(), got.size());
    for (size_t i = 0; i < n; ++i)
        if (!(std::abs(got[i] - x[i]) <= 64 * static_cast<double>(m) * std::numeric_limits<double>::epsilon() * cond * 4)) c.fail("nearly-dependent", "of %s x = %s: element %zu is %.17g, should be %g", show(t).c_str(), show(b).c_str(), i, got[i], x[i]);
    c.step();
    c.state(mc::mix(t.hash(), which));
}
// A square matrix as it is, with rows added, with a row missing; checked in quadruple precision.
template <typename T>
void in_quad(mc::Ctx &c, const char *key, const Tab<T> &t, unsigned how, unsigned k)
{
    using D        = common_t<T, double>;
    const size_t n = t.r, r = how == 0 ? n : how == 1 ? n + 2 : n - 1;
    Tab<T> a(r, n);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j) a(i, j) = t(i % n, j);
    const std::vector<T> b = rhs<T>(k, r);
    // The operator applied to b: A^-1, (A'A)^-1 A' or A'(AA')^-1.
    const QM A = quad(a);
    QM At(n, std::vector<Q>(r));
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j) At[j][i] = A[i][j];
    auto product = [](const QM &x, const QM &y) {
        QM z(x.size(), std::vector<Q>(y[0].size()));
        for (size_t i = 0; i < x.size(); ++i)
            for (size_t j = 0; j < y[0].size(); ++j)
                for (size_t l = 0; l < y.size(); ++l) z[i][j] = z[i][j] + x[i][l] * y[l][j];
        return z;
    };
    QM W;
    Q det;
    if (how == 0) W = quad_identity(n), det = quad_solve(A, W);
    else if (how == 1) W = At, det = quad_solve(product(At, A), W);
    else {
        QM i = quad_identity(r);
        det  = quad_solve(product(A, At), i);
        W    = product(At, i);
    }
    if (!(std::abs(num(det)) > 1e-3L)) c.fail("harness", "%s has determinant %Lg", show(a).c_str(), num(det).real());
    c.note("%s x = %s", show(a).c_str(), show(b).c_str());
    ld na = 0, nw = 0, nb = 0;
    for (auto &x : a.v) na = std::max(na, std::abs(wide(x)));
    for (auto &x : b) nb = std::max(nb, std::abs(wide(x)));
    for (auto &w : W)
        for (auto &q : w) nw = std::max(nw, std::abs(num(q)));
    const ld big = static_cast<ld>(std::max(r, n)), cond = big * big * na * nw;
    const Matrix<T> M(mat(a));
    const Vector<T> B(mkvec(b));
    const Vector<D> x = la::solve(M, B);
    if (tab(M) != a) c.fail("matrix-changed", "%s", show(a).c_str());
    if (x.size() != n) c.fail("length", "the solution of %s has %zu elements", show(a).c_str(), x.size());
    for (size_t i = 0; i < n; ++i) {
        cl want = 0;
        for (size_t j = 0; j < r; ++j) want += num(W[i][j]) * wide(b[j]);
        const ld tol = 450 * static_cast<ld>(std::numeric_limits<T>::epsilon()) * big * nw * nb * (1 + cond);
        if (!(std::abs(wide(x[i]) - want) <= tol)) c.fail(key, "of %s x = %s: element %zu is %s, should be %.21Lg", show(a).c_str(), show(b).c_str(), i, str(x[i]).c_str(), want.real());
    }
    c.step();
    c.state(mc::mix(mc::mix(a.hash(), column(b).hash()), how) + sizeof(T));
}
// Matrices that miss a structure by one small element.
template <typename T>
void nearly(mc::Ctx &c)
{
    const Tab<T> t     = near_matrix<T>(c, 2, c.thorough ? 8 : 6);
    const unsigned how = c.choose(3, "shape"), k = c.choose(5, "right-hand side");
    c.go();
    in_quad(c, "nearly", t, how, k);
}
template <typename T>
void large(mc::Ctx &c)
{
    const Tab<T> t     = c.thorough ? large_matrix<T>(c, { 7, 8, 9, 10, 12, 16, 17, 20 }) : large_matrix<T>(c, { 7, 8, 9, 12, 16, 17 });
    const unsigned how = c.choose(3, "shape"), k = c.choose(c.thorough ? 5 : 2, "right-hand side");
    c.go();
    in_quad(c, "large", t, how, k);
}
// Systems of very large or very small elements: as far as neither the determinant nor, for the
// underdetermined ones, the squares overflow or vanish, the size has no influence.
template <typename T>
void scaled(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 1 }, { 2, 2 }, { 3, 3 }, { 5, 5 }, { 2, 1 }, { 4, 1 }, { 3, 2 }, { 5, 3 }, { 1, 2 }, { 1, 4 }, { 2, 3 }, { 3, 5 } };
    const auto &d       = c.pick(shapes, "shape");
    const unsigned form = c.choose(4, "form"), k = c.choose(5, "right-hand side"), m = c.choose(9, "magnitude"), w = c.choose(3, "other magnitude");
    c.go();
    const size_t r = d[0], n = d[1];
    // A matrix of whole numbers, its exact solution, and the same with both sides scaled.
    Tab<T> t(r, n);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j) t(i, j) = static_cast<T>(i == j ? 3 - static_cast<int>(form % 2) * 5 : static_cast<int>((i * 2 + j * 3 + form) % 3) - 1);
    const std::vector<T> b = rhs<T>(k, r);
    const auto s           = reference(t, b);
    if (!s.unique) return;
    const int room = static_cast<int>(std::min(1100, std::numeric_limits<T>::max_exponent) * 7 / 8) / static_cast<int>(r < n ? 2 * r : n);
    const int e    = room * (static_cast<int>(m) - 4) / 4, f = (static_cast<int>(w) - 1) * std::numeric_limits<T>::max_exponent / 8;
    Tab<T> A = t;
    std::vector<T> B = b;
    for (auto &x : A.v) x = std::ldexp(x, e);
    for (auto &x : B) x = std::ldexp(x, f);
    if (std::abs(f - e) > std::min(1100, std::numeric_limits<T>::max_exponent) * 7 / 8) return;
    c.note("%s x = %s", show(A).c_str(), show(B).c_str());
    const Vector<T> x = la::solve(Matrix<T>(mat(A)), Vector<T>(mkvec(B)));
    if (x.size() != n) c.fail("length", "the solution of %s has %zu elements", show(A).c_str(), x.size());
    for (size_t i = 0; i < n; ++i) {
        const ld got = std::ldexp(static_cast<ld>(x[i]), e - f);
        if (!(std::abs(got - s.x[i].real()) <= 450 * static_cast<ld>(std::numeric_limits<T>::epsilon()) * s.size[i])) c.fail("scaled", "of %s x = %s: element %zu is %s, should be %Lg * 2^%d", show(A).c_str(), show(B).c_str(), i, str(x[i]).c_str(), s.x[i].real(), f - e);
    }
    c.step();
    c.state(mc::mix(mc::mix(A.hash(), column(B).hash()), sizeof(T)));
}
// A right-hand side of the wrong length.
void rejected(mc::Ctx &c)
{
    const size_t r = 1 + c.choose(5, "rows"), n = 1 + c.choose(5, "cols"), b = c.choose(8, "length");
    c.go();
    Tab<double> t(r, n);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j) t(i, j) = i == j ? 2 : (i + 2 * j) % 3 == 1 ? 1 : 0;
    if (!reference(t, rhs<double>(0, r)).unique) return;
    const Matrix<double> A(mat(t));
    const Vector<double> B(mkvec(rhs<double>(0, b)));
    const bool got = throws([&] { (void)la::solve(A, B); });
    if (got != (b != r)) c.fail("rejection", "%zux%zu with %zu values is %s", r, n, b, got ? "rejected" : "accepted");
    if (tab(A) != t) c.fail("matrix-changed", "%s", show(t).c_str());
    c.step();
    c.state(mc::mix(mc::mix(r, n), b));
}
} // namespace
MC(alphabet)
{
    switch (c.choose(5, "type")) {
    case 3: return alphabet<long>(c);
    case 4: return alphabet<ld>(c);
    case 0: return alphabet<double>(c);
    case 1: return alphabet<int>(c);
    case 2: return alphabet<float>(c);
    }
}
MC(menus)
{
    switch (c.choose(3, "type")) {
    case 2: return menus<ld>(c);
    case 0: return menus<double>(c);
    case 1: return menus<int>(c);
    }
}
MC(sizes) { sizes(c); }
MC(nearly_dependent) { nearly_dependent(c); }
MC(nearly)
{
    switch (c.choose(3, "type")) {
    case 0: return nearly<double>(c);
    case 1: return nearly<float>(c);
    case 2: return nearly<ld>(c);
    }
}
MC(large)
{
    switch (c.choose(3, "type")) {
    case 0: return large<double>(c);
    case 1: return large<float>(c);
    case 2: return large<ld>(c);
    }
}
MC(scaled)
{
    switch (c.choose(2, "type")) {
    case 0: return scaled<double>(c);
    case 1: return scaled<ld>(c);
    }
}
MC(rejected) { rejected(c); }
