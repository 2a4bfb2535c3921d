// C30: Hessenberg, Givens, Schur and eigenvector computations.
#include "near.hpp"
#include <malg/eigen.hpp>
namespace
{
namespace eg = malg::eigen;
using TC     = Tab<cd>;
TC mult(const TC &a, const TC &b)
{
    TC r(a.r, b.c);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t k = 0; k < a.c; ++k)
            if (a(i, k) != cd(0))
                for (size_t j = 0; j < b.c; ++j) r(i, j) += a(i, k) * b(k, j);
    return r;
}
double norm1(const TC &a)
{
    double m = 0;
    for (size_t i = 0; i < a.r; ++i) {
        double s = 0;
        for (size_t j = 0; j < a.c; ++j) s += std::abs(a(i, j));
        m = std::max(m, s);
    }
    return m;
}
void unitary(mc::Ctx &c, const char *key, const TC &p, double slack, const TC &a)
{
    for (size_t i = 0; i < p.r; ++i)
        for (size_t j = 0; j < p.r; ++j) {
            cd s = 0;
            for (size_t k = 0; k < p.r; ++k) s += p(i, k) * std::conj(p(j, k));
            if (!(std::abs(s - (i == j ? 1.0 : 0.0)) <= slack)) c.fail(key, "rows %zu and %zu of the unitary factor have the product %s for %s", i, j, str(s).c_str(), show(a).c_str());
        }
}
// A * P = P * H.
void similar(mc::Ctx &c, const char *key, const TC &a, const TC &p, const TC &h, double tol)
{
    const TC l = mult(a, p), r = mult(p, h);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < a.r; ++j)
            if (!(std::abs(l(i, j) - r(i, j)) <= tol)) c.fail(key, "A*P and P*H differ by %g (allowed %g) at (%zu,%zu) for %s", std::abs(l(i, j) - r(i, j)), tol, i, j, show(a).c_str());
}
struct Capture { // what is written to the standard output
    std::ostringstream o;
    std::streambuf *old;
    Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(old); }
    bool warned() const { return o.str().find_first_not_of(" \n") != std::string::npos; }
};
unsigned long unconverged = 0;
void givens(mc::Ctx &c, const TC &h)
{
    const size_t n     = h.r;
    const double size  = norm1(h), eps = 2.3e-16, slack = 100 * static_cast<double>(n) * eps;
    const Matrix<cd> H = mat(h);
    const auto [q, r]  = eg::qr_factorise_givens(H);
    if (tab(H) != h) c.fail("operand-changed", "%s", show(h).c_str());
    const TC Q = tab(q), R = tab(r);
    if (Q.r != n || Q.c != n || R.r != n || R.c != n) c.fail("givens", "shapes for %s", show(h).c_str());
    unitary(c, "givens-unitary", Q, slack, h);
    const TC p = mult(Q, R);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            if (!(std::abs(p(i, j) - h(i, j)) <= slack * size)) c.fail("givens-product", "Q*R is %s instead of %s at (%zu,%zu) for %s", str(p(i, j)).c_str(), str(h(i, j)).c_str(), i, j, show(h).c_str());
            if (i > j && !(std::abs(R(i, j)) <= slack * size)) c.fail("givens-triangular", "R(%zu,%zu) is %s for %s", i, j, str(R(i, j)).c_str(), show(h).c_str());
        }
    c.step();
}
void vectors(mc::Ctx &c, const TC &t)
{
    const size_t n     = t.r;
    const Matrix<cd> M = mat(t);
    Capture cap;
    const auto [e, full] = eg::eigenvectorUpper(M);
    const bool warned    = cap.warned();
    if (tab(M) != t) c.fail("operand-changed", "%s", show(t).c_str());
    const TC E = tab(e);
    if (E.r != n || E.c != n) c.fail("eigenvectors", "shape for %s", show(t).c_str());
    bool missing = false;
    const double size = norm1(t);
    for (size_t l = 0; l < n; ++l) {
        double len = 0;
        for (size_t i = 0; i < n; ++i) len += std::norm(E(i, l));
        if (len == 0) {
            missing = true;
            continue;
        }
        if (!(std::abs(std::sqrt(len) - 1) <= 1e-12)) c.fail("eigenvector-length", "vector %zu has length %g for %s", l, std::sqrt(len), show(t).c_str());
        for (size_t i = 0; i < n; ++i) {
            cd s = -t(l, l) * E(i, l);
            for (size_t j = 0; j < n; ++j) s += t(i, j) * E(j, l);
            if (!(std::abs(s) <= 64 * static_cast<double>(n) * 2.3e-16 * size + 1e-300)) c.fail("eigenvector", "(T - lambda) v has the element %s for vector %zu of %s", str(s).c_str(), l, show(t).c_str());
        }
    }
    if (missing == full) c.fail("incomplete", "full set reported: %d, zero vectors: %d for %s", full, missing, show(t).c_str());
    if (missing != warned) c.fail("incomplete-message", "warning: %d, zero vectors: %d for %s", warned, missing, show(t).c_str());
    // Distinct eigenvalues always have a full set.
    bool distinct = true;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j)
            if (!(std::abs(t(i, i) - t(j, j)) > 1e-14 * size)) distinct = false;
    if (distinct && missing) c.fail("incomplete", "distinct eigenvalues but a zero vector for %s", show(t).c_str());
    c.step();
}
void check(mc::Ctx &c, const TC &a, bool schur)
{
    const size_t n     = a.r;
    const Matrix<cd> A = mat(a);
    const double size  = norm1(a), eps = 2.3e-16, slack = 200 * static_cast<double>(n) * eps;
    c.note("A = %s", show(a).c_str());
    {
        const auto [p, h] = eg::hessenberg(A);
        if (tab(A) != a) c.fail("operand-changed", "%s", show(a).c_str());
        const TC P = tab(p), H = tab(h);
        if (P.r != n || P.c != n || H.r != n || H.c != n) c.fail("hessenberg", "shapes for %s", show(a).c_str());
        unitary(c, "hessenberg-unitary", P, slack, a);
        similar(c, "hessenberg-similar", a, P, H, slack * static_cast<double>(n) * size);
        TC clean = H;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j + 1 < i; ++j) {
                if (!(std::abs(H(i, j)) <= slack * static_cast<double>(n) * size)) c.fail("hessenberg-form", "element (%zu,%zu) is %s for %s", i, j, str(H(i, j)).c_str(), show(a).c_str());
                clean(i, j) = 0;
            }
        givens(c, clean);
        c.step();
    }
    if (schur) {
        Capture cap;
        const auto [p, t] = eg::QRHessenberg(A);
        const bool warned = cap.warned();
        if (tab(A) != a) c.fail("operand-changed", "%s", show(a).c_str());
        const TC P = tab(p), T = tab(t);
        if (P.r != n || P.c != n || T.r != n || T.c != n) c.fail("schur", "shapes for %s", show(a).c_str());
        if (!warned) {
            unitary(c, "schur-unitary", P, 50 * slack, a);
            similar(c, "schur-similar", a, P, T, 50 * slack * static_cast<double>(n) * size);
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < i; ++j)
                    if (!(std::abs(T(i, j)) <= (slack * static_cast<double>(n) + 2e-14) * size)) c.fail("schur-form", "element (%zu,%zu) is %s without a warning for %s", i, j, str(T(i, j)).c_str(), show(a).c_str());
            TC clean = T;
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < i; ++j) clean(i, j) = 0;
            vectors(c, clean);
        } else {
            ++unconverged;
            if (getenv("C30_NC")) fprintf(stderr, "unconverged %s\n", show(a).c_str());
            // The transformation is still unitary and similar.
            unitary(c, "schur-unitary", P, 10000 * slack, a);
            similar(c, "schur-similar", a, P, T, 10000 * slack * static_cast<double>(n) * size);
        }
        c.step();
    }
    c.state(mc::mix(a.hash(), schur));
}
const cd alpha2[] = { cd(0), cd(1), cd(-2), cd(0, 1), cd(3, -1), cd(0.5, 0.5), cd(-1) };
} // namespace
MC(one)
{
    static const double v[] = { 0, 1, -1, 1e-17, 1e10, -3.5 };
    TC a(1, 1);
    const double re = c.pick(v, "re"), im = c.pick(v, "im");
    a(0, 0) = cd(re, im);
    c.go();
    check(c, a, true);
}
MC(two)
{
    auto a = alphabet_matrix<cd>(c, 2, 2, alpha2);
    c.go();
    check(c, a, true);
}
MC(three)
{
    const cd alpha[] = { cd(0), cd(1), cd(-2, 1) };
    auto a           = alphabet_matrix<cd>(c, 3, 3, alpha);
    c.go();
    check(c, a, c.thorough || (a(0, 0) == cd(0) && a(1, 2) == cd(0)));
}
MC(menu)
{
    const size_t n   = 3 + c.choose(c.thorough ? 6 : 4, "size");
    auto a           = menu_matrix<cd>(c, n, 8, n == 3 ? 3 : 2);
    const bool schur = c.flip("schur");
    c.go();
    check(c, a, schur);
}
// Matrices that miss a structure by one small element.
MC(nearly)
{
    const TC a = near_matrix<cd>(c, 2, c.thorough ? 7 : 4);
    c.go();
    check(c, a, true);
}
// Larger ones.
MC(large)
{
    const TC a       = c.thorough ? large_matrix<cd>(c, { 10, 12, 16, 17, 24, 32, 33, 48 }) : large_matrix<cd>(c, { 10, 12, 16, 17, 24, 33 });
    const bool schur = a.r <= 12 ? c.flip("schur") : false;
    c.go();
    check(c, a, schur);
}
// Structured matrices at many scales: low rank, triangular, unitary, Hermitian, companion, zero.
MC(structured)
{
    static const double scales[] = { 1, 1e-17, 1e-16, 1e-15, 1e-12, 1e-8, 1e-3, 1e3, 1e8, 1e12, 1e-30, 1e-100, 1e100, 1e-290, 1e-300, 1e280 };
    const size_t n       = 1 + c.choose(c.thorough ? 12 : 9, "size");
    const unsigned f     = c.choose(10, "form");
    const double s       = c.pick(scales, "scale");
    const unsigned salt  = c.choose(2, "content");
    c.go();
    TC a(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const double p = static_cast<double>((i * 7 + salt) % 5) - 1.5, q = static_cast<double>((j * 3 + salt * 2) % 7) - 2.5;
            cd x = 0;
            switch (f) {
            case 0: break;
            case 1: x = p * q; break;                                                                    // rank one, real
            case 2: x = cd(p, 1) * cd(q, -2); break;                                                     // rank one, complex
            case 3: x = i <= j ? cd(p + q, static_cast<double>(i)) : 0; break;                           // upper triangular
            case 4: x = (i + 1) % n == j ? cd(0, 1) : 0; break;                                          // cyclic permutation with a phase
            case 5: x = i <= j ? cd(static_cast<double>(i + j + salt), i == j ? 0 : 1) : cd(static_cast<double>(i + j + salt), -1); break; // Hermitian
            case 6: x = i == 0 ? cd(static_cast<double>(j % 3) - 1, salt) : i == j + 1 ? 1 : 0; break; // companion
            case 7: x = i == j ? 1 : 0; break;                                                           // identity
            case 8: x = i > j ? cd(p, q) : 0; break;                                                     // strictly lower
            case 9: x = p * q + (i == 0 && j + 1 == n ? 1.0 : 0) + (i == j ? 0.5 : 0); break;            // low rank plus a multiple of the identity
            }
            a(i, j) = x * s;
        }
    check(c, a, false);
    if (n <= 6) check(c, a, true);
}
// Upper-triangular matrices: every diagonal pattern of repeated and distinct eigenvalues.
MC(triangular)
{
    const size_t n  = 1 + c.choose(c.thorough ? 5 : 4, "size");
    const cd diag[] = { cd(0), cd(1), cd(-2, 1) };
    const cd off[]  = { cd(0), cd(1), cd(3, -1) };
    TC t(n, n);
    for (size_t i = 0; i < n; ++i) t(i, i) = c.pick(diag, "eigenvalue");
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) t(i, j) = j == i + 1 || n < 4 ? c.pick(off, "element") : off[(i + j) % 3];
    const double scales[] = { 1, 1e-5, 1e-20, 1e-200, 1e20, 1e200 };
    const double s        = c.pick(scales, "scale");
    c.go();
    for (auto &x : t.v) x *= s;
    vectors(c, t);
    c.state(t.hash());
}
MC(triangular_large)
{
    const size_t n      = 5 + c.choose(12, "size");
    const unsigned salt = c.choose(6, "content");
    const double scales[] = { 1, 1e-5, 1e-20, 1e-200, 1e20 };
    const double s        = c.pick(scales, "scale");
    c.go();
    TC t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i; j < n; ++j) t(i, j) = i == j ? cd(static_cast<double>((i * (1 + salt)) % (n + salt)), salt % 2) : cd(static_cast<double>((i + 2 * j + salt) % 3) - 1, 0.5) / static_cast<double>(n);
    for (auto &x : t.v) x *= s;
    vectors(c, t);
    c.state(t.hash());
}
// Givens rotations for any Hessenberg content, including zero and tiny subdiagonals.
MC(rotations)
{
    const size_t n = 1 + c.choose(3, "size");
    const cd alpha[] = { cd(0), cd(1), cd(-2, 1), cd(1e-17) };
    TC h(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i ? i - 1 : 0; j < n; ++j) h(i, j) = alpha[c.choose(i == j + 1 ? 4 : 3, "element")];
    c.go();
    givens(c, h);
    c.state(h.hash());
}
// Eigenvalues that lie close together, with couplings of every size between them, next to others.
MC(close_eigenvalues)
{
    const size_t n      = 2 + c.choose(c.thorough ? 4 : 3, "size");
    const size_t q      = 1 + c.choose(static_cast<unsigned>(n) - 1, "second"), p = c.choose(static_cast<unsigned>(q), "first");
    const int e         = 2 + static_cast<int>(c.choose(15, "gap")) * 3;
    const int k         = static_cast<int>(c.choose(6, "coupling")) * 9;
    const unsigned kind = c.choose(3, "direction"), form = c.choose(3, "rest");
    const int scale     = static_cast<int>(c.choose(3, "scale")) * 40 - 40;
    c.go();
    TC t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i; j < n; ++j) t(i, j) = i == j ? cd(1.0 - 2.0 * static_cast<double>(i % 2) + static_cast<double>(i / 2) / 2, form == 1 ? 0.5 : 0) : form == 2 ? cd(0) : cd(static_cast<double>((i + 2 * j) % 3) - 1, form == 1 ? -0.25 : 0);
    const double gap = std::ldexp(1.0, -e);
    t(q, q)          = t(p, p) + (kind == 0 ? cd(gap) : kind == 1 ? cd(-gap) : cd(0, gap));
    t(p, q)          = std::ldexp(1.0, -k);
    for (auto &x : t.v) x *= std::ldexp(1.0, scale);
    vectors(c, t);
    check(c, t, true);
    c.state(t.hash());
}
// Graded matrices: subdiagonal (and some other) elements of every magnitude next to ordinary ones.
MC(graded)
{
    const size_t n = 2 + c.choose(c.thorough ? 4 : 3, "size");
    const int e = static_cast<int>(c.choose(19, "exponent")), e2 = static_cast<int>(c.choose(4, "second exponent")) * 5;
    const size_t p      = 1 + c.choose(static_cast<unsigned>(n) - 1, "row");
    const unsigned form = c.choose(4, "form");
    c.go();
    TC a(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            if (form != 3 && i > j + 1) continue;
            const double x = static_cast<double>((i * 3 + j * 5 + form) % 7) - 2.5;
            a(i, j)        = form == 1 ? cd(x, static_cast<double>(i + j) / 2) : cd(x, 0);
            if (form == 2 && i > j) a(i, j) = std::conj(a(j, i));
        }
    a(p, p - 1) *= std::pow(10.0, -e);
    if (form == 2) a(p - 1, p) = std::conj(a(p, p - 1));
    if (p + 1 < n) a(p + 1, p) *= std::pow(10.0, -e2);
    if (form == 3) a(n - 1, 0) *= std::pow(10.0, -e2);
    if (form == 2 && n > 2) a(n - 1, 0) = a(0, n - 1) = 0;
    TC h = a;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j + 1 < i; ++j) h(i, j) = 0;
    givens(c, h);
    check(c, a, true);
}
