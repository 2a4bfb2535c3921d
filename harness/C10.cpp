// C10: adjoint, inverse, division.
#include "near.hpp"
#include <iostream>
namespace
{
template <typename T>
ld eps() { return std::is_integral_v<T> ? 0 : static_cast<ld>(std::numeric_limits<realof<T>>::epsilon()); }
// Product of the row norms: no determinant is larger.
template <typename T>
ld row_bound(const Tab<T> &t)
{
    ld had = 1;
    for (size_t i = 0; i < t.r; ++i) {
        ld s = 0;
        for (size_t j = 0; j < t.c; ++j) s += std::norm(wide(t(i, j)));
        had *= std::sqrt(s);
    }
    return had;
}
template <typename T>
ld tolerance(const Tab<T> &t)
{
    if (t.r <= 3 && !std::is_same_v<realof<T>, float>) return 0;
    return 64 * t.r * t.r * row_bound(t) * eps<T>();
}
// Runs f, gives whether anything went to the diagnostics stream.
template <typename F>
bool diagnosed(F &&f)
{
    std::ostringstream o;
    auto *old = std::cerr.rdbuf(o.rdbuf());
    try {
        f();
    } catch (...) {
        std::cerr.rdbuf(old);
        throw;
    }
    std::cerr.rdbuf(old);
    return !o.str().empty();
}
template <typename T>
using inv_t = common_t<T, double>;
// The exact inverse and how far the computed one may be from it.
template <typename T>
struct Exact {
    G det;
    std::vector<cl> adj, inv;
    std::vector<ld> adj_tol, inv_tol;
    bool truncated = false; // integer matrices of size >= 5 (minors of size >= 5): truncating elimination
    T tdet         = T(0);
    std::vector<T> tadj;
};
template <typename T>
Exact<T> reference(const Tab<T> &t)
{
    Exact<T> e;
    const size_t n = t.r;
    const GM m     = exact(t);
    e.det          = exact_det(m);
    const cl det   = num(e.det);
    const ld dtol = std::max(tolerance(t), n <= 4 && !std::is_same_v<realof<T>, float> ? 0.0L : tolerance(t));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const G k = n == 1 ? G{ 1, 0 } : exact_det(exact_minor(m, j, i));
            const cl a = (i + j) % 2 ? -num(k) : num(k);
            e.adj.push_back(a);
            const Tab<T> mm = n == 1 ? Tab<T>(1, 1, T(1)) : tab_minor(t, j, i);
            e.adj_tol.push_back(tolerance(mm));
            if (!e.det.zero()) {
                e.inv.push_back(a / det);
                const ld base = 64 * n * n * (std::is_same_v<realof<T>, ld> ? eps<T>() : std::max(eps<T>(), static_cast<ld>(std::numeric_limits<double>::epsilon())));
                e.inv_tol.push_back((e.adj_tol.back() + base * row_bound(mm) + std::abs(e.inv.back()) * std::max(dtol, base * row_bound(t))) / std::abs(det));
            }
            if constexpr (std::is_integral_v<T>)
                if (n >= 6) e.tadj.push_back((i + j) % 2 ? -truncating_det(mm) : truncating_det(mm));
        }
    if constexpr (std::is_integral_v<T>)
        if (n >= 5) {
            e.truncated = true;
            e.tdet      = truncating_det(t);
            if (n < 6)
                for (auto &a : e.adj) e.tadj.push_back(static_cast<T>(a.real()));
        }
    return e;
}
template <typename T>
void check(mc::Ctx &c, const Tab<T> &t, int kind)
{
    const size_t n = t.r;
    const auto e   = reference(t);
    c.note("%s (%s) determinant %Lg%+Lgi", show(t).c_str(), kname(kind), num(e.det).real(), num(e.det).imag());
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        // The adjoint.
        {
            const auto a = la::adjoint(M);
            static_assert(std::is_same_v<std::remove_const_t<typename std::decay_t<decltype(a)>::value_type>, T>);
            if (a.rows() != n || a.cols() != n) c.fail("adjoint", "of %s has shape %zux%zu", show(t).c_str(), a.rows(), a.cols());
            bool wrong = false, as_truncated = e.truncated;
            size_t w = 0;
            for (size_t i = 0; i < n * n; ++i) {
                const T x = a(i / n, i % n);
                if (!(std::abs(wide(x) - e.adj[i]) <= e.adj_tol[i])) {
                    if (!wrong) w = i;
                    wrong = true;
                }
                if (e.truncated && !(x == e.tadj[i])) as_truncated = false;
            }
            if (wrong) {
                if (as_truncated) c.known("int-det-truncation", "adjoint of %s has %s at (%zu,%zu), should be %Lg", show(t).c_str(), str(T(a(w / n, w % n))).c_str(), w / n, w % n, e.adj[w].real());
                else c.fail("adjoint", "of %s (%s): element (%zu,%zu) is %s, should be %Lg%+Lgi", show(t).c_str(), kname(kind), w / n, w % n, str(T(a(w / n, w % n))).c_str(), e.adj[w].real(), e.adj[w].imag());
            }
        }
        // The inverse.
        using I = inv_t<T>;
        Matrix<I> v;
        const bool said = diagnosed([&] {
            auto got = la::inverse(M);
            static_assert(std::is_same_v<decltype(got), Matrix<I>>);
            v = std::move(got);
        });
        if (e.det.zero()) {
            if (e.truncated && e.tdet != T(0)) c.known("int-det-truncation", "singular %s is inverted", show(t).c_str());
            else if (!v.empty()) {
                // Above the closed forms a singular matrix may be off by rounding: only a zero
                // row or column is exactly zero there.
                bool exact_zero = n <= 4;
                for (size_t i = 0; i < n; ++i) {
                    bool zr = true, zc = true;
                    for (size_t j = 0; j < n; ++j) zr = zr && t(i, j) == T(0), zc = zc && t(j, i) == T(0);
                    exact_zero = exact_zero || zr || zc;
                }
                if (exact_zero) c.fail("singular-inverted", "%s (%s) is singular, inverse gives %s", show(t).c_str(), kname(kind), show(tab(v)).c_str());
            } else if (!said) c.fail("no-diagnostic", "the singular %s is not reported", show(t).c_str());
            return;
        }
        if constexpr (std::is_integral_v<T>) if (e.truncated) {
            // Recognise exactly what the recorded defect gives.
            bool exactly = true, right = v.rows() == n && v.cols() == n;
            if (e.tdet == T(0)) exactly = v.empty();
            else {
                for (size_t i = 0; i < n * n && exactly; ++i) exactly = v.rows() == n && v.cols() == n && std::abs(v(i / n, i % n) - static_cast<double>(e.tadj[i]) / static_cast<double>(e.tdet)) <= 1e-12 * std::abs(v(i / n, i % n));
            }
            for (size_t i = 0; i < n * n && right; ++i) right = std::abs(wide(v(i / n, i % n)) - e.inv[i]) <= e.inv_tol[i];
            if (right) return;
            if (exactly) {
                c.known("int-det-truncation", "inverse of %s is wrong", show(t).c_str());
                return;
            }
        }
        if (v.rows() != n || v.cols() != n) c.fail("inverse", "of the non-singular %s (%s) has shape %zux%zu", show(t).c_str(), kname(kind), v.rows(), v.cols());
        if (said) c.fail("false-diagnostic", "the non-singular %s is reported", show(t).c_str());
        for (size_t i = 0; i < n * n; ++i) {
            const I x = v(i / n, i % n);
            if (!(std::abs(wide(x) - e.inv[i]) <= e.inv_tol[i])) c.fail("inverse", "of %s (%s): element (%zu,%zu) is %s, should be %Lg%+Lgi", show(t).c_str(), kname(kind), i / n, i % n, str(x).c_str(), e.inv[i].real(), e.inv[i].imag());
        }
    });
    c.step(2);
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T) + std::is_integral_v<T>);
}
template <typename T>
void small_all(mc::Ctx &c)
{
    const size_t n = 1 + c.choose(3, "n");
    const int kind = static_cast<int>(c.choose(n == 3 && !c.thorough ? 3 : K_COUNT, "kind")) * (n == 3 && !c.thorough ? 2 : 1);
    Tab<T> t(n, n);
    for (size_t i = 0; i < n * n; ++i) {
        if constexpr (is_cx_v<T>) {
            static const int z[][2] = { { 0, 0 }, { 1, 0 }, { 0, -1 }, { 2, 1 } };
            const auto &e = z[i < 6 || c.thorough ? c.choose(n == 3 && i > 3 ? 2 : 4, "entry") : (i * 5 + 3) % 4];
            t.v[i] = T(static_cast<realof<T>>(e[0]), static_cast<realof<T>>(e[1]));
        } else {
            static const int z[] = { 0, 1, -2, 3, -7 };
            t.v[i] = static_cast<T>(z[c.choose(n == 3 ? 3 : 5, "entry")]);
        }
    }
    c.go();
    check(c, t, kind);
}
template <typename T>
void four(mc::Ctx &c)
{
    const bool bits = c.flip("bits");
    Tab<T> t(4, 4);
    if (bits) {
        for (size_t i = 0; i < 16; ++i) t.v[i] = T(i < 12 || c.thorough ? static_cast<int>(c.choose(2, "bit")) : static_cast<int>(i % 2) + 1);
    } else t = menu_matrix<T>(c, 4, 8, 4);
    const int kind = bits ? 0 : static_cast<int>(c.choose(3, "kind")) * 2;
    c.go();
    check(c, t, kind);
}
template <typename T>
void larger(mc::Ctx &c)
{
    const size_t n = 5 + c.choose(c.thorough ? 3 : 2, "n");
    const int kind = static_cast<int>(c.choose(2, "kind")) * 5;
    const bool swap = c.flip("order");
    Tab<T> t        = menu_matrix<T>(c, n, n == 5 || c.thorough ? 8 : 6, n == 5 ? 4 : 3);
    c.go();
    if (swap) {
        Tab<T> u = t;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) t(n - 1 - i, j) = u(i, j);
    }
    check(c, t, kind);
}
template <typename T>
void permutations(mc::Ctx &c)
{
    const size_t n = 1 + c.choose(c.thorough ? 7 : 6, "n");
    std::vector<size_t> left(n), p;
    for (size_t i = 0; i < n; ++i) left[i] = i;
    for (size_t i = 0; i < n; ++i) {
        const size_t k = c.choose(static_cast<unsigned>(left.size()), "image");
        p.push_back(left[k]);
        left.erase(left.begin() + static_cast<long>(k));
    }
    const unsigned fill = c.choose(2, "fill");
    c.go();
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i) {
        t(i, p[i]) = T(fill == 0 ? 1 : 2);
        if (fill == 1)
            for (size_t j = p[i] + 1; j < n; ++j) t(i, j) = T(static_cast<int>((i + j) % 3) - 1);
    }
    check(c, t, n % 2 ? 0 : 1);
}
// Rows and columns scaled by powers of two: the inverse scales exactly the other way.
void scaled(mc::Ctx &c)
{
    static const int ex[] = { 0, 40, -40, 130, -130 };
    const size_t n = 1 + c.choose(6, "n"), p = c.choose(static_cast<unsigned>(n), "row"), q = c.choose(static_cast<unsigned>(n), "column");
    const int e = c.pick(ex, "row exponent"), f = c.pick(ex, "column exponent"), all = c.pick(ex, "exponent") / 2;
    c.go();
    Tab<double> t(n, n), s;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) t(i, j) = menu_entry<double>((i * 3 + 5) % 8, j, n) + (i == j ? 9 : 0);
    const auto x = reference(t);
    if (x.det.zero()) c.fail("harness", "singular");
    s = t;
    for (auto &y : s.v) y = std::ldexp(y, all);
    for (size_t j = 0; j < n; ++j) s(p, j) = std::ldexp(s(p, j), e);
    for (size_t i = 0; i < n; ++i) s(i, q) = std::ldexp(s(i, q), f);
    const auto v = la::inverse(mat(s));
    if (v.rows() != n || v.cols() != n) c.fail("inverse", "of %s has shape %zux%zu", show(s).c_str(), v.rows(), v.cols());
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const int k = -all - (i == q ? f : 0) - (j == p ? e : 0);
            const ld want = std::ldexp(x.inv[i * n + j].real(), k);
            // Elimination may lose digits between entries of very different size.
            const ld tol = std::ldexp(x.inv_tol[i * n + j], k) + (n >= 5 ? std::abs(want) * 1e-6L + std::ldexp(1e-9L, k) : 0);
            if (!(std::abs(v(i, j) - want) <= tol)) c.fail("scaled", "inverse of %s: element (%zu,%zu) is %g, should be %Lg", show(s).c_str(), i, j, v(i, j), want);
        }
    c.step();
    c.state(s.hash());
}
// Division by every divisor from the menu, all dividend shapes and type mixes.
template <typename T1, typename T2>
void division(mc::Ctx &c)
{
    const size_t r = c.choose(5, "rows"), n = 1 + c.choose(4, "n");
    const int ka = static_cast<int>(c.choose(K_COUNT, "left kind")), kb = static_cast<int>(c.choose(K_COUNT, "right kind"));
    Tab<T2> b = menu_matrix<T2>(c, n, 6, std::min<size_t>(n, 2));
    c.go();
    const Tab<T1> a = content<T1>(r, n, n + r);
    const auto e    = reference(b);
    using R         = common_t<T1, inv_t<T2>>;
    with_const(c, "left-changed", ka, a, [&](const auto &A) {
        with_const(c, "right-changed", kb, b, [&](const auto &B) {
            Matrix<R> q;
            const bool thrown = throws([&] {
                auto got = la::div(A, B);
                static_assert(std::is_same_v<decltype(got), Matrix<R>>);
                q = std::move(got);
            });
            if (e.det.zero()) {
                if (!thrown && !q.empty()) c.fail("divided-by-singular", "%s / %s gives %s", show(a).c_str(), show(b).c_str(), show(tab(q)).c_str());
                return;
            }
            if (thrown) c.fail("division-rejected", "%s / %s", show(a).c_str(), show(b).c_str());
            if (q.rows() != r || q.cols() != n) c.fail("division", "%s / %s has shape %zux%zu", show(a).c_str(), show(b).c_str(), q.rows(), q.cols());
            for (size_t i = 0; i < r; ++i)
                for (size_t j = 0; j < n; ++j) {
                    cl want = 0;
                    ld tol  = 0;
                    for (size_t k = 0; k < n; ++k) {
                        want += wide(a(i, k)) * e.inv[k * n + j];
                        tol += std::abs(wide(a(i, k))) * (2 * e.inv_tol[k * n + j] + 256 * static_cast<ld>(std::numeric_limits<realof<R>>::epsilon()));
                    }
                    if (!(std::abs(wide(q(i, j)) - want) <= tol)) c.fail("division", "%s / %s: element (%zu,%zu) is %s, should be %Lg%+Lgi", show(a).c_str(), show(b).c_str(), i, j, str(R(q(i, j))).c_str(), want.real(), want.imag());
                }
        });
    });
    c.step();
    c.state(mc::mix(mc::mix(a.hash(), b.hash()), mc::mix(static_cast<unsigned>(ka), static_cast<unsigned>(kb)) + sizeof(T1) * 100 + sizeof(T2)));
}
// The same object on both sides.
void self(mc::Ctx &c)
{
    const size_t n = 1 + c.choose(6, "n");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    Tab<double> t  = menu_matrix<double>(c, n, 8, std::min<size_t>(n, 3));
    c.go();
    const auto e = reference(t);
    if (e.det.zero()) return;
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const auto q = la::div(M, M);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                ld tol = 1e-14L;
                for (size_t k = 0; k < n; ++k) tol += std::abs(t(i, k)) * 2 * e.inv_tol[k * n + j];
                if (!(std::abs(q(i, j) - (i == j)) <= tol)) c.fail("self-division", "of %s: element (%zu,%zu) is %g", show(t).c_str(), i, j, double(q(i, j)));
            }
    });
    c.step();
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)));
}
// Contents that only the wide types hold.
template <typename T>
void wide_contents(mc::Ctx &c)
{
    const Tab<T> t = wide_matrix<T>(c, std::is_integral_v<T> ? 4 : 6);
    const int kind = static_cast<int>(c.choose(3, "kind")) * 2;
    c.go();
    check(c, t, kind);
}
// Matrices that miss a structure by one small element: no element of the result may be lost.
template <typename T>
void in_quad(mc::Ctx &c, const Tab<T> &t, int kind)
{
    const size_t n = t.r;
    QM inv         = quad_identity(n);
    const Q det    = quad_solve(quad(t), inv);
    const ld d     = std::abs(num(det));
    if (!(d > 0.1L)) c.fail("harness", "%s has determinant %Lg", show(t).c_str(), d);
    const Tab<T> left = content<T>(2, n, n);
    const ld base     = 64 * n * n * (std::is_same_v<realof<T>, ld> ? eps<T>() : std::max(eps<T>(), static_cast<ld>(std::numeric_limits<double>::epsilon())));
    std::vector<ld> tol(n * n), atol(n * n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            const Tab<T> mm = tab_minor(t, j, i);
            atol[i * n + j] = tolerance(mm) + (n <= 4 ? 8 * eps<T>() * row_bound(mm) : 0);
            tol[i * n + j]  = (atol[i * n + j] + base * row_bound(mm) + std::abs(num(inv[i][j])) * std::max(tolerance(t), base * row_bound(t))) / d;
        }
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const auto a = la::adjoint(M);
        const auto v = la::inverse(M);
        const auto q = la::div(mat(left), M);
        if (a.rows() != n || a.cols() != n || v.rows() != n || v.cols() != n || q.rows() != 2 || q.cols() != n) c.fail("nearly", "%s: shapes %zux%zu, %zux%zu, %zux%zu", show(t).c_str(), a.rows(), a.cols(), v.rows(), v.cols(), q.rows(), q.cols());
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                const cl wa = num(inv[i][j] * det), wi = num(inv[i][j]);
                const auto x = a(i, j);
                const auto y = v(i, j);
                if (!(std::abs(wide(x) - wa) <= atol[i * n + j])) c.fail("adjoint", "of %s: element (%zu,%zu) is %s, should be %.21Lg%+.21Lgi", show(t).c_str(), i, j, str(x).c_str(), wa.real(), wa.imag());
                if (!(std::abs(wide(y) - wi) <= tol[i * n + j])) c.fail("inverse", "of %s: element (%zu,%zu) is %s, should be %.21Lg%+.21Lgi", show(t).c_str(), i, j, str(y).c_str(), wi.real(), wi.imag());
            }
        for (size_t i = 0; i < 2; ++i)
            for (size_t j = 0; j < n; ++j) {
                cl want = 0;
                ld lim  = 0;
                for (size_t k = 0; k < n; ++k) {
                    want += wide(left(i, k)) * num(inv[k][j]);
                    lim += std::abs(wide(left(i, k))) * (2 * tol[k * n + j] + 256 * eps<T>());
                }
                const auto x = q(i, j);
                if (!(std::abs(wide(x) - want) <= lim)) c.fail("division", "%s / %s: element (%zu,%zu) is %s, should be %.21Lg%+.21Lgi", show(left).c_str(), show(t).c_str(), i, j, str(x).c_str(), want.real(), want.imag());
            }
    });
    c.step(3);
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T));
}
template <typename T>
void nearly(mc::Ctx &c)
{
    const Tab<T> t = near_matrix<T>(c, 2, c.thorough ? 8 : 6);
    const int kind = static_cast<int>(c.choose(2, "kind")) * 4;
    c.go();
    in_quad(c, t, kind);
}
template <typename T>
void large(mc::Ctx &c)
{
    const Tab<T> t = c.thorough ? large_matrix<T>(c, { 7, 8, 9, 10, 12, 16, 17, 20, 24 }) : large_matrix<T>(c, { 7, 8, 9, 12, 16, 17 });
    const int kind = static_cast<int>(c.choose(2, "kind")) * 4;
    c.go();
    in_quad(c, t, kind);
}
void rejected(mc::Ctx &c)
{
    const size_t r = c.choose(7, "rows"), k = c.choose(7, "cols");
    const int kind    = static_cast<int>(c.choose(K_COUNT, "kind"));
    const unsigned op = c.choose(4, "operation");
    c.go();
    Tab<double> t = labelled<double>(r, k);
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        bool fits = r == k;
        bool got;
        const Matrix<double> I(mat(content<double>(3, 3, 1)));
        switch (op) {
        case 0: got = throws([&] { (void)la::adjoint(M); }); break;
        case 1: got = throws([&] { (void)la::inverse(M); }); break;
        case 2: // divisor
            if (r == k && k != 3) return;
            got = throws([&] { (void)la::div(I, M); });
            break;
        default: // dividend
            fits = k == 3;
            got  = throws([&] { (void)la::div(M, I); });
        }
        if (got == fits) c.fail("rejection", "operation %u on %zux%zu: %s", op, r, k, got ? "rejected" : "accepted");
    });
    c.step();
    c.state(mc::mix(mc::mix(r, k), static_cast<unsigned>(kind) * 4 + op));
}
} // namespace
MC(small)
{
    switch (c.choose(4, "type")) {
    case 0: return small_all<int>(c);
    case 1: return small_all<double>(c);
    case 2: return small_all<cd>(c);
    case 3: return small_all<float>(c);
    }
}
MC(four)
{
    switch (c.choose(3, "type")) {
    case 0: return four<int>(c);
    case 1: return four<double>(c);
    case 2: return four<cd>(c);
    }
}
MC(larger)
{
    switch (c.choose(3, "type")) {
    case 0: return larger<int>(c);
    case 1: return larger<double>(c);
    case 2: return larger<cd>(c);
    }
}
MC(permutations)
{
    switch (c.choose(2, "type")) {
    case 0: return permutations<double>(c);
    case 1: return permutations<cd>(c);
    }
}
MC(wide_contents)
{
    switch (c.choose(3, "type")) {
    case 0: return wide_contents<long>(c);
    case 1: return wide_contents<ld>(c);
    case 2: return wide_contents<cl>(c);
    }
}
MC(scaled) { scaled(c); }
MC(nearly)
{
    switch (c.choose(4, "type")) {
    case 0: return nearly<double>(c);
    case 1: return nearly<cd>(c);
    case 2: return nearly<float>(c);
    case 3: return nearly<ld>(c);
    }
}
MC(division)
{
    switch (c.choose(7, "types")) {
    case 0: return division<double, double>(c);
    case 1: return division<int, int>(c);
    case 2: return division<float, double>(c);
    case 3: return division<double, cd>(c);
    case 4: return division<cd, int>(c);
    case 5: return division<ld, ld>(c);
    case 6: return division<long, long>(c);
    }
}
MC(large)
{
    switch (c.choose(4, "type")) {
    case 0: return large<double>(c);
    case 1: return large<cd>(c);
    case 2: return large<float>(c);
    case 3: return large<ld>(c);
    }
}
MC(self) { self(c); }
MC(rejected) { rejected(c); }
