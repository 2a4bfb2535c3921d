// C22: discretisation is the exact zero-order hold.
#include "C21.hpp"
#include "near.hpp"
#include <malg/io.hpp>
namespace
{
namespace ctl = malg::control;
// Gauss-Jordan inverse in extended precision (partial pivoting).
CM invert(CM a)
{
    const size_t n = a.size();
    CM r(n, std::vector<cl>(n));
    for (size_t i = 0; i < n; ++i) r[i][i] = 1;
    for (size_t k = 0; k < n; ++k) {
        size_t p = k;
        for (size_t i = k; i < n; ++i)
            if (std::abs(a[i][k]) > std::abs(a[p][k])) p = i;
        std::swap(a[p], a[k]);
        std::swap(r[p], r[k]);
        const cl d = a[k][k];
        for (size_t j = 0; j < n; ++j) a[k][j] /= d, r[k][j] /= d;
        for (size_t i = 0; i < n; ++i) {
            const cl f = a[i][k];
            if (i == k || f == cl(0)) continue;
            for (size_t j = 0; j < n; ++j) a[i][j] -= f * a[k][j], r[i][j] -= f * r[k][j];
        }
    }
    return r;
}
template <typename T>
void check(mc::Ctx &c, const Tab<T> &A, size_t m, size_t p, double ts, unsigned salt, const Tab<T> *unscaled = nullptr)
{
    using R        = realof<T>;
    const size_t n = A.r;
    Tab<T> B = content<T>(n, m, salt), C = content<T>(p, n, salt + 1), D = content<T>(p, m, salt + 2);
    ctl::StateSpace<T> sys(mat(A), mat(B), mat(C), mat(D));
    ctl::DiscreteStateSpace<T> d;
    const T time = static_cast<T>(static_cast<R>(ts));
    c.note("A = %s, B = %s, sample time %g", show(A).c_str(), show(B).c_str(), ts);
    const bool thrown = throws([&] { d = ctl::c2d(sys, time); });
    if (tab(sys.A) != A || tab(sys.B) != B || tab(sys.C) != C || tab(sys.D) != D) c.fail("model-changed", "A = %s", show(A).c_str());
    c.step();
    c.state(mc::mix(mc::mix(A.hash(), mc::hv(ts)), m * 10 + p) + sizeof(T));
    const bool singular = exact_det(unscaled ? *unscaled : A).zero();
    if (thrown) {
        if (!singular) c.fail("rejected", "A = %s with sample time %g is rejected", show(A).c_str(), ts);
        return;
    }
    // Reference: the exponential of [A B; 0 0] * T.
    CM aug(n + m, std::vector<cl>(n + m)), at(n, std::vector<cl>(n));
    const ld t = static_cast<ld>(static_cast<R>(ts));
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) at[i][j] = aug[i][j] = wide(A(i, j)) * t;
        for (size_t j = 0; j < m; ++j) aug[i][n + j] = wide(B(i, j)) * t;
    }
    const CM ref = reference(aug);
    const ld eps = std::numeric_limits<R>::epsilon(), tiny = std::numeric_limits<R>::min();
    const ld ea  = 4 * allowance(at, 1e-5L, eps, tiny);
    ld nb = 0, ninv = 0, na = norm(widen(A)), nref = norm(ref);
    for (size_t i = 0; i < n; ++i) {
        ld s = 0;
        for (size_t j = 0; j < m; ++j) s += std::abs(wide(B(i, j)));
        nb = std::max(nb, s);
    }
    ld eb = ea * nb * std::max<ld>(t, 1);
    if (!singular) {
        ninv          = norm(invert(widen(A)));
        const ld cond = 1 + na * ninv;
        // Truncation of the series relative to A*T, rounding amplified by the inverse.
        eb = ninv * nb * (4 * allowance(at, 1e-5L * std::min<ld>(1, norm(at)), 0, tiny) + 64 * static_cast<ld>(n) * eps * (1 + nref) * cond * cond) + ninv * nb * 4 * allowance(at, 0, eps, tiny);
    }
    auto shape = [&](const char *what, const Matrix<T> &M, size_t r, size_t k) {
        if (M.rows() != r || M.cols() != k) c.fail("shape", "%s is %zux%zu instead of %zux%zu (A = %s, T = %g)", what, M.rows(), M.cols(), r, k, show(A).c_str(), ts);
    };
    shape("A", d.A, n, n);
    shape("B", d.B, n, m);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) {
            const ld e = std::abs(wide(T(d.A(i, j))) - ref[i][j]);
            if (!(e <= ea)) c.fail("a", "element (%zu,%zu) is off by %Lg (allowed %Lg) for A = %s, T = %g", i, j, e, ea, show(A).c_str(), ts);
        }
        for (size_t j = 0; j < m; ++j) {
            const ld e = std::abs(wide(T(d.B(i, j))) - ref[i][n + j]);
            if (!(e <= eb)) c.fail("b", "element (%zu,%zu) is %s, off by %Lg (allowed %Lg) for A = %s, B = %s, T = %g", i, j, str(T(d.B(i, j))).c_str(), e, eb, show(A).c_str(), show(B).c_str(), ts);
        }
    }
    if (tab(d.C) != C) c.fail("c", "output matrix %s becomes %s", show(C).c_str(), show(tab(d.C)).c_str());
    if (tab(d.D) != D) c.fail("d", "feedforward matrix %s becomes %s", show(D).c_str(), show(tab(d.D)).c_str());
    if (d.sample_time != time) c.fail("sample-time", "%s instead of %g", str(d.sample_time).c_str(), ts);
    c.step();
    // Two steps of T are one step of 2T.
    if (ts <= 1 && !singular) {
        const auto dd = ctl::c2d(sys, static_cast<T>(static_cast<R>(2 * ts)));
        CM a2         = at;
        for (auto &r : a2)
            for (auto &x : r) x *= 2;
        const CM ref2 = reference(a2);
        const ld g    = 4 * (1 + nref) * (1 + norm(ref2));
        const ld e2a  = g * ea + 4 * allowance(a2, 1e-5L, eps, tiny);
        const ld nx = 2, nu = 2;
        Vector<T> x(n), u(m);
        for (size_t i = 0; i < n; ++i) x[i] = static_cast<T>(static_cast<R>(i % 2 ? -1 : 2));
        for (size_t i = 0; i < m; ++i) u[i] = static_cast<T>(static_cast<R>(i % 2 ? 2 : -1));
        auto one  = ctl::simulate_step(d, x, u).first;
        auto two  = ctl::simulate_step(d, one, u).first;
        auto both = ctl::simulate_step(dd, x, u).first;
        const ld eb2 = ninv * nb * (4 * allowance(a2, 1e-5L * std::min<ld>(1, norm(a2)), eps, tiny) + 64 * static_cast<ld>(n) * eps * (1 + norm(ref2)) * (1 + na * ninv) * (1 + na * ninv));
        const ld tol = static_cast<ld>(n) * nx * e2a + static_cast<ld>(m) * nu * (g * eb + eb2 + g * ea * nb * ninv);
        for (size_t i = 0; i < n; ++i) {
            const ld e = std::abs(wide(T(two[i])) - wide(T(both[i])));
            if (!(e <= tol)) c.fail("semigroup", "two steps of %g give %s, one step of %g gives %s for A = %s", ts, show(vec(two)).c_str(), 2 * ts, show(vec(both)).c_str(), show(A).c_str());
        }
        c.step();
    }
}
const double times[] = { 0.1, 1, 1e-3, 0, 2, 1e-6 };
template <typename T>
void one(mc::Ctx &c)
{
    Tab<T> A(1, 1);
    if constexpr (is_cx_v<T>) A(0, 0) = T(static_cast<realof<T>>(static_cast<int>(c.choose(9, "re")) - 4), static_cast<realof<T>>(static_cast<int>(c.choose(9, "im")) - 4));
    else A(0, 0) = static_cast<T>(static_cast<int>(c.choose(41, "a")) - 30);
    const size_t m = 1 + c.choose(3, "inputs"), p = 1 + c.choose(3, "outputs");
    const double t = c.pick(times, "time");
    c.go();
    check(c, A, m, p, t, 0);
}
template <typename T>
void two(mc::Ctx &c)
{
    T alpha[] = { T(0), T(1), T(-2), T(3), T(-7) };
    if constexpr (is_cx_v<T>) alpha[3] = T(0, 1), alpha[4] = T(-1, -2);
    auto A         = alphabet_matrix<T>(c, 2, 2, alpha);
    const size_t m = 1 + c.choose(3, "inputs"), p = 1 + c.choose(c.thorough ? 3 : 2, "outputs");
    const double t = c.pick(times, "time");
    c.go();
    check(c, A, m, p, t, m);
}
template <typename T>
void three(mc::Ctx &c)
{
    const T alpha[] = { T(0), T(1), T(-2) };
    auto A          = alphabet_matrix<T>(c, 3, 3, alpha);
    const double t  = times[c.choose(c.thorough ? 6 : 1, "time")];
    c.go();
    check(c, A, 2, 1, t, 1);
}
template <typename T>
void menu(mc::Ctx &c)
{
    const size_t n = 3 + c.choose(c.thorough ? 5 : 4, "states");
    auto A         = menu_matrix<T>(c, n, 8, n == 3 ? 3 : 2);
    const size_t m = 1 + c.choose(3, "inputs"), p = 1 + c.choose(2, "outputs") * 3;
    const double t = c.pick(times, "time");
    c.go();
    // From five states on a singular matrix is only decided when its rows say so plainly.
    if (n >= 5 && exact_det(A).zero()) return;
    check(c, A, m, p, t, static_cast<unsigned>(n));
}
// Fast and slow models: the time constants span twelve decades, with sample times in proportion.
template <typename T>
void stiff(mc::Ctx &c)
{
    static const int ex[]        = { 10, 20, 3, -10, -20 };
    static const double part[]   = { 0.4, 0.1, 1, 2.5, 0.01 };
    const size_t n = 1 + c.choose(3, "states");
    const T alpha[] = { T(-1), T(2), T(0), T(-3) };
    Tab<T> base     = n < 3 ? alphabet_matrix<T>(c, n, n, alpha) : menu_matrix<T>(c, n, 8, 2);
    const int e     = c.pick(ex, "exponent");
    const double t  = std::ldexp(c.pick(part, "time"), -e);
    const size_t m  = 1 + c.choose(2, "inputs");
    c.go();
    Tab<T> A = base;
    for (auto &x : A.v) x = static_cast<T>(x * static_cast<T>(std::ldexp(realof<T>(1), e)));
    check(c, A, m, 1, t, 1, &base);
}
// Models whose system matrix misses a structure by one small element.
template <typename T>
void nearly(mc::Ctx &c)
{
    const Tab<T> A = near_matrix<T>(c, 2, c.thorough ? 7 : 4);
    const double t = c.flip("time") ? 1 : 0.1;
    c.go();
    const Tab<T> regular(1, 1, T(1)); // all of them are
    check(c, A, 1 + A.r % 2, 1, t, 1, &regular);
}
// Models with many states.
template <typename T>
void large(mc::Ctx &c)
{
    static const double when[] = { 0.1, 1, 1e-3 };
    const Tab<T> A = c.thorough ? large_matrix<T>(c, { 8, 9, 12, 16, 17 }) : large_matrix<T>(c, { 8, 9, 12 });
    const double t = c.pick(when, "time");
    c.go();
    const Tab<T> regular(1, 1, T(1)); // all of them are
    check(c, A, 2 + A.r % 2 * 7, 1 + A.r % 3, t, 1, &regular);
}
} // namespace
MC(large)
{
    switch (c.choose(4, "type")) {
    case 0: return large<double>(c);
    case 1: return large<cd>(c);
    case 2: return large<float>(c);
    case 3: return large<ld>(c);
    }
}
MC(nearly)
{
    switch (c.choose(4, "type")) {
    case 0: return nearly<double>(c);
    case 1: return nearly<cd>(c);
    case 2: return nearly<float>(c);
    case 3: return nearly<ld>(c);
    }
}
MC(stiff)
{
    switch (c.choose(4, "type")) {
    case 0: return stiff<double>(c);
    case 1: return stiff<cd>(c);
    case 2: return stiff<float>(c);
    case 3: return stiff<ld>(c);
    }
}
MC(one)
{
    switch (c.choose(4, "type")) {
    case 0: return one<double>(c);
    case 1: return one<cd>(c);
    case 2: return one<float>(c);
    case 3: return one<cf>(c);
    }
}
MC(two)
{
    switch (c.choose(4, "type")) {
    case 3: return two<ld>(c);
    case 0: return two<double>(c);
    case 1: return two<cd>(c);
    case 2: return two<float>(c);
    }
}
MC(three) { three<double>(c); }
MC(menu)
{
    switch (c.choose(5, "type")) {
    case 2: return menu<ld>(c);
    case 3: return menu<cl>(c);
    case 4: return menu<float>(c);
    case 0: return menu<double>(c);
    case 1: return menu<cd>(c);
    }
}
