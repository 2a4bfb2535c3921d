// C11: LU factors.
#include "near.hpp"
namespace
{
// Whether every leading principal minor is non-zero (exactly).
bool regular(const GM &m)
{
    GM k;
    for (size_t n = 1; n <= m.size(); ++n) {
        k.clear();
        for (size_t i = 0; i < n; ++i) k.emplace_back(m[i].begin(), m[i].begin() + static_cast<long>(n));
        if (exact_det(k).zero()) return false;
    }
    return true;
}
template <typename T>
void check(mc::Ctx &c, const Tab<T> &t, int kind, bool reg)
{
    const size_t n = t.r;
    c.note("%s (%s)%s", show(t).c_str(), kname(kind), reg ? "" : " has a zero leading minor");
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const auto [l, u] = la::lu_decomposition(M);
        static_assert(std::is_same_v<std::remove_const_t<std::remove_reference_t<decltype(l)>>, Matrix<T>>);
        static_assert(std::is_same_v<std::remove_const_t<std::remove_reference_t<decltype(u)>>, Matrix<T>>);
        if (l.rows() != n || l.cols() != n || u.rows() != n || u.cols() != n) c.fail("shape", "factors of %s are %zux%zu and %zux%zu", show(t).c_str(), l.rows(), l.cols(), u.rows(), u.cols());
        if (!reg) return;
        const ld eps = static_cast<ld>(std::numeric_limits<realof<T>>::epsilon());
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                if (j > i && l(i, j) != T(0)) c.fail("lower", "L of %s has %s at (%zu,%zu)", show(t).c_str(), str(T(l(i, j))).c_str(), i, j);
                if (j < i && u(i, j) != T(0)) c.fail("upper", "U of %s has %s at (%zu,%zu)", show(t).c_str(), str(T(u(i, j))).c_str(), i, j);
                if (j == i && u(i, j) != T(1)) c.fail("unit", "U of %s has %s on its diagonal (%zu)", show(t).c_str(), str(T(u(i, j))).c_str(), i);
                cl s    = 0;
                ld size = std::abs(wide(t(i, j)));
                for (size_t k = 0; k < n; ++k) {
                    s += wide(T(l(i, k))) * wide(T(u(k, j)));
                    size += std::abs(wide(T(l(i, k)))) * std::abs(wide(T(u(k, j))));
                }
                if (!(std::abs(s - wide(t(i, j))) <= 8 * (static_cast<ld>(n) + 2) * eps * size)) c.fail("product", "L*U of %s (%s) has %Lg%+Lgi at (%zu,%zu): L = %s, U = %s", show(t).c_str(), kname(kind), s.real(), s.imag(), i, j, show(tab(l)).c_str(), show(tab(u)).c_str());
            }
    });
    c.step();
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T));
}
template <typename T>
void alphabet(mc::Ctx &c)
{
    const size_t n = 1 + c.choose(3, "n");
    const int kind = static_cast<int>(c.choose(n == 3 && !c.thorough ? 3 : K_COUNT, "kind")) * (n == 3 && !c.thorough ? 2 : 1);
    Tab<T> t(n, n);
    for (size_t i = 0; i < n * n; ++i) {
        if constexpr (is_cx_v<T>) {
            static const int z[][2] = { { 1, 0 }, { 0, -1 }, { 2, 1 }, { 0, 0 } };
            const auto &e = z[n < 3 || i < 6 || c.thorough ? c.choose(n == 3 && i > 3 ? 2 : 4, "entry") : (i * 5 + 3) % 4];
            t.v[i] = T(static_cast<realof<T>>(e[0]), static_cast<realof<T>>(e[1]));
        } else {
            static const int z[] = { 1, -2, 3, 0, 7 };
            t.v[i] = static_cast<T>(z[c.choose(n == 3 ? 3 : 5, "entry")]);
        }
    }
    c.go();
    check(c, t, kind, regular(exact(t)));
}
template <typename T>
void menus(mc::Ctx &c)
{
    const size_t n = 4 + c.choose(c.thorough ? 4 : 3, "n");
    const int kind = static_cast<int>(c.choose(n == 4 ? K_COUNT : 2, "kind")) * (n == 4 ? 1 : 4);
    const unsigned d = c.choose(2, "diagonal");
    Tab<T> t = menu_matrix<T>(c, n, n < 6 || c.thorough ? 8 : 6, n < 6 ? 4 : 3);
    c.go();
    for (size_t i = 0; i < n; ++i) t(i, i) += T(static_cast<int>(d) * 5);
    check(c, t, kind, regular(exact(t)));
}
// The product of chosen triangular factors, sizes up to 17.
template <typename T>
void factors(mc::Ctx &c)
{
    static const size_t dims[] = { 1, 2, 3, 5, 8, 9, 16, 17 };
    const size_t n = c.pick(dims, "n");
    const unsigned lf = c.choose(4, "L"), uf = c.choose(4, "U");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    Tab<T> l(n, n), u(n, n);
    auto at = [](unsigned f, size_t i, size_t j) { return T(f == 0 ? 0 : f == 1 ? 1 : f == 2 ? static_cast<int>((i * 3 + j * 5) % 5) - 2 : (i + j) % 3 == 1 ? -1 : 0); };
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            if (j < i) l(i, j) = at(lf, i, j);
            if (j > i) u(i, j) = at(uf, j, i + 1);
            if (i == j) l(i, i) = T(i % 3 == 2 ? -4 : 2), u(i, i) = T(1);
        }
    const Tab<T> t = product<T>(l, u);
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const auto r = la::lu_decomposition(M);
        const Tab<T> a = tab(r.first), b = tab(r.second);
        // Divisions by powers of two and small integers only: exact.
        if (a != l) c.fail("factor", "L of %s is %s, should be %s", show(t).c_str(), show(a).c_str(), show(l).c_str());
        if (b != u) c.fail("factor", "U of %s is %s, should be %s", show(t).c_str(), show(b).c_str(), show(u).c_str());
    });
    c.step();
    check(c, t, kind, true);
}
void scaled(mc::Ctx &c)
{
    static const int ex[] = { 0, 60, -60, 300, -300 };
    const size_t n = 1 + c.choose(6, "n"), p = c.choose(static_cast<unsigned>(n), "row"), q = c.choose(static_cast<unsigned>(n), "column");
    const int e = c.pick(ex, "row exponent"), f = c.pick(ex, "column exponent");
    c.go();
    Tab<double> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) t(i, j) = menu_entry<double>((i * 3 + 5) % 8, j, n) + (i == j ? 9 : 0);
    if (!regular(exact(t))) return;
    for (size_t j = 0; j < n; ++j) t(p, j) = std::ldexp(t(p, j), e);
    for (size_t i = 0; i < n; ++i) t(i, q) = std::ldexp(t(i, q), f);
    check(c, t, 0, true);
}
// Matrices that miss a structure by one small element.
template <typename T>
void nearly(mc::Ctx &c)
{
    const Tab<T> t = near_matrix<T>(c, 2, c.thorough ? 9 : 6, false);
    const int kind = static_cast<int>(c.choose(2, "kind")) * 4;
    c.go();
    // Reflections of size two are permutations.
    for (size_t k = 1; k <= t.r; ++k) {
        Tab<T> lead(k, k);
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < k; ++j) lead(i, j) = t(i, j);
        QM none(k, std::vector<Q>());
        if (!(std::abs(num(quad_solve(quad(lead), none))) > 0)) return;
    }
    check(c, t, kind, true);
}
template <typename T>
void large(mc::Ctx &c)
{
    const Tab<T> t = large_matrix<T>(c, { 7, 8, 9, 12, 16, 17, 24, 32, 33, 48, 64, 65 }, false);
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    check(c, t, kind, true);
}
void rejected(mc::Ctx &c)
{
    const size_t r = c.choose(8, "rows"), k = c.choose(8, "cols");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    Tab<double> t = labelled<double>(r, k);
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const bool got = throws([&] { (void)la::lu_decomposition(M); });
        if (got != (r != k)) c.fail("rejection", "%zux%zu is %s", r, k, got ? "rejected" : "accepted");
    });
    c.step();
    c.state(mc::mix(r, k) + static_cast<unsigned>(kind));
}
} // namespace
MC(alphabet)
{
    switch (c.choose(5, "type")) {
    case 3: return alphabet<ld>(c);
    case 4: return alphabet<cl>(c);
    case 0: return alphabet<double>(c);
    case 1: return alphabet<cd>(c);
    case 2: return alphabet<float>(c);
    }
}
MC(menus)
{
    switch (c.choose(5, "type")) {
    case 3: return menus<ld>(c);
    case 4: return menus<cl>(c);
    case 0: return menus<double>(c);
    case 1: return menus<cd>(c);
    case 2: return menus<float>(c);
    }
}
MC(factors)
{
    switch (c.choose(5, "type")) {
    case 3: return factors<ld>(c);
    case 4: return factors<cl>(c);
    case 0: return factors<double>(c);
    case 1: return factors<cd>(c);
    case 2: return factors<float>(c);
    }
}
MC(scaled) { scaled(c); }
MC(large)
{
    switch (c.choose(4, "type")) {
    case 0: return large<double>(c);
    case 1: return large<cd>(c);
    case 2: return large<float>(c);
    case 3: return large<ld>(c);
    }
}
MC(nearly)
{
    switch (c.choose(4, "type")) {
    case 0: return nearly<double>(c);
    case 1: return nearly<cd>(c);
    case 2: return nearly<float>(c);
    case 3: return nearly<ld>(c);
    }
}
MC(rejected) { rejected(c); }
