// C16: search and ordering.
#include "C05.hpp"
namespace
{
// Neighbours that are the same number in double precision.
template <typename T>
inline constexpr bool wider_than_double = std::is_same_v<T, long> || std::is_same_v<T, ld>;
template <typename T>
T next_value(T x)
{
    if constexpr (std::is_integral_v<T>) return x + 1;
    else return std::nextafter(x, std::numeric_limits<T>::max());
}
// ---- find / flatnonzero ----
template <typename T>
void expect_find(mc::Ctx &c, const Tab<T> &t)
{
    std::vector<size_t> nz;
    for (size_t i = 0; i < t.v.size(); ++i)
        if (t.v[i] != T(0)) nz.push_back(i);
    const Matrix<T> m(mat(t));
    const auto flat = ut::flatnonzero(m);
    if (flat != nz) c.fail("flatnonzero", "of %s is %s", show(t).c_str(), show(flat).c_str());
    auto expect = [&](const Matrix<size_t> &got, const std::vector<size_t> &e, const char *how) {
        const bool row = t.r == 1; // a row for a row vector
        if (tab(got).v != e) c.fail("find", "%s of %s gives %s, expected %s", how, show(t).c_str(), show(tab(got)).c_str(), show(e).c_str());
        if (!e.empty() && (got.rows() != (row ? 1 : e.size()) || got.cols() != (row ? e.size() : 1))) c.fail("find-shape", "%s of %s gives a %zux%zu result", how, show(t).c_str(), got.rows(), got.cols());
        c.step();
    };
    expect(ut::find(m), nz, "find");
    for (size_t n = 0; n <= nz.size() + 2; ++n) {
        const long k = static_cast<long>(std::min(n, nz.size()));
        expect(ut::find(m, n), std::vector<size_t>(nz.begin(), nz.begin() + k), "find first n");
        expect(ut::find(m, n, true), std::vector<size_t>(nz.begin(), nz.begin() + k), "find first n");
        expect(ut::find(m, n, false), std::vector<size_t>(nz.end() - k, nz.end()), "find last n");
        if (n > 8 && n + 3 < nz.size()) n = nz.size() - 3;
    }
    check_mat(c, "operand-changed", m, t);
    c.state(t.hash() + sizeof(T));
}
template <typename T>
void finding(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 0, 0 }, { 0, 3 }, { 1, 1 }, { 1, 5 }, { 5, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 }, { 3, 3 }, { 1, 8 }, { 8, 1 }, { 2, 4 } };
    const auto &s = c.pick(shapes, "shape");
    Tab<T> t(s[0], s[1]);
    const T small_value = is_cx_v<T> ? T(0) : T(std::is_floating_point_v<T> ? static_cast<T>(std::is_same_v<T, ld> ? 1e-4000L : 1e-300L) : T(1));
    const unsigned k    = t.v.size() > 6 ? 2 : 4;
    for (auto &x : t.v) switch (c.choose(k, "entry")) {
        case 0: x = T(0); break;
        case 1: x = T(static_cast<T>(7)); break;
        case 2:
            x = T(static_cast<T>(-3));
            if constexpr (is_cx_v<T>) x = T(0, -1);
            break;
        case 3:
            x = small_value;
            if constexpr (is_cx_v<T>) x = T(static_cast<realof<T>>(1e-30), 0);
            break;
        }
    c.go();
    expect_find(c, t);
}
void finding_large(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 65 }, { 65, 1 }, { 8, 9 }, { 33, 2 }, { 16, 16 }, { 1, 130 }, { 11, 12 }, { 257, 1 }, { 17, 16 }, { 3, 171 }, { 33, 33 } };
    const auto &s       = c.pick(shapes, "shape");
    const unsigned step = 1 + c.choose(9, "step"), from = c.choose(9, "from");
    c.go();
    Tab<double> t(s[0], s[1]);
    for (size_t i = from; i < t.v.size(); i += step) t.v[i] = i % 2 ? -0.5 : 3;
    expect_find(c, t);
}
// ---- minimum and maximum ----
template <typename T>
void expect_extremes(mc::Ctx &c, const std::vector<T> &v)
{
    const Vector<T> V(mkvec(v));
    const auto lo = malg::min(V);
    const auto hi = malg::max(V);
    if (v.empty()) {
        if (lo.second != 0 || hi.second != 0) c.fail("empty", "position in an empty vector");
    } else {
        size_t l = 0, h = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i] < v[l]) l = i;
            if (v[i] > v[h]) h = i;
        }
        if (lo.second != l || !same<T>(lo.first, v[l])) c.fail("min", "of %s is %s at %zu", show(v).c_str(), str(T(lo.first)).c_str(), lo.second);
        if (hi.second != h || !same<T>(hi.first, v[h])) c.fail("max", "of %s is %s at %zu", show(v).c_str(), str(T(hi.first)).c_str(), hi.second);
    }
    check_vec(c, "operand-changed", V, v);
    c.step(2);
    c.state(column(v).hash() + sizeof(T) * 8 + std::is_integral_v<T>);
}
template <typename T>
void expect_columns(mc::Ctx &c, const Tab<T> &t)
{
    const Matrix<T> m(mat(t));
    const Vector<T> lo = malg::min(m), hi = malg::max(m);
    if (t.size() == 0) {
        if (!lo.empty() || !hi.empty()) c.fail("empty", "extremes of an empty matrix");
        return;
    }
    std::vector<T> l, h;
    for (size_t j = 0; j < t.c; ++j) {
        l.push_back(t(0, j)), h.push_back(t(0, j));
        for (size_t i = 1; i < t.r; ++i) {
            if (t(i, j) < l[j]) l[j] = t(i, j);
            if (t(i, j) > h[j]) h[j] = t(i, j);
        }
    }
    check_vec(c, "column-min", lo, l);
    check_vec(c, "column-max", hi, h);
    check_mat(c, "operand-changed", m, t);
    c.step(2);
    c.state(t.hash() + sizeof(T));
}
template <typename T>
void extremes(mc::Ctx &c)
{
    T a[] = { T(0), T(1), static_cast<T>(-2), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest() };
    if constexpr (wider_than_double<T>) a[1] = label<T>(1, 0), a[2] = next_value(a[1]);
    if (c.flip("matrix")) {
        static const size_t shapes[][2] = { { 0, 0 }, { 1, 1 }, { 1, 4 }, { 4, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 } };
        const auto &s = c.pick(shapes, "shape");
        Tab<T> t(s[0], s[1]);
        for (auto &x : t.v) x = a[c.choose(t.v.size() > 4 ? 4 : 5, "entry")];
        c.go();
        expect_columns(c, t);
    } else {
        std::vector<T> v(c.choose(7, "size"));
        for (auto &x : v) x = a[c.choose(v.size() > 5 ? 4 : 5, "entry")];
        c.go();
        expect_extremes(c, v);
    }
}
void extremes_large(mc::Ctx &c)
{
    static const size_t sizes[] = { 16, 31, 64, 65 };
    const size_t n = c.pick(sizes, "size"), p = c.choose(static_cast<unsigned>(n), "low"), q = c.choose(static_cast<unsigned>(n), "high");
    c.go();
    std::vector<double> v(n, 1);
    v[p] = -4.5;
    v[q] = 9;
    expect_extremes(c, v);
    Tab<double> t(n, 3, 1.0);
    t(p, 1) = -4, t(q, 2) = 8, t(n - 1 - p, 0) = 3;
    if (p == 0 || q == 0 || p == n - 1 || p == q) expect_columns(c, t);
}
// ---- quantifiers ----
template <typename T>
void quantified(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 0, 0 }, { 0, 2 }, { 1, 1 }, { 1, 4 }, { 4, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 } };
    const auto &s  = c.pick(shapes, "shape");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    Tab<T> t(s[0], s[1]);
    for (auto &x : t.v) switch (c.choose(t.v.size() > 4 ? 2 : 3, "entry")) {
        case 0: x = T(0); break;
        case 1: x = static_cast<T>(-1); break;
        case 2:
            if constexpr (is_cx_v<T>) x = T(0, static_cast<realof<T>>(1e-20));
            else if constexpr (std::is_floating_point_v<T>) x = static_cast<T>(std::is_same_v<T, ld> ? 1e-4000L : 1e-30L);
            else x = T(1);
        }
    c.go();
    bool all = true, any = false;
    for (auto x : t.v) all = all && x != T(0), any = any || x != T(0);
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        if (malg::all(M) != all) c.fail("all", "of %s (%s) is %d", show(t).c_str(), kname(kind), !all);
        if (malg::any(M) != any) c.fail("any", "of %s (%s) is %d", show(t).c_str(), kname(kind), !any);
        c.step(2);
    });
    if (kind == 0) {
        Vector<T> v(t.v.size());
        for (size_t i = 0; i < t.v.size(); ++i) v[i] = t.v[i];
        if (malg::all(v) != all) c.fail("all-vector", "of %s is %d", show(t).c_str(), !all);
        if (malg::any(v) != any) c.fail("any-vector", "of %s is %d", show(t).c_str(), !any);
        c.step(2);
    }
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T));
}
void quantified_bool(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 0, 0 }, { 1, 1 }, { 1, 4 }, { 4, 1 }, { 2, 2 }, { 2, 3 }, { 3, 3 } };
    const auto &s = c.pick(shapes, "shape");
    Matrix<bool> m(s[0], s[1]);
    Vector<bool> v(s[0] * s[1]);
    bool all = true, any = false;
    std::uint64_t h = mc::mix(s[0], s[1]);
    for (size_t i = 0; i < s[0]; ++i)
        for (size_t j = 0; j < s[1]; ++j) {
            const bool x = c.flip("entry");
            m(i, j)      = x;
            v[i * s[1] + j] = x;
            all = all && x, any = any || x;
            h = mc::mix(h, x);
        }
    c.go();
    if (malg::all(m) != all || malg::all(v) != all) c.fail("all", "of booleans is %d", !all);
    if (malg::any(m) != any || malg::any(v) != any) c.fail("any", "of booleans is %d", !any);
    c.step(4);
    c.state(h);
}
void quantified_large(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 65 }, { 65, 1 }, { 9, 8 }, { 33, 2 } };
    const auto &s  = c.pick(shapes, "shape");
    const size_t p = c.choose(static_cast<unsigned>(s[0] * s[1]), "position");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    const bool one = c.flip("one");
    c.go();
    Tab<double> t(s[0], s[1], one ? 0.0 : 2.0);
    t.v[p] = one ? -1.0 : 0.0;
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        if (malg::all(M)) c.fail("all", "misses the zero at %zu of %s (%s)", p, show(t).c_str(), kname(kind));
        if (!malg::any(M)) c.fail("any", "misses the element at %zu of %s (%s)", p, show(t).c_str(), kname(kind));
    });
    c.step(2);
    c.state(mc::mix(mc::mix(t.hash(), p), static_cast<unsigned>(kind)));
}
// ---- three-way comparison ----
template <typename T>
int64_t order(const std::vector<T> &a, const std::vector<T> &b)
{
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i] < b[i]) return -static_cast<int64_t>(i) - 1;
        if (a[i] > b[i]) return static_cast<int64_t>(i) + 1;
    }
    return 0;
}
template <typename T>
void comparing(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 0, 0 }, { 1, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 } };
    const auto &s  = c.pick(shapes, "shape");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    T a[]          = { T(0), T(3), static_cast<T>(-2) };
    if constexpr (wider_than_double<T>) a[1] = label<T>(1, 0), a[2] = next_value(a[1]);
    Tab<T> x(s[0], s[1]), y(s[0], s[1]);
    for (auto &e : x.v) e = c.pick(a, "left");
    for (auto &e : y.v) e = c.pick(a, "right");
    c.go();
    const int64_t e = order(x.v, y.v);
    with_const(c, "operand-changed", kind, x, [&](const auto &X) {
        with_const(c, "operand-changed", kind, y, [&](const auto &Y) {
            if constexpr (std::is_same_v<decltype(X), decltype(Y)>) {
                const int64_t g = ut::compare(X, Y);
                if (g != e) c.fail("compare", "%s with %s (%s) gives %ld, expected %ld", show(x).c_str(), show(y).c_str(), kname(kind), static_cast<long>(g), static_cast<long>(e));
                if (ut::compare(Y, X) != -e) c.fail("antisymmetric", "%s with %s", show(x).c_str(), show(y).c_str());
                if (ut::compare(X, X) != 0) c.fail("reflexive", "%s with itself", show(x).c_str());
                c.step(3);
            }
        });
    });
    if (kind == 0) {
        const Vector<T> X(mkvec(x.v)), Y(mkvec(y.v));
        if (ut::compare(X, Y) != e) c.fail("compare-vectors", "%s with %s gives %ld, expected %ld", show(x).c_str(), show(y).c_str(), static_cast<long>(ut::compare(X, Y)), static_cast<long>(e));
        c.step();
    }
    c.state(mc::mix(mc::mix(x.hash(), y.hash()), static_cast<unsigned>(kind)));
}
void comparing_large(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 65 }, { 65, 1 }, { 9, 8 }, { 16, 17 } };
    const auto &s   = c.pick(shapes, "shape");
    const size_t p  = c.choose(static_cast<unsigned>(s[0] * s[1]), "first difference");
    const int kind  = static_cast<int>(c.choose(3, "kind")) * 2;
    const bool more = c.flip("greater"), later = c.flip("later difference");
    c.go();
    Tab<double> x(s[0], s[1], 1.5), y = x;
    x.v[p] += more ? 1 : -1;
    if (later && p + 1 < x.v.size()) x.v.back() += more ? -7 : 7;
    const int64_t e = more ? static_cast<int64_t>(p + 1) : -static_cast<int64_t>(p + 1);
    with_const(c, "operand-changed", kind, x, [&](const auto &X) {
        with_const(c, "operand-changed", kind, y, [&](const auto &Y) {
            if constexpr (std::is_same_v<decltype(X), decltype(Y)>)
                if (ut::compare(X, Y) != e) c.fail("compare", "first difference at %zu gives %ld", p, static_cast<long>(ut::compare(X, Y)));
        });
    });
    if (ut::compare(mkvec(x.v), mkvec(y.v)) != e) c.fail("compare-vectors", "first difference at %zu", p);
    c.step(2);
    c.state(mc::mix(mc::mix(x.hash(), p), static_cast<unsigned>(kind)));
}
// Negative zero, the smallest and largest numbers, infinities; for the quantifiers and
// the non-zero elements also not-a-number (which is not zero).
template <typename T>
void special(mc::Ctx &c)
{
    using L   = std::numeric_limits<T>;
    const T z[] = { T(0), T(-0.0), L::denorm_min(), -L::min(), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest() };
    static const size_t shapes[][2] = { { 1, 3 }, { 3, 1 }, { 2, 2 }, { 1, 1 } };
    const auto &s = c.pick(shapes, "shape");
    std::vector<T> v(s[0] * s[1]);
    for (size_t i = 0; i < v.size(); ++i) v[i] = z[c.choose(i < 3 ? 9 : 5, "entry")];
    c.go();
    Matrix<T> m(s[0], s[1]);
    for (size_t i = 0; i < v.size(); ++i) m(i / s[1], i % s[1]) = v[i];
    const Matrix<T> M(m);
    const Vector<T> V(mkvec(v));
    std::vector<size_t> nz;
    bool nan = false;
    // Linear positions are those of the matrix itself.
    for (size_t i = 0; i < v.size(); ++i) {
        if (M[i] != T(0)) nz.push_back(i);
        nan = nan || std::isnan(v[i]);
    }
    c.note("%s", show(v).c_str());
    if (ut::flatnonzero(M) != nz) c.fail("flatnonzero", "of %s is %s", show(v).c_str(), show(ut::flatnonzero(M)).c_str());
    if (tab(ut::find(M)).v != nz) c.fail("find", "of %s is %s", show(v).c_str(), show(tab(ut::find(M)).v).c_str());
    if (malg::all(M) != (nz.size() == v.size()) || malg::all(V) != (nz.size() == v.size())) c.fail("all", "of %s", show(v).c_str());
    if (malg::any(M) != !nz.empty() || malg::any(V) != !nz.empty()) c.fail("any", "of %s", show(v).c_str());
    c.step(6);
    if (!nan) {
        size_t lo = 0, hi = 0;
        for (size_t i = 1; i < v.size(); ++i) {
            if (v[i] < v[lo]) lo = i;
            if (v[i] > v[hi]) hi = i;
        }
        const auto a = malg::min(V), b = malg::max(V);
        if (a.second != lo || a.first != v[lo]) c.fail("min", "of %s is %s at %zu", show(v).c_str(), str(a.first).c_str(), a.second);
        if (b.second != hi || b.first != v[hi]) c.fail("max", "of %s is %s at %zu", show(v).c_str(), str(b.first).c_str(), b.second);
        const auto p = malg::min(M), q = malg::max(M);
        for (size_t j = 0; j < s[1]; ++j) {
            T l = M(0, j), h = M(0, j);
            for (size_t i = 1; i < s[0]; ++i) l = std::min(l, M(i, j)), h = std::max(h, M(i, j));
            if (p.size() != s[1] || p[j] != l) c.fail("min", "of the columns of %s", show(v).c_str());
            if (q.size() != s[1] || q[j] != h) c.fail("max", "of the columns of %s", show(v).c_str());
        }
        std::vector<T> w(v.rbegin(), v.rend());
        const auto e = order(v, w);
        if (ut::compare(V, Vector<T>(mkvec(w))) != e) c.fail("compare", "%s with its reverse", show(v).c_str());
        c.step(5);
    }
    std::uint64_t h = mc::mix(s[0], s[1]);
    for (auto &x : v) h = mc::mix(h, mc::hv(x));
    c.state(h + sizeof(T));
}
} // namespace
MC(special)
{
    switch (c.choose(3, "type")) {
    case 0: return special<double>(c);
    case 1: return special<float>(c);
    case 2: return special<ld>(c);
    }
}
MC(finding)
{
    switch (c.choose(5, "type")) {
    case 0: return finding<int>(c);
    case 1: return finding<double>(c);
    case 2: return finding<cd>(c);
    case 3: return finding<long>(c);
    case 4: return finding<ld>(c);
    }
}
MC(finding_large) { finding_large(c); }
MC(extremes)
{
    switch (c.choose(6, "type")) {
    case 0: return extremes<int>(c);
    case 1: return extremes<double>(c);
    case 2: return extremes<float>(c);
    case 3: return extremes<unsigned>(c);
    case 4: return extremes<long>(c);
    case 5: return extremes<ld>(c);
    }
}
MC(extremes_large) { extremes_large(c); }
MC(quantified)
{
    switch (c.choose(6, "type")) {
    case 0: return quantified<int>(c);
    case 1: return quantified<double>(c);
    case 2: return quantified<cd>(c);
    case 3: return quantified<float>(c);
    case 4: return quantified<long>(c);
    case 5: return quantified<ld>(c);
    }
}
MC(quantified_bool) { quantified_bool(c); }
MC(quantified_large) { quantified_large(c); }
MC(comparing)
{
    switch (c.choose(4, "type")) {
    case 0: return comparing<int>(c);
    case 1: return comparing<double>(c);
    case 2: return comparing<long>(c);
    case 3: return comparing<ld>(c);
    }
}
MC(comparing_large) { comparing_large(c); }
// Long operands with few, many or only non-zero elements and an extreme near either end.
MC(long_search)
{
    const Shape s       = long_shape(c, 520, 5000);
    const unsigned form = c.choose(4, "content");
    c.go();
    const size_t n = s.r * s.k;
    Tab<double> t(s.r, s.k);
    for (size_t i = 0; i < n; ++i) t.v[i] = form == 0 ? 1 : form == 1 ? (i + 1 == n) : form == 2 ? (i != n / 2) * 2 : (i == 0);
    expect_find(c, t);
}
MC(long_extremes)
{
    const Shape s  = long_shape(c, 1100, 5000);
    const size_t n = s.r * s.k, at[] = { 0, 1, n / 2, n - 2, n - 1 };
    const size_t p = c.pick(at, "low"), q = c.pick(at, "high");
    c.go();
    Tab<double> t(s.r, s.k, 1.5);
    for (size_t i = 0; i < n; ++i) t.v[i] += static_cast<double>((i * 7) % 11) / 16;
    t.v[p] = -8;
    t.v[q] = 9;
    expect_columns(c, t);
    if (s.r == 1 || s.k == 1) expect_extremes(c, t.v);
}
MC(long_quantified)
{
    const Shape s  = long_shape(c, 1100, 5000);
    const size_t n = s.r * s.k, at[] = { 0, 1, n / 2, n - 2, n - 1, n };
    const size_t p = c.pick(at, "odd one");
    const bool one = c.flip("one");
    c.go();
    Tab<double> t(s.r, s.k, one ? 0.0 : 2.0);
    if (p < n) t.v[p] = one ? -1.0 : 0.0;
    const bool all = !one && p == n, any = !one || p < n;
    const Matrix<double> M(mat(t));
    const Vector<double> V(mkvec(t.v));
    if (malg::all(M) != all || malg::all(V) != all) c.fail("all", "of %zux%zu with the element %zu different", s.r, s.k, p);
    if (malg::any(M) != any || malg::any(V) != any) c.fail("any", "of %zux%zu with the element %zu different", s.r, s.k, p);
    const auto B = M != 0.0;
    if (malg::all(B) != all || malg::any(B) != any) c.fail("all", "of booleans, %zux%zu", s.r, s.k);
    Tab<double> u = t;
    if (p < n) u.v[p] += 1;
    if (ut::compare(M, mat(u)) != (p < n ? -static_cast<int64_t>(p) - 1 : 0)) c.fail("compare", "first difference at %zu of %zux%zu", p, s.r, s.k);
    c.step(5);
    c.state(mc::mix(t.hash(), p));
}

// Positions past every narrower integer type.
MC(far)
{
    static const size_t sizes[] = { 255, 256, 257, 32767, 32768, 65535, 65536, 65537 };
    const size_t n    = 70001;
    const unsigned pi = c.choose(9, "position"), shape = c.choose(3, "shape");
    const bool more   = c.flip("greater");
    c.go();
    const size_t p = pi < 8 ? sizes[pi] : n - 1;
    Tab<float> x(shape == 0 ? 1 : n, shape == 0 ? n : 1, 0.0f);
    if (shape == 2) x = Tab<float>(7, n / 7 + 1, 0.0f);
    Tab<float> y = x;
    // The linear position of the matrix is the position counted by the library.
    Matrix<float> X(mat(x)), Y(mat(y));
    Y[p]               = more ? -1.0f : 1.0f;
    const auto place   = static_cast<int64_t>(p + 1);
    const int64_t want = more ? place : -place;
    if (ut::compare(X, Y) != want || ut::compare(Y, X) != -want) c.fail("compare", "first difference at %zu gives %ld and %ld", p, static_cast<long>(ut::compare(X, Y)), static_cast<long>(ut::compare(Y, X)));
    const auto f = ut::find(Y);
    if (f.size() != 1 || f[0] != p) c.fail("find", "the element %zu is found at %zu (%zu found)", p, f.size() ? f[0] : 0, f.size());
    Vector<float> v(x.v.size(), 0.0f), w(v);
    w[p] = more ? -1.0f : 1.0f;
    if (ut::compare(v, w) != want) c.fail("compare-vectors", "first difference at %zu gives %ld", p, static_cast<long>(ut::compare(v, w)));
    const auto [value, at] = more ? malg::min(w) : malg::max(w);
    if (value != w[p] || at != p) c.fail("extreme", "the extreme element %zu is found at %zu", p, static_cast<size_t>(at));
    if (malg::all(w) || !malg::any(w)) c.fail("quantified", "one element in %zu", n);
    c.step(5);
    c.state(mc::mix(p, shape * 2 + more));
}
