// C02: matrices are independent values over every operation history.
#include "common.hpp"

namespace
{
template <typename T>
Tab<T> resized(const Tab<T> &t, size_t r, size_t c)
{
    Tab<T> n(r, c);
    for (size_t i = 0; i < std::min(r, t.r); ++i)
        for (size_t j = 0; j < std::min(c, t.c); ++j) n(i, j) = t(i, j);
    return n;
}
template <typename T>
Tab<T> reshaped(const Tab<T> &t, size_t r, size_t c)
{
    Tab<T> n(r, c);
    n.v = t.v;
    return n;
}
template <typename T, typename U>
Tab<T> conv(const Tab<U> &t)
{
    Tab<T> n(t.r, t.c);
    for (size_t i = 0; i < t.v.size(); ++i) n.v[i] = static_cast<T>(t.v[i]);
    return n;
}
template <typename T>
Tab<T> window(const Tab<T> &t, size_t r0, size_t r1, size_t c0, size_t c1)
{
    Tab<T> n(r1 - r0, c1 - c0);
    for (size_t i = r0; i < r1; ++i)
        for (size_t j = c0; j < c1; ++j) n(i - r0, j - c0) = t(i, j);
    return n;
}
template <typename T>
Tab<T> minor(const Tab<T> &t, size_t p, size_t q)
{
    Tab<T> n(t.r - 1, t.c - 1);
    for (size_t i = 0; i < n.r; ++i)
        for (size_t j = 0; j < n.c; ++j) n(i, j) = t(i + (i >= p), j + (j >= q));
    return n;
}

template <typename T, typename U>
struct World {
    Matrix<T> a[2];
    Matrix<U> b;
    Tab<T> ma[2];
    Tab<U> mb;
    int fresh = 1;
    bool big  = false;
    template <typename X>
    X val()
    {
        ++fresh;
        return label<X>(static_cast<size_t>(fresh), static_cast<size_t>(fresh % 3));
    }
    void all(mc::Ctx &c, const char *what)
    {
        c.note("%s", what);
        check_mat(c, "matrix-state", a[0], ma[0]);
        check_mat(c, "matrix-state", a[1], ma[1]);
        check_mat(c, "matrix-state", b, mb);
        for (int i = 0; i < 2; ++i) {
            size_t n = 0;
            for (T &x : a[i]) {
                if (!same<T>(x, ma[i].v[n])) c.fail("matrix-iteration", "after %s: iteration gives %s at %zu", what, str(x).c_str(), n);
                ++n;
            }
            if (n != ma[i].v.size()) c.fail("matrix-iteration", "after %s: iteration visits %zu of %zu elements", what, n, ma[i].v.size());
        }
        c.step();
        c.state(mc::mix(mc::mix(ma[0].hash(), ma[1].hash()), mb.hash()));
    }
    void fill(int s, size_t r, size_t k)
    {
        a[s]  = Matrix<T>(r, k);
        ma[s] = Tab<T>(r, k);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < k; ++j) a[s](i, j) = ma[s](i, j) = val<T>();
    }
    void op(mc::Ctx &c)
    {
        static const size_t small[][2] = { { 0, 0 }, { 1, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 }, { 0, 2 } };
        static const size_t large[][2] = { { 0, 0 }, { 1, 72 }, { 72, 1 }, { 9, 8 }, { 8, 9 }, { 17, 5 }, { 33, 20 }, { 5, 40 } };
        const auto &shapes             = big ? large : small;
        const int s = static_cast<int>(c.choose(2, "target")), o = 1 - s;
        switch (c.choose(22, "op")) {
        case 0: {
            auto &n = c.pick(shapes, "resize");
            a[s].resize(n[0], n[1]);
            ma[s] = resized(ma[s], n[0], n[1]);
            return all(c, "resize");
        }
        case 1: {
            auto &n     = c.pick(shapes, "reshape");
            bool fits   = n[0] * n[1] == ma[s].size();
            bool thrown = throws([&] { a[s].reshape(n[0], n[1]); });
            if (thrown == fits) c.fail("reshape-validation", "reshape %zux%zu -> %zux%zu %s", ma[s].r, ma[s].c, n[0], n[1], thrown ? "rejected" : "accepted");
            if (fits) ma[s] = reshaped(ma[s], n[0], n[1]);
            return all(c, "reshape");
        }
        case 2: a[s] = a[o], ma[s] = ma[o]; return all(c, "copy assignment");
        case 3:
            a[s]  = std::move(a[o]);
            ma[s] = ma[o];
            ma[o] = Tab<T>();
            return all(c, "move assignment");
        case 4: {
            Matrix<T> &alias = a[s];
            a[s]             = alias;
            all(c, "self assignment");
            a[s] = static_cast<const MatrixBase<T> &>(alias);
            return all(c, "self assignment through the base class");
        }
        case 5: {
            Matrix<T> tmp(std::move(a[s]));
            check_mat(c, "move-construction", tmp, ma[s]);
            Tab<T> was = ma[s];
            ma[s]      = Tab<T>();
            all(c, "move construction");
            a[s].resize(2, 1);
            ma[s] = Tab<T>(2, 1);
            all(c, "resize of a moved-from matrix");
            a[o]  = std::move(tmp);
            ma[o] = was;
            all(c, "move assignment from a local");
            check_mat(c, "moved-from", tmp, Tab<T>());
            return;
        }
        case 6: {
            Matrix<T> tmp(a[s]);
            if (tmp.size()) tmp[tmp.size() - 1] = val<T>();
            return all(c, "write to a copy");
        }
        case 7: a[s] = b, ma[s] = conv<T>(mb); return all(c, "assignment from another element type");
        case 8: b = a[s], mb = conv<U>(ma[s]); return all(c, "assignment to another element type");
        case 9: {
            Matrix<U> tmp(a[s]);
            check_mat(c, "construction-from-other-type", tmp, conv<U>(ma[s]));
            b  = std::move(tmp);
            mb = conv<U>(ma[s]);
            return all(c, "construction from another element type");
        }
        case 10: {
            if (ma[s].v.empty()) return;
            size_t r = ma[s].r - 1, k = ma[s].c - 1;
            a[s](r, k) = ma[s](r, k) = val<T>();
            return all(c, "write of the last element");
        }
        case 11: {
            if (ma[s].v.empty()) return;
            T x            = val<T>();
            size_t p       = ma[s].v.size() > 1 ? 1 : 0;
            a[s][p]        = x;
            ma[s].v[p]     = x;
            T y            = val<T>();
            a[s].at(0, 0)  = y;
            ma[s](0, 0)    = y;
            return all(c, "write by linear position and by at()");
        }
        case 12: {
            T x = val<T>(), y = val<T>(), z = val<T>(), w = val<T>(), u = val<T>(), v = val<T>();
            a[s]  = { { x, y, z }, { w, u, v } };
            ma[s] = Tab<T>(2, 3);
            ma[s].v = { x, y, z, w, u, v };
            return all(c, "list assignment");
        }
        case 13: {
            T x       = val<T>();
            bool thr1 = throws([&] { a[s] = { { x, x }, { x } }; });
            bool thr2 = throws([&] { a[s] = { { x }, { x, x } }; });
            if (!thr1 || !thr2) c.fail("ragged-list", "a ragged list was accepted");
            return all(c, "ragged list assignment");
        }
        case 14: {
            // A view of the destination itself.
            if (ma[s].r < 1 || ma[s].c < 1) return;
            size_t r0 = ma[s].r > 1 ? 1 : 0, c0 = ma[s].c > 1 ? 1 : 0;
            a[s]  = a[s]({ r0, ma[s].r }, { c0, ma[s].c });
            ma[s] = window(ma[s], r0, ma[s].r, c0, ma[s].c);
            return all(c, "assignment of a view of itself");
        }
        case 15: {
            if (ma[s].r < 1 || ma[s].c < 1) return;
            size_t p = ma[s].r - 1, q = 0;
            a[s]  = CofactorView(&a[s], p, q);
            ma[s] = minor(ma[s], p, q);
            return all(c, "assignment of an excluding view of itself");
        }
        case 16: {
            if (ma[o].r < 1 || ma[o].c < 1) return;
            const Matrix<T> &k = a[o];
            View<const Matrix<T>> v(&k, 0, NPOS, ma[o].c - 1, NPOS);
            Matrix<T> tmp(v);
            check_mat(c, "construction-from-view", tmp, window(ma[o], 0, ma[o].r, ma[o].c - 1, ma[o].c));
            a[s]  = v;
            ma[s] = window(ma[o], 0, ma[o].r, ma[o].c - 1, ma[o].c);
            return all(c, "assignment of a constant view of another");
        }
        case 17: a[s] = Matrix<T>(), ma[s] = Tab<T>(); return all(c, "assignment of an empty matrix");
        case 18: {
            const Matrix<T> e(0, 2);
            a[s]  = e;
            ma[s] = Tab<T>(0, 2);
            return all(c, "assignment of a matrix without rows");
        }
        case 19: std::swap(a[0], a[1]), std::swap(ma[0], ma[1]); return all(c, "swap");
        case 20: {
            b  = std::move(a[s]);
            mb = conv<U>(ma[s]);
            // Either the source keeps its elements or it is empty.
            if (a[s].rows() != ma[s].r || a[s].cols() != ma[s].c) ma[s] = Tab<T>();
            return all(c, "move assignment to another element type");
        }
        case 21: {
            if (ma[s].r < 1 || ma[s].c < 1) return;
            // Writes through a view reach only the viewed matrix.
            a[s]({ 0, 1 }, Range::all())(0, ma[s].c - 1) = ma[s](0, ma[s].c - 1) = val<T>();
            return all(c, "write through a view");
        }
        }
    }
};
template <typename T, typename U>
void histories(mc::Ctx &c, int depth, bool big = false)
{
    static const size_t small[][4] = { { 2, 3, 3, 2 }, { 0, 0, 1, 2 }, { 3, 1, 2, 2 } }, large[][4] = { { 9, 8, 20, 5 }, { 1, 130, 17, 17 }, { 65, 2, 12, 6 } };
    const auto &start              = big ? large : small;
    const auto &st                 = c.pick(start, "initial shapes");
    World<T, U> w;
    w.big = big;
    w.fill(0, st[0], st[1]);
    w.fill(1, st[2], st[3]);
    w.b  = Matrix<U>(1, 2, { U(7), U(-8) });
    w.mb = Tab<U>(1, 2);
    w.mb.v = { U(7), U(-8) };
    w.all(c, "start");
    if (&st != &start[0]) --depth;
    for (int i = 0; i < depth; ++i) w.op(c);
    c.go();
}
} // namespace
MC_LEAK(histories_double_int) { histories<double, int>(c, c.thorough ? 5 : 4); }
MC_LEAK(histories_complex_cfloat) { histories<cd, cf>(c, c.thorough ? 3 : 2); }
MC_LEAK(histories_wide) { histories<std::int64_t, ld>(c, c.thorough ? 3 : 2); }
MC_LEAK(histories_large) { histories<double, int>(c, c.thorough ? 3 : 2, true); }
MC_LEAK(histories_int_double) { histories<int, double>(c, c.thorough ? 4 : 3); }

namespace
{
template <typename T>
void shape_paths(mc::Ctx &c)
{
    const int hi = c.thorough ? 5 : 4;
    size_t r[3], k[3];
    for (int i = 0; i < 3; ++i) {
        r[i] = static_cast<size_t>(c.range(0, hi, "rows"));
        k[i] = static_cast<size_t>(c.range(0, hi, "cols"));
    }
    c.go();
    Tab<T> m = labelled<T>(r[0], k[0]);
    Matrix<T> a(mat(m));
    for (int i = 1; i < 3; ++i) {
        if (i == 1) a.resize(r[i], k[i]);
        else ut::resize(a, r[i], k[i]);
        m = resized(m, r[i], k[i]);
        check_mat(c, "resize-path", a, m);
        for (size_t x = 0; x < m.v.size(); ++x) {
            T val = label<T>(x, static_cast<size_t>(i), 5 * i);
            a[x] = m.v[x] = val;
        }
        check_mat(c, "resize-path-write", a, m);
        c.step();
    }
    c.state(mc::mix(mc::mix(mc::mix(r[0], k[0]), mc::mix(r[1], k[1])), mc::mix(r[2], k[2] * 8 + sizeof(T))));
}
template <typename T>
void big_pairs(mc::Ctx &c)
{
    static const size_t dims[] = { 0, 1, 2, 5, 7, 8, 9, 16, 33, 65 };
    size_t r0 = c.pick(dims, "rows"), k0 = c.pick(dims, "cols"), r1 = c.pick(dims, "new rows"), k1 = c.pick(dims, "new cols");
    c.go();
    Tab<T> m = labelled<T>(r0, k0);
    Matrix<T> a(mat(m));
    Matrix<T> b(a), d;
    d = a;
    a.resize(r1, k1);
    check_mat(c, "resize", a, resized(m, r1, k1));
    check_mat(c, "copy", b, m);
    check_mat(c, "assigned", d, m);
    d = a;
    check_mat(c, "reassigned", d, resized(m, r1, k1));
    if (r0 * k0 == r1 * k1) {
        ut::reshape(b, r1, k1);
        check_mat(c, "reshape", b, reshaped(m, r1, k1));
    } else {
        if (!throws([&] { b.reshape(r1, k1); })) c.fail("reshape-accepted", "%zux%zu -> %zux%zu", r0, k0, r1, k1);
        check_mat(c, "rejected-reshape", b, m);
    }
    c.step(4);
    c.state(mc::mix(mc::mix(r0, k0), mc::mix(r1, k1)));
}
template <typename T>
void constructors(mc::Ctx &c)
{
    const size_t r = static_cast<size_t>(c.range(0, 6, "rows")), k = static_cast<size_t>(c.range(0, 6, "cols"));
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    Tab<T> t = labelled<T>(r, k);
    check_mat(c, "zero-filled", Matrix<T>(r, k), Tab<T>(r, k));
    check_mat(c, "filled", Matrix<T>(r, k, T(3)), Tab<T>(r, k, T(3)));
    check_mat(c, "from-vector", Matrix<T>(r, k, t.v), t);
    std::vector<T> shorter = t.v;
    if (!shorter.empty()) {
        shorter.pop_back();
        if (!throws([&] { Matrix<T> m(r, k, shorter); })) c.fail("short-vector", "a vector with too few elements was accepted");
        if (!throws([&] { Matrix<T> m(r, k, { T(1) }); }) && r * k > 1) c.fail("short-list", "a list with too few elements was accepted");
    }
    if (!throws([&] { Matrix<T> m({ { T(1), T(2) }, { T(1) } }); })) c.fail("ragged-list", "a ragged list was accepted");
    if (!throws([&] { Matrix<T> m({ { T(1) }, { T(1), T(2) } }); })) c.fail("ragged-list", "a ragged list was accepted");
    with_const(c, "copied-operand", kind, t, [&](const auto &m) {
        Matrix<T> x(m);
        check_mat(c, "construct-from-operand", x, t);
        Matrix<T> y(2, 5, T(9));
        y = m;
        check_mat(c, "assign-operand", y, t);
        Matrix<cd> z(m);
        check_mat(c, "construct-wider", z, conv<cd>(t));
        Matrix<cd> w;
        w = m;
        check_mat(c, "assign-wider", w, conv<cd>(t));
    });
    c.step(8);
    c.state(mc::mix(mc::mix(r, k), mc::mix(static_cast<unsigned>(kind), sizeof(T))));
}
// Nested lists of every shape up to 4x4, in construction and assignment, and every ragged list of up to three rows.
template <typename T, size_t... K>
void list_shape(mc::Ctx &c, const Tab<T> &t, std::index_sequence<K...>)
{
    static const size_t start[][2] = { { 0, 0 }, { 1, 1 }, { 4, 3 }, { 2, 2 } };
    auto row = [&](size_t i) { return &t.v[i * sizeof...(K)]; };
    auto go  = [&](std::initializer_list<std::initializer_list<T>> l) {
        Matrix<T> m(l);
        check_mat(c, "list-construction", m, t);
        for (auto &s : start) {
            Matrix<T> a(s[0], s[1], T(9));
            a = l;
            check_mat(c, "list-assignment", a, t);
        }
        c.step(5);
    };
#define R(i) { row(i)[K]... }
    switch (t.r) {
    case 1: return go({ R(0) });
    case 2: return go({ R(0), R(1) });
    case 3: return go({ R(0), R(1), R(2) });
    case 4: return go({ R(0), R(1), R(2), R(3) });
    }
#undef R
}
template <typename T>
void lists(mc::Ctx &c)
{
    const size_t r = static_cast<size_t>(c.range(1, 4, "rows")), k = static_cast<size_t>(c.range(1, 4, "cols"));
    const size_t n[3] = { c.choose(4, "first length"), c.choose(4, "second length"), c.choose(4, "third length") };
    const bool three  = c.flip("three rows");
    c.go();
    Tab<T> t = labelled<T>(r, k);
    switch (k) {
    case 1: list_shape<T>(c, t, std::make_index_sequence<1>{}); break;
    case 2: list_shape<T>(c, t, std::make_index_sequence<2>{}); break;
    case 3: list_shape<T>(c, t, std::make_index_sequence<3>{}); break;
    case 4: list_shape<T>(c, t, std::make_index_sequence<4>{}); break;
    }
    // Ragged lists: rejected, whichever row is the odd one, and nothing changes.
    const T x(5);
    const std::initializer_list<T> of[4] = { {}, { x }, { x, x }, { x, x, x } };
    Matrix<T> a(mat(t));
    const bool even = n[0] == n[1] && (!three || n[1] == n[2]);
    const bool t1   = throws([&] {
        if (three) Matrix<T> m({ of[n[0]], of[n[1]], of[n[2]] });
        else Matrix<T> m({ of[n[0]], of[n[1]] });
    });
    const bool t2 = throws([&] {
        if (three) a = { of[n[0]], of[n[1]], of[n[2]] };
        else a = { of[n[0]], of[n[1]] };
    });
    if (even ? (n[0] && (t1 || t2)) : !(t1 && (t2 || tab(a) == t))) c.fail("ragged-list", "list with rows of %zu, %zu%s elements: %s", n[0], n[1], three ? " and more" : "", t1 ? "rejected" : "accepted");
    if (!even) check_mat(c, "ragged-list", a, t);
    else if (n[0]) check_mat(c, "list-assignment", a, Tab<T>(three ? 3 : 2, n[0], x));
    c.step(2);
    c.state(mc::mix(mc::mix(r, k), mc::mix(mc::mix(n[0], n[1]), mc::mix(n[2], three))));
}
// Assigning every window of a matrix to the matrix itself.
MC_LEAK(self_windows)
{
    const size_t r = static_cast<size_t>(c.range(1, 5, "rows")), k = static_cast<size_t>(c.range(1, 5, "cols"));
    const size_t r0 = c.choose(static_cast<unsigned>(r), "row start"), c0 = c.choose(static_cast<unsigned>(k), "col start");
    const size_t r1 = r0 + 1 + c.choose(static_cast<unsigned>(r - r0), "row end"), c1 = c0 + 1 + c.choose(static_cast<unsigned>(k - c0), "col end");
    const unsigned how = c.choose(4, "how");
    c.go();
    Tab<double> t = labelled<double>(r, k);
    Matrix<double> a(mat(t));
    const Matrix<double> &ca = a;
    switch (how) {
    case 0: a = a({ r0, r1 }, { c0, c1 }); break;
    case 1: a = ca({ r0, r1 }, { c0, c1 }); break;
    case 2: {
        View<Matrix<double>> o(&a, r0, NPOS, 0, NPOS);
        a = View<View<Matrix<double>>>(&o, 0, r1 - r0, c0, c1);
        break;
    }
    case 3: {
        Matrix<float> f;
        f = ca({ r0, r1 }, { c0, c1 });
        check_mat(c, "float-copy", f, conv<float>(window(t, r0, r1, c0, c1)));
        a = f;
        check_mat(c, "float-back", a, window(t, r0, r1, c0, c1));
        c.state(mc::mix(mc::mix(r, k), mc::mix(r0, mc::mix(c0, mc::mix(r1, c1)))));
        return;
    }
    }
    c.step();
    check_mat(c, "self-window", a, window(t, r0, r1, c0, c1));
    a.resize(r, k);
    check_mat(c, "self-window-resize", a, resized(window(t, r0, r1, c0, c1), r, k));
    c.state(mc::mix(how, mc::mix(mc::mix(r, k), mc::mix(r0, mc::mix(c0, mc::mix(r1, c1))))));
}
} // namespace
MC_LEAK(shape_paths)
{
    if (c.flip("type")) shape_paths<int>(c);
    else shape_paths<cd>(c);
}
MC_LEAK(large_pairs)
{
    if (c.flip("type")) big_pairs<float>(c);
    else big_pairs<double>(c);
}
MC_LEAK(constructors)
{
    switch (c.choose(5, "type")) {
    case 0: return constructors<double>(c);
    case 1: return constructors<int>(c);
    case 2: return constructors<cd>(c);
    case 3: return constructors<ld>(c);
    case 4: return constructors<std::int64_t>(c);
    }
}
MC_LEAK(lists)
{
    switch (c.choose(4, "type")) {
    case 0: return lists<double>(c);
    case 1: return lists<int>(c);
    case 2: return lists<cd>(c);
    case 3: return lists<ld>(c);
    }
}
// Shapes with more elements than can exist are rejected, whatever their product wraps to.
MC(unrepresentable)
{
    static const size_t dims[] = { 1, 2, 3, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 61, size_t(1) << 63, (size_t(1) << 63) + 1, NPOS / 2 + 2, NPOS };
    static const size_t start[][2] = { { 0, 0 }, { 1, 1 }, { 2, 3 }, { 3, 1 } };
    const size_t r = c.pick(dims, "rows"), k = c.pick(dims, "cols");
    const auto &s     = c.pick(start, "start");
    const unsigned op = c.choose(6, "operation");
    c.go();
    if (static_cast<unsigned __int128>(r) * k < (static_cast<unsigned __int128>(1) << 61)) return;
    auto t = labelled<double>(s[0], s[1]);
    Matrix<double> m(mat(t));
    const bool thrown = throws([&] {
        switch (op) {
        case 0: m = Matrix<double>(r, k); break;
        case 1: m = Matrix<double>(r, k, 4.0); break;
        case 2: m = Matrix<double>(r, k, { 1., 2., 3. }); break;
        case 3: m = Matrix<double>(r, k, std::vector<double>{ 1, 2, 3 }); break;
        case 4: m.resize(r, k); break;
        case 5: m.reshape(r, k); break;
        }
    });
    if (!thrown) c.fail("unrepresentable", "operation %u accepts %zux%zu", op, r, k);
    check_mat(c, "unrepresentable-changed", m, t);
    c.step();
    c.state(mc::mix(mc::mix(r, k), mc::mix(s[0], op)));
}
