// C03: views address exactly the elements of their window.
#include "common.hpp"
#include <csetjmp>
#include <csignal>

namespace
{
struct Win {
    size_t r0, r1, c0, c1; // clamped
};
template <typename T>
Tab<T> sub(const Tab<T> &t, const Win &w)
{
    Tab<T> n(w.r1 - w.r0, w.c1 - w.c0);
    for (size_t i = 0; i < n.r; ++i)
        for (size_t j = 0; j < n.c; ++j) n(i, j) = t(i + w.r0, j + w.c0);
    return n;
}
template <typename T>
Tab<T> minor(const Tab<T> &t, size_t p, size_t q)
{
    Tab<T> n(t.r - 1, t.c - 1);
    for (size_t i = 0; i < n.r; ++i)
        for (size_t j = 0; j < n.c; ++j) n(i, j) = t(i + (i >= p), j + (j >= q));
    return n;
}
// A window with its start inside [0,n) and an end that may lie past n; returns the requested end too.
void draw(mc::Ctx &c, size_t n, size_t &start, size_t &end, size_t &asked)
{
    start      = c.choose(static_cast<unsigned>(n), "start");
    unsigned k = c.choose(static_cast<unsigned>(n - start) + 3, "end");
    if (k < n - start) asked = start + 1 + k;
    else if (k == n - start) asked = n + 1;
    else if (k == n - start + 1) asked = n + 7;
    else asked = NPOS;
    end = std::min(asked, n);
}

// Reads, then writes every element of the view in three ways; nothing else may change.
template <typename V, typename T, typename F>
void exercise(mc::Ctx &c, V &v, Matrix<T> &m, Tab<T> t, F where)
{
    Tab<T> w(0, 0);
    {
        const auto &cv = v;
        w              = Tab<T>(cv.rows(), cv.cols());
        for (size_t i = 0; i < w.r; ++i)
            for (size_t j = 0; j < w.c; ++j) w(i, j) = t(where(i, j).first, where(i, j).second);
        check_mat(c, "view-read", cv, w);
        check_mat(c, "view-read", v, w);
        for (size_t i = 0; i < w.r; ++i)
            for (size_t j = 0; j < w.c; ++j)
                if (!same<T>(cv.at(i, j), w(i, j)) || &cv.at(i, j) != &v(i, j) || &v.at(i, j) != &m(where(i, j).first, where(i, j).second) || &v[i * w.c + j] != &v(i, j) || &cv[i * w.c + j] != &v(i, j))
                    c.fail("view-address", "element (%zu,%zu) is not the element of the matrix", i, j);
    }
    int k = 1;
    for (size_t i = 0; i < w.r; ++i)
        for (size_t j = 0; j < w.c; ++j) {
            auto [a, b] = where(i, j);
            T x         = sentinel<T>(static_cast<size_t>(k));
            switch (k++ % 3) {
            case 0: v(i, j) = x; break;
            case 1: v.at(i, j) = x; break;
            case 2: v[i * w.c + j] = x; break;
            }
            t(a, b) = x;
            if (tab(m) != t) c.fail("view-write", "write of (%zu,%zu) through the view: matrix %s, expected %s", i, j, show(tab(m)).c_str(), show(t).c_str());
        }
    c.step(1 + 2 * w.r * w.c);
}

template <typename T>
void windows(mc::Ctx &c)
{
    const int hi   = c.thorough ? 6 : 4;
    const size_t R = static_cast<size_t>(c.range(1, hi, "rows")), C = static_cast<size_t>(c.range(1, hi, "cols"));
    Win w{};
    size_t ar, ac;
    draw(c, R, w.r0, w.r1, ar);
    draw(c, C, w.c0, w.c1, ac);
    const unsigned how = c.choose(5, "constructor");
    c.go();
    Tab<T> t = labelled<T>(R, C);
    Matrix<T> m(mat(t));
    const Matrix<T> &cm = m;
    c.note("window [%zu,%zu)x[%zu,%zu) of %s", w.r0, ar, w.c0, ac, show(t).c_str());
    auto where = [&](size_t i, size_t j) { return std::make_pair(i + w.r0, j + w.c0); };
    c.state(mc::mix(mc::mix(mc::mix(R, C), mc::mix(w.r0, ar)), mc::mix(mc::mix(w.c0, ac), how)));
    Tab<T> expect = sub(t, w);
    switch (how) {
    case 0: {
        auto v = ut::view(m, w.r0, ar, w.c0, ac);
        check_mat(c, "view", v, expect);
        return exercise(c, v, m, t, where);
    }
    case 1: {
        auto v = m({ w.r0, ar }, { w.c0, ac });
        check_mat(c, "view", v, expect);
        return exercise(c, v, m, t, where);
    }
    case 2: {
        const auto v = cm({ w.r0, ar }, { w.c0, ac });
        Tab<T> got   = tab(v);
        if (got != expect || v.size() != expect.size() || v.empty()) c.fail("constant-view", "%s, expected %s", show(got).c_str(), show(expect).c_str());
        for (size_t i = 0; i < expect.v.size(); ++i)
            if (!same<T>(v[i], expect.v[i])) c.fail("constant-view", "linear %zu", i);
        c.step(2);
        return;
    }
    case 3: {
        auto v = ut::row(m, w.r0, w.c0, ac);
        Win rw = w;
        rw.r1  = w.r0 + 1;
        check_mat(c, "row-view", v, sub(t, rw));
        exercise(c, v, m, t, where);
        Tab<T> u = labelled<T>(R, C, 3);
        Matrix<T> m2(mat(u));
        auto cv = ut::row(static_cast<const Matrix<T> &>(m2), w.r0);
        if (tab(cv) != sub(u, Win{ w.r0, w.r0 + 1, 0, C })) c.fail("row-view", "whole constant row");
        return;
    }
    case 4: {
        auto v = ut::col(m, w.c0, w.r0, ar);
        Win cw = w;
        cw.c1  = w.c0 + 1;
        check_mat(c, "col-view", v, sub(t, cw));
        exercise(c, v, m, t, where);
        Tab<T> u = labelled<T>(R, C, 3);
        Matrix<T> m2(mat(u));
        auto cv = ut::col(static_cast<const Matrix<T> &>(m2), w.c0);
        if (tab(cv) != sub(u, Win{ 0, R, w.c0, w.c0 + 1 })) c.fail("col-view", "whole constant column");
        return;
    }
    }
}
} // namespace
MC(windows)
{
    if (c.flip("type")) windows<cd>(c);
    else windows<double>(c);
}
MC(nested)
{
    const size_t R = static_cast<size_t>(c.range(1, c.thorough ? 5 : 4, "rows")), C = static_cast<size_t>(c.range(1, c.thorough ? 4 : 3, "cols"));
    Win a{}, b{};
    size_t ar, ac, br, bc;
    draw(c, R, a.r0, a.r1, ar);
    draw(c, C, a.c0, a.c1, ac);
    draw(c, a.r1 - a.r0, b.r0, b.r1, br);
    draw(c, a.c1 - a.c0, b.c0, b.c1, bc);
    c.go();
    Tab<int> t = labelled<int>(R, C);
    Matrix<int> m(mat(t));
    View<Matrix<int>> o(&m, a.r0, ar, a.c0, ac);
    View<View<Matrix<int>>> v(&o, b.r0, br, b.c0, bc);
    check_mat(c, "view-of-view", v, sub(sub(t, a), b));
    exercise(c, v, m, t, [&](size_t i, size_t j) { return std::make_pair(i + a.r0 + b.r0, j + a.c0 + b.c0); });
    // Through constant access.
    Matrix<int> m2(mat(t));
    const Matrix<int> &cm = m2;
    View<const Matrix<int>> co(&cm, a.r0, ar, a.c0, ac);
    const auto &cco = co;
    View<const View<const Matrix<int>>> cv(&cco, b.r0, br, b.c0, bc);
    if (tab(cv) != sub(sub(t, a), b)) c.fail("constant-view-of-view", "%s expected %s", show(tab(cv)).c_str(), show(sub(sub(t, a), b)).c_str());
    c.state(mc::mix(mc::mix(mc::mix(R, C), mc::mix(a.r0, ar)), mc::mix(mc::mix(a.c0, ac), mc::mix(mc::mix(b.r0, br), mc::mix(b.c0, bc)))));
}
MC(excluding)
{
    const int hi   = c.thorough ? 8 : 6;
    const size_t R = static_cast<size_t>(c.range(1, hi, "rows")), C = static_cast<size_t>(c.range(1, hi, "cols"));
    const size_t p = c.choose(static_cast<unsigned>(R), "excluded row"), q = c.choose(static_cast<unsigned>(C), "excluded col");
    const unsigned how = c.choose(4, "base");
    c.go();
    Tab<double> t = labelled<double>(R, C);
    c.state(mc::mix(mc::mix(R, C), mc::mix(mc::mix(p, q), how)));
    if (how == 0) {
        Matrix<double> m(mat(t));
        CofactorView v(&m, p, q);
        check_mat(c, "excluding-view", v, minor(t, p, q));
        exercise(c, v, m, t, [&](size_t i, size_t j) { return std::make_pair(i + (i >= p), j + (j >= q)); });
        const Matrix<double> k(mat(t));
        CofactorView cv(&k, p, q);
        if (tab(cv) != minor(t, p, q)) c.fail("constant-excluding-view", "%s", show(tab(cv)).c_str());
        for (size_t i = 0; i < cv.size(); ++i)
            if (!same<double>(cv[i], minor(t, p, q).v[i])) c.fail("constant-excluding-view", "linear %zu", i);
    } else if (how == 1) {
        // Excluding view of a window.
        Tab<double> big = labelled<double>(R + 2, C + 1, 50);
        Win w{ 1, R + 1, 1, C + 1 };
        Matrix<double> m(mat(big));
        View<Matrix<double>> o(&m, w.r0, w.r1, w.c0, w.c1);
        CofactorView v(&o, p, q);
        check_mat(c, "excluding-view-of-view", v, minor(sub(big, w), p, q));
        exercise(c, v, m, big, [&](size_t i, size_t j) { return std::make_pair(i + (i >= p) + 1, j + (j >= q) + 1); });
    } else if (how == 2) {
        // Window of an excluding view.
        if (R < 2 || C < 2) return;
        Matrix<double> m(mat(t));
        CofactorView o(&m, p, q);
        const size_t r0 = (R - 1) / 2, c0 = (C - 1) / 3;
        View<CofactorView<Matrix<double>>> v(&o, r0, NPOS, c0, NPOS);
        Tab<double> mi = minor(t, p, q);
        check_mat(c, "view-of-excluding-view", v, sub(mi, Win{ r0, mi.r, c0, mi.c }));
        exercise(c, v, m, t, [&](size_t i, size_t j) { return std::make_pair(i + r0 + (i + r0 >= p), j + c0 + (j + c0 >= q)); });
    } else {
        // Excluding view of an excluding view.
        if (R < 2 || C < 2) return;
        Matrix<double> m(mat(t));
        CofactorView o(&m, p, q);
        const size_t p2 = (R - 2) - (p % (R - 1)), q2 = q % (C - 1);
        CofactorView<CofactorView<Matrix<double>>> v(&o, p2, q2);
        check_mat(c, "excluding-excluding", v, minor(minor(t, p, q), p2, q2));
        exercise(c, v, m, t, [&](size_t i, size_t j) {
            size_t a = i + (i >= p2), b = j + (j >= q2);
            return std::make_pair(a + (a >= p), b + (b >= q));
        });
    }
}
// Assigning to a view changes exactly its window.
MC(assignments)
{
    const size_t R = static_cast<size_t>(c.range(1, 4, "rows")), C = static_cast<size_t>(c.range(1, 4, "cols"));
    Win w{};
    size_t ar, ac;
    draw(c, R, w.r0, w.r1, ar);
    draw(c, C, w.c0, w.c1, ac);
    const unsigned how = c.choose(12, "source");
    c.go();
    using T = double;
    Tab<T> t = labelled<T>(R, C);
    Matrix<T> m(mat(t));
    auto v         = m({ w.r0, ar }, { w.c0, ac });
    const size_t r = w.r1 - w.r0, k = w.c1 - w.c0;
    Tab<T> src     = labelled<T>(r, k, 500);
    Tab<T> expect  = t;
    auto put       = [&](const Tab<T> &s) {
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < k; ++j) expect(i + w.r0, j + w.c0) = s(i, j);
    };
    c.state(mc::mix(mc::mix(mc::mix(R, C), mc::mix(w.r0, ar)), mc::mix(mc::mix(w.c0, ac), how)));
    Matrix<T> sm(mat(src));
    const Matrix<T> csm(mat(src));
    switch (how) {
    case 0: v = sm, put(src); break;
    case 1: v = static_cast<const MatrixBase<T> &>(sm), put(src); break;
    case 2: {
        View<Matrix<T>> sv(&sm, Range::all(), Range::all());
        v = sv, put(src);
        break;
    }
    case 3: v = csm(Range::all(), Range::all()), put(src); break;
    case 4: {
        Tab<float> fs = labelled<float>(r, k, 500);
        Matrix<float> fm(mat(fs));
        v = fm;
        Tab<T> e(r, k);
        for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = fs.v[i];
        put(e);
        break;
    }
    case 5: {
        Tab<T> big = labelled<T>(r + 1, k + 1, 300);
        Matrix<T> bm(mat(big));
        CofactorView cv(&bm, r / 2, k);
        v = cv, put(minor(big, r / 2, k));
        if (tab(bm) != big) c.fail("source-changed", "source of an assignment");
        break;
    }
    case 6: {
        // A list of the right shape (only some shapes can be written down).
        if (r == 1 && k == 1) v = { { 7.5 } }, src.v = { 7.5 }, put(src);
        else if (r == 1 && k == 2) v = { { 7.5, 8.5 } }, src.v = { 7.5, 8.5 }, put(src);
        else if (r == 2 && k == 1) v = { { 7.5 }, { 8.5 } }, src.v = { 7.5, 8.5 }, put(src);
        else if (r == 2 && k == 2) v = { { 7.5, 8.5 }, { 9.5, 1.5 } }, src.v = { 7.5, 8.5, 9.5, 1.5 }, put(src);
        else if (r == 2 && k == 3) v = { { 7.5, 8.5, 3.5 }, { 9.5, 1.5, 2.5 } }, src.v = { 7.5, 8.5, 3.5, 9.5, 1.5, 2.5 }, put(src);
        else if (r == 3 && k == 1) v = { { 7.5 }, { 8.5 }, { 3.5 } }, src.v = { 7.5, 8.5, 3.5 }, put(src);
        break;
    }
    case 7: {
        // Lists of a wrong shape leave everything unchanged (or are rejected by an exception).
        throws([&] { if (!(r == 1 && k == 1)) v = { { 7.5 } }; });
        throws([&] { if (!(r == 2 && k == 1)) v = { { 7.5 }, { 8.5 } }; });
        throws([&] { if (!(r == 1 && k == 2)) v = { { 7.5, 9.5 } }; });
        throws([&] { if (!(r == 2 && k == 2)) v = { { 7.5, 9.5 }, { 1.5, 2.5 } }; });
        throws([&] { if (!(r == 5)) v = { { 7.5, 9.5 }, { 1.5, 2.5 }, { 1.5, 2.5 }, { 1.5, 2.5 }, { 1.5, 2.5 } }; });
        throws([&] { v = { { 7.5, 9.5 }, { 1.5 } }; });
        throws([&] { v = { { 7.5 }, { 1.5, 3.5 } }; });
        throws([&] { v = { { 7.5, 1.25, 1.5 }, { 1.5 }, { 1.5, 3.5 } }; });
        break;
    }
    case 8: {
        // The very same window as a source.
        auto v2 = m({ w.r0, w.r1 }, { w.c0, w.c1 });
        v       = v2;
        break;
    }
    case 9: {
        // Assignment to an excluding view.
        Tab<T> big = labelled<T>(r + 1, k + 1, 300);
        Matrix<T> bm(mat(big));
        CofactorView cv(&bm, r, k / 2);
        const auto cv0 = tab(cv);
        cv             = v;
        Tab<T> e       = big;
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < k; ++j) e(i + (i >= r), j + (j >= k / 2)) = t(i + w.r0, j + w.c0);
        if (tab(bm) != e) c.fail("excluding-view-assignment", "%s expected %s", show(tab(bm)).c_str(), show(e).c_str());
        Matrix<T> bm2(mat(big));
        CofactorView cv2(&bm2, 0, k);
        cv2      = cv;
        Tab<T> f = big;
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < k; ++j) f(i + 1, j) = t(i + w.r0, j + w.c0);
        if (tab(bm2) != f) c.fail("excluding-view-assignment", "same type: %s expected %s", show(tab(bm2)).c_str(), show(f).c_str());
        break;
    }
    case 10: {
        // In-place arithmetic through the view.
        v += sm;
        Tab<T> e(r, k);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < k; ++j) e(i, j) = t(i + w.r0, j + w.c0) + src(i, j);
        put(e);
        break;
    }
    case 11: {
        v *= 2;
        Tab<T> e(r, k);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < k; ++j) e(i, j) = t(i + w.r0, j + w.c0) * 2;
        put(e);
        break;
    }
    }
    c.step();
    if (tab(m) != expect) c.fail("view-assignment", "source %u, window [%zu,%zu)x[%zu,%zu): matrix %s, expected %s", how, w.r0, ar, w.c0, ac, show(tab(m)).c_str(), show(expect).c_str());
    if (tab(sm) != labelled<T>(r, k, 500)) c.fail("source-changed", "source of an assignment");
}
// A view as an operand gives what a copy of its window gives.
namespace
{
template <typename M>
std::vector<cd> digest(const M &m)
{
    // Results of the operations that accept any matrix operand, as a flat list.
    using T = std::remove_const_t<typename M::value_type>;
    std::vector<cd> d;
    auto add  = [&](auto x) {
        if constexpr (is_cx_v<decltype(x)>) d.push_back(cd(x));
        else d.push_back(cd(static_cast<double>(x), 0));
    };
    auto addm = [&](const auto &x) {
        add(x.rows());
        add(x.cols());
        for (size_t i = 0; i < x.rows(); ++i)
            for (size_t j = 0; j < x.cols(); ++j) add(x(i, j));
    };
    auto addv = [&](const auto &x) {
        add(x.size());
        for (size_t i = 0; i < x.size(); ++i) add(x[i]);
    };
    addm(m + m);
    addm(m - T(3));
    addm(la::transpose(m));
    addm(m * la::transpose(m));
    addm(malg::element_wise_product(m, m));
    addm(m == m);
    addm(m != T(1));
    addv(ut::diag(m));
    addv(ut::ravel(m));
    addm(ut::vstack(m, m));
    addm(ut::hstack(m, m));
    addm(ut::extract(m));
    addv(ut::extract_column(m, m.cols() - 1));
    addv(ut::extract_row(m, m.rows() - 1));
    add(malg::trace(m));
    add(malg::square_norm(m));
    add(malg::infinity_norm(m));
    add(malg::vector_length(m, 0));
    add(malg::all(m));
    add(malg::any(m));
    addm(malg::abs(m));
    Vector<T> x(m.cols(), T(2));
    addv(m * x);
    add(ut::is_symmetric(m));
    add(ut::is_diagonal(m));
    add(ut::is_zero(m));
    add(ut::is_constant(m));
    add(ut::is_column_vector(m));
    add(ut::is_row_vector(m));
    addm(la::cofactor(m, 0, m.cols() - 1));
    auto lc = malg::log2_ceil(m);
    add(lc.first);
    add(lc.second);
    if (m.rows() == m.cols()) {
        add(malg::sub_norm(m));
        add(la::determinant(m));
        addm(la::adjoint(m));
        addm(la::inverse(m));
        addm(la::powm(m, 2));
        addm(la::exp(m * T(0)));
        add(ut::is_identity(m));
        add(ut::is_invertible(m));
        add(ut::is_lower_triangular(m));
        add(ut::is_upper_triangular(m));
        add(ut::is_orthogonal(m));
        addm(la::expm(m * T(0.125), 1e-8));
        addm(la::lu_decomposition(m).first);
    }
    return d;
}
} // namespace
MC(operand)
{
    const int hi   = c.thorough ? 6 : 4;
    const size_t R = static_cast<size_t>(c.range(1, hi, "rows")), C = static_cast<size_t>(c.range(1, hi, "cols"));
    const int kind = 1 + static_cast<int>(c.choose(K_COUNT - 1, "kind"));
    const int salt = static_cast<int>(c.choose(c.thorough ? 6 : 3, "salt"));
    c.go();
    Tab<double> t = labelled<double>(R, C, salt);
    for (size_t i = 0; i < std::min(R, C); ++i) t(i, i) += (salt == 1 ? 40 : 7);
    if (salt == 2)
        for (auto &x : t.v) x = 0;
    Matrix<double> copy(mat(t));
    auto e = digest(static_cast<const MatrixBase<double> &>(copy));
    with_const(c, "operand-changed", kind, t, [&](const auto &m) {
        auto d = digest(m);
        if (d.size() != e.size()) c.fail("view-operand", "%s: results of different shape", kname(kind));
        for (size_t i = 0; i < d.size(); ++i)
            if (!same(d[i], e[i])) c.fail("view-operand", "%s of %s: result %zu is %s, for a copy %s", kname(kind), show(t).c_str(), i, str(d[i]).c_str(), str(e[i]).c_str());
        c.step(40);
    });
    c.state(mc::mix(mc::mix(R, C), mc::mix(static_cast<unsigned>(kind), static_cast<unsigned>(salt))));
}
// Histories of writes through several live views of one matrix.
MC(histories)
{
    const size_t R = 3, C = 4;
    Tab<int> t = labelled<int>(R, C);
    Matrix<int> m(mat(t));
    auto a = m({ 0, 2 }, { 1, 3 });
    auto b = ut::view(m, 1, NPOS, 0, 9);
    CofactorView<Matrix<int>> d(&m, 1, 2);
    auto r = ut::row(m, 2, 1);
    auto k = ut::col(m, 3);
    View<View<Matrix<int>>> n(&b, 1, 2, 1, 4);
    auto all = [&] {
        if (tab(m) != t) c.fail("history", "matrix %s, expected %s", show(tab(m)).c_str(), show(t).c_str());
        check_mat(c, "history", a, sub(t, Win{ 0, 2, 1, 3 }));
        check_mat(c, "history", b, sub(t, Win{ 1, 3, 0, 4 }));
        check_mat(c, "history", d, minor(t, 1, 2));
        check_mat(c, "history", r, sub(t, Win{ 2, 3, 1, 4 }));
        check_mat(c, "history", k, sub(t, Win{ 0, 3, 3, 4 }));
        check_mat(c, "history", n, sub(t, Win{ 2, 3, 1, 4 }));
        c.step();
        c.state(t.hash());
    };
    all();
    const int depth = c.thorough ? 6 : 4;
    for (int s = 1; s <= depth; ++s) {
        const int x = 1000 * s;
        switch (c.choose(12, "op")) {
        case 0: a(1, 1) = x, t(1, 2) = x; break;
        case 1: b[5] = x, t(2, 1) = x; break;
        case 2: d(1, 2) = x, t(2, 3) = x; break;
        case 3: r[0] = x, t(2, 1) = x; break;
        case 4: k(2, 0) = x, t(2, 3) = x; break;
        case 5: n.at(0, 1) = x, t(2, 2) = x; break;
        case 6: a = { { x, x + 1 }, { x + 2, x + 3 } }, t(0, 1) = x, t(0, 2) = x + 1, t(1, 1) = x + 2, t(1, 2) = x + 3; break;
        case 7: r = n; break; // the same window
        case 8: a += 5; for (size_t i = 0; i < 2; ++i) for (size_t j = 1; j < 3; ++j) t(i, j) += 5; break;
        case 9: { // disjoint windows
            auto src = m({ 2, 3 }, { 0, 3 });
            auto dst = m({ 0, 1 }, { 0, 3 });
            dst      = src;
            for (size_t j = 0; j < 3; ++j) t(0, j) = t(2, j);
            break;
        }
        case 10: m(0, 3) = x, t(0, 3) = x; break;
        case 11: ut::swap_rows(b, 0, 1); for (size_t j = 0; j < 4; ++j) std::swap(t(1, j), t(2, j)); break;
        }
        all();
    }
    c.go();
}
// A view is a window, not a copy of the shape its matrix had: when the matrix is resized, reshaped or gets
// new contents, views made earlier address the same window of what is there now.
MC(outlives_reshaping)
{
    const int hi   = c.thorough ? 5 : 4;
    const size_t R = static_cast<size_t>(c.range(1, hi, "rows")), C = static_cast<size_t>(c.range(1, hi, "cols"));
    Win w{};
    size_t ar, ac;
    draw(c, R, w.r0, w.r1, ar);
    draw(c, C, w.c0, w.c1, ac);
    const unsigned how = c.choose(4, "how");
    const size_t R2 = w.r0 + 1 + c.choose(static_cast<unsigned>(hi + 1 - static_cast<int>(w.r0)), "new rows");
    const size_t C2 = w.c0 + 1 + c.choose(static_cast<unsigned>(hi + 1 - static_cast<int>(w.c0)), "new cols");
    const unsigned kind = c.choose(6, "view");
    if (how == 3 && R2 * C2 != R * C) return c.go();
    c.go();
    using T    = double;
    Tab<T> t   = labelled<T>(R, C), u = labelled<T>(R2, C2, 700);
    Matrix<T> m(mat(t));
    const Matrix<T> &cm = m;
    Matrix<T> other(mat(u));
    auto change = [&] {
        switch (how) {
        case 0: m.resize(R2, C2); break;
        case 1: m = other; break;
        case 2: std::swap(m, other); break;
        case 3: m.reshape(R2, C2); break;
        }
        if (m.rows() != R2 || m.cols() != C2) c.fail("view-reshaped", "shape of the matrix itself");
        return tab(m);
    };
    c.state(mc::mix(mc::mix(mc::mix(R, C), mc::mix(w.r0, ar)), mc::mix(mc::mix(w.c0, ac), mc::mix(mc::mix(R2, C2), how * 8 + kind))));
    c.note("%zux%zu becomes %zux%zu, window [%zu,%zu)x[%zu,%zu), kind %u", R, C, R2, C2, w.r0, ar, w.c0, ac, kind);
    const Win n{ w.r0, std::min(ar, R2), w.c0, std::min(ac, C2) };
    auto where = [&](size_t i, size_t j) { return std::make_pair(i + w.r0, j + w.c0); };
    switch (kind) {
    case 0: {
        auto v = ut::view(m, w.r0, ar, w.c0, ac);
        check_mat(c, "view-reshaped", v, sub(t, w));
        t = change();
        check_mat(c, "view-reshaped", v, sub(t, n));
        return exercise(c, v, m, t, where);
    }
    case 1: {
        auto v = m({ w.r0, ar }, { w.c0, ac });
        check_mat(c, "view-reshaped", v, sub(t, w));
        t = change();
        check_mat(c, "view-reshaped", v, sub(t, n));
        return exercise(c, v, m, t, where);
    }
    case 2: {
        auto v = cm({ w.r0, ar }, { w.c0, ac });
        t      = change();
        if (tab(v) != sub(t, n) || v.size() != sub(t, n).size()) c.fail("view-reshaped", "constant view");
        return;
    }
    case 3: {
        auto v = ut::row(m, w.r0, w.c0, ac);
        t      = change();
        check_mat(c, "view-reshaped", v, sub(t, Win{ w.r0, w.r0 + 1, n.c0, n.c1 }));
        return exercise(c, v, m, t, where);
    }
    case 4: {
        auto v = ut::col(m, w.c0, w.r0, ar);
        t      = change();
        check_mat(c, "view-reshaped", v, sub(t, Win{ n.r0, n.r1, w.c0, w.c0 + 1 }));
        return exercise(c, v, m, t, where);
    }
    case 5: {
        CofactorView v(&m, w.r0, w.c0);
        View<CofactorView<Matrix<T>>> vv(&v, 0, ar, 0, ac);
        t = change();
        check_mat(c, "view-reshaped", v, minor(t, w.r0, w.c0));
        if (R2 > 1 && C2 > 1) check_mat(c, "view-reshaped", vv, sub(minor(t, w.r0, w.c0), Win{ 0, std::min(ar, R2 - 1), 0, std::min(ac, C2 - 1) }));
        return exercise(c, v, m, t, [&](size_t i, size_t j) { return std::make_pair(i + (i >= w.r0), j + (j >= w.c0)); });
    }
    }
}
// An assignment of the wrong shape is refused: by an assertion, an exception or by doing nothing; whichever
// it is, nothing outside the window changes (and no memory is touched that is not the matrix's).
namespace
{
sigjmp_buf assert_jump;
volatile bool assert_armed = false;
template <typename F>
bool refused(F &&f)
{
    assert_armed = true;
    bool r       = true;
    if (sigsetjmp(assert_jump, 0) == 0) r = throws(f);
    assert_armed = false;
    return r;
}
} // namespace
extern "C" void __assert_fail(const char *expr, const char *file, unsigned line, const char *func)
{
    if (assert_armed) siglongjmp(assert_jump, 1);
    std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, func, expr);
    std::abort();
}
MC(wrong_shape)
{
    const size_t R = 5, C = 5;
    Win w{};
    w.r0 = c.choose(3, "start row"), w.c0 = c.choose(3, "start col");
    w.r1 = w.r0 + 1 + c.choose(3, "rows"), w.c1 = w.c0 + 1 + c.choose(3, "cols");
    const size_t r = w.r1 - w.r0, k = w.c1 - w.c0;
    const size_t r2 = 1 + c.choose(5, "source rows"), k2 = 1 + c.choose(5, "source cols");
    const unsigned how = c.choose(7, "source");
    c.go();
    if (r == r2 && k == k2) return;
    using T  = double;
    Tab<T> t = labelled<T>(R, C), src = labelled<T>(r2, k2, 500), big = labelled<T>(r2 + 1, k2 + 1, 300);
    static Matrix<T> m, sm, bm; // not on the stack: a refusal by assertion skips destructors
    static Matrix<float> fm;
    m = mat(t), sm = mat(src), bm = mat(big), fm = mat(labelled<float>(r2, k2, 500));
    View<Matrix<T>> v(&m, w.r0, w.r1, w.c0, w.c1);
    View<Matrix<T>> sv(&sm, 0, NPOS, 0, NPOS);
    CofactorView<Matrix<T>> cv(&bm, 0, 0), dv(&m, R - 1, C - 1);
    const bool rej = refused([&] {
        switch (how) {
        case 0: v = static_cast<const MatrixBase<T> &>(sm); break;
        case 1: v = sv; break;
        case 2: v = static_cast<const View<const Matrix<T>> &>(static_cast<const Matrix<T> &>(sm)(Range::all(), Range::all())); break;
        case 3: v = cv; break;
        case 4: v = fm; break;
        case 5: if (r2 != R - 1 || k2 != C - 1) dv = sm; break;
        case 6: if (r2 != R - 1 || k2 != C - 1) dv = cv; break;
        }
    });
    (void)rej;
    c.step();
    c.state(mc::mix(mc::mix(mc::mix(w.r0, w.c0), mc::mix(r, k)), mc::mix(mc::mix(r2, k2), how)));
    if (tab(m) != t) c.fail("wrong-shape", "a %zux%zu source (kind %u) assigned to a %zux%zu window at (%zu,%zu): matrix %s, was %s", r2, k2, how, r, k, w.r0, w.c0, show(tab(m)).c_str(), show(t).c_str());
    if (tab(sm) != src || tab(bm) != big) c.fail("wrong-shape", "the source changed");
}
