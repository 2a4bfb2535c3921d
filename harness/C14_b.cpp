#include "C14.hpp"
namespace
{
template <typename T1, typename T2>
void concatenation(mc::Ctx &c)
{
    using R = common_t<T1, T2>;
    static const size_t sizes[] = { 0, 1, 2, 3, 5, 16, 64, 65 };
    const size_t n = c.pick(sizes, "first"), m = c.pick(sizes, "second");
    c.go();
    const auto a = bigs<T1>(n, 1, 1).v;
    const auto b = bigs<T2>(m, 1, 5).v;
    const Vector<T1> A(mkvec(a));
    const Vector<T2> B(mkvec(b));
    auto got = ut::concatenate(A, B);
    static_assert(std::is_same_v<decltype(got), Vector<R>>);
    std::vector<R> e;
    for (auto &x : a) e.push_back(conv<R>(x));
    for (auto &x : b) e.push_back(conv<R>(x));
    check_vec(c, "concatenate", got, e);
    check_vec(c, "first-changed", A, a);
    check_vec(c, "second-changed", B, b);
    auto twice = ut::concatenate(A, A);
    auto ea    = a;
    ea.insert(ea.end(), a.begin(), a.end());
    check_vec(c, "concatenate-self", twice, ea);
    c.step(2);
    c.state(mc::mix(n, m) + sizeof(T1) * 64 + sizeof(T2));
}
template <typename T>
void extraction(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 6 : 5;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols");
    const int kind = static_cast<int>(c.choose(K_COUNT, "kind"));
    // Windows within, touching and past the end; NPOS is the default end.
    const size_t r0 = c.choose(static_cast<unsigned>(r) + 1, "row from"), r1 = c.choose(static_cast<unsigned>(r) + 3, "row to");
    const size_t c0 = c.choose(static_cast<unsigned>(k) + 1, "column from"), c1 = c.choose(static_cast<unsigned>(k) + 3, "column to");
    c.go();
    const size_t er = r1 == r + 2 ? NPOS : r1, ec = c1 == k + 2 ? NPOS : c1;
    auto t = bigs<T>(r, k, 2);
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        if (r0 < er && c0 < ec) {
            Tab<T> e(std::min(er, r) - r0, std::min(ec, k) - c0);
            for (size_t i = 0; i < e.r; ++i)
                for (size_t j = 0; j < e.c; ++j) e(i, j) = t(r0 + i, c0 + j);
            auto got = ut::extract(M, r0, er, c0, ec);
            static_assert(std::is_same_v<decltype(got), Matrix<T>>);
            check_mat(c, "extract", got, e);
            c.step();
        }
        if (r0 < r && c0 < ec && r1 == 0) {
            std::vector<T> e;
            for (size_t j = c0; j < std::min(ec, k); ++j) e.push_back(t(r0, j));
            check_vec(c, "extract-row", ut::extract_row(M, r0, c0, ec), e);
            c.step();
        }
        if (c0 < k && r0 < er && c1 == 0) {
            std::vector<T> e;
            for (size_t i = r0; i < std::min(er, r); ++i) e.push_back(t(i, c0));
            check_vec(c, "extract-column", ut::extract_column(M, c0, r0, er), e);
            c.step();
        }
        if (!r0 && !c0 && !r1 && !c1) {
            std::vector<T> d;
            for (size_t i = 0; i < std::min(r, k); ++i) d.push_back(t(i, i));
            auto got = ut::diag(M);
            static_assert(std::is_same_v<decltype(got), Vector<T>>);
            check_vec(c, "diagonal", got, d);
            check_vec(c, "ravel", ut::ravel(M), t.v);
            check_mat(c, "extract-all", ut::extract(M), t);
            c.step(3);
        }
    });
    c.state(mc::mix(mc::mix(mc::mix(r, k), mc::mix(r0, r1)), mc::mix(mc::mix(c0, c1), static_cast<unsigned>(kind))));
}
template <typename T>
void conversions(mc::Ctx &c)
{
    static const size_t dims[] = { 0, 1, 2, 3, 4, 7, 17, 65, 130, 257 };
    const size_t r = c.pick(dims, "rows"), k = c.pick(dims, "cols");
    c.go();
    auto t = bigs<T>(r, k, 3);
    const Matrix<T> M(mat(t));
    auto v = ut::to_vector(M);
    static_assert(std::is_same_v<decltype(v), Vector<T>>);
    check_vec(c, "to-vector", v, t.v);
    const Vector<T> V(v);
    auto row = ut::to_matrix(V, true), col = ut::to_matrix(V, false);
    check_mat(c, "row-matrix", row, row_of(t.v));
    check_mat(c, "column-matrix", col, column(t.v));
    check_vec(c, "back-from-row", ut::to_vector(row), t.v);
    check_vec(c, "back-from-column", ut::to_vector(col), t.v);
    check_vec(c, "vector-changed", V, t.v);
    check_mat(c, "matrix-changed", M, t);
    c.step(5);
    if (r * k <= 70) {
        const size_t n = r * k;
        Tab<T> d(n, n);
        for (size_t i = 0; i < n; ++i) d(i, i) = t.v[i];
        auto D = ut::diag(V);
        check_mat(c, "diagonal-matrix", D, d);
        check_vec(c, "diagonal-back", ut::diag(D), t.v);
        c.step(2);
    }
    if (r * k) {
        Matrix<T> N(M);
        auto &ref = ut::reshape(N, k, r);
        Tab<T> e(k, r);
        e.v = t.v;
        check_mat(c, "reshape", N, e);
        if (&ref != &N) c.fail("reshape", "returns another object");
        Matrix<T> S(M);
        auto &sref = ut::resize(S, k, r + 1);
        Tab<T> s(k, r + 1);
        for (size_t i = 0; i < std::min(r, k); ++i)
            for (size_t j = 0; j < std::min(k, r + 1); ++j) s(i, j) = t(i, j);
        check_mat(c, "resize", S, s);
        if (&sref != &S) c.fail("resize", "returns another object");
        c.step(2);
    }
    c.state(mc::mix(r, k) + sizeof(T));
}
template <typename T>
void swap_table_rows(Tab<T> &t, size_t i, size_t j, size_t from, size_t to)
{
    for (size_t k = from; k < std::min(to, t.c); ++k) std::swap(t(i, k), t(j, k));
}
template <typename T>
void swap_table_cols(Tab<T> &t, size_t i, size_t j, size_t from, size_t to)
{
    for (size_t k = from; k < std::min(to, t.r); ++k) std::swap(t(k, i), t(k, j));
}
// Swapping through every kind of object that can be written through.
template <typename T>
void swapping(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 5 : 4;
    const size_t r = 1 + c.choose(hi, "rows"), k = 1 + c.choose(hi, "cols");
    const int kind  = static_cast<int>(c.choose(K_MUTABLE, "kind"));
    const bool rows = c.flip("rows");
    const size_t n = rows ? r : k, m = rows ? k : r;
    const size_t i = c.choose(static_cast<unsigned>(n), "i"), j = c.choose(static_cast<unsigned>(n), "j");
    const size_t from = c.choose(static_cast<unsigned>(m) + 1, "from"), end = c.choose(static_cast<unsigned>(m) + 3, "to");
    c.go();
    const size_t to = end == m + 2 ? NPOS : end;
    auto t = bigs<T>(r, k, 2), e = t;
    if (rows) swap_table_rows(e, i, j, from, to);
    else swap_table_cols(e, i, j, from, to);
    with_mutable(c, "swap", kind, t, e, [&](auto &M) {
        if (rows) {
            if (from == 0 && to == NPOS) ut::swap_rows(M, i, j);
            else ut::swap_rows(M, i, j, from, to);
        } else {
            if (from == 0 && to == NPOS) ut::swap_cols(M, i, j);
            else ut::swap_cols(M, i, j, from, to);
        }
    });
    c.step();
    c.state(mc::mix(mc::mix(mc::mix(r, k), mc::mix(i, j)), mc::mix(mc::mix(from, end), static_cast<unsigned>(kind) * 2 + rows)));
}
// Histories of removals, swaps and stackings on one matrix.
template <typename T>
void history(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 3, 3 }, { 1, 4 }, { 4, 1 }, { 2, 5 }, { 17, 2 } };
    const auto &s = c.pick(shapes, "shape");
    Matrix<T> m;
    Tab<T> t = bigs<T>(s[0], s[1], 4);
    m        = mat(t);
    const int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d) {
        const unsigned op = c.choose(7, "operation");
        switch (op) {
        case 0:
        case 1: { // remove a row or a column
            const size_t n = op == 0 ? t.r : t.c;
            if (n == 0) return;
            const size_t cand[] = { 0, n - 1, n / 2 };
            const size_t p      = cand[c.choose(n < 3 ? static_cast<unsigned>(n) : 3, "position")];
            Tab<T> e(op == 0 ? t.r - 1 : t.r, op == 0 ? t.c : t.c - 1);
            for (size_t i = 0; i < e.r; ++i)
                for (size_t j = 0; j < e.c; ++j) e(i, j) = op == 0 ? t(i + (i >= p), j) : t(i, j + (j >= p));
            auto &ref = op == 0 ? ut::remove_row(m, p) : ut::remove_column(m, p);
            if (&ref != &m) c.fail("remove", "does not return its argument");
            t = e;
            break;
        }
        case 2:
            if (t.r < 2) return;
            ut::swap_rows(m, 0, t.r - 1);
            swap_table_rows(t, 0, t.r - 1, 0, NPOS);
            break;
        case 3:
            if (t.c < 2) return;
            ut::swap_cols(m, t.c - 1, 0, t.r / 2);
            swap_table_cols(t, 0, t.c - 1, t.r / 2, NPOS);
            break;
        case 4: m = ut::vstack(m, m), t = below<T>(t, t); break;
        case 5: m = ut::hstack(m, m), t = beside<T>(t, t); break;
        case 6: // take out the part without the first row
            if (t.r < 2 || t.c < 1) return;
            {
                Tab<T> e(t.r - 1, t.c);
                for (size_t i = 0; i < e.r; ++i)
                    for (size_t j = 0; j < e.c; ++j) e(i, j) = t(i + 1, j);
                m = ut::extract(m, 1);
                t = e;
            }
            break;
        }
        c.step();
        c.state(t.hash());
        check_mat(c, "history", m, t);
    }
}
template <typename T>
void sizes(mc::Ctx &c)
{
    const Shape sh = long_shape(c);
    const size_t r = sh.r, k = sh.k;
    const unsigned op = c.choose(9, "operation");
    c.go();
    auto t = bigs<T>(r, k, 9);
    Matrix<T> m(mat(t));
    if (op >= 6) {
        if (op == 6) check_mat(c, "vstack", ut::vstack(m, m), below<T>(t, t));
        else if (op == 7) check_mat(c, "hstack", ut::hstack(m, m), beside<T>(t, t));
        else {
            check_vec(c, "ravel", ut::ravel(m), t.v);
            check_mat(c, "extract", ut::extract(m), t);
            std::vector<T> d;
            for (size_t i = 0; i < std::min(r, k); ++i) d.push_back(t(i, i));
            check_vec(c, "diagonal", ut::diag(m), d);
        }
        c.step();
    }
    for (size_t p : { size_t(0), (op % 2 ? k : r) / 2, (op % 2 ? k : r) - 1 }) {
        switch (op) {
        case 0:
        case 1: {
            Matrix<T> n(m);
            Tab<T> e(op == 0 ? t.r - 1 : t.r, op == 0 ? t.c : t.c - 1);
            for (size_t i = 0; i < e.r; ++i)
                for (size_t j = 0; j < e.c; ++j) e(i, j) = op == 0 ? t(i + (i >= p), j) : t(i, j + (j >= p));
            if (op == 0) ut::remove_row(n, p);
            else ut::remove_column(n, p);
            check_mat(c, "remove", n, e);
            break;
        }
        case 2: {
            Matrix<T> n(m);
            auto e = t;
            ut::swap_rows(n, p, r - 1);
            swap_table_rows(e, p, r - 1, 0, NPOS);
            check_mat(c, "swap", n, e);
            break;
        }
        case 3: {
            Matrix<T> n(m);
            auto e = t;
            ut::swap_cols(n, p, k - 1);
            swap_table_cols(e, p, k - 1, 0, NPOS);
            check_mat(c, "swap", n, e);
            break;
        }
        case 4: check_vec(c, "extract-row", ut::extract_row(m, p), std::vector<T>(t.v.begin() + static_cast<long>(p * k), t.v.begin() + static_cast<long>(p * k + k))); break;
        case 5: {
            std::vector<T> e;
            for (size_t i = 0; i < r; ++i) e.push_back(t(i, p));
            check_vec(c, "extract-column", ut::extract_column(m, p), e);
        }
        }
        c.step();
    }
    check_mat(c, "operand-changed", m, t);
    c.state(mc::mix(mc::mix(r, k), op));
}
} // namespace
MC(concatenation)
{
    switch (c.choose(8, "types")) {
    case 0: return concatenation<double, double>(c);
    case 1: return concatenation<int, double>(c);
    case 2: return concatenation<double, int>(c);
    case 3: return concatenation<cd, double>(c);
    case 4: return concatenation<float, cd>(c);
    case 5: return concatenation<ld, double>(c);
    case 6: return concatenation<long, int>(c);
    case 7: return concatenation<cd, cl>(c);
    }
}
MC(extraction)
{
    switch (c.choose(4, "type")) {
    case 0: return extraction<int>(c);
    case 1: return extraction<cd>(c);
    case 2: return extraction<ld>(c);
    case 3: return extraction<long>(c);
    }
}
MC(conversions)
{
    switch (c.choose(6, "type")) {
    case 0: return conversions<int>(c);
    case 1: return conversions<cd>(c);
    case 2: return conversions<double>(c);
    case 3: return conversions<long>(c);
    case 4: return conversions<ld>(c);
    case 5: return conversions<cl>(c);
    }
}
MC(swapping)
{
    switch (c.choose(4, "type")) {
    case 0: return swapping<int>(c);
    case 1: return swapping<cd>(c);
    case 2: return swapping<ld>(c);
    case 3: return swapping<long>(c);
    }
}
MC(history) { history<double>(c); }
MC(sizes) { sizes<int>(c); }
