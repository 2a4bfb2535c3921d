#include "C05.hpp"
// All contents of small operands.
MC(contents)
{
    static const int alpha[] = { 0, 1, -2 };
    Tab<int> a(2, 2), b(2, 2);
    for (auto &x : a.v) x = c.pick(alpha, "a");
    for (auto &x : b.v) x = c.pick(alpha, "b");
    c.go();
    auto e = product<int>(a, b);
    Matrix<int> A(mat(a)), B(mat(b));
    const Matrix<int> B0(B);
    expect_mat(c, "product", A * B, e, "2x2");
    Matrix<int> X(A);
    X *= B;
    expect_mat(c, "in-place", X, e, "2x2 *=");
    X = A;
    X *= X;
    expect_mat(c, "in-place-self", X, product<int>(a, a), "A *= A");
    expect_mat(c, "operand-changed", A, a, "left");
    expect_mat(c, "operand-changed", B, b, "right");
    // (A B) C = A (B C) and the transpose rule come for free from exactness.
    c.step(3);
    c.state(mc::mix(a.hash(), b.hash()));
}
namespace
{
template <typename T>
void aliasing(mc::Ctx &c)
{
    const size_t n    = static_cast<size_t>(c.range(1, c.thorough ? 5 : 4, "n"));
    const size_t r    = n + c.choose(3, "more rows");
    const int what    = static_cast<int>(c.choose(6, "alias"));
    const size_t salt = c.choose(6, "content");
    const size_t off  = c.choose(static_cast<unsigned>(r - n + 1), "offset");
    c.go();
    Tab<T> a = content<T>(r, n, salt);
    Matrix<T> A(mat(a));
    auto win = [](const Tab<T> &t, size_t r0, size_t rn, size_t c0, size_t cn) {
        Tab<T> w(rn, cn);
        for (size_t i = 0; i < rn; ++i)
            for (size_t j = 0; j < cn; ++j) w(i, j) = t(r0 + i, c0 + j);
        return w;
    };
    Tab<T> expect = a;
    switch (what) {
    case 0: { // A *= square window of A
        A *= A({ off, off + n }, Range::all());
        expect = product<T>(a, win(a, off, n, 0, n));
        break;
    }
    case 1: { // window *= window (the same)
        auto v = A({ off, off + n }, Range::all());
        v *= v;
        Tab<T> w = product<T>(win(a, off, n, 0, n), win(a, off, n, 0, n));
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) expect(off + i, j) = w(i, j);
        break;
    }
    case 2: { // window *= overlapping window
        auto v = A({ 0, n }, Range::all());
        auto u = A({ off, off + n }, Range::all());
        v *= u;
        Tab<T> w = product<T>(win(a, 0, n, 0, n), win(a, off, n, 0, n));
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) expect(i, j) = w(i, j);
        break;
    }
    case 3: { // A = A * window
        A      = A * A({ off, off + n }, Range::all());
        expect = product<T>(a, win(a, off, n, 0, n));
        break;
    }
    case 4: { // square A *= A
        Matrix<T> S(mat(win(a, off, n, 0, n)));
        S *= S;
        expect_mat(c, "in-place-self", S, product<T>(win(a, off, n, 0, n), win(a, off, n, 0, n)), "S *= S");
        break;
    }
    case 5: { // whole matrix *= view of the whole (square part)
        Matrix<T> S(mat(win(a, off, n, 0, n)));
        View<Matrix<T>> v(&S, Range::all(), Range::all());
        S *= v;
        expect_mat(c, "in-place-view", S, product<T>(win(a, off, n, 0, n), win(a, off, n, 0, n)), "S *= view of S");
        Matrix<T> Q(mat(win(a, off, n, 0, n)));
        View<Matrix<T>> w(&Q, Range::all(), Range::all());
        w *= Q;
        expect_mat(c, "in-place-view", Q, product<T>(win(a, off, n, 0, n), win(a, off, n, 0, n)), "view of Q *= Q");
        break;
    }
    }
    expect_mat(c, "aliasing", A, expect, "case " + std::to_string(what) + " on " + show(a));
    c.step();
    c.state(mc::mix(a.hash(), static_cast<unsigned>(what) * 10 + off));
}
template <typename T>
void powers(mc::Ctx &c)
{
    const size_t n    = static_cast<size_t>(c.range(1, 4, "n"));
    const int kind    = static_cast<int>(c.choose(K_COUNT, "kind"));
    const size_t N    = c.choose(c.thorough ? 10 : 8, "exponent");
    const size_t salt = c.choose(5, "content");
    c.go();
    if ((std::is_same_v<T, long> || std::is_same_v<T, ld>) && N > 7) return; // would not be representable
    Tab<T> a(n, n);
    // Entries small enough for exact ninth powers in every type.
    for (size_t i = 0; i < n * n; ++i) {
        int k = static_cast<int>((i * i + salt * 3 + i * 2) % 5) - 2;
        if constexpr (is_cx_v<T>) a.v[i] = T(k, static_cast<int>((i + salt) % 3) - 1);
        else if constexpr (std::is_same_v<T, long>) a.v[i] = k * 50 + 1;
        else if constexpr (std::is_same_v<T, ld>) a.v[i] = k + static_cast<int>(i % 2) * 0x1p-6L;
        else a.v[i] = static_cast<T>(k);
    }
    Tab<T> e(n, n);
    for (size_t i = 0; i < n; ++i) e(i, i) = T(1);
    for (size_t i = 0; i < N; ++i) e = product<T>(e, a);
    with_const(c, "operand-changed", kind, a, [&](const auto &A) { expect_mat(c, "powm", la::powm(A, N), e, show(a) + "^" + std::to_string(N)); });
    c.step();
    c.state(mc::mix(a.hash(), N * 10 + static_cast<unsigned>(kind)) + sizeof(T));
}
template <typename T>
void projections(mc::Ctx &c)
{
    const size_t n = static_cast<size_t>(c.range(1, 5, "n"));
    const size_t s1 = c.choose(8, "a"), s2 = c.choose(8, "b");
    c.go();
    std::vector<T> a(n), b(n);
    for (size_t i = 0; i < n; ++i) a[i] = small<T>(i, s1), b[i] = small<T>(2 * i, s2);
    ld ab = 0, bb = 0;
    for (size_t i = 0; i < n; ++i) ab += ld(a[i]) * b[i], bb += ld(b[i]) * b[i];
    if (bb == 0) return;
    const Vector<T> A(mkvec(a)), B(mkvec(b));
    auto p = malg::projection(A, B);
    if (p.size() != n) c.fail("projection", "size %zu", p.size());
    for (size_t i = 0; i < n; ++i) {
        ld e = ab / bb * b[i];
        if (std::abs(ld(p[i]) - e) > 8 * std::numeric_limits<T>::epsilon() * (1 + std::abs(e))) c.fail("projection", "element %zu is %Lg, expected %Lg", i, ld(p[i]), e);
    }
    check_vec(c, "operand-changed", A, a);
    check_vec(c, "operand-changed", B, b);
    c.step();
    c.state(mc::mix(mc::mix(n, s1), s2) + sizeof(T));
}
} // namespace
MC(aliasing)
{
    switch (c.choose(4, "type")) {
    case 0: return aliasing<double>(c);
    case 1: return aliasing<int>(c);
    case 2: return aliasing<cd>(c);
    case 3: return aliasing<ld>(c);
    }
}
MC(powers)
{
    switch (c.choose(5, "type")) {
    case 0: return powers<double>(c);
    case 1: return powers<int>(c);
    case 2: return powers<cd>(c);
    case 3: return powers<long>(c);
    case 4: return powers<ld>(c);
    }
}
MC(projections)
{
    switch (c.choose(3, "type")) {
    case 0: return projections<double>(c);
    case 1: return projections<float>(c);
    case 2: return projections<ld>(c);
    }
}
// Large shapes (blocked or unrolled loops would start to matter here).
MC(large)
{
    static const size_t dims[] = { 1, 2, 7, 8, 9, 16, 17, 33, 65, 100 };
    const size_t r = c.pick(dims, "rows"), k = c.pick(dims, "inner"), n = c.pick(dims, "cols");
    c.go();
    if (r * k * n > (c.thorough ? 1000000u : 40000u)) return;
    Tab<double> a = content<double>(r, k, r), b = content<double>(k, n, n);
    auto e        = product<double>(a, b);
    const Matrix<double> A(mat(a)), B(mat(b));
    expect_mat(c, "product", A * B, e, "large");
    if (k == n) {
        Matrix<double> X(A);
        X *= B;
        expect_mat(c, "in-place", X, e, "large");
    }
    if (n == 1) check_vec(c, "matrix-vector", A * mkvec(b.v), e.v), check_vec(c, "matrix-vector", malg::dot(A, mkvec(b.v)), e.v);
    if (n == 1 && r == 1 && malg::dot(mkvec(a.v), mkvec(b.v)) != e.v[0]) c.fail("dot", "large");
    c.step(2);
    c.state(mc::mix(mc::mix(r, k), n));
}
// Long vectors, and the powers whose elements stay small.
MC(long_vectors)
{
    const Shape s     = long_shape(c);
    const unsigned ty = c.choose(3, "type");
    c.go();
    auto run = [&](auto zero) {
        using T = decltype(zero);
        auto a = content<T>(s.r, s.k, s.r), x = content<T>(s.k, 1, s.k + 3), y = content<T>(1, s.r, s.k + 5);
        const auto e = product<T>(a, x);
        const Matrix<T> A(mat(a));
        const Vector<T> X(mkvec(x.v));
        check_vec(c, "matrix-vector", A * X, e.v);
        check_vec(c, "matrix-vector", malg::dot(A, X), e.v);
        expect_mat(c, "product", A * mat(x), e, "long");
        expect_mat(c, "product", mat(y) * A, product<T>(y, a), "long");
        if (s.r == 1 && malg::dot(mkvec(a.v), X) != e.v[0]) c.fail("dot", "of %zu elements", s.k);
        check_mat(c, "operand-changed", A, a);
        c.step(5);
        c.state(mc::mix(mc::mix(s.r, s.k), ty));
    };
    switch (ty) {
    case 0: return run(double());
    case 1: return run(int());
    case 2: return run(cd());
    }
}
MC(long_powers)
{
    // Every exponent up to a bound, and those around the ends of the narrow integer types.
    static const size_t far[] = { 255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 131072 + 3 };
    const size_t n = 1 + c.choose(5, "n"), below = c.thorough ? 300 : 131, at = c.choose(static_cast<unsigned>(below) + 16, "exponent");
    const size_t N = at < below ? at : far[at - below];
    const unsigned form = c.choose(4, "form");
    const int kind      = static_cast<int>(c.choose(3, "kind")) * 2;
    c.go();
    Tab<double> a(n, n), e(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) switch (form) {
            case 0: a(i, j) = j == (i + 1) % n; break;                         // cyclic shift
            case 1: a(i, j) = i == j || (i == 0 && j + 1 == n); break;         // the corner grows by one each time
            case 2: a(i, j) = j == i + 1 ? -1 : 0; break;                      // nilpotent
            case 3: a(i, j) = i == j ? (i % 2 ? -1 : 1) : 0; break;            // alternating
            }
    for (size_t i = 0; i < n; ++i) e(i, i) = 1;
    if (N < below) {
        for (size_t i = 0; i < N; ++i) e = product<double>(e, a);
    } else { // by squaring
        auto b = a;
        for (size_t m = N; m; m /= 2) {
            if (m % 2) e = product<double>(e, b);
            b = product<double>(b, b);
        }
    }
    if (form == 1 && n == 1) e(0, 0) = 1;
    with_const(c, "operand-changed", kind, a, [&](const auto &A) { expect_mat(c, "powm", la::powm(A, N), e, show(a) + "^" + std::to_string(N)); });
    c.step();
    c.state(mc::mix(a.hash(), N * 10 + static_cast<unsigned>(kind)));
}
