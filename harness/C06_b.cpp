// In-place operations on matrices; operations with vectors.
#include "C06.hpp"
namespace
{
template <typename T>
void in_place(mc::Ctx &c)
{
    size_t r1, c1, r2, c2;
    shape(c, r1, c1);
    shape(c, r2, c2);
    const int ka = static_cast<int>(c.choose(c.thorough ? K_MUTABLE : 3, "left kind")), kb = static_cast<int>(c.choose(2, "right kind")) * 4, op = static_cast<int>(c.choose(3, "op"));
    c.go();
    Tab<T> a = content<T>(r1, c1, 1), b = content<T>(r2, c2, 2);
    const bool eq = r1 == r2 && c1 == c2;
    const bool fits = op == 2 ? (c1 == r2 && r2 == c2) : eq;
    Tab<T> after = a;
    if (fits) {
        if (op == 2) after = product<T>(a, b);
        else
            for (size_t i = 0; i < a.v.size(); ++i) after.v[i] = op == 0 ? a.v[i] + b.v[i] : a.v[i] - b.v[i];
    }
    static const char *n[] = { "A+=B", "A-=B", "A*=B" };
    with_mutable(c, "operand-changed", ka, a, after, [&](auto &A) {
        with_const(c, "operand-changed", kb, b, [&](const auto &B) {
            expect_reject(c, std::string(n[op]) + " " + show(a) + ", " + show(b), fits, [&] {
                if (op == 0) A += B;
                if (op == 1) A -= B;
                if (op == 2) A *= B;
            });
        });
    });
    c.state(mc::mix(mc::mix(mc::mix(r1, c1), mc::mix(r2, c2)), static_cast<unsigned>(ka * 100 + kb * 10 + op)) + sizeof(T));
}
template <typename T>
void with_vector(mc::Ctx &c)
{
    size_t r, k;
    shape(c, r, k);
    static const size_t more[] = { 8, 64, 65 };
    const unsigned hi = c.thorough ? 7 : 5;
    unsigned ni       = c.choose(hi + 3, "size");
    const size_t n    = ni < hi ? ni : more[ni - hi];
    const int ka      = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    Tab<T> a = content<T>(r, k, 1);
    std::vector<T> x(n);
    for (size_t i = 0; i < n; ++i) x[i] = small<T>(i, 3);
    const Vector<T> X(mkvec(x));
    std::string w = std::to_string(r) + "x" + std::to_string(k) + ", vector of " + std::to_string(n);
    with_const(c, "operand-changed", ka, a, [&](const auto &A) {
        expect_reject(c, "A*x " + w, k == n, [&] { (void)(A * X); });
        expect_reject(c, "dot(A,x) " + w, k == n, [&] { (void)malg::dot(A, X); });
        expect_reject(c, "vstack(A,x) " + w, k == n, [&] { (void)ut::vstack(A, X); });
        expect_reject(c, "hstack(A,x) " + w, r == n, [&] { (void)ut::hstack(A, X); });
    });
    check_vec(c, "operand-changed", X, x);
    c.state(mc::mix(mc::mix(r, k), n * 10 + static_cast<unsigned>(ka)) + sizeof(T));
}
template <typename T1, typename T2>
void vectors(mc::Ctx &c)
{
    static const size_t sizes[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 63, 64, 65, 1000 };
    const size_t n = c.pick(sizes, "n"), m = c.pick(sizes, "m");
    c.go();
    std::vector<T1> x(n);
    std::vector<T2> y(m);
    for (size_t i = 0; i < n; ++i) x[i] = small<T1>(i, 3);
    for (size_t i = 0; i < m; ++i) y[i] = small<T2>(i, 5);
    Vector<T1> X(mkvec(x));
    const Vector<T1> cX(X);
    const Vector<T2> Y(mkvec(y));
    const bool fits = n == m;
    std::string w   = " vectors of " + std::to_string(n) + " and " + std::to_string(m);
    auto sum = [](const T1 &p, const T2 &q) { return p + q; };
    expect_reject(c, "a+b" + w, fits, [&] { (void)(cX + Y); });
    expect_reject(c, "a-b" + w, fits, [&] { (void)(cX - Y); });
    expect_reject(c, "a*b" + w, fits, [&] { (void)(cX * Y); });
    expect_reject(c, "a==b" + w, fits, [&] { (void)(cX == Y); });
    expect_reject(c, "a!=b" + w, fits, [&] { (void)(cX != Y); });
    expect_reject(c, "dot" + w, fits, [&] { (void)malg::dot(cX, Y); });
    expect_reject(c, "element_wise_binary_function" + w, fits, [&] { (void)malg::element_wise_binary_function(cX, Y, sum); });
    if (!std::is_integral_v<T1> || n != m) expect_reject(c, "projection" + w, fits, [&] { (void)malg::projection(cX, Y); });
    if constexpr (std::is_same_v<T1, T2>) {
        expect_reject(c, "all_close" + w, fits, [&] { (void)ut::all_close(cX, Y, 1.0); });
        if constexpr (!is_cx_v<T1>) expect_reject(c, "compare" + w, fits, [&] { (void)ut::compare(cX, Y); });
    }
    check_vec(c, "operand-changed", cX, x);
    for (int op = 0; op < 2; ++op) {
        X = cX;
        expect_reject(c, (op ? "a-=b" : "a+=b") + w, fits, [&] {
            if (op) X -= Y;
            else X += Y;
        });
        std::vector<T1> e = x;
        if (fits)
            for (size_t i = 0; i < n; ++i) e[i] = static_cast<T1>(op ? x[i] - y[i] : x[i] + y[i]);
        check_vec(c, "operand-changed", X, e);
    }
    check_vec(c, "operand-changed", Y, y);
    c.state(mc::mix(n, m) + sizeof(T1) * 10 + sizeof(T2));
}
} // namespace
MC(in_place)
{
    if (c.flip("type")) in_place<cd>(c);
    else in_place<double>(c);
}
MC(matrix_vector)
{
    if (c.flip("type")) with_vector<cd>(c);
    else with_vector<double>(c);
}
MC(vector_vector)
{
    switch (c.choose(4, "types")) {
    case 0: return vectors<double, double>(c);
    case 1: return vectors<int, int>(c);
    case 2: return vectors<double, int>(c);
    case 3: return vectors<cd, double>(c);
    }
}
