// A menu of library operations over neutral inputs and results, shared by the harnesses about
// concurrency, allocation failure, storage order and history. Self-contained (no common.hpp): it is
// also compiled with the library's namespace renamed and column-major storage. Define OPS_NS first.
#pragma once
#include "malg/control/control.hpp"
#include "malg/eigen.hpp"
#include "malg/io.hpp"
#include "malg/linalg.hpp"
#include "malg/math.hpp"
#include "malg/utility.hpp"
#include "ops_out.hpp"

namespace OPS_NS
{
using cd = std::complex<double>;
using std::size_t;
template <typename T>
using Mat = malg::Matrix<T>;
template <typename T>
using Vec = malg::Vector<T>;
namespace ut = malg::utility;
namespace la = malg::linalg;
namespace ct = malg::control;
namespace eg = malg::eigen;

// ---- recording of results (by row and column) ----
template <typename T, std::enable_if_t<std::is_arithmetic_v<T> || malg::is_complex_v<T>, int> = 0>
void put(Out &o, const T &x)
{
    if constexpr (malg::is_complex_v<T>) o.num(x.real()), o.num(x.imag());
    else o.num(x);
}
template <typename T>
void put(Out &o, const malg::MatrixBase<T> &m)
{
    o.shape(m.rows(), m.cols());
    for (size_t r = 0; r < m.rows(); ++r)
        for (size_t c = 0; c < m.cols(); ++c) put(o, static_cast<std::remove_const_t<T>>(m(r, c)));
}
template <typename T>
void put(Out &o, const Mat<T> &m)
{
    put(o, static_cast<const malg::MatrixBase<T> &>(m));
}
template <typename T>
void put(Out &o, const Vec<T> &v)
{
    o.shape(v.size(), 0);
    for (size_t i = 0; i < v.size(); ++i) put(o, v[i]);
}
// The linear position that corresponds to row-major position p.
template <typename T>
size_t linear(const malg::MatrixBase<T> &m, size_t r, size_t c)
{
#ifdef ROW_MAJOR
    return r * m.cols() + c;
#else
    return c * m.rows() + r;
#endif
}

// ---- inputs ----
constexpr int VARIANTS = 6;
template <typename T>
T cell(size_t i, size_t j, int salt)
{
    const int x = static_cast<int>((i * 7 + j * 3 + static_cast<size_t>(salt)) % 5) - 2;
    if constexpr (malg::is_complex_v<T>) return T(x, static_cast<int>((i + 2 * j + static_cast<size_t>(salt)) % 3) - 1);
    else return static_cast<T>(x);
}
template <typename T>
Mat<T> filled(size_t r, size_t c, int salt, int diagonal = 0)
{
    Mat<T> m(r, c);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) m(i, j) = cell<T>(i, j, salt) + ((i == j && diagonal) ? T(diagonal + static_cast<int>(i)) : T(0));
    return m;
}
template <typename T>
Vec<T> filled(size_t n, int salt)
{
    Vec<T> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = cell<T>(i, 1, salt);
    return v;
}
struct Env {
    size_t n, m; // size, and a second dimension
    int s;       // salt
    Mat<double> A, B, S, T, W, C, D, b, p; // square, square, singular, tall, wide, model, poles
    Mat<double> R;                         // n x m
    Mat<int> I, J;
    Mat<cd> Z, Y, U; // U upper triangular with distinct eigenvalues
    Mat<float> F;
    Vec<double> v, w, u; // n, n, m
    Vec<int> iv;
    Vec<cd> zv;
    explicit Env(int variant)
    {
        static const size_t ns[VARIANTS] = { 2, 3, 1, 5, 5, 9 }, ms[VARIANTS] = { 3, 2, 2, 4, 2, 10 };
        n = ns[variant], m = ms[variant], s = variant;
        A = filled<double>(n, n, s, 6);
        B = filled<double>(n, n, s + 2, 5);
        S = filled<double>(n, n, s + 1);
        for (size_t j = 0; j < n; ++j) S(n - 1, j) = n > 1 ? 2 * S(0, j) : 0;
        T = filled<double>(n + 2, n, s, 7);
        W = filled<double>(n, n + 2, s, 7);
        C = filled<double>(m, n, s + 1);
        b = filled<double>(n, 1, s);
        b(n - 1, 0) = 3;
        D = filled<double>(m, 1, s + 3);
        p = Mat<double>(1, n);
        for (size_t i = 0; i < n; ++i) p(0, i) = -1.0 - static_cast<double>(i);
        R = filled<double>(n, m, s + 4);
        I = filled<int>(n, n, s, 4);
        J = filled<int>(n, m, s + 3);
        Z = filled<cd>(n, n, s, 6);
        Y = filled<cd>(n, m, s + 1);
        U = Mat<cd>(n, n);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i; j < n; ++j) U(i, j) = i == j ? cd(static_cast<int>(i) + 1, s) : cell<cd>(i, j, s);
        F  = filled<float>(n, n, s + 1, 5);
        v  = filled<double>(n, s + 1);
        w  = filled<double>(n, s + 2);
        w[0] = 3;
        u  = filled<double>(m, s);
        iv = filled<int>(n, s);
        zv = filled<cd>(n, s);
    }
    // Everything, to see that the inputs are as they were.
    void put(Out &o) const
    {
        OPS_NS::put(o, A), OPS_NS::put(o, B), OPS_NS::put(o, S), OPS_NS::put(o, T), OPS_NS::put(o, W), OPS_NS::put(o, C), OPS_NS::put(o, D), OPS_NS::put(o, b), OPS_NS::put(o, p);
        OPS_NS::put(o, R), OPS_NS::put(o, I), OPS_NS::put(o, J), OPS_NS::put(o, Z), OPS_NS::put(o, Y), OPS_NS::put(o, U), OPS_NS::put(o, F);
        OPS_NS::put(o, v), OPS_NS::put(o, w), OPS_NS::put(o, u), OPS_NS::put(o, iv), OPS_NS::put(o, zv);
    }
};
using Run = void (*)(const Env &, Out &);
struct Op {
    const char *name;
    int flags;
    Run run;
};
// One library call: the window in which allocations may be made to fail.
template <typename F>
auto lib(F &&f) -> decltype(f())
{
    Window in;
    return f();
}
// A call that must be rejected.
template <typename F>
void rejected(Out &o, F &&f)
{
    bool t = false;
    try {
        lib([&] { f(); return 0; });
    } catch (const std::bad_alloc &) {
        throw;
    } catch (const std::exception &) {
        t = true;
    }
    o.num(t);
}
#define OP(name, flags, ...)                       \
    ops.push_back({ name, flags, [](const Env &e, Out &o) { \
                       (void)e, (void)o;           \
                       __VA_ARGS__                 \
                   } });
#define L(...) lib([&] { return __VA_ARGS__; })
#define DO(...) lib([&] { __VA_ARGS__; return 0; })

inline std::vector<Op> menu()
{
    std::vector<Op> ops;
    // ---- containers ----
    OP("vector copy", 0, auto a = L(Vec<double>(e.v)); put(o, a); put(o, e.v);)
    OP("vector convert", 0, auto a = L(Vec<double>(e.iv)); put(o, a); a = Vec<double>{ 1, 2 }; DO(a = e.iv); put(o, a);)
    OP("vector assign", 0, Vec<double> a{ 9, 8 }; DO(a = e.v); put(o, a);)
    OP("vector fill", 0, auto a = L(Vec<cd>(e.n, cd(1, 2))); put(o, a);)
    OP("vector list", 0, auto a = L(Vec<int>{ 1, 2, 3 }); put(o, a);)
    OP("vector resize", 0, Vec<double> a(e.v); DO(a.resize(e.n + 3)); put(o, a); DO(a.resize(1)); put(o, a); DO(a.resize(e.n)); put(o, a);)
    OP("vector move", 0, Vec<double> a(e.v); auto b = L(Vec<double>(std::move(a))); put(o, b); DO(a = e.w); put(o, a);)
    OP("matrix copy", 0, auto a = L(Mat<double>(e.R)); put(o, a);)
    OP("matrix convert", 0, auto a = L(Mat<double>(e.J)); put(o, a); auto b = L(Mat<cd>(e.J)); put(o, b);)
    OP("matrix assign", 0, Mat<double> a(1, 1, 7); DO(a = e.R); put(o, a);)
    OP("matrix assign type", 0, Mat<double> a(1, 1, 7); DO(a = e.J); put(o, a);)
    OP("matrix assign view", 0, Mat<double> a(1, 1, 7); const malg::View x(&e.R, 0, 1, 1, 99); DO(a = static_cast<const malg::MatrixBase<const double> &>(x)); put(o, a);)
    OP("matrix assign own view", 0, Mat<double> a(e.W); malg::View x(&a, 0, 1, 1, 3); DO(a = static_cast<const malg::MatrixBase<double> &>(x)); put(o, a);)
    OP("matrix list", 0, auto a = L(Mat<int>{ { 1, 2, 3 }, { 4, 5, 6 } }); put(o, a); Mat<int> b(1, 1, 5); DO(b = { { 7, 8 } }); put(o, b);)
    OP("matrix sized list", 0, auto a = L(Mat<int>(2, 3, { 1, 2, 3, 4, 5, 6 })); put(o, a); const std::vector<int> x{ 6, 5, 4, 3 }; auto b = L(Mat<int>(2, 2, x)); put(o, b);)
    OP("matrix resize", 0, Mat<double> a(e.R); DO(a.resize(e.n + 1, e.m)); put(o, a); DO(a.resize(e.n + 2, e.m + 1)); put(o, a); DO(a.resize(1, 2)); put(o, a); DO(a.resize(2, 1)); put(o, a);)
    OP("matrix move", 0, Mat<double> a(e.R); auto b = L(Mat<double>(std::move(a))); put(o, b); DO(a = e.T); put(o, a); DO(b = std::move(a)); put(o, b); put(o, a);)
    OP("reshape flat", 0, Mat<double> a(1, 6); for (size_t i = 0; i < 6; ++i) a[i] = static_cast<double>(i); DO(a.reshape(6, 1)); put(o, a); rejected(o, [&] { a.reshape(2, 2); }); put(o, a);)
    OP("wrong lists", 0, rejected(o, [&] { Mat<int> a{ { 1, 2 }, { 3 } }; }); rejected(o, [&] { Mat<int> a(2, 2, { 1, 2, 3 }); }); Mat<int> b(1, 2, 4); rejected(o, [&] { b = { { 1, 2 }, { 3 } }; }); put(o, b);)
    OP("too many elements", 0, const size_t h = static_cast<size_t>(1) << 33; rejected(o, [&] { Mat<int> a(h, h); }); Mat<int> b(2, 2, 3); rejected(o, [&] { b.resize(h, h); }); put(o, b);)
    // ---- views ----
    OP("view write", 0, Mat<double> a(e.T); auto x = L(ut::view(a, 1, 99, 0, 1)); for (size_t i = 0; i < x.rows(); ++i) x(i, 0) = 50.0 + static_cast<double>(i); put(o, a); put(o, x);)
    OP("view assign", 0, Mat<double> a(e.T); malg::View x(&a, 0, 1, 0, 1); const Mat<double> y(1, 1, 77); DO(x = y); put(o, a); DO(x = { { 5 } }); put(o, a);)
    OP("view of view", 0, const auto x = ut::view(e.T, 0, e.n, 0, e.n); const malg::View y(&x, 0, 99, e.n - 1, 99); put(o, y); auto q = L(y + 1.0); put(o, q); auto r = L(la::transpose(y)); put(o, r);)
    OP("row and column", 0, put(o, L(ut::row(e.R, 0))); put(o, L(ut::col(e.R, 1))); put(o, L(ut::row(e.R, e.n - 1, 1)));)
    OP("excluding view", 0, const malg::CofactorView x(&e.T, 1, 0); put(o, x); auto q = L(x * 2.0); put(o, q); put(o, L(malg::infinity_norm(x)));)
    OP("excluding view assign", 0, Mat<double> a(e.T); malg::CofactorView x(&a, 0, e.n - 1); const Mat<double> y(e.n + 1, e.n - 1, 4.0); DO(x = y); put(o, a);)
    // ---- element-wise ----
    OP("add", 0, put(o, L(e.A + e.B)); put(o, L(e.A + 2)); put(o, L(e.J + 0.5)); put(o, L(e.I + e.A));)
    OP("sub", 0, put(o, L(e.A - e.B)); put(o, L(e.A - 2)); put(o, L(e.Z - e.A)); put(o, L(e.I - cd(0, 1)));)
    OP("scale", 0, put(o, L(e.R * 2)); put(o, L(2.5 * e.R)); put(o, L(e.R / 4.0)); put(o, L(e.Y * cd(0, 2))); put(o, L(e.J * 1.5));)
    OP("in place", 0, Mat<double> a(e.A); DO(a += e.B; a -= e.I; a += 3; a *= 2.0; a -= 1; a /= 2.0); put(o, a);)
    OP("in place self", 0, Mat<double> a(e.A); DO(a += a); put(o, a); DO(a -= a); put(o, a); Mat<int> i(e.I); DO(i *= i); put(o, i); DO(i += i(0, 0)); put(o, i);)
    OP("vector arithmetic", 0, put(o, L(e.v + e.w)); put(o, L(e.v - e.w)); put(o, L(e.v * e.w)); put(o, L(e.v * 2)); put(o, L(2 * e.v)); put(o, L(e.v / 2.0)); put(o, L(e.v + 1)); put(o, L(e.iv - 0.5)); put(o, L(e.zv + e.v));)
    OP("vector in place", 0, Vec<double> a(e.v); DO(a += e.w; a -= e.iv; a += 1; a *= 3.0; a -= 2; a /= 2.0); put(o, a);)
    OP("element product", 0, put(o, L(malg::element_wise_product(e.A, e.I))); put(o, L(malg::linear_combination(e.A, 2.0, e.B, -0.5))); put(o, L(malg::linear_combination(e.I, 2, e.I, cd(0, 1))));)
    OP("mappings", 0, put(o, L(malg::abs(e.J))); put(o, L(malg::sign(e.R))); put(o, L(malg::real(e.Y))); put(o, L(malg::imag(e.Y))); put(o, L(malg::abs(e.Y))); put(o, L(malg::abs(e.v))); put(o, L(malg::sign(e.iv))); put(o, L(malg::real(e.zv))); put(o, L(malg::element_wise_function(e.R, [](double x) { return x * x + 1; })));)
    // ---- products ----
    OP("product", 0, put(o, L(e.A * e.R)); put(o, L(e.I * e.A)); put(o, L(e.Z * e.Y)); put(o, L(e.A * e.B * e.A)); put(o, L(e.T * e.W));)
    OP("product in place", 0, Mat<double> a(e.T); DO(a *= e.A); put(o, a); Mat<double> q(e.A); DO(q *= q); put(o, q);)
    OP("matrix vector", 0, put(o, L(e.A * e.v)); put(o, L(malg::dot(e.T, e.w))); put(o, L(malg::dot(e.v, e.w))); put(o, L(malg::dot(e.Z, e.v)));)
    OP("projection", 0, put(o, L(malg::projection(e.v, e.w)));)
    OP("powm", 0, put(o, L(la::powm(e.A, 3))); put(o, L(la::powm(e.I, 0))); put(o, L(la::powm(e.Z, 2)));)
    // ---- comparisons ----
    OP("compare matrices", 0, put(o, L(e.A == e.B)); put(o, L(e.A != e.B)); put(o, L(e.A < e.B)); put(o, L(e.A <= e.B)); put(o, L(e.A > e.B)); put(o, L(e.A >= e.B)); put(o, L(e.A == 1.0)); put(o, L(e.J != 1)); put(o, L(e.R >= 0)); put(o, L(e.Y == e.Y));)
    OP("compare vectors", 0, put(o, L(e.v == e.w)); put(o, L(e.v != e.w)); put(o, L(e.v == 1.0)); put(o, L(e.zv != e.zv)); put(o, L(ut::all_close(e.v, e.w))); put(o, L(ut::all_close(e.A, e.A))); put(o, L(ut::compare(e.v, e.v)));)
    OP("compare positions", 0, put(o, L(ut::compare(e.A, e.A))); Mat<double> a(e.A); a(e.n - 1, e.n - 1) += 1; put(o, L(ut::compare(a, e.A))); put(o, L(ut::compare(e.v, e.w)));)
    // ---- predicates ----
    OP("predicates", 0, for (const Mat<double> *m : { &e.A, &e.S, &e.T, &e.b, &e.p, &e.B }) put(o, L(ut::is_square(*m) + 2 * ut::is_column_vector(*m) + 4 * ut::is_row_vector(*m) + 8 * ut::is_symmetric(*m) + 16 * ut::is_skew_symmetric(*m) + 32 * ut::is_diagonal(*m) + 64 * ut::is_zero(*m) + 128 * ut::is_constant(*m) + 256 * ut::is_identity(*m) + 512 * ut::is_orthogonal(*m) + 1024 * ut::is_lower_triangular(*m) + 2048 * ut::is_upper_triangular(*m)));)
    OP("predicates complex", 0, for (const Mat<cd> *m : { &e.U, &e.Z, &e.Y }) put(o, L(ut::is_square(*m) + 8 * ut::is_symmetric(*m) + 16 * ut::is_skew_symmetric(*m) + 32 * ut::is_diagonal(*m) + 64 * ut::is_zero(*m) + 128 * ut::is_constant(*m) + 256 * ut::is_identity(*m) + 1024 * ut::is_lower_triangular(*m) + 2048 * ut::is_upper_triangular(*m)));)
    OP("invertibility", 0, for (const Mat<double> *m : { &e.A, &e.S, &e.B }) put(o, L(ut::is_invertible(*m) + 2 * ut::is_linearly_dependent(*m) + 4 * ut::is_linearly_independent(*m)));)
    // ---- reductions ----
    OP("reductions", 0, put(o, L(malg::sum(e.v))); put(o, L(malg::trace(e.A))); put(o, L(malg::trace(e.Y))); put(o, L(malg::square_norm(e.v))); put(o, L(malg::square_norm(e.R))); put(o, L(malg::square_norm(e.Z))); put(o, L(malg::infinity_norm(e.v))); put(o, L(malg::infinity_norm(e.T))); put(o, L(malg::infinity_norm(e.Y))); put(o, L(malg::sub_norm(e.A))); put(o, L(malg::sub_norm(e.Z))); put(o, L(malg::vector_length(e.T, 0))); put(o, L(malg::vector_length(e.Y, 1, 0, 2)));)
    OP("scaling factor", 0, auto x = L(malg::log2_ceil(e.A)); put(o, x.first); put(o, x.second); auto y = L(malg::log2_ceil(e.Z)); put(o, y.first); put(o, y.second); const Mat<double> small(2, 2, 0.125); auto z = L(malg::log2_ceil(small)); put(o, z.first); put(o, z.second);)
    OP("extremes", 0, auto x = L(malg::min(e.v)); put(o, x.first); put(o, x.second); auto y = L(malg::max(e.iv)); put(o, y.first); put(o, y.second); put(o, L(malg::min(e.T))); put(o, L(malg::max(e.W))); put(o, L(malg::all(e.A))); put(o, L(malg::any(e.J))); put(o, L(malg::all(e.v))); put(o, L(malg::any(e.v)));)
    OP("find", 0, auto x = L(ut::find(e.J)); o.num(static_cast<double>(x.size())); o.num(x.rows() == 1); double s = 0; for (size_t r = 0; r < e.J.rows(); ++r) for (size_t c = 0; c < e.J.cols(); ++c) for (size_t i = 0; i < x.size(); ++i) if (x[i] == linear(e.J, r, c)) s += static_cast<double>(r * 100 + c + 1); o.num(s); auto y = L(ut::find(e.p, 1)); put(o, y); auto z = L(ut::flatnonzero(e.p)); o.num(static_cast<double>(z.size()));)
    // ---- stacking and moving elements ----
    OP("stack", 0, put(o, L(ut::vstack(e.A, e.T))); put(o, L(ut::hstack(e.A, e.R))); put(o, L(ut::vstack(e.I, e.B))); put(o, L(ut::hstack(e.Y, e.J)));)
    OP("stack vector", 0, put(o, L(ut::vstack(e.A, e.v))); put(o, L(ut::hstack(e.R, e.v))); put(o, L(ut::concatenate(e.v, e.u))); put(o, L(ut::concatenate(e.iv, e.u)));)
    OP("extract", 0, put(o, L(ut::extract(e.T, 1, 99, 0, 1))); put(o, L(ut::extract_column(e.T, 0, 1))); put(o, L(ut::extract_row(e.R, e.n - 1))); put(o, L(ut::diag(e.R))); put(o, L(ut::diag(e.v)));)
    OP("swap", 0, Mat<double> a(e.T); DO(ut::swap_rows(a, 0, e.n)); put(o, a); DO(ut::swap_cols(a, 0, e.n - 1)); put(o, a); DO(ut::swap_rows(a, 0, 1, 0, 1)); put(o, a);)
    OP("remove", 0, Mat<double> a(e.T); DO(ut::remove_row(a, 1)); put(o, a); Mat<double> q(e.W); DO(ut::remove_column(q, 0)); put(o, q);)
    OP("to matrix", 0, put(o, L(ut::to_matrix(e.v, true))); put(o, L(ut::to_matrix(e.v, false))); put(o, L(ut::to_vector(e.p))); put(o, L(ut::ravel(e.b)));)
    OP("ravel", 0, auto x = L(ut::ravel(e.R)); o.num(static_cast<double>(x.size())); for (size_t r = 0; r < e.n; ++r) for (size_t c = 0; c < e.m; ++c) put(o, x[linear(e.R, r, c)]);)
    OP("generators", 0, put(o, L(ut::eye(e.n, e.m, 2.0))); put(o, L(ut::identity<double>(e.n))); put(o, L(ut::zeros<double>(e.n, e.m))); put(o, L(ut::ones<int>(e.m, e.n))); put(o, L(ut::zeros<double>(e.n))); put(o, L(ut::ones<double>(e.m))); rejected(o, [&] { (void)ut::zeros<int>(0, 2); });)
    OP("spaces", 0, put(o, L(ut::linspace(0.0, 4.0, 5))); put(o, L(ut::linspace(4.0, -4.0, 9))); put(o, L(ut::logspace(0.0, 3.0, 4))); put(o, L(ut::linspace(1.0, 1.0, 3)));)
    // Everything that is given by scalars, with scalars taken from the elements.
    OP("scalar arguments", 0, const double x = e.v[0], y = e.w[e.n - 1]; const unsigned k = 2 + static_cast<unsigned>(std::abs(e.iv[0])) % 4; put(o, L(ut::eye(e.n, e.m, x))); put(o, L(ut::identity<double>(e.n, y))); put(o, L(ut::eye(e.n, e.n, e.zv[0]))); put(o, L(ut::linspace(x, y, k))); put(o, L(ut::linspace(y, x))); put(o, L(ut::logspace(x / 8, y / 8, k))); put(o, L(ut::logspace(0.0, 2.0, k, 2.0 + std::abs(x)))); put(o, L(la::powm(e.A, k))); put(o, L(la::expm(e.B, k % 2 ? 1e-3 : 1e-8))); ct::StateSpace<double> q(e.A, e.b, e.C, e.D); auto d = L(ct::c2d(q, 0.01 * k)); put(o, d.A); put(o, d.B); put(o, d.sample_time); put(o, Mat<double>(e.m, e.n, x)); put(o, Vec<double>(k, y)); put(o, L(malg::linear_combination(e.A, x, e.B, y))); put(o, malg::feq::approximately_equal(x, y)); put(o, la::factorial(static_cast<int>(k)));)
    OP("scalar text", F_IO, const unsigned k = 2 + static_cast<unsigned>(std::abs(e.iv[0])) % 4; std::ostringstream t; t.precision(k); t << e.R << e.v << malg::to_matlab("m", e.R) << malg::to_cpp("m", "double", e.R) << malg::dump_vector("v", e.v); o.text += t.str();)
    // ---- linear algebra ----
    OP("transpose", 0, put(o, L(la::transpose(e.R))); put(o, L(la::hermitian_transpose(e.Y))); put(o, L(la::conjugate_transpose(e.Z))); put(o, L(la::transpose(e.J)));)
    OP("cofactor", 0, put(o, L(la::cofactor(e.T, 1, 0))); put(o, L(la::cofactor(e.A, 0, e.n - 1)));)
    OP("determinant", 0, put(o, L(la::determinant(e.A))); put(o, L(la::determinant(e.B))); put(o, L(la::determinant(e.S)));)
    OP("determinant int", 0, put(o, L(la::determinant(e.I)));)
    OP("determinant complex", 0, put(o, L(la::determinant(e.Z))); put(o, L(la::determinant(e.U)));)
    OP("adjoint", 0, put(o, L(la::adjoint(e.A))); put(o, L(la::adjoint(e.Z)));)
    OP("inverse", 0, put(o, L(la::inverse(e.A))); put(o, L(la::inverse(e.B)));)
    OP("inverse complex", 0, put(o, L(la::inverse(e.Z)));)
    OP("inverse singular", 0, put(o, L(la::inverse(e.S)));)
    OP("division", 0, put(o, L(la::div(e.B, e.A)));)
    OP("qr", 0, auto x = L(la::qr_decomposition(e.T)); put(o, x.first); put(o, x.second); auto y = L(la::qr_decomposition(e.A)); put(o, y.first); put(o, y.second);)
    OP("lu", 0, auto x = L(la::lu_decomposition(e.A)); put(o, x.first); put(o, x.second); auto y = L(la::lu_decomposition(e.Z)); put(o, y.first); put(o, y.second);)
    OP("solve", 0, put(o, L(la::solve(e.A, e.v)));)
    OP("solve tall", 0, const Vec<double> r = filled<double>(e.n + 2, e.s); put(o, L(la::solve(e.T, r)));)
    OP("solve wide", 0, put(o, L(la::solve(e.W, e.v)));)
    OP("exp", 0, put(o, L(la::exp(e.R)));)
    OP("expm", 0, put(o, L(la::expm(e.B, 1e-6)));)
    OP("expm small", 0, const Mat<double> x(e.n, e.n, 0.01); put(o, L(la::expm(x, 1e-9)));)
    OP("expm complex", 0, put(o, L(la::expm(e.Z, 1e-5)));)
    // ---- control ----
    OP("c2d", 0, ct::StateSpace<double> x(e.A, e.b, e.C, e.D); auto d = L(ct::c2d(x, 0.05)); put(o, d.A); put(o, d.B); put(o, d.C); put(o, d.D); put(o, d.sample_time);)
    OP("simulate", 0, ct::DiscreteStateSpace<double> x(e.A, e.b, e.C, e.D, 0.5); std::vector<Vec<double>> in(3, Vec<double>(1, 1.0)); in[1][0] = -2; auto [t, s, y] = L(ct::simulate(x, in, 10.0, e.v)); for (auto q : t) put(o, q); for (auto &q : s) put(o, q); for (auto &q : y) put(o, q); auto z = L(ct::simulate_step(x, e.w, in[0])); put(o, z.first); put(o, z.second);)
    OP("ctrb", 0, put(o, L(ct::ctrb(e.A, e.b))); put(o, L(ct::ctrb(e.A, e.R)));)
    OP("obsv", 0, put(o, L(ct::obsv(e.A, e.C)));)
    OP("poly", 0, put(o, L(ct::poly(e.v))); put(o, L(ct::poly(e.A))); put(o, L(ct::poly(e.p))); put(o, L(ct::poly(e.U)));)
    OP("polyreduce", 0, const Vec<double> x{ 0, 0, 3, 1 }; put(o, L(ct::polyreduce(x))); put(o, L(ct::polyreduce(e.zv)));)
    OP("acker", 0, Mat<double> x(e.n, e.n); for (size_t i = 0; i + 1 < e.n; ++i) x(i, i + 1) = 1; for (size_t i = 0; i < e.n; ++i) x(e.n - 1, i) = e.A(0, i); Mat<double> y(e.n, 1); y(e.n - 1, 0) = 2; const malg::MatrixBase<double> &X = x, &Y = y, &P = e.p; put(o, L(ct::acker(X, Y, P)));)
    // ---- eigen ----
    OP("hessenberg", 0, auto x = L(eg::hessenberg(e.Z)); put(o, x.first); put(o, x.second);)
    OP("givens", 0, auto h = eg::hessenberg(e.Z).second; auto x = L(eg::qr_factorise_givens(h)); put(o, x.first); put(o, x.second);)
    OP("schur", F_SLOW, auto x = L(eg::QRHessenberg(e.U)); put(o, x.first); put(o, x.second);)
    OP("eigenvectors", 0, auto x = L(eg::eigenvectorUpper(e.U)); put(o, x.first); put(o, x.second);)
    // ---- complex scalars ----
    OP("complex scalars", 0, const std::complex<float> a(1.5f, -2), z(0, 3); put(o, a + cd(1, 1)); put(o, cd(1, 1) * a); put(o, a * 2.0); put(o, 2.0 / z); put(o, 1.0 - a);)
    // ---- rejections ----
    OP("reject shapes", 0, rejected(o, [&] { (void)(e.A + e.T); }); rejected(o, [&] { (void)(e.T * e.T); }); rejected(o, [&] { Mat<double> a(e.A); a -= e.W; }); rejected(o, [&] { (void)(e.v + Vec<double>(e.n + 1)); }); rejected(o, [&] { (void)malg::dot(e.T, Vec<double>(e.n + 1)); }); rejected(o, [&] { (void)ut::vstack(e.A, e.W); }); rejected(o, [&] { (void)ut::hstack(e.A, e.T); });)
    OP("reject non-square", 0, rejected(o, [&] { (void)la::determinant(e.T); }); rejected(o, [&] { (void)la::inverse(e.W); }); rejected(o, [&] { (void)la::adjoint(e.T); }); rejected(o, [&] { (void)la::powm(e.T, 2); }); rejected(o, [&] { (void)la::lu_decomposition(e.T); }); rejected(o, [&] { (void)ct::ctrb(e.T, e.b); }); rejected(o, [&] { (void)ct::obsv(e.A, e.W); }); rejected(o, [&] { (void)ct::poly(e.T * e.W.operator()({ 0, e.n }, { 0, e.n }) * Mat<double>(e.n, e.n + 3)); });)
    OP("reject positions", 0, Mat<double> a(e.T); rejected(o, [&] { ut::remove_row(a, 99); }); rejected(o, [&] { ut::remove_column(a, e.n); }); rejected(o, [&] { (void)ut::extract(a, 2, 1); }); rejected(o, [&] { (void)ut::extract_row(a, 99); }); put(o, a);)
    // ---- text ----
    OP("text", F_IO, std::ostringstream t; t << e.R << "\n" << e.Y << "\n" << e.v << "\n"; t << malg::dump_matrix("r", e.J) << malg::dump_vector("v", e.zv) << malg::to_matlab("z", e.Z) << malg::to_matlab("v", e.v) << malg::to_cpp("j", "int", e.J) << malg::to_cpp("v", "double", e.v); o.text += t.str();)
    OP("text of views", F_IO, const malg::CofactorView x(&e.T, 0, 0); std::ostringstream t; t.precision(3); t << static_cast<const malg::MatrixBase<const double> &>(x) << "\n" << ut::view(e.Y, 0, 1); o.text += t.str();)
    OP("files", F_IO | F_FILE, const std::string f = scratch_file(); { std::ofstream t(f); t.precision(17); t << e.R << e.v << e.Y << e.J; } Mat<double> a(1, 1); Vec<double> x; Mat<cd> y(7, 2); Mat<int> j; { std::ifstream t(f); DO(t >> a >> x >> y); DO(t >> j); o.num(t.good()); } put(o, a); put(o, x); put(o, y); put(o, j); std::remove(f.c_str());)
    // ---- others ----
    OP("random", F_RAND, auto a = L(ut::rand_matrix<double>(e.n, e.m, -1.0, 1.0)); auto x = L(ut::rand_vector<int>(e.n, 0, 3)); o.shape(a.rows(), a.cols()); o.num(static_cast<double>(x.size()));)
    OP("tolerance", F_TOL, const double keep = malg::feq::tolerance(); malg::feq::tolerance() = e.s % 2 ? 0.5 : 1e-12; put(o, e.A == e.B); put(o, ut::is_orthogonal(e.A)); malg::feq::tolerance() = keep; put(o, e.A == e.B);)
    OP("scalar predicates", 0, put(o, malg::feq::approximately_equal(1.0, 1.0 + 1e-7)); put(o, malg::feq::approximately_equal(1.0, 1.0 + 1e-5)); put(o, malg::feq::approximately_equal_to_zero(1e-9)); put(o, malg::feq::approximately_lesser_than_equal(1.0, 1.0 - 1e-8)); put(o, malg::feq::tolerance()); put(o, ut::basis<double>()); put(o, la::factorial(5));)
    return ops;
}
#undef OP
#undef L
#undef DO
} // namespace OPS_NS
