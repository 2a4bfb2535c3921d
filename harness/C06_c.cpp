// Operations that need a square matrix, positions and ranges, initialisation, views, models.
#include "C06.hpp"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
namespace
{
template <typename T>
void square_only(mc::Ctx &c)
{
    static const size_t more[][2] = { { 5, 5 }, { 5, 6 }, { 6, 5 }, { 1, 64 }, { 64, 1 }, { 16, 4 } };
    const unsigned hi = c.thorough ? 6 : 5;
    unsigned i        = c.choose(hi * hi + 6, "shape");
    const size_t r = i < hi * hi ? i / hi : more[i - hi * hi][0], k = i < hi * hi ? i % hi : more[i - hi * hi][1];
    const int ka = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    Tab<T> a = content<T>(r, k, 4);
    for (size_t d = 0; d < std::min(r, k); ++d) a(d, d) += T(20); // regular
    const bool sq  = r == k;
    const bool zero = r == 0 || k == 0;
    std::string w  = " " + std::to_string(r) + "x" + std::to_string(k) + " " + kname(ka);
    with_const(c, "operand-changed", ka, a, [&](const auto &A) {
        if (!(sq && zero)) {
            expect_reject(c, "powm" + w, sq, [&] { (void)la::powm(A, 2); });
            expect_reject(c, "powm 0" + w, sq, [&] { (void)la::powm(A, 0); });
            expect_reject(c, "determinant" + w, sq, [&] { (void)la::determinant(A); });
            expect_reject(c, "adjoint" + w, sq, [&] { (void)la::adjoint(A); });
            expect_reject(c, "inverse" + w, sq, [&] { (void)la::inverse(A); });
            expect_reject(c, "lu_decomposition" + w, sq, [&] { (void)la::lu_decomposition(A); });
            expect_reject(c, "is_linearly_dependent" + w, sq, [&] { (void)ut::is_linearly_dependent(A); });
            expect_reject(c, "is_linearly_independent" + w, sq, [&] { (void)ut::is_linearly_independent(A); });
            if (!zero) expect_reject(c, "sub_norm" + w, sq, [&] { (void)malg::sub_norm(A); });
            if (!zero && r * k < 40) expect_reject(c, "expm" + w, sq, [&] { (void)la::expm(A, 1e-3); });
            if constexpr (!std::is_const_v<typename std::remove_reference_t<decltype(A)>::value_type>)
                if (!zero) expect_reject(c, "poly" + w, sq || r == 1 || k == 1, [&] { (void)malg::control::poly(A); });
        }
        if (ut::is_square(A) != sq) c.fail("is_square", "%s", w.c_str());
    });
    c.state(mc::mix(mc::mix(r, k), static_cast<unsigned>(ka)) + sizeof(T));
}
const size_t far[] = { 0, 1, 2, 3, 4, 5, 6, 64, 1000, static_cast<size_t>(1) << 32, NPOS / 8, NPOS - 1, NPOS };
// Extraction, removal: every position in and out of range.
template <typename T>
void positions(mc::Ctx &c)
{
    const size_t r = c.choose(4, "rows"), k = c.choose(4, "cols");
    const int op = static_cast<int>(c.choose(5, "op")), ka = static_cast<int>(c.choose(op < 3 ? K_COUNT : 1, "kind"));
    const size_t p = c.pick(far, "p");
    size_t q = 0, s = 0, t = 0;
    if (op < 3) q = c.pick(far, "q");
    if (op < 3) s = c.pick(far, "s");
    if (op == 0) t = c.pick(far, "t");
    c.go();
    Tab<T> a = labelled<T>(r, k);
    auto at  = [](size_t x) { return x == NPOS ? std::string("max") : std::to_string(x); };
    std::string w = " of " + std::to_string(r) + "x" + std::to_string(k) + " " + kname(ka) + " at " + at(p) + "," + at(q) + "," + at(s) + "," + at(t);
    if (op == 0) {
        const bool fits = p < q && s < t && p <= r && s <= k;
        with_const(c, "operand-changed", ka, a, [&](const auto &A) {
            expect_reject(c, "extract" + w, fits, [&] {
                auto m = ut::extract(A, p, q, s, t);
                Tab<T> e(std::min(q, r) - p, std::min(t, k) - s);
                for (size_t i = 0; i < e.r; ++i)
                    for (size_t j = 0; j < e.c; ++j) e(i, j) = a(p + i, s + j);
                check_mat(c, "extract", m, e);
            });
        });
    } else if (op == 1 || op == 2) {
        // p: row or column, [q,s): range
        const size_t len = op == 1 ? r : k, other = op == 1 ? k : r;
        const bool fits = p < other && q < s && q <= len;
        with_const(c, "operand-changed", ka, a, [&](const auto &A) {
            expect_reject(c, (op == 1 ? "extract_column" : "extract_row") + w, fits, [&] {
                auto v = op == 1 ? ut::extract_column(A, p, q, s) : ut::extract_row(A, p, q, s);
                std::vector<T> e;
                for (size_t i = q; i < std::min(s, len); ++i) e.push_back(op == 1 ? a(i, p) : a(p, i));
                check_vec(c, "extract", v, e);
            });
        });
    } else {
        Matrix<T> m(mat(a));
        const bool fits = p < (op == 3 ? r : k);
        expect_reject(c, (op == 3 ? "remove_row" : "remove_column") + w, fits, [&] {
            if (op == 3) ut::remove_row(m, p);
            else ut::remove_column(m, p);
        });
        if (!fits && tab(m) != a) c.fail("operand-changed", "rejected removal%s left %s", w.c_str(), show(tab(m)).c_str());
    }
    c.state(mc::mix(mc::mix(mc::mix(r, k), mc::mix(p, q)), mc::mix(mc::mix(s, t), static_cast<unsigned>(op * 10 + ka))));
}
// Runs f in a child: true when it ended in an exception or an assertion (never a memory error).
template <typename F>
int in_child(F &&f)
{
    int fds[2];
    if (pipe(fds)) return -1;
    pid_t p = fork();
    if (p == 0) {
        dup2(fds[1], 2);
        signal(SIGABRT, SIG_DFL);
        try {
            f();
        } catch (std::exception &) {
            _exit(42);
        }
        _exit(0);
    }
    close(fds[1]);
    std::string text;
    char buf[4096];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0) text.append(buf, static_cast<size_t>(n));
    close(fds[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return 1;
    if (text.find("Assertion") != std::string::npos && text.find("heap-buffer-overflow") == std::string::npos && text.find("stl_") == std::string::npos) return 1;
    return 2;
}
} // namespace
MC(square_only)
{
    if (c.flip("type")) square_only<cd>(c);
    else square_only<double>(c);
}
MC(positions)
{
    positions<double>(c);
}
// Reshape, initialisation lists, constructors from too short data.
MC(shapes)
{
    const size_t r = c.choose(5, "rows"), k = c.choose(5, "cols");
    const size_t n = c.choose(18, "new rows"), m = c.choose(18, "new cols");
    c.go();
    Tab<double> a = labelled<double>(r, k);
    {
        Matrix<double> A(mat(a));
        const bool fits = n * m == r * k;
        expect_reject(c, "reshape", fits, [&] { ut::reshape(A, n, m); });
        if (fits && (A.rows() != n || A.cols() != m)) c.fail("reshape", "shape");
        if (!fits && tab(A) != a) c.fail("operand-changed", "rejected reshape");
        for (size_t i = 0; i < a.v.size(); ++i)
            if (A[i] != a.v[i]) c.fail("operand-changed", "reshape changed the elements");
    }
    if (m == 0) {
        // n elements offered for r*k places
        std::vector<double> d(n, 3.0);
        expect_reject(c, "Matrix(rows, cols, vector)", n >= r * k, [&] { Matrix<double> A(r, k, d); });
        expect_reject(c, "Matrix(rows, cols, list)", n >= r * k, [&] {
            switch (n) {
            case 0: { Matrix<double> A(r, k, std::initializer_list<double>{}); break; }
            case 1: { Matrix<double> A(r, k, std::initializer_list<double>{ 1 }); break; }
            case 2: { Matrix<double> A(r, k, std::initializer_list<double>{ 1, 2 }); break; }
            case 3: { Matrix<double> A(r, k, std::initializer_list<double>{ 1, 2, 3 }); break; }
            case 4: { Matrix<double> A(r, k, std::initializer_list<double>{ 1, 2, 3, 4 }); break; }
            case 5: { Matrix<double> A(r, k, std::initializer_list<double>{ 1, 2, 3, 4, 5 }); break; }
            case 6: { Matrix<double> A(r, k, std::initializer_list<double>{ 1, 2, 3, 4, 5, 6 }); break; }
            default: if (n < r * k) throw std::invalid_argument("not built here");
            }
        });
    }
    c.state(mc::mix(mc::mix(r, k), mc::mix(n, m)));
}
// Ragged nested lists.
MC(ragged)
{
    const unsigned n0 = c.choose(4, "row 0"), n1 = c.choose(4, "row 1"), n2 = c.choose(5, "row 2"); // 4: absent
    const int how = static_cast<int>(c.choose(2, "how"));
    c.go();
    auto row = [](unsigned n) -> std::initializer_list<double> {
        static const std::initializer_list<double> l0{}, l1{ 1 }, l2{ 1, 2 }, l3{ 1, 2, 3 };
        return n == 0 ? l0 : n == 1 ? l1 : n == 2 ? l2 : l3;
    };
    const bool three = n2 < 4;
    const bool rag   = n1 != n0 || (three && n2 != n0);
    Tab<double> before = labelled<double>(2, 3);
    Matrix<double> A(mat(before));
    auto body = [&](const std::initializer_list<std::initializer_list<double>> &l) {
        if (how == 0) {
            expect_reject(c, "Matrix{ragged}", !rag && n0 > 0, [&] { Matrix<double> M(l); });
        } else {
            // An empty first row leaves the matrix unchanged, by design.
            if (n0 == 0) {
                (void)throws([&] { A = l; });
                if (tab(A) != before) c.fail("operand-changed", "empty list assignment");
            } else {
                expect_reject(c, "A = {ragged}", !rag, [&] { A = l; });
                if (rag && tab(A) != before) c.fail("operand-changed", "rejected list assignment left %s", show(tab(A)).c_str());
            }
        }
    };
    if (three) body({ row(n0), row(n1), row(n2) });
    else body({ row(n0), row(n1) });
    c.state(n0 * 1000 + n1 * 100 + n2 * 10 + static_cast<unsigned>(how));
}
// Assigning a matrix of another shape through a view: an assertion or an exception, never a write outside.
MC(view_assign)
{
    const size_t vr = 1 + c.choose(3, "view rows"), vc = 1 + c.choose(3, "view cols");
    const size_t r = c.choose(4, "rows"), k = c.choose(4, "cols");
    const int kind = static_cast<int>(c.choose(4, "kind"));
    c.go();
    Tab<double> back = labelled<double>(5, 5);
    Tab<double> src  = labelled<double>(r, k, 9);
    const bool fits  = vr == r && vc == k;
    auto f = [&] {
        Matrix<double> S(mat(src));
        if (kind == 0) {
            Matrix<double> B(mat(back));
            View<Matrix<double>> v(&B, 1, 1 + vr, 2, 2 + vc);
            v = S;
        } else if (kind == 1) {
            Matrix<double> B(mat(back));
            View<Matrix<double>> v(&B, 1, 1 + vr, 2, 2 + vc);
            if (r && k) {
                View<Matrix<double>> u(&S, Range::all(), Range::all());
                v = u;
            } else v = S;
        } else if (kind == 2) {
            Matrix<double> B(vr + 1, vc + 1, 0);
            CofactorView<Matrix<double>> v(&B, 1, 0);
            v = S;
        } else {
            Matrix<double> B(mat(back));
            View<Matrix<double>> v(&B, 1, 1 + vr, 2, 2 + vc);
            v = Matrix<int>(S);
        }
    };
    const int res = in_child(f);
    if (res == 2) c.fail("memory", "assigning a %zux%zu matrix through a %zux%zu view", r, k, vr, vc);
    if (res == 1 && fits) c.fail("fitting-rejected", "assigning a %zux%zu matrix through a view", r, k);
    if (res == 0 && !fits) c.fail("misfit-accepted", "assigning a %zux%zu matrix through a %zux%zu view", r, k, vr, vc);
    c.step();
    c.state(mc::mix(mc::mix(vr, vc), mc::mix(r, k)) + static_cast<unsigned>(kind));
}
// An empty or reversed range is not a window.
MC(view_range)
{
    const size_t a = c.choose(4, "start row"), b = c.choose(5, "end row"), p = c.choose(4, "start col"), q = c.choose(5, "end col");
    const int how = static_cast<int>(c.choose(2, "how"));
    c.go();
    const bool fits = a < b && p < q;
    const int res   = in_child([&] {
        Matrix<double> m(4, 4, 1.0);
        if (how) {
            auto v = ut::view(m, a, b, p, q);
            if (v.rows() != std::min<size_t>(b, 4) - a || v.cols() != std::min<size_t>(q, 4) - p) _exit(3);
        } else {
            auto v = m({ a, b }, { p, q });
            if (v.rows() != std::min<size_t>(b, 4) - a || v.cols() != std::min<size_t>(q, 4) - p) _exit(3);
        }
    });
    if (res == 2) c.fail("memory", "view [%zu,%zu)x[%zu,%zu)", a, b, p, q);
    if (res == 1 && fits) c.fail("fitting-rejected", "view [%zu,%zu)x[%zu,%zu)", a, b, p, q);
    if (res == 0 && !fits) c.fail("misfit-accepted", "view [%zu,%zu)x[%zu,%zu)", a, b, p, q);
    c.step();
    c.state(mc::mix(mc::mix(a, b), mc::mix(p, q)) + static_cast<unsigned>(how));
}
// State-space functions and equation solving.
MC(models)
{
    const size_t r = c.choose(4, "A rows"), k = c.choose(4, "A cols"), r2 = c.choose(4, "B rows"), k2 = c.choose(4, "B cols");
    c.go();
    if (r == 0 || k == 0) return;
    Tab<double> a = content<double>(r, k, 4), b = content<double>(r2, k2, 5);
    for (size_t d = 0; d < std::min(r, k); ++d) a(d, d) += 20;
    Matrix<double> A(mat(a)), B(mat(b));
    expect_reject(c, "ctrb", r == k && r == r2, [&] { (void)malg::control::ctrb(A, B); });
    expect_reject(c, "obsv", r == k && r == k2, [&] { (void)malg::control::obsv(A, B); });
    if (k2 == 1) {
        // A vector of r2 elements. (rank-deficient rectangular systems are excluded by the diagonal)
        const Vector<double> x(ut::to_vector(B));
        expect_reject(c, "solve", r == r2, [&] { (void)la::solve(A, x); });
    }
    if (tab(A) != a || tab(B) != b) c.fail("operand-changed", "models");
    c.state(mc::mix(mc::mix(r, k), mc::mix(r2, k2)));
}
MC(zero_sizes)
{
    const size_t r = c.choose(3, "rows"), k = c.choose(3, "cols");
    c.go();
    const bool ok = r && k;
    expect_reject(c, "eye", ok, [&] { (void)ut::eye(r, k, 1.0); });
    expect_reject(c, "zeros", ok, [&] { (void)ut::zeros<double>(r, k); });
    expect_reject(c, "ones", ok, [&] { (void)ut::ones<double>(r, k); });
    expect_reject(c, "zeros vector", r != 0, [&] { (void)ut::zeros<double>(r); });
    expect_reject(c, "ones vector", r != 0, [&] { (void)ut::ones<double>(r); });
    expect_reject(c, "identity", r != 0, [&] { (void)ut::identity<double>(r); });
    c.state(mc::mix(r, k));
}
