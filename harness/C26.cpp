// C26: pole placement (Ackermann).
#include "exact.hpp"
#include <csetjmp>
namespace
{
std::jmp_buf out_of_exit;
volatile bool armed    = false;
volatile int exit_code = -1;
} // namespace
// The documented rejection is a message and exit(); it is turned into a jump back to the harness
// while a call is under observation (link option --wrap=exit).
extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int code)
{
    if (!armed) __real_exit(code);
    exit_code = code;
    std::longjmp(out_of_exit, 1);
}
}
namespace
{
namespace ctl = malg::control;
// Runs f; true when it ended in a rejection (exit with a failure status, or an exception).
template <typename F>
bool rejected(mc::Ctx &c, F &&f)
{
    if (setjmp(out_of_exit)) {
        armed = false;
        if (exit_code == 0) c.fail("status", "the rejection reports success");
        return true;
    }
    armed = true;
    bool r;
    try {
        r = throws(f);
    } catch (...) {
        armed = false;
        throw;
    }
    armed = false;
    return r;
}
template <typename T>
Tab<T> ctrb_of(const Tab<T> &A, const Tab<T> &B)
{
    Tab<T> r(A.r, A.r), blk = B;
    for (size_t k = 0; k < A.r; ++k) {
        if (k) blk = product<T>(A, blk);
        for (size_t i = 0; i < A.r; ++i) r(i, k) = blk(i, 0);
    }
    return r;
}
template <typename T>
void check(mc::Ctx &c, const Tab<T> &A0, const Tab<T> &B0, const Tab<T> &P0, int kind = 0, int ea = 0, int eb = 0)
{
    // The model in other units: A and the poles times 2^ea, B times 2^eb, so the gain is 2^(ea-eb)
    // times that of the original (which has small integer elements and is solved exactly).
    auto scaled = [](Tab<T> t, int e) {
        for (auto &x : t.v) x *= std::ldexp(realof<T>(1), e);
        return t;
    };
    const auto A = scaled(A0, ea), B = scaled(B0, eb), P = scaled(P0, ea);
    const size_t n = A.r;
    const auto ct  = ctrb_of(A0, B0);
    const GM W     = exact(ct);
    const G det    = exact_det(W);
    c.note("A = %s, B = %s, poles %s", show(A).c_str(), show(B).c_str(), show(P).c_str());
    std::vector<T> k;
    size_t kr = 0, kc = 0;
    bool rej = false;
    with_const(c, "operand-changed", kind, A, [&](const auto &a) {
        with_const(c, "operand-changed", (kind * 2) % 4, B, [&](const auto &b) {
            with_const(c, "operand-changed", (kind * 3) % 4, P, [&](const auto &p) {
                using E1 = typename std::remove_reference_t<decltype(a)>::value_type;
                using E2 = typename std::remove_reference_t<decltype(b)>::value_type;
                using E3 = typename std::remove_reference_t<decltype(p)>::value_type;
                if constexpr (!std::is_const_v<E1> && !std::is_const_v<E2> && !std::is_const_v<E3>) {
                    rej = rejected(c, [&] {
                        const auto K = ctl::acker(a, b, p);
                        kr = K.rows(), kc = K.cols();
                        for (size_t i = 0; i < kr; ++i)
                            for (size_t j = 0; j < kc; ++j) k.push_back(static_cast<T>(K(i, j)));
                    });
                }
            });
        });
    });
    c.step();
    c.state(mc::mix(mc::mix(A.hash(), B.hash()), mc::mix(P.hash(), static_cast<unsigned>(kind))) + sizeof(T));
    if (det.zero()) {
        if (!rej) c.fail("uncontrollable", "gain %s for the uncontrollable model A = %s, B = %s", show(k).c_str(), show(A).c_str(), show(B).c_str());
        return;
    }
    if (rej) c.fail("rejected", "the controllable model A = %s, B = %s with poles %s is rejected", show(A).c_str(), show(B).c_str(), show(P).c_str());
    if (kr != 1 || kc != n) c.fail("shape", "the gain is %zux%zu for %zu states", kr, kc, n);
    // The gain is unique: last row of the inverse controllability matrix times p(A).
    std::vector<G> poly{ G{ 1, 0 } };
    const GM poles = exact(P0), EA = exact(A0);
    for (size_t r = 0; r < n; ++r) {
        poly.push_back(G{});
        for (size_t i = poly.size() - 1; i >= 1; --i) poly[i] = poly[i] - poles[0][r] * poly[i - 1];
    }
    GM pa(n, std::vector<G>(n));
    for (size_t i = 0; i <= n; ++i) { // Horner
        pa = exact_mul(pa, EA);
        for (size_t d = 0; d < n; ++d) pa[d][d] = pa[d][d] + poly[i];
    }
    ld na = 0, nw = 0, ni = 0;
    std::vector<cl> last(n);
    for (size_t i = 0; i < n; ++i) {
        ld sa = 0, sw = 0, si = 0;
        for (size_t j = 0; j < n; ++j) {
            const G m  = n == 1 ? G{ 1, 0 } : exact_det(exact_minor(W, j, i));
            const cl v = num((i + j) % 2 ? G{} - m : m) / num(det);
            if (i == n - 1) last[j] = v;
            sa += std::abs(num(EA[i][j]));
            sw += std::abs(num(W[i][j]));
            si += std::abs(v);
        }
        na = std::max(na, sa), nw = std::max(nw, sw), ni = std::max(ni, si);
    }
    ld psize = 0, power = 1;
    for (size_t i = n + 1; i-- > 0;) psize += std::abs(num(poly[i])) * power, power *= na;
    const ld tol = 16 * static_cast<ld>(n * n) * std::numeric_limits<realof<T>>::epsilon() * ni * (1 + ni * nw) * (psize + 1);
    for (auto &x : k) x *= std::ldexp(realof<T>(1), eb - ea);
    for (size_t j = 0; j < n; ++j) {
        cl want = 0;
        for (size_t i = 0; i < n; ++i) want += last[i] * num(pa[i][j]);
        if (!(std::abs(wide(k[j]) - want) <= tol))
            c.fail("gain", "K(%zu) is %s instead of %Lg%+Lgi (allowed %Lg) for A = %s, B = %s, poles %s", j, str(k[j]).c_str(), want.real(), want.imag(), tol, show(A).c_str(), show(B).c_str(), show(P).c_str());
    }
}
template <typename T>
T pole(unsigned i)
{
    static const int v[][2] = { { -1, 0 }, { 0, 0 }, { -3, 0 }, { 2, 0 }, { -2, 1 }, { -2, -1 }, { 1, 0 }, { 0, 1 }, { 0, -1 }, { -2, 0 }, { 3, 0 } };
    if constexpr (is_cx_v<T>) return T(static_cast<realof<T>>(v[i][0]), static_cast<realof<T>>(v[i][1]));
    else return static_cast<T>(v[i][0]);
}
template <typename T>
Tab<T> poles(mc::Ctx &c, size_t n, unsigned menu)
{
    Tab<T> p(1, n);
    for (auto &x : p.v) x = pole<T>(c.choose(is_cx_v<T> ? menu + 2 : menu, "pole"));
    return p;
}
template <typename T>
void one(mc::Ctx &c)
{
    Tab<T> A(1, 1), B(1, 1);
    A(0, 0)        = static_cast<T>(static_cast<int>(c.choose(9, "a")) - 4);
    B(0, 0)        = static_cast<T>(static_cast<int>(c.choose(7, "b")) - 3);
    const auto P   = poles<T>(c, 1, 4);
    const int kind = static_cast<int>(c.choose(4, "kind"));
    c.go();
    check(c, A, B, P, kind);
}
template <typename T>
void two(mc::Ctx &c)
{
    const T alpha[] = { T(0), T(1), T(-2), T(3) };
    auto A          = alphabet_matrix<T>(c, 2, 2, alpha);
    auto B          = alphabet_matrix<T>(c, 2, 1, alpha);
    const auto P    = poles<T>(c, 2, c.thorough ? 4 : 3);
    c.go();
    check(c, A, B, P);
}
template <typename T>
void three(mc::Ctx &c)
{
    const T alpha[] = { T(0), T(1), T(-1) };
    auto A          = alphabet_matrix<T>(c, 3, 3, alpha);
    Tab<T> B(3, 1);
    const unsigned b = c.choose(c.thorough ? 8 : 3, "b");
    B(2, 0)          = T(1);
    if (b & 1) B(0, 0) = T(-1);
    if (b & 2) B(1, 0) = T(2);
    if (b & 4) B(2, 0) = T(0);
    c.go();
    Tab<T> P(1, 3);
    P.v = { T(-1), T(-3), pole<T>(is_cx_v<T> ? 4 : 3) };
    check(c, A, B, P);
}
template <typename T>
void menu(mc::Ctx &c)
{
    const size_t n = 3 + c.choose(2, "states");
    auto A         = menu_matrix<T>(c, n, 8, n == 3 ? 3 : 2);
    const unsigned b    = c.choose(4, "b");
    const unsigned ps   = c.choose(3, "poles");
    const int kind      = static_cast<int>(c.choose(4, "kind"));
    c.go();
    Tab<T> B(n, 1), P(1, n);
    for (size_t i = 0; i < n; ++i) {
        B(i, 0) = T(b == 0 ? (i + 1 == n) : b == 1 ? (i == 0) : b == 2 ? 1 : static_cast<int>(i % 3) - 1);
        P(0, i) = pole<T>(static_cast<unsigned>((i * (ps + 1) + ps) % (is_cx_v<T> ? 6 : 4)));
    }
    check(c, A, B, P, kind);
}
// Controllable and plainly uncontrollable models of larger order in companion form.
template <typename T>
void companion(mc::Ctx &c)
{
    const size_t n      = 2 + c.choose(c.thorough ? 7 : 5, "states");
    const unsigned f    = c.choose(5, "form"); // 4: the input does not reach one of the states
    const size_t cut    = c.choose(static_cast<unsigned>(n), "state");
    const unsigned salt = c.choose(3, "content");
    const int kind      = static_cast<int>(c.choose(4, "kind"));
    c.go();
    Tab<T> A(n, n), B(n, 1), P(1, n);
    for (size_t i = 0; i < n; ++i) {
        P(0, i) = pole<T>(static_cast<unsigned>((i + salt) % (is_cx_v<T> ? 6 : 4)));
        if (f % 2 == 0) { // chain with feedback from every state
            if (i + 1 < n) A(i, i + 1) = T(1);
            A(n - 1, i) = T(static_cast<int>((i * 5 + salt) % 7) - 3);
        } else { // the same downwards
            if (i) A(i, i - 1) = T(1);
            A(0, i) = T(static_cast<int>((i * 5 + salt) % 7) - 3);
        }
    }
    B(f % 2 ? 0 : n - 1, 0) = T(f < 2 ? 1 : -2);
    if (f == 4) {
        // The state 'cut' only depends on itself and has no input: its row stays zero.
        for (size_t j = 0; j < n; ++j) A(cut, j) = T(j == cut ? 2 : 0);
        B(cut, 0) = T(0);
    }
    check(c, A, B, P, kind);
}
// Rings of many states with the input at any of them.
template <typename T>
void rings(mc::Ctx &c)
{
    static const size_t ns[] = { 6, 7, 8, 9, 10, 12, 16 };
    const size_t n      = ns[c.choose(c.thorough ? 7 : 6, "states")];
    const size_t at     = c.choose(static_cast<unsigned>(n), "input");
    const unsigned salt = c.choose(2, "content");
    c.go();
    Tab<T> A(n, n), B(n, 1), P(1, n);
    for (size_t i = 0; i < n; ++i) {
        A(i, (i + 1) % n) = T((i + salt) % 3 ? 1 : -1);
        P(0, i)           = T(static_cast<int>((i + salt) % 3) - 1);
    }
    B(at, 0) = T(salt ? -1 : 1);
    check(c, A, B, P);
}
// Every multiset of poles (so that every coefficient of their polynomial, and every run of them, gets to vanish)
// on small chains with feedback.
template <typename T>
void every_poles(mc::Ctx &c)
{
    static const unsigned real[] = { 1, 6, 0, 3, 9, 10, 2 }, complex[] = { 1, 6, 0, 7, 8, 3, 9 };
    const size_t n      = 2 + c.choose(c.thorough ? 4 : 3, "states");
    const unsigned f    = c.choose(3, "form");
    const unsigned hi   = is_cx_v<T> ? 7 : c.thorough ? 7 : 6;
    Tab<T> A(n, n), B(n, 1), P(1, n);
    unsigned from = 0;
    for (size_t i = 0; i < n; ++i) {
        from += c.choose(hi - from, "pole");
        P(0, i) = pole<T>((is_cx_v<T> ? complex : real)[from]);
    }
    c.go();
    for (size_t i = 0; i < n; ++i) {
        if (i + 1 < n) A(i, i + 1) = T(1);
        if (f) A(n - 1, i) = T(static_cast<int>((i * 5 + f) % 7) - 3);
    }
    if (f == 2) A(0, 0) = T(1);
    B(n - 1, 0) = T(1);
    check(c, A, B, P);
}
// The same models in units that make the elements, and with them the determinants, tiny or huge.
template <typename T>
void units(mc::Ctx &c)
{
    const bool narrow = sizeof(realof<T>) == 4;
    const size_t n    = 1 + c.choose(narrow ? 4 : c.thorough ? 6 : 5, "states");
    static const int wide_e[] = { -40, -20, -9, 0, 8, 30 }, narrow_e[] = { -5, -3, 0, 4 };
    const int ea      = narrow ? c.pick(narrow_e, "state units") : c.pick(wide_e, "state units");
    const int eb      = narrow ? c.pick(narrow_e, "input units") : c.pick(wide_e, "input units");
    const unsigned f  = c.choose(3, "form");
    const unsigned salt = c.choose(2, "content");
    c.go();
    Tab<T> A(n, n), B(n, 1), P(1, n);
    for (size_t i = 0; i < n; ++i) {
        P(0, i) = pole<T>(static_cast<unsigned>((i + salt) % (is_cx_v<T> ? 6 : 4)));
        if (i + 1 < n) A(i, i + 1) = T(1);
        A(n - 1, i) = T(static_cast<int>((i * 5 + salt) % 7) - 3);
    }
    B(n - 1, 0) = T(1);
    if (f == 1) std::swap(A.v.front(), A.v.back()); // may or may not stay controllable, decided exactly
    if (f == 2) { // uncontrollable
        for (size_t j = 0; j < n; ++j) A(0, j) = T(j == 0 ? 2 : 0);
        B(0, 0) = T(0);
    }
    check(c, A, B, P, 0, ea, eb);
}
// Every combination of shapes: a gain only when all of them fit.
template <typename T>
void misfits(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 5 : 4;
    size_t d[6];
    for (auto &x : d) x = c.choose(hi, "dimension");
    const int kind = static_cast<int>(c.choose(2, "kind"));
    c.go();
    Tab<T> A(d[0], d[1]), B(d[2], d[3]), P(d[4], d[5], T(-1));
    for (size_t i = 0; i < A.r; ++i)
        for (size_t j = 0; j < A.c; ++j) A(i, j) = T(j == i + 1 ? 1 : 0);
    for (size_t i = 0; i < B.v.size(); ++i) B.v[i] = T(i + 1 == B.v.size() ? 1 : 0);
    const bool fits = d[0] == d[1] && d[2] == d[0] && d[3] == 1 && d[4] == 1 && d[5] == d[0] && d[0] > 0;
    if (fits) return check(c, A, B, P, kind);
    bool rej = false;
    with_const(c, "operand-changed", kind, A, [&](const auto &a) {
        with_const(c, "operand-changed", kind, B, [&](const auto &b) {
            with_const(c, "operand-changed", kind, P, [&](const auto &p) {
                using E1 = typename std::remove_reference_t<decltype(a)>::value_type;
                using E2 = typename std::remove_reference_t<decltype(b)>::value_type;
                using E3 = typename std::remove_reference_t<decltype(p)>::value_type;
                if constexpr (!std::is_const_v<E1> && !std::is_const_v<E2> && !std::is_const_v<E3>) rej = rejected(c, [&] { (void)ctl::acker(a, b, p); });
            });
        });
    });
    if (!rej) c.fail("misfit", "a gain for A %zux%zu, B %zux%zu, poles %zux%zu", d[0], d[1], d[2], d[3], d[4], d[5]);
    c.step();
    c.state(mc::mix(mc::mix(mc::mix(d[0], d[1]), mc::mix(d[2], d[3])), mc::mix(d[4], d[5])) + static_cast<unsigned>(kind) + sizeof(T));
}
} // namespace
#define TYPES(name)                        \
    MC(name)                               \
    {                                      \
        switch (c.choose(5, "type")) {     \
        case 3: return name<ld>(c);        \
        case 4: return name<cl>(c);        \
        case 0: return name<double>(c);    \
        case 1: return name<cd>(c);        \
        case 2: return name<float>(c);     \
        }                                  \
    }
TYPES(one)
TYPES(two)
TYPES(menu)
TYPES(companion)
TYPES(rings)
TYPES(units)
TYPES(every_poles)
TYPES(misfits)
MC(three)
{
    switch (c.choose(2, "type")) {
    case 0: return three<double>(c);
    case 1: return three<cd>(c);
    }
}
