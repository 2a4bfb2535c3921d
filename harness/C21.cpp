// C21: matrix exponential and element-wise exponential.
#include "C21.hpp"
#include "near.hpp"
namespace
{
ld worst = 0;
template <typename T>
void check(mc::Ctx &c, const Tab<T> &t, double accuracy, int kind)
{
    const CM a   = widen(t);
    const CM ref = reference(a);
    const ld eps = std::numeric_limits<realof<T>>::epsilon();
    const ld tol = 4 * allowance(a, accuracy, eps, std::numeric_limits<realof<T>>::min());
    if (!(norm(ref) < 0.25L * std::numeric_limits<realof<T>>::max())) return;
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const auto got = la::expm(M, accuracy);
        using R        = std::remove_const_t<typename std::remove_reference_t<decltype(got)>::value_type>;
        static_assert(std::is_same_v<R, T>, "element type of the exponential");
        if (got.rows() != t.r || got.cols() != t.c) c.fail("shape", "%zux%zu for %s", got.rows(), got.cols(), show(t).c_str());
        ld err = 0;
        for (size_t i = 0; i < t.r; ++i) {
            ld row = 0;
            for (size_t j = 0; j < t.c; ++j) {
                const ld d = std::abs(wide(T(got(i, j))) - ref[i][j]);
                row += d;
                if (!(d <= tol))
                    c.fail("value", "e^A(%zu,%zu) is %s instead of %.17Lg%+.17Lgi (error %.3Lg, allowed %.3Lg at accuracy %g) for the %s %s", i, j, str(T(got(i, j))).c_str(),
                           ref[i][j].real(), ref[i][j].imag(), d, tol, accuracy, kname(kind), show(t).c_str());
            }
            err = std::max(err, row);
        }
        if (getenv("C21_WORST") && err / tol > worst) worst = err / tol, fprintf(stderr, "%Lg %s %g\n", worst, show(t).c_str(), accuracy);
    });
    c.step();
    c.state(mc::mix(t.hash(), mc::hv(accuracy)) + sizeof(T) + static_cast<unsigned>(kind));
}
const double accuracies[] = { 1e-5, 1e-2, 1e-9, 1e-13, 1e-30 };

template <typename T>
void scalar(mc::Ctx &c)
{
    // 1x1: every quarter in a wide range (complex: both parts).
    const int kind   = static_cast<int>(c.choose(K_COUNT, "kind"));
    const double acc = c.pick(accuracies, "accuracy");
    Tab<T> t(1, 1);
    if constexpr (is_cx_v<T>) {
        const int i = static_cast<int>(c.choose(25, "re")) - 12, j = static_cast<int>(c.choose(25, "im")) - 12;
        t(0, 0)     = T(static_cast<realof<T>>(i * 0.5), static_cast<realof<T>>(j * 0.5));
    } else {
        t(0, 0) = static_cast<T>((static_cast<int>(c.choose(161, "value")) - 80) * 0.25);
    }
    c.go();
    check(c, t, acc, kind);
}
template <typename T>
void two(mc::Ctx &c)
{
    const double acc = accuracies[c.choose(2, "accuracy")];
    Tab<T> t(2, 2);
    if constexpr (is_cx_v<T>) {
        const T alpha[] = { T(0), T(1), T(0, 1), T(-2, 1), T(realof<T>(0.5), -3), T(0, 8) };
        for (auto &x : t.v) x = alpha[c.choose(c.thorough ? 6 : 5, "entry")];
    } else {
        const double alpha[] = { 0, 1, -1, 0.25, -3, 9, -20 };
        for (auto &x : t.v) x = static_cast<T>(alpha[c.choose(c.thorough ? 7 : 6, "entry")]);
    }
    c.go();
    check(c, t, acc, 0);
}
template <typename T>
void three(mc::Ctx &c)
{
    const T alpha[] = { T(0), T(1), T(-2) };
    auto t          = alphabet_matrix<T>(c, 3, 3, alpha);
    c.go();
    check(c, t, 1e-5, 0);
}
// Structured matrices of every size up to the bound at many scales.
template <typename T>
void structured(mc::Ctx &c, bool big = false)
{
    static const double scales[] = { 1, 1e-9, 1e-3, 0.3, 2, 7, 40, 300 };
    static const size_t large[] = { 9, 13, 14, 20, 25, 33 };
    const size_t n   = big ? c.pick(large, "size") : 1 + c.choose(c.thorough ? 8 : 6, "size");
    const unsigned f = c.choose(9, "form");
    const double s   = scales[c.choose(big ? 5 : 8, "scale")];
    const double acc = accuracies[c.choose(big ? 1 : 5, "accuracy")];
    const int kind   = big ? 0 : static_cast<int>(c.choose(K_COUNT, "kind"));
    const bool neg   = big ? false : c.flip("negative");
    c.go();
    using R = realof<T>;
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double x = 0;
            switch (f) {
            case 0: break;                                                      // zero
            case 1: x = i == j ? 1 : 0; break;                                  // multiple of the identity
            case 2: x = i == j ? (i % 2 ? -1.0 : 0.5) + static_cast<double>(i) * 0.125 : 0; break; // diagonal
            case 3: x = j == i + 1 ? 1 : 0; break;                              // nilpotent shift
            case 4: x = i > j ? 1.0 / static_cast<double>(i + j + 1) : 0; break; // strictly lower
            case 5: x = i == j ? -0.5 : j == i + 1 ? 1 : 0; break;              // defective
            case 6: x = 1.0 / static_cast<double>(i + j + 1); break;            // full, symmetric
            case 7: x = j > i ? 1 : j < i ? -1 : 0; break;                      // skew-symmetric (rotations)
            case 8: x = (i + 1) * (j % 2 ? -0.25 : 0.5); break;                 // rank one
            }
            x *= neg ? -s : s;
            if constexpr (is_cx_v<T>) t(i, j) = T(static_cast<R>(j % 2 ? x : 0.5 * x), static_cast<R>(j % 2 ? x / 4 : -x));
            else t(i, j) = static_cast<T>(x);
        }
    if (is_cx_v<T> && f == 0 && n > 1) t(0, n - 1) = T(0), t(n - 1, 0) = T(0);
    check(c, t, acc, kind);
}
// Element-wise exponential.
template <typename T>
void elementwise(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 8 : 5;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols");
    const int kind      = static_cast<int>(c.choose(K_COUNT, "kind"));
    const unsigned salt = c.choose(3, "content");
    c.go();
    Tab<T> t(r, k);
    for (size_t i = 0; i < t.v.size(); ++i) {
        const double x = (i % 2 ? -1 : 1) * (static_cast<double>((i * 7 + salt) % 23) / 4);
        if constexpr (is_cx_v<T>) t.v[i] = T(static_cast<realof<T>>(x), static_cast<realof<T>>(3 - x / 3));
        else t.v[i] = static_cast<T>(x);
    }
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        const auto got = la::exp(M);
        if (got.rows() != r || got.cols() != k) c.fail("elementwise", "shape %zux%zu for %s", got.rows(), got.cols(), show(t).c_str());
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < k; ++j) {
                const T want = std::exp(t(i, j));
                const T have = got(i, j);
                if (!(std::abs(have - want) <= 4 * std::numeric_limits<realof<T>>::epsilon() * std::abs(want)))
                    c.fail("elementwise", "(%zu,%zu) is %s instead of %s for %s", i, j, str(have).c_str(), str(want).c_str(), show(t).c_str());
            }
        c.step();
    });
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T));
}
} // namespace
MC(scalar)
{
    switch (c.choose(6, "type")) {
    case 4: return scalar<ld>(c);
    case 5: return scalar<cl>(c);
    case 0: return scalar<double>(c);
    case 1: return scalar<cd>(c);
    case 2: return scalar<float>(c);
    case 3: return scalar<cf>(c);
    }
}
MC(two)
{
    switch (c.choose(6, "type")) {
    case 4: return two<ld>(c);
    case 5: return two<cl>(c);
    case 0: return two<double>(c);
    case 1: return two<cd>(c);
    case 2: return two<float>(c);
    case 3: return two<cf>(c);
    }
}
MC(three) { three<double>(c); }
MC(structured)
{
    switch (c.choose(6, "type")) {
    case 4: return structured<ld>(c);
    case 5: return structured<cl>(c);
    case 0: return structured<double>(c);
    case 1: return structured<cd>(c);
    case 2: return structured<float>(c);
    case 3: return structured<cf>(c);
    }
}
// Matrices that miss a structure by one small element, at accuracies that show it.
template <typename T>
void nearly(mc::Ctx &c)
{
    static const double fine[] = { 1e-13, 1e-30, 1e-9 };
    const Tab<T> t   = near_matrix<T>(c, 2, c.thorough ? 8 : 5);
    const double acc = fine[c.choose(c.thorough ? 3 : 2, "accuracy")];
    c.go();
    check(c, t, acc, 0);
}
MC(nearly)
{
    switch (c.choose(4, "type")) {
    case 0: return nearly<double>(c);
    case 1: return nearly<cd>(c);
    case 2: return nearly<float>(c);
    case 3: return nearly<ld>(c);
    }
}
MC(large) { structured<double>(c, true); }
MC(elementwise)
{
    switch (c.choose(6, "type")) {
    case 4: return elementwise<ld>(c);
    case 5: return elementwise<cl>(c);
    case 0: return elementwise<double>(c);
    case 1: return elementwise<cd>(c);
    case 2: return elementwise<float>(c);
    case 3: return elementwise<cf>(c);
    }
}
// Very large matrices whose exponential is moderate: strong decay, many revolutions, large nilpotent parts.
namespace
{
template <typename T>
void huge(mc::Ctx &c)
{
    static const double scales[] = { 600, 1000, 1025, 2500, 5000, 2e4, 5e4, 1e5, 1e6, 3e7, 1e9 };
    const size_t n   = 1 + c.choose(c.thorough ? 6 : 4, "size");
    const unsigned f = c.choose(5, "form");
    const double s   = c.pick(scales, "scale");
    const double acc = accuracies[c.choose(3, "accuracy")];
    const int kind   = static_cast<int>(c.choose(3, "kind")) * 2;
    c.go();
    using R = realof<T>;
    Tab<T> t(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double x = 0;
            switch (f) {
            case 0: x = i == j ? -1.0 - static_cast<double>(i) / 4 : 0; break;    // fast decay
            case 1: x = i == j ? -1 : j > i ? 0.5 : 0; break;                      // coupled decay
            case 2: x = i == j ? -3 : (i + j) % 2 ? 0.25 : -0.125; break;          // full decay
            case 3: x = i + 1 == j ? 1 : j + 1 == i ? -1 : 0; break;               // revolutions
            case 4: x = j == i + 1 ? 1 : 0; break;                                 // nilpotent
            }
            x *= s;
            if constexpr (is_cx_v<T>) t(i, j) = T(static_cast<R>(x), static_cast<R>(i == j ? x / 8 : 0));
            else t(i, j) = static_cast<T>(x);
        }
    check(c, t, acc, kind);
}
} // namespace
MC(huge)
{
    switch (c.choose(4, "type")) {
    case 3: return huge<ld>(c);
    case 0: return huge<double>(c);
    case 1: return huge<cd>(c);
    case 2: return huge<float>(c);
    }
}
