// C29: mixed-precision complex arithmetic.
#include "C05.hpp"
#include <complex>
namespace
{
template <typename T>
using partof = typename is_cx<T>::real;
// Representative values of one number type: zeros, units, fractions, extremes of the precision.
template <typename R>
R part(unsigned i)
{
    if constexpr (std::is_floating_point_v<R>) {
        const R e   = std::numeric_limits<R>::epsilon();
        const R v[] = { R(0), R(1), R(-2.5), R(1) + e, R(1) / R(3), R(-1e9) / R(7), R(3e-5) };
        return v[i];
    } else if constexpr (std::is_unsigned_v<R>) {
        const R v[] = { R(0), R(1), R(200), R(7), R(3), R(65535), R(100) };
        return v[i];
    } else {
        const R v[] = { R(0), R(1), R(-3), R(127), R(-128), R(7), R(-100) };
        return v[i];
    }
}
template <>
int part<int>(unsigned i)
{
    static const int v[] = { 0, 1, -3, 123456789, -2147483647, 7, 16777217 };
    return v[i];
}
template <>
long part<long>(unsigned i)
{
    static const long v[] = { 0, 1, -3, 123456789012345l, -9007199254740993l, 7, 16777217 };
    return v[i];
}
template <>
unsigned long part<unsigned long>(unsigned i)
{
    static const unsigned long v[] = { 0, 1, 200, 9007199254740993ul, 18446744073709551615ul, 65535, 16777217 };
    return v[i];
}
template <typename T>
T value(mc::Ctx &c)
{
    if constexpr (is_cx_v<T>) {
        const unsigned i = c.choose(7, "real"), j = c.choose(7, "imaginary");
        return T(part<partof<T>>(i), part<partof<T>>(j));
    } else return part<T>(c.choose(7, "value"));
}
// The result in a wider type, with the bound of its rounding.
struct Ref {
    cl v;
    ld size;
};
template <typename A, typename B>
Ref reference(unsigned op, const A &a, const B &b)
{
    const cl x = exactly(a), y = exactly(b);
    switch (op) {
    case 0: return { x + y, std::abs(x) + std::abs(y) };
    case 1: return { x - y, std::abs(x) + std::abs(y) };
    case 2: return { cl(x.real() * y.real() - x.imag() * y.imag(), x.real() * y.imag() + x.imag() * y.real()), std::abs(x) * std::abs(y) };
    default: {
        const ld d = y.real() * y.real() + y.imag() * y.imag();
        return { cl((x.real() * y.real() + x.imag() * y.imag()) / d, (x.imag() * y.real() - x.real() * y.imag()) / d), std::abs(x) / std::abs(y) };
    }
    }
}
template <typename T>
auto real_part(const T &x)
{
    if constexpr (is_cx_v<T>) return x.real();
    else return x;
}
template <typename A, typename B>
void pair(mc::Ctx &c)
{
    const unsigned op = c.choose(4, "operation");
    const A a = value<A>(c);
    const B b = value<B>(c);
    c.go();
    if (op == 3 && b == B(0)) return;
    using R = std::complex<std::common_type_t<partof<A>, partof<B>>>;
    A x     = a;
    B y     = b;
    auto check = [&](auto got) {
        static_assert(std::is_same_v<decltype(got), R>, "wider type");
        const Ref ref = reference(op, a, b);
        const ld tol  = 8 * static_cast<ld>(std::numeric_limits<partof<R>>::epsilon()) * ref.size;
        static const char sign[] = "+-*/";
        const cl g(static_cast<ld>(got.real()), static_cast<ld>(got.imag()));
        if (!(std::abs(g.real() - ref.v.real()) <= tol) || !(std::abs(g.imag() - ref.v.imag()) <= tol))
            c.fail("value", "%s %c %s is %s instead of %.21Lg%+.21Lgi", str(a).c_str(), sign[op], str(b).c_str(), str(got).c_str(), ref.v.real(), ref.v.imag());
        // The real part of a sum or a difference is the one of the real parts, down to the sign of zero.
        if (op < 2) {
            const auto p = static_cast<partof<R>>(real_part(a)), q = static_cast<partof<R>>(real_part(b));
            const partof<R> want = op == 0 ? p + q : p - q;
            if (got.real() != want || std::signbit(got.real()) != std::signbit(want)) c.fail("real", "%s %c %s has real part %s instead of %s", str(a).c_str(), sign[op], str(b).c_str(), str(got.real()).c_str(), str(want).c_str());
        }
        // Sums of a real and a complex number do not touch the imaginary part.
        if (op < 2 && !is_cx_v<B> && got.imag() != static_cast<partof<R>>(std::imag(a))) c.fail("imaginary", "%s %c %s has imaginary part %s", str(a).c_str(), sign[op], str(b).c_str(), str(got.imag()).c_str());
    };
    switch (op) {
    case 0: check(x + y); break;
    case 1: check(x - y); break;
    case 2: check(x * y); break;
    case 3: check(x / y); break;
    }
    if (!(x == a) || !(y == b)) c.fail("operand-changed", "%s, %s", str(a).c_str(), str(b).c_str());
    c.step();
    c.state(mc::mix(mc::mix(mc::hv(a), mc::hv(b)), op * 1000 + sizeof(A) * 32 + sizeof(B)) + std::is_integral_v<B> * 3 + std::is_integral_v<A>);
}
using cld = std::complex<long double>;
} // namespace
MC(complex_complex)
{
    switch (c.choose(9, "types")) {
    case 0: return pair<cf, cd>(c);
    case 1: return pair<cd, cf>(c);
    case 2: return pair<cd, cd>(c);
    case 3: return pair<cf, cf>(c);
    case 4: return pair<cld, cd>(c);
    case 5: return pair<cd, cld>(c);
    case 6: return pair<cf, cld>(c);
    case 7: return pair<cld, cf>(c);
    case 8: return pair<cld, cld>(c);
    }
}
MC(complex_real)
{
    switch (c.choose(21, "types")) {
    case 0: return pair<cf, double>(c);
    case 1: return pair<cd, float>(c);
    case 2: return pair<cd, double>(c);
    case 3: return pair<cf, float>(c);
    case 4: return pair<cd, int>(c);
    case 5: return pair<cf, int>(c);
    case 6: return pair<cd, unsigned>(c);
    case 7: return pair<cd, long>(c);
    case 8: return pair<cd, short>(c);
    case 9: return pair<cd, signed char>(c);
    case 10: return pair<cd, unsigned char>(c);
    case 11: return pair<cf, long double>(c);
    case 12: return pair<cd, long double>(c);
    case 13: return pair<cld, double>(c);
    case 14: return pair<cld, float>(c);
    case 15: return pair<cld, int>(c);
    case 16: return pair<cf, unsigned long>(c);
    case 17: return pair<cd, unsigned long>(c);
    case 18: return pair<cf, long>(c);
    case 19: return pair<cld, long>(c);
    case 20: return pair<cld, unsigned long>(c);
    }
}
MC(real_complex)
{
    switch (c.choose(21, "types")) {
    case 0: return pair<double, cf>(c);
    case 1: return pair<float, cd>(c);
    case 2: return pair<double, cd>(c);
    case 3: return pair<float, cf>(c);
    case 4: return pair<int, cd>(c);
    case 5: return pair<int, cf>(c);
    case 6: return pair<unsigned, cd>(c);
    case 7: return pair<long, cd>(c);
    case 8: return pair<short, cd>(c);
    case 9: return pair<signed char, cd>(c);
    case 10: return pair<unsigned char, cd>(c);
    case 11: return pair<long double, cf>(c);
    case 12: return pair<long double, cd>(c);
    case 13: return pair<double, cld>(c);
    case 14: return pair<float, cld>(c);
    case 15: return pair<int, cld>(c);
    case 16: return pair<unsigned long, cf>(c);
    case 17: return pair<unsigned long, cd>(c);
    case 18: return pair<long, cf>(c);
    case 19: return pair<long, cld>(c);
    case 20: return pair<unsigned long, cld>(c);
    }
}
