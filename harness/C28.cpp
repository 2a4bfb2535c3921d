// C28: random generators for every shape, range and answer of the entropy source.
#include "common.hpp"
#include <climits>
#include <random>
namespace
{
std::vector<unsigned> source{ 0 };
size_t drawn = 0;
} // namespace
// The entropy source of the standard library is replaced by the enumerated words.
std::random_device::result_type std::random_device::_M_getval() { return source[drawn++ % source.size()]; }
namespace
{
const unsigned words[] = { 0u, 1u, 0xffffffffu, 5489u, 0x80000000u, 0x7fffffffu, 0xdeadbeefu, 0x9d2c5680u };
void choose_entropy(mc::Ctx &c)
{
    drawn = 0;
    source.clear();
    source.push_back(c.pick(words, "entropy"));
    if (c.flip("second word")) source.push_back(c.pick(words, "entropy"));
}
template <typename T>
bool within(const T &x, const T &lo, const T &hi) { return x >= lo && x <= hi; }
template <typename T, typename B>
bool ok(const T &x, B lo, B hi)
{
    if constexpr (is_cx_v<T>) {
        using R = typename T::value_type;
        return within<R>(x.real(), static_cast<R>(lo), static_cast<R>(hi)) && within<R>(x.imag(), static_cast<R>(lo), static_cast<R>(hi));
    } else return within<T>(x, static_cast<T>(lo), static_cast<T>(hi));
}
template <typename T, typename B>
void check_elements(mc::Ctx &c, const std::vector<T> &v, B lo, B hi, const char *what)
{
    for (size_t i = 0; i < v.size(); ++i)
        if (!ok(v[i], lo, hi)) c.fail("range", "element %zu of %s is %s, outside %s to %s", i, what, str(v[i]).c_str(), str(lo).c_str(), str(hi).c_str());
    // Independent draws: every number of a wide enough range is new.
    std::vector<ld> all;
    for (auto &x : v) {
        all.push_back(static_cast<ld>(std::real(x)));
        if constexpr (is_cx_v<T>) all.push_back(static_cast<ld>(std::imag(x)));
    }
    const ld width = static_cast<ld>(hi) - static_cast<ld>(lo);
    std::vector<ld> u(all);
    std::sort(u.begin(), u.end());
    u.erase(std::unique(u.begin(), u.end()), u.end());
    const bool real = !std::is_integral_v<T>;
    if (width > 0 && real && all.size() > 1 && u.size() + 1 + all.size() / 100 < all.size()) c.fail("repeated", "%zu different numbers among %zu in %s", u.size(), all.size(), what);
    if (width > 0 && !real && all.size() >= 64 && u.size() < 2) c.fail("repeated", "one value %zu times in %s", all.size(), what);
    if (!real && width > 0 && width <= 5 && all.size() >= 1000) {
        if (u.front() != static_cast<ld>(lo) || u.back() != static_cast<ld>(hi)) c.fail("bounds-reached", "draws from %s to %s cover %Lg to %Lg in %s", str(lo).c_str(), str(hi).c_str(), u.front(), u.back(), what);
        if (static_cast<ld>(u.size()) != width + 1) c.fail("values-reached", "%zu of the values from %s to %s occur in %s", u.size(), str(lo).c_str(), str(hi).c_str(), what);
    }
    c.step();
}
template <typename T, typename B>
void check(mc::Ctx &c, size_t r, size_t k, B lo, B hi, unsigned id)
{
    const auto m = ut::rand_matrix<T>(r, k, lo, hi);
    static_assert(std::is_same_v<std::remove_const_t<decltype(m)>, Matrix<T>>);
    if (m.rows() != r || m.cols() != k || m.size() != r * k) c.fail("shape", "%zux%zu instead of %zux%zu", m.rows(), m.cols(), r, k);
    check_elements(c, tab(m).v, lo, hi, "a matrix");
    const auto v = ut::rand_vector<T>(r * k, lo, hi);
    static_assert(std::is_same_v<std::remove_const_t<decltype(v)>, Vector<T>>);
    if (v.size() != r * k) c.fail("shape", "%zu elements instead of %zu", v.size(), r * k);
    check_elements(c, vec(v), lo, hi, "a vector");
    c.state(mc::mix(mc::mix(mc::mix(r, k), source[0]), mc::mix(source.back(), id)) + sizeof(T) * 7 + std::is_integral_v<T>);
}
template <typename T>
void run(mc::Ctx &c, size_t r, size_t k, unsigned range)
{
    using R = typename is_cx<T>::real;
    if constexpr (std::is_floating_point_v<R>) {
        static const double b[][2] = { { 0, 1 }, { -1, 1 }, { -1e9, 1e9 }, { 2.5, 2.75 }, { -8, -4 }, { 0, 0 }, { -3, -3 }, { 1e-30, 2e-30 } };
        if (range < 6) check<T, R>(c, r, k, static_cast<R>(b[range][0]), static_cast<R>(b[range][1]), range);
        else if (range == 6) check<T, int>(c, r, k, -4, 9, range); // bounds of another type
        else check<T, R>(c, r, k, std::numeric_limits<R>::lowest() / 4, std::numeric_limits<R>::max() / 4, range);
    } else if constexpr (std::is_unsigned_v<R>) {
        static const unsigned b[][2] = { { 0, 1 }, { 3, 8 }, { 7, 7 }, { 0, UINT_MAX }, { UINT_MAX - 2, UINT_MAX }, { 0, 0 }, { 100, 104 }, { 1, 1u << 31 } };
        check<T, R>(c, r, k, static_cast<R>(b[range][0]), static_cast<R>(b[range][1]), range);
    } else if constexpr (sizeof(R) == sizeof(short)) {
        static const int b[][2] = { { 0, 1 }, { -2, 3 }, { 7, 7 }, { SHRT_MIN, SHRT_MAX }, { SHRT_MAX - 2, SHRT_MAX }, { SHRT_MIN, SHRT_MIN + 4 }, { -5, -1 }, { -1, 0 } };
        if (range < 4) check<T, R>(c, r, k, static_cast<R>(b[range][0]), static_cast<R>(b[range][1]), range);
        else check<T, int>(c, r, k, b[range][0], b[range][1], range);
    } else {
        static const int b[][2] = { { 0, 1 }, { -2, 3 }, { 7, 7 }, { INT_MIN, INT_MAX }, { INT_MAX - 2, INT_MAX }, { INT_MIN, INT_MIN + 4 }, { -5, -1 }, { -1, 0 } };
        check<T, R>(c, r, k, static_cast<R>(b[range][0]), static_cast<R>(b[range][1]), range);
    }
}
template <typename T>
void shapes(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 9 : 6;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols");
    const unsigned range = c.choose(8, "range");
    choose_entropy(c);
    c.go();
    run<T>(c, r, k, range);
}
template <typename T>
void large(mc::Ctx &c)
{
    static const size_t s[][2] = { { 40, 40 }, { 1, 1000 }, { 1000, 1 }, { 65, 64 } };
    const auto &d        = c.pick(s, "shape");
    const unsigned range = c.choose(8, "range");
    choose_entropy(c);
    c.go();
    run<T>(c, d[0], d[1], range);
}
// One element, many seeds: both bounds (and all values) of a small range are reached.
void seeds(mc::Ctx &c)
{
    const unsigned lo = c.choose(3, "low"), w = c.choose(4, "width");
    const bool vector = c.flip("vector");
    const unsigned f  = c.choose(4, "family");
    c.go();
    const int a = static_cast<int>(lo) - 2, b = a + static_cast<int>(w);
    std::vector<int> seen(w + 1);
    const unsigned total = c.thorough ? 4096 : 512;
    for (unsigned s = 0; s < total; ++s) {
        source = { f == 0 ? s : f == 1 ? ~s : f == 2 ? s * 0x9e3779b9u : s << 20 };
        drawn   = 0;
        const int x = vector ? ut::rand_vector<int>(1, a, b)[0] : ut::rand_matrix<int>(1, 1, a, b)(0, 0);
        if (x < a || x > b) c.fail("range", "%d is outside %d to %d", x, a, b);
        ++seen[static_cast<size_t>(x - a)];
        const cd z = vector ? ut::rand_vector<cd>(1, -1.0, 1.0)[0] : ut::rand_matrix<cd>(1, 1, -1.0, 1.0)(0, 0);
        if (!ok(z, -1.0, 1.0)) c.fail("range", "%s is outside -1 to 1", str(z).c_str());
        if (z.real() == z.imag()) c.fail("repeated", "both parts are %s", str(z.real()).c_str());
        c.step(2);
        c.state(mc::mix(mc::mix(lo, w), mc::mix(f * 2 + vector, s)));
    }
    for (size_t i = 0; i <= w; ++i)
        if (!seen[i]) c.fail("values-reached", "%d of %d to %d never occurs over %u seeds", a + static_cast<int>(i), a, b, total);
}
} // namespace
#define TYPES(name)                              \
    MC(name)                                     \
    {                                            \
        switch (c.choose(8, "type")) {           \
        case 0: return name<double>(c);          \
        case 1: return name<float>(c);           \
        case 2: return name<int>(c);             \
        case 3: return name<unsigned>(c);        \
        case 4: return name<short>(c);           \
        case 5: return name<long>(c);            \
        case 6: return name<cd>(c);              \
        case 7: return name<cf>(c);              \
        }                                        \
    }
TYPES(shapes)
TYPES(large)
MC(seeds) { seeds(c); }
