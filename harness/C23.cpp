// C23: discrete simulation follows the state equations.
#include "C05.hpp"
#include <tuple>
namespace
{
namespace ctl = malg::control;
template <typename T>
std::vector<T> affine(const Tab<T> &A, const std::vector<T> &x, const Tab<T> &B, const std::vector<T> &u)
{
    std::vector<T> r(A.r);
    for (size_t i = 0; i < A.r; ++i) {
        for (size_t j = 0; j < A.c; ++j) r[i] += A(i, j) * x[j];
        for (size_t j = 0; j < B.c; ++j) r[i] += B(i, j) * u[j];
    }
    return r;
}
template <typename T>
struct Model {
    Tab<T> A, B, C, D;
};
// Times are the multiples of the sample time, rounded to the element type; a sum of samples may only drift as
// much as a sum in double precision (or in the element type, when that is wider) does.
template <typename T>
ld time_tolerance(size_t i, ld want)
{
    const ld eps = std::numeric_limits<T>::epsilon(), fine = std::min<ld>(eps, std::numeric_limits<double>::epsilon());
    return want * (4 * eps + 4 * (1 + static_cast<ld>(i)) * fine);
}
// All quantities are small whole numbers, so the reference is exact.
template <typename T>
void check(mc::Ctx &c, const Model<T> &s, const std::vector<std::vector<T>> &u, const std::vector<T> &x0, T ts, T total, size_t steps)
{
    ctl::DiscreteStateSpace<T> sys(mat(s.A), mat(s.B), mat(s.C), mat(s.D), ts);
    std::vector<Vector<T>> in;
    for (auto &v : u) in.push_back(mkvec(v));
    Vector<T> init(mkvec(x0));
    const auto [t, x, y] = ctl::simulate(sys, in, total, init);
    auto where           = [&] { return "A = " + show(s.A) + ", B = " + show(s.B) + ", x0 = " + show(x0) + ", " + std::to_string(u.size()) + " inputs, " + str(total) + " by " + str(ts); };
    if (y.size() != steps) c.fail("steps", "%zu steps instead of %zu: %s", y.size(), steps, where().c_str());
    if (x.size() != steps + 1) c.fail("states", "%zu states after %zu steps: %s", x.size(), steps, where().c_str());
    if (t.size() != steps + 1) c.fail("times", "%zu times for %zu states: %s", t.size(), steps + 1, where().c_str());
    std::vector<T> now = x0;
    for (size_t i = 0; i <= steps; ++i) {
        check_vec(c, "state", x[i], now);
        const ld want = static_cast<ld>(ts) * static_cast<ld>(i);
        if (!(std::abs(static_cast<ld>(t[i]) - want) <= time_tolerance<T>(i, want))) c.fail("time", "time %zu is %s instead of %Lg: %s", i, str(t[i]).c_str(), want, where().c_str());
        if (i < steps) {
            check_vec(c, "output", y[i], affine(s.C, now, s.D, u[i]));
            // The single step agrees.
            const auto [nx, ny] = ctl::simulate_step(sys, mkvec(now), in[i]);
            check_vec(c, "step-output", ny, affine(s.C, now, s.D, u[i]));
            now = affine(s.A, now, s.B, u[i]);
            check_vec(c, "step-state", nx, now);
        }
        c.step();
    }
    // Splitting anywhere and continuing gives the same trajectory.
    for (size_t k = 0; k <= steps; ++k) {
        std::vector<Vector<T>> head(in.begin(), in.begin() + static_cast<long>(k)), tail(in.begin() + static_cast<long>(k), in.begin() + static_cast<long>(steps));
        const T limit          = static_cast<T>(ts * static_cast<T>(steps + 1));
        const auto [t1, x1, y1] = ctl::simulate(sys, head, limit, init);
        if (x1.size() != k + 1) c.fail("split", "%zu states from %zu inputs: %s", x1.size(), k, where().c_str());
        const auto [t2, x2, y2] = ctl::simulate(sys, tail, limit, x1.back());
        if (x2.size() != steps - k + 1) c.fail("split", "%zu states from %zu inputs: %s", x2.size(), steps - k, where().c_str());
        for (size_t i = 0; i < x1.size(); ++i) check_vec(c, "split-state", x1[i], vec(x[i]));
        for (size_t i = 0; i < y1.size(); ++i) check_vec(c, "split-output", y1[i], vec(y[i]));
        for (size_t i = 0; i < x2.size(); ++i) check_vec(c, "split-state", x2[i], vec(x[i + k]));
        for (size_t i = 0; i < y2.size(); ++i) check_vec(c, "split-output", y2[i], vec(y[i + k]));
        c.step();
    }
    if (tab(sys.A) != s.A || tab(sys.B) != s.B || tab(sys.C) != s.C || tab(sys.D) != s.D || sys.sample_time != ts) c.fail("model-changed", "%s", where().c_str());
    if (in.size() != u.size()) c.fail("inputs-changed", "%s", where().c_str());
    for (size_t i = 0; i < u.size(); ++i) check_vec(c, "inputs-changed", in[i], u[i]);
    check_vec(c, "init-changed", init, x0);
    std::uint64_t h = mc::mix(s.A.hash(), s.B.hash());
    for (auto &v : u) h = mc::mix(h, column(v).hash());
    c.state(mc::mix(mc::mix(h, column(x0).hash()), mc::mix(mc::hv(total), mc::hv(ts))) + sizeof(T));
}
template <typename T>
Tab<T> fill(size_t r, size_t k, unsigned salt)
{
    static const int v[] = { 1, -2, 0, 3, -1, 2, 1, 0, -3 };
    Tab<T> t(r, k);
    for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = static_cast<T>(v[(i * (salt % 3 + 1) + salt) % 9]);
    return t;
}
template <typename T>
Model<T> model(size_t n, size_t m, size_t p, unsigned salt)
{
    return { fill<T>(n, n, salt), fill<T>(n, m, salt + 1), fill<T>(p, n, salt + 2), fill<T>(p, m, salt + 4) };
}
// Every model shape, number of inputs and simulated time.
template <typename T>
void shapes(mc::Ctx &c)
{
    const size_t n = 1 + c.choose(c.thorough ? 5 : 4, "states"), m = 1 + c.choose(3, "inputs"), p = 1 + c.choose(3, "outputs");
    const size_t k      = c.choose(c.thorough ? 9 : 6, "length");
    const unsigned q    = c.choose(c.thorough ? 26 : 16, "time"); // in thirds of a sample
    const unsigned salt = c.choose(3, "content");
    const T ts          = c.pick({ T(0.5), T(3), T(1) / 10 }, "period");
    c.go();
    std::vector<std::vector<T>> u(k, std::vector<T>(m));
    for (size_t i = 0; i < k; ++i) u[i] = fill<T>(m, 1, static_cast<unsigned>(i) + salt).v;
    // Thirds are kept away from whole numbers, so that no rounding decides the number of samples.
    const T total = ts < T(0.5) ? static_cast<T>((q / 3) * ts + (q % 3 + 1) * ts / 4) : static_cast<T>((q / 3) * ts + (q % 3) * ts / 3);
    check(c, model<T>(n, m, p, salt), u, fill<T>(n, 1, salt + 5).v, ts, total, std::min<size_t>(k, q / 3));
}
// Every input history of one- and two-state models with every small system matrix.
template <typename T>
void histories(mc::Ctx &c)
{
    const T alpha[] = { T(0), T(1), T(-2) };
    const size_t n  = 1 + c.choose(2, "states");
    Model<T> s      = model<T>(n, 1, 1, 1);
    for (auto &x : s.A.v) x = c.pick(alpha, "a");
    s.B.v.back()   = 1;
    const size_t k = c.choose(c.thorough ? 5 : 4, "length");
    std::vector<std::vector<T>> u(k, std::vector<T>(1));
    for (auto &v : u) v[0] = c.pick(alpha, "input");
    std::vector<T> x0(n, T(0));
    x0[0] = c.pick(alpha, "state");
    c.go();
    check(c, s, u, x0, T(1), static_cast<T>(k) + T(0.5), k);
}
// Every pattern of zeros in the matrices of models with several states, inputs and outputs.
template <typename T>
void patterns(mc::Ctx &c)
{
    static const int v[] = { 2, -1, 3, 1, -2, 5, -3, 4 };
    const unsigned which = c.choose(5, "matrix"); // the one whose zeros vary, or the input and the state
    const size_t n = 2 + c.flip("three"), m = 2, p = 2;
    Model<T> s{ Tab<T>(n, n), Tab<T>(n, m), Tab<T>(p, n), Tab<T>(p, m) };
    const bool full = c.flip("others full");
    std::vector<std::vector<T>> u(2, std::vector<T>(m));
    std::vector<T> x0(n);
    for (auto *t : { &s.A, &s.B, &s.C, &s.D })
        for (size_t i = 0; i < t->v.size(); ++i) t->v[i] = static_cast<T>(full || i % 3 == 1 ? v[(i * 3 + t->c) % 8] : 0);
    for (size_t i = 0; i < n; ++i) x0[i] = static_cast<T>(v[i]);
    for (size_t i = 0; i < m; ++i) u[0][i] = static_cast<T>(v[i + 3]), u[1][i] = static_cast<T>(v[i + 5]);
    Tab<T> *const all[] = { &s.A, &s.B, &s.C, &s.D };
    if (which < 4) {
        for (size_t i = 0; i < all[which]->v.size(); ++i) all[which]->v[i] = c.flip("element") ? static_cast<T>(v[(i * 5 + 1) % 8]) : T(0);
    } else {
        for (auto &x : x0)
            if (!c.flip("state")) x = T(0);
        for (auto &w : u)
            for (auto &x : w)
                if (!c.flip("input")) x = T(0);
    }
    c.go();
    check(c, s, u, x0, T(0.5), T(1.25), 2);
}
// Simulated times far outside the inputs: the inputs end the simulation; nothing is simulated in
// no or negative time.
template <typename T>
void extremes(mc::Ctx &c)
{
    const T big = std::numeric_limits<T>::max(), inf = std::numeric_limits<T>::infinity();
    const T times[]     = { T(0), T(-1), T(-1e30), T(1e6), T(5e9), T(1.8e19), T(1.9e19), T(1e30), big, inf, -inf, std::numeric_limits<T>::min(), T(-0.0), T(9.3e18) };
    const T periods[]   = { T(1), T(1e-3), T(0.25), T(1000) };
    const T total       = c.pick(times, "time");
    const T ts          = c.pick(periods, "period");
    const size_t k      = c.choose(4, "length");
    const unsigned salt = c.choose(2, "content");
    c.go();
    std::vector<std::vector<T>> u(k, std::vector<T>(2));
    for (size_t i = 0; i < k; ++i) u[i] = fill<T>(2, 1, static_cast<unsigned>(i) + salt).v;
    const size_t steps = total >= ts * T(4) ? k : 0;
    check(c, model<T>(2, 2, 1, salt), u, fill<T>(2, 1, salt).v, ts, total, steps);
}
// Times a rounding away from a whole number of samples: only whole samples are simulated. The quotients
// are exact, as the period is a power of two (or divides the time).
template <typename T>
void edges(mc::Ctx &c)
{
    static const size_t lens[] = { 1, 2, 3, 4, 5, 7, 31, 100, 1000, 4096 };
    const size_t k      = lens[c.choose(c.thorough ? 9 : 8, "length")];
    const T periods[]   = { T(1), T(0.5), T(0.0009765625), T(1024), T(3), T(1e6) };
    const T ts          = c.pick(periods, "period");
    const unsigned side = c.choose(ts == T(3) || ts == T(1e6) ? 2 : 3, "side"); // on, above, below
    const bool spare    = c.flip("spare inputs");
    c.go();
    T total = ts * static_cast<T>(k);
    if (side) total = std::nextafter(total, side == 1 ? std::numeric_limits<T>::max() : T(0));
    const size_t steps = side == 2 ? k - 1 : k;
    std::vector<std::vector<T>> u(k + (spare ? 3 : 0), std::vector<T>(1));
    for (size_t i = 0; i < u.size(); ++i) u[i][0] = static_cast<T>(i % 3);
    Model<T> s = model<T>(1, 1, 1, 1);
    s.A.v[0]   = 0;
    check(c, s, u, std::vector<T>{ T(2) }, ts, total, steps);
}
// Models with many states, inputs and outputs; every one of the terms counts.
template <typename T>
void large(mc::Ctx &c)
{
    static const size_t sizes[] = { 1, 4, 5, 8, 9, 12, 16, 17, 33 };
    const size_t n      = sizes[c.choose(c.thorough ? 9 : 7, "states")], m = sizes[c.choose(5, "inputs")], p = sizes[c.choose(5, "outputs")];
    const unsigned salt = c.choose(c.thorough ? 6 : 2, "content");
    const size_t k      = 1 + c.choose(2, "length");
    c.go();
    std::vector<std::vector<T>> u(k, std::vector<T>(m));
    for (size_t i = 0; i < k; ++i) u[i] = fill<T>(m, 1, static_cast<unsigned>(i) + salt).v;
    auto s = model<T>(n, m, p, salt);
    // No term is zero in one of the contents.
    if (salt % 2)
        for (auto *t : { &s.A, &s.B, &s.C, &s.D })
            for (auto &x : t->v)
                if (x == T(0)) x = T(4);
    check(c, s, u, fill<T>(n, 1, salt + 3).v, T(0.25), T(0.25) * static_cast<T>(k) + T(0.125), k);
}
// Long runs: every step up to some thousands keeps its time, state and place.
template <typename T>
void length(mc::Ctx &c)
{
    static const size_t lens[] = { 63, 64, 65, 1000, 4097, 20000 };
    static const double periods[] = { 0.25, 0.001, 0.1, 3.0 };
    const size_t k   = c.pick(lens, "length");
    const bool all   = c.flip("time for all");
    const T ts       = static_cast<T>(c.pick(periods, "period"));
    c.go();
    Tab<T> A(2, 2), B(2, 1), C(1, 2), D(1, 1);
    A(0, 1) = 1, A(1, 0) = -1; // rotation: the state stays a small whole number
    B(0, 0) = 1, C(0, 0) = 2, C(0, 1) = 1, D(0, 0) = -1;
    ctl::DiscreteStateSpace<T> sys(mat(A), mat(B), mat(C), mat(D), ts);
    std::vector<Vector<T>> in;
    std::vector<std::vector<T>> u;
    for (size_t i = 0; i < k; ++i) u.push_back({ static_cast<T>(static_cast<int>(i % 3) - 1) }), in.push_back(mkvec(u.back()));
    const size_t steps   = all ? k : k / 2;
    const auto [t, x, y] = ctl::simulate(sys, in, static_cast<T>(ts * (static_cast<T>(steps) + T(0.5))), Vector<T>{ 1, 2 });
    if (y.size() != steps || x.size() != steps + 1 || t.size() != steps + 1) c.fail("steps", "%zu outputs, %zu states, %zu times instead of %zu steps", y.size(), x.size(), t.size(), steps);
    std::vector<T> now{ 1, 2 };
    for (size_t i = 0; i <= steps; ++i) {
        check_vec(c, "state", x[i], now);
        const ld want = static_cast<ld>(ts) * static_cast<ld>(i);
        if (!(std::abs(static_cast<ld>(t[i]) - want) <= time_tolerance<T>(i, want))) c.fail("time", "time %zu is %s instead of %Lg with %s and period %s", i, str(t[i]).c_str(), want, typeid(T).name(), str(ts).c_str());
        if (i < steps) {
            check_vec(c, "output", y[i], affine(C, now, D, u[i]));
            now = affine(A, now, B, u[i]);
        }
    }
    c.step(steps);
    c.state(mc::mix(k, all) + mc::hv(ts) + sizeof(T));
}
} // namespace
MC(shapes)
{
    switch (c.choose(3, "type")) {
    case 2: return shapes<ld>(c);
    case 0: return shapes<double>(c);
    case 1: return shapes<float>(c);
    }
}
MC(histories)
{
    switch (c.choose(3, "type")) {
    case 2: return histories<ld>(c);
    case 0: return histories<double>(c);
    case 1: return histories<float>(c);
    }
}
MC(patterns)
{
    switch (c.choose(3, "type")) {
    case 2: return patterns<ld>(c);
    case 0: return patterns<double>(c);
    case 1: return patterns<float>(c);
    }
}
MC(extremes)
{
    switch (c.choose(3, "type")) {
    case 2: return extremes<ld>(c);
    case 0: return extremes<double>(c);
    case 1: return extremes<float>(c);
    }
}
MC(edges)
{
    switch (c.choose(3, "type")) {
    case 0: return edges<double>(c);
    case 1: return edges<float>(c);
    case 2: return edges<ld>(c);
    }
}
MC(large)
{
    switch (c.choose(3, "type")) {
    case 2: return large<ld>(c);
    case 0: return large<double>(c);
    case 1: return large<float>(c);
    }
}
MC(length)
{
    switch (c.choose(3, "type")) {
    case 2: return length<ld>(c);
    case 0: return length<double>(c);
    case 1: return length<float>(c);
    }
}
