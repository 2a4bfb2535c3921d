// C01: vectors are independent values over every operation history.
#include "common.hpp"

namespace
{
template <typename T>
void verify(mc::Ctx &c, const char *what, const Vector<T> &v, const std::vector<T> &m)
{
    if (v.size() != m.size()) c.fail("vector-state", "%s: size %zu, expected %zu", what, v.size(), m.size());
    if (v.empty() != m.empty()) c.fail("vector-state", "%s: empty() wrong", what);
    if (static_cast<size_t>(v.end() - v.begin()) != m.size() || static_cast<size_t>(v.cend() - v.cbegin()) != m.size()) c.fail("vector-state", "%s: iterator distance", what);
    size_t i = 0;
    for (const T &x : v) {
        if (!same<T>(x, m[i]) || &x != &v[i] || &x != v.data() + i) c.fail("vector-state", "%s: element %zu is %s, expected %s", what, i, str(x).c_str(), str<T>(m[i]).c_str());
        ++i;
    }
}
template <typename T>
std::vector<T> read(const Vector<T> &v)
{
    std::vector<T> m;
    for (size_t i = 0; i < v.size(); ++i) m.push_back(v[i]);
    return m;
}

// Histories over two vectors of T and one of U.
template <typename T, typename U>
struct World {
    Vector<T> a[2];
    Vector<U> b;
    std::vector<T> ma[2];
    std::vector<U> mb;
    int fresh = 1;
    bool big  = false;
    template <typename X>
    X val()
    {
        return label<X>(static_cast<size_t>(fresh++), 0);
    }
    void all(mc::Ctx &c, const char *what)
    {
        verify(c, what, a[0], ma[0]);
        verify(c, what, a[1], ma[1]);
        verify(c, what, b, mb);
        c.step();
        std::uint64_t h = 7;
        for (auto &m : ma) {
            h = mc::mix(h, m.size());
            for (auto &x : m) h = mc::mix(h, mc::hv(x));
        }
        h = mc::mix(h, mb.size());
        for (auto &x : mb) h = mc::mix(h, mc::hv(x));
        c.state(h);
    }
    template <typename X, typename Y>
    static std::vector<X> conv(const std::vector<Y> &y)
    {
        std::vector<X> x;
        for (auto &e : y) x.push_back(static_cast<X>(e));
        return x;
    }
    void fill(int s, size_t n)
    {
        ma[s].clear();
        a[s] = Vector<T>(n);
        for (size_t i = 0; i < n; ++i) {
            T x     = val<T>();
            a[s][i] = x;
            ma[s].push_back(x);
        }
    }
    void op(mc::Ctx &c)
    {
        static const size_t small[] = { 0, 1, 2, 3, 5 }, large[] = { 0, 7, 24, 67, 300 };
        const auto &sizes = big ? large : small;
        const int s = static_cast<int>(c.choose(2, "target")), o = 1 - s;
        switch (c.choose(17, "op")) {
        case 0: {
            size_t n = c.pick(sizes, "resize");
            a[s].resize(n);
            ma[s].resize(n, T(0));
            return all(c, "resize");
        }
        case 1: a[s] = a[o], ma[s] = ma[o]; return all(c, "copy assignment");
        case 2: {
            a[s] = std::move(a[o]);
            ma[s] = ma[o];
            ma[o] = read(a[o]);
            return all(c, "move assignment");
        }
        case 3: {
            Vector<T> &alias = a[s];
            a[s]             = alias;
            return all(c, "self assignment");
        }
        case 4: {
            Vector<T> tmp(std::move(a[s]));
            verify(c, "move construction", tmp, ma[s]);
            std::vector<T> was = ma[s];
            ma[s]              = read(a[s]);
            all(c, "source of a move construction");
            // The moved-from object is reusable.
            a[s].resize(2);
            ma[s].resize(2, T(0));
            all(c, "resize of a moved-from vector");
            a[o]  = std::move(tmp);
            ma[o] = was;
            return all(c, "move assignment of a local");
        }
        case 5: {
            Vector<T> tmp(a[s]);
            if (tmp.size()) tmp[0] = val<T>();
            all(c, "write to a copy");
            return;
        }
        case 6: a[s] = b, ma[s] = conv<T>(mb); return all(c, "assignment from another element type");
        case 7: b = a[s], mb = conv<U>(ma[s]); return all(c, "assignment to another element type");
        case 8: {
            a[s]  = std::move(b);
            ma[s] = conv<T>(mb);
            mb    = read(b);
            return all(c, "move assignment from another element type");
        }
        case 9: {
            Vector<U> tmp(a[s]);
            verify(c, "construction from another element type", tmp, conv<U>(ma[s]));
            b  = std::move(tmp);
            mb = conv<U>(ma[s]);
            return all(c, "conversion");
        }
        case 10: {
            if (ma[s].empty()) return;
            size_t i = ma[s].size() - 1;
            T x      = val<T>();
            a[s][i]  = x;
            ma[s][i] = x;
            return all(c, "write of the last element");
        }
        case 11: {
            if (ma[s].empty()) return;
            T x           = val<T>();
            *a[s].begin() = x;
            ma[s][0]      = x;
            return all(c, "write of the first element");
        }
        case 12: {
            T x = val<T>(), y = val<T>();
            a[s]  = Vector<T>{ x, y, x };
            ma[s] = { x, y, x };
            return all(c, "list construction");
        }
        case 13: {
            size_t n = c.pick(sizes, "n");
            T x      = val<T>();
            a[s]     = Vector<T>(n, x);
            ma[s].assign(n, x);
            return all(c, "fill construction");
        }
        case 14: a[s] = Vector<T>(), ma[s].clear(); return all(c, "assignment of an empty vector");
        case 15: {
            a[s].resize(a[o]);
            ma[s].resize(ma[o].size(), T(0));
            return all(c, "resize like another vector");
        }
        case 16: {
            std::swap(a[0], a[1]);
            std::swap(ma[0], ma[1]);
            return all(c, "swap");
        }
        }
    }
};

template <typename T, typename U>
void histories(mc::Ctx &c, int depth, bool big = false)
{
    static const size_t small[][2] = { { 0, 0 }, { 3, 2 }, { 1, 4 } }, large[][2] = { { 20, 5 }, { 100, 65 }, { 33, 129 } };
    const auto &start              = big ? large : small;
    const auto &st                 = c.pick(start, "initial sizes");
    World<T, U> w;
    w.big = big;
    w.fill(0, st[0]);
    w.fill(1, st[1]);
    w.b  = Vector<U>{ U(7), U(-8) };
    w.mb = { U(7), U(-8) };
    w.all(c, "start");
    if (&st != &start[1]) --depth;
    for (int i = 0; i < depth; ++i) w.op(c);
    c.go();
}
} // namespace

MC_LEAK(histories_double_int) { histories<double, int>(c, c.thorough ? 5 : 4); }
MC_LEAK(histories_complex_float) { histories<std::complex<double>, std::complex<float>>(c, c.thorough ? 4 : 3); }
MC_LEAK(histories_wide) { histories<std::int64_t, ld>(c, c.thorough ? 4 : 3); }
MC_LEAK(histories_large) { histories<double, int>(c, c.thorough ? 4 : 3, true); }
MC_LEAK(histories_int_char) { histories<int, signed char>(c, c.thorough ? 4 : 3); }

namespace
{
template <typename T>
void resizes(mc::Ctx &c)
{
    static const size_t sizes[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64, 100, 1000, 4099 };
    const int steps             = 3;
    Vector<T> v;
    std::vector<T> m;
    size_t n[4];
    for (int i = 0; i < steps; ++i) n[i] = c.pick(sizes, "size");
    const bool write = c.flip("write");
    c.go();
    int k = 1;
    for (int s = 0; s < steps; ++s) {
        v.resize(n[s]);
        m.resize(n[s], T(0));
        verify(c, "resize", v, m);
        c.step();
        if (write)
            for (size_t i = 0; i < n[s]; ++i) v[i] = m[i] = label<T>(static_cast<size_t>(k++ % 30), i % 7);
        verify(c, "write", v, m);
        Vector<T> copy(v);
        verify(c, "copy", copy, m);
        Vector<T> moved(std::move(copy));
        verify(c, "moved", moved, m);
        Vector<T> as;
        as = v;
        verify(c, "assigned", as, m);
    }
    std::uint64_t h = mc::mix(mc::mix(mc::mix(sizeof(T), n[0]), n[1]), n[2]);
    c.state(mc::mix(h, write));
}
template <typename T>
void constructors(mc::Ctx &c)
{
    const size_t n  = c.choose(20, "n");
    const T x       = label<T>(c.choose(3, "value"), 1);
    Vector<T> z(n);
    verify(c, "Vector(n)", z, std::vector<T>(n, T(0)));
    Vector<T> f(n, x);
    verify(c, "Vector(n, value)", f, std::vector<T>(n, x));
    Vector<T> l(3, { x, T(0), x });
    verify(c, "Vector(n, list)", l, std::vector<T>{ x, T(0), x });
    Vector<T> e({ x });
    verify(c, "list of one", e, std::vector<T>{ x });
    Vector<T> d;
    verify(c, "default", d, std::vector<T>{});
    Vector<T> ec(d);
    verify(c, "copy of empty", ec, std::vector<T>{});
    f = d;
    verify(c, "assignment of empty", f, std::vector<T>{});
    f.resize(n);
    verify(c, "regrown from empty", f, std::vector<T>(n, T(0)));
    c.step(8);
    c.state(mc::mix(n, mc::hv(x)));
}
} // namespace
MC_LEAK(resize_paths)
{
    switch (c.choose(6, "type")) {
    case 5: return resizes<ld>(c);
    case 0: return resizes<double>(c);
    case 1: return resizes<int>(c);
    case 2: return resizes<std::complex<double>>(c);
    case 3: return resizes<unsigned char>(c);
    case 4: return resizes<std::size_t>(c);
    }
}
MC_LEAK(constructors)
{
    switch (c.choose(7, "type")) {
    case 4: return constructors<ld>(c);
    case 5: return constructors<std::int64_t>(c);
    case 6: return constructors<cl>(c);
    case 0: return constructors<double>(c);
    case 1: return constructors<int>(c);
    case 2: return constructors<std::complex<double>>(c);
    case 3: return constructors<float>(c);
    }
}
