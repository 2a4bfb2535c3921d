// C04: every ordered pair of element types (the matrix of types), on small operands.
#pragma once
#include "C04.hpp"
// The right operand may be rounded to the element type of the left one, when that is the narrower type.
template <typename T1, typename T2, typename X>
inline void in_place(mc::Ctx &c, const char *what, const X &got, const Tab<T1> &e, int o, const Tab<T1> &a, const std::vector<T2> &b)
{
    using R = common_t<T1, T2>;
    for (size_t i = 0; i < e.v.size(); ++i) {
        const T1 x = got[i], y = e.v[i];
        const bool round = o == DIV || (is_cx_v<R> && o == MUL);
        bool ok          = round ? near_eq<T1>(x, y) : same<T1>(x, y);
        if constexpr (!std::is_same_v<R, T1> && !std::is_integral_v<realof<T1>>) {
            const ld size = o < MUL ? std::abs(widen<cl>(a.v[i])) + std::abs(widen<cl>(b[i])) : std::abs(widen<cl>(y));
            ok            = ok || std::abs(widen<cl>(x) - widen<cl>(y)) <= 16 * ulp<T1>() * size;
        }
        if (!ok) c.fail("types-in-place", "%s: element %zu is %s, expected %s", what, i, str(x).c_str(), str(y).c_str());
    }
}
template <typename T1, typename T2>
inline void type_pair(mc::Ctx &c)
{
    using R           = common_t<T1, T2>;
    const size_t salt = c.choose(static_cast<unsigned>(ALPHA), "content"), sb = c.choose(static_cast<unsigned>(ALPHA), "second");
    const int o       = static_cast<int>(c.choose(4, "op"));
    c.go();
    Tab<T1> a(2, 2);
    Tab<T2> b(2, 2);
    Tab<R> e(2, 2), es(2, 2);
    const T2 s = alpha<T2>(sb);
    bool ok = true, oks = representable(o, T1(1), s);
    for (size_t i = 0; i < 4; ++i) {
        a.v[i] = alpha<T1>(i + salt), b.v[i] = alpha<T2>(3 * i + sb);
        if (!representable(o, a.v[i], b.v[i])) b.v[i] = T2(3);
        ok  = ok && representable(o, a.v[i], b.v[i]);
        oks = oks && representable(o, a.v[i], s);
        if (ok) e.v[i] = scalar<R>(o, widen<R>(a.v[i]), widen<R>(b.v[i]));
        if (oks) es.v[i] = scalar<R>(o, widen<R>(a.v[i]), widen<R>(s));
    }
    const bool round = o == DIV || (is_cx_v<R> && o == MUL);
    c.note("%s op%d %s, scalar %s (types of %zu and %zu bytes)", show(a).c_str(), o, show(b).c_str(), str(s).c_str(), sizeof(T1), sizeof(T2));
    Matrix<T1> A(mat(a));
    Matrix<T2> B(mat(b));
    const Vector<T1> va(mkvec(a.v));
    const Vector<T2> vb(mkvec(b.v));
    if (ok) switch (o) {
        case ADD: expect_mat(c, "types", "A + B", A + B, e, false), expect_vec(c, "types", "a + b", va + vb, e.v, false); break;
        case SUB: expect_mat(c, "types", "A - B", A - B, e, false), expect_vec(c, "types", "a - b", va - vb, e.v, false); break;
        case MUL: expect_mat(c, "types", "element_wise_product(A, B)", malg::element_wise_product(A, B), e, round), expect_vec(c, "types", "a * b", va * vb, e.v, round); break;
        }
    if (oks) switch (o) {
        case ADD: expect_mat(c, "types", "A + s", A + s, es, false), expect_vec(c, "types", "a + s", va + s, es.v, false); break;
        case SUB: expect_mat(c, "types", "A - s", A - s, es, false), expect_vec(c, "types", "a - s", va - s, es.v, false); break;
        case MUL:
            expect_mat(c, "types", "A * s", A * s, es, round), expect_mat(c, "types", "s * A", s * A, es, round), expect_vec(c, "types", "a * s", va * s, es.v, round);
            if constexpr (std::is_arithmetic_v<T2>) expect_vec(c, "types", "s * a", s * va, es.v, round);
            break;
        case DIV: expect_mat(c, "types", "A / s", A / s, es, round), expect_vec(c, "types", "a / s", va / s, es.v, round); break;
        }
    check_mat(c, "operand-changed", A, a);
    check_mat(c, "operand-changed", B, b);
    check_vec(c, "operand-changed", va, a.v);
    check_vec(c, "operand-changed", vb, b.v);
    if constexpr (is_cx_v<T1> || !is_cx_v<T2>) {
        auto narrow = [](const Tab<R> &t) {
            Tab<T1> n(2, 2);
            for (size_t i = 0; i < 4; ++i) n.v[i] = widen<T1>(t.v[i]);
            return n;
        };
        if (ok && o < MUL && all_convert<T1>(e.v)) {
            Matrix<T1> X(A);
            Vector<T1> x(va);
            if (o == ADD) X += B, x += vb;
            else X -= B, x -= vb;
            in_place(c, "A op= B", X, narrow(e), o, a, b.v);
            in_place(c, "a op= b", x, narrow(e), o, a, b.v);
        }
        if (oks && all_convert<T1>(es.v)) {
            Matrix<T1> X(A);
            Vector<T1> x(va);
            if (o == ADD) X += s, x += s;
            else if (o == SUB) X -= s, x -= s;
            else if (o == MUL) X *= s, x *= s;
            else X /= s, x /= s;
            in_place(c, "A op= s", X, narrow(es), o, a, std::vector<T2>(4, s));
            in_place(c, "a op= s", x, narrow(es), o, a, std::vector<T2>(4, s));
        }
        // Conversions by construction and assignment.
        Tab<R> w(2, 2);
        for (size_t i = 0; i < 4; ++i) w.v[i] = widen<R>(b.v[i]);
        if (o == ADD && all_convert<T1>(w.v)) {
            Tab<T1> n(2, 2);
            for (size_t i = 0; i < 4; ++i) n.v[i] = widen<T1>(b.v[i]);
            Matrix<T1> X(B), Y(1, 3, T1(7));
            Y = B;
            Vector<T1> x(vb), y(7, T1(7));
            y = vb;
            expect_mat(c, "types-conversion", "construction", X, n, false);
            expect_mat(c, "types-conversion", "assignment", Y, n, false);
            expect_vec(c, "types-conversion", "construction", x, n.v, false);
            expect_vec(c, "types-conversion", "assignment", y, n.v, false);
        }
    }
    c.step(4);
    c.state(mc::mix(mc::mix(a.hash(), b.hash()), mc::mix(static_cast<unsigned>(o), mc::hv(s)) + sizeof(T1) * 100 + sizeof(T2)));
}
template <typename T1>
inline void type_row(mc::Ctx &c)
{
    switch (c.choose(8, "right type")) {
    case 0: return type_pair<T1, int>(c);
    case 1: return type_pair<T1, long>(c);
    case 2: return type_pair<T1, float>(c);
    case 3: return type_pair<T1, double>(c);
    case 4: return type_pair<T1, ld>(c);
    case 5: return type_pair<T1, cf>(c);
    case 6: return type_pair<T1, cd>(c);
    case 7: return type_pair<T1, cl>(c);
    }
}
