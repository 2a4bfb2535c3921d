// Operations on two matrices.
#include "C06.hpp"
namespace
{
enum { ADD, SUB, MUL, EQ, NE, GT, GE, LT, LE, EWP, LIN, EWB, CLOSE, COMPARE, VSTACK, HSTACK, DIV, NOPS };
const char *names[] = { "A+B", "A-B", "A*B", "A==B", "A!=B", "A>B", "A>=B", "A<B", "A<=B", "element_wise_product", "linear_combination", "element_wise_binary_function", "all_close", "compare", "vstack", "hstack", "div" };
template <typename T1, typename T2>
void run(mc::Ctx &c)
{
    size_t r1, c1, r2, c2;
    shape(c, r1, c1);
    shape(c, r2, c2);
    const int ka = static_cast<int>(c.choose(c.thorough ? K_COUNT : 2, "left kind")) * (c.thorough ? 1 : 4), kb = static_cast<int>(c.choose(c.thorough ? K_COUNT : 2, "right kind")) * (c.thorough ? 1 : 4);
    c.go();
    Tab<T1> a = content<T1>(r1, c1, 1);
    Tab<T2> b = content<T2>(r2, c2, 2);
    const bool eq = r1 == r2 && c1 == c2;
    with_const(c, "operand-changed", ka, a, [&](const auto &A) {
        with_const(c, "operand-changed", kb, b, [&](const auto &B) {
            using A_t = typename std::remove_reference_t<decltype(A)>::value_type;
            using B_t = typename std::remove_reference_t<decltype(B)>::value_type;
            for (int op = 0; op < NOPS; ++op) {
                bool fits = eq;
                if (op == MUL) fits = c1 == r2;
                if (op == COMPARE) fits = r1 * c1 == r2 * c2;
                if (op == VSTACK) fits = c1 == c2;
                if (op == HSTACK) fits = r1 == r2;
                if (op == DIV) {
                    // The determinant of a large matrix is not the subject here.
                    if (r2 == c2 && r2 > 5) continue;
                    fits = r2 == c2 && c1 == r2;
                    if (fits && r2 == 0) continue;
                    // A singular divisor has no inverse of a fitting shape: not part of this property.
                    if (fits && r2 > 0 && throws([&] { if (la::inverse(B).empty()) throw std::invalid_argument("singular"); })) continue;
                }
                if ((op == CLOSE || op == COMPARE) && !std::is_same_v<A_t, B_t>) continue;
                if ((op == COMPARE || (op >= GT && op <= LE)) && (is_cx_v<T1> || is_cx_v<T2>)) continue;
                expect_reject(c, std::string(names[op]) + " " + std::to_string(r1) + "x" + std::to_string(c1) + ", " + std::to_string(r2) + "x" + std::to_string(c2) + " (" + kname(ka) + "," + kname(kb) + ")", fits, [&] {
                    switch (op) {
                    case ADD: (void)(A + B); break;
                    case SUB: (void)(A - B); break;
                    case MUL: (void)(A * B); break;
                    case EQ: (void)(A == B); break;
                    case NE: (void)(A != B); break;
                    case EWP: (void)malg::element_wise_product(A, B); break;
                    case LIN: (void)malg::linear_combination(A, T1(2), B, T2(3)); break;
                    case EWB: (void)malg::element_wise_binary_function(A, B, [](T1 x, T2 y) { return x + y; }); break;
                    case VSTACK: (void)ut::vstack(A, B); break;
                    case HSTACK: (void)ut::hstack(A, B); break;
                    case DIV: (void)la::div(A, B); break;
                    case GT:
                    case GE:
                    case LT:
                    case LE:
                        if constexpr (!is_cx_v<T1> && !is_cx_v<T2>) {
                            if (op == GT) (void)(A > B);
                            if (op == GE) (void)(A >= B);
                            if (op == LT) (void)(A < B);
                            if (op == LE) (void)(A <= B);
                        }
                        break;
                    case CLOSE:
                        if constexpr (std::is_same_v<A_t, B_t>) (void)ut::all_close(A, B, 1.0);
                        break;
                    case COMPARE:
                        if constexpr (std::is_same_v<A_t, B_t> && !is_cx_v<T1>) (void)ut::compare(A, B);
                        break;
                    }
                });
            }
        });
    });
    c.state(mc::mix(mc::mix(mc::mix(r1, c1), mc::mix(r2, c2)), static_cast<unsigned>(ka * 10 + kb)) + sizeof(T1) * 64 + sizeof(T2));
}
} // namespace
MC(matrix_matrix)
{
    if (c.flip("types")) run<cd, double>(c);
    else run<double, double>(c);
}
