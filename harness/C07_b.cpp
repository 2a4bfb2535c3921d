// C07: a second translation unit of the same program, as any larger user of the library has.
#include "common.hpp"
void unit_b_set(double t) { malg::feq::tolerance() = t; }
double unit_b_get() { return malg::feq::tolerance(); }
bool unit_b_scalar(double a, double b) { return malg::feq::approximately_equal(a, b); }
bool unit_b_matrix(double a, double b)
{
    const Matrix<double> A(1, 1, a), B(1, 1, b);
    return malg::all(A == B);
}
bool unit_b_vector(double a, double b)
{
    Vector<cd> A(1, cd(a, a)), B(1, cd(b, b));
    return (A == B)[0] && !(A != B)[0];
}
