#include "C04.hpp"
MC(matscalar)
{
    switch (c.choose(14, "types")) {
    case 0: return matrix_scalar<double, double>(c);
    case 1: return matrix_scalar<int, int>(c);
    case 2: return matrix_scalar<int, double>(c);
    case 3: return matrix_scalar<double, int>(c);
    case 4: return matrix_scalar<float, double>(c);
    case 5: return matrix_scalar<cd, cd>(c);
    case 6: return matrix_scalar<cd, double>(c);
    case 7: return matrix_scalar<double, cd>(c);
    case 8: return matrix_scalar<long, long>(c);
    case 9: return matrix_scalar<int, long>(c);
    case 10: return matrix_scalar<long, int>(c);
    case 11: return matrix_scalar<ld, ld>(c);
    case 12: return matrix_scalar<double, ld>(c);
    case 13: return matrix_scalar<ld, double>(c);
    }
}
