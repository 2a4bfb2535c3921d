#include "C14.hpp"
MC(stacking)
{
    switch (c.choose(10, "types")) {
    case 0: return stacking<double, double>(c);
    case 1: return stacking<int, double>(c);
    case 2: return stacking<double, int>(c);
    case 3: return stacking<float, cd>(c);
    case 4: return stacking<cd, double>(c);
    case 5: return stacking<int, long>(c);
    case 6: return stacking<ld, double>(c);
    case 7: return stacking<double, ld>(c);
    case 8: return stacking<long, long>(c);
    case 9: return stacking<cl, cd>(c);
    }
}
