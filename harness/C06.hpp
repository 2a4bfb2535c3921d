// C06: incompatible shapes and positions are rejected without effect.
#pragma once
#include "C05.hpp"
#include <malg/control/control.hpp>
#include <malg/eigen.hpp>

// Whether f ends in an error; anything else than a standard exception is not an answer.
template <typename F>
inline void expect_reject(mc::Ctx &c, const std::string &op, bool fits, F &&f)
{
    const bool t = throws(std::forward<F>(f));
    if (t && fits) c.fail("fitting-rejected", "%s: fitting operands were rejected", op.c_str());
    if (!t && !fits) c.fail("misfit-accepted", "%s: operands that do not fit were accepted", op.c_str());
    c.step();
}
// Shapes: small ones completely, and large ones that differ by one.
inline void shape(mc::Ctx &c, size_t &r, size_t &k)
{
    static const size_t extra[][2] = { { 1, 8 }, { 8, 1 }, { 7, 8 }, { 8, 8 }, { 1, 64 }, { 1, 65 }, { 64, 1 }, { 65, 1 } };
    const unsigned hi = c.thorough ? 6 : 4;
    unsigned i        = c.choose(hi * hi + 8, "shape");
    if (i < hi * hi) {
        r = i / hi;
        k = i % hi;
    } else {
        r = extra[i - hi * hi][0];
        k = extra[i - hi * hi][1];
    }
}
