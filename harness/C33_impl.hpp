#include "ops.hpp"
#include "C33.hpp"
namespace OPS_NS
{
struct Machine : Layout {
    std::vector<Op> ops = menu();
    Mat<double> a, q;
    Mat<int> k;
    Vec<double> x;
    bool row_major() const override
    {
#ifdef ROW_MAJOR
        return true;
#else
        return false;
#endif
    }
    size_t operations() const override { return ops.size(); }
    const char *name(size_t op) const override { return ops[op].name; }
    int flags(size_t op) const override { return ops[op].flags; }
    int run(size_t op, int variant, Out &o) const override
    {
        const Env e(variant);
        try {
            ops[op].run(e, o);
        } catch (const std::exception &) {
            return 1;
        }
        return 0;
    }
    void start(int v) override
    {
        const Env e(v);
        a = e.R;
        q = e.T;
        k = e.I;
        x = e.v;
    }
    size_t actions() const override { return 22; }
    int act(size_t n) override
    {
        try {
            switch (n) {
            case 0: a = la::transpose(a); break;
            case 1: if (a.rows() && a.cols()) a.resize(a.rows(), a.cols() + 1); if (a.cols()) for (size_t r = 0; r < a.rows(); ++r) a(r, a.cols() - 1) = 40.0 + static_cast<double>(r); break;
            case 2: a.resize(a.rows() + 1, a.cols()); for (size_t c = 0; c < a.cols(); ++c) a(a.rows() - 1, c) = 60.0 + static_cast<double>(c); break;
            case 3: ut::remove_row(a, a.rows() / 2); break;
            case 4: ut::remove_column(a, a.cols() / 2); break;
            case 5: if (a.rows()) ut::swap_rows(a, 0, a.rows() - 1); break;
            case 6: if (a.cols()) ut::swap_cols(a, 0, a.cols() - 1); break;
            case 7: a = ut::vstack(a, a); break;
            case 8: a = ut::hstack(a, a * 2.0); break;
            case 9: if (a.rows() > 1 && a.cols() > 1) { malg::View v(&a, 0, a.rows() - 1, 1, a.cols()); const Mat<double> t(v.rows(), v.cols(), 9.0); v = t; for (size_t i = 0; i < v.rows() && v.cols(); ++i) v(i, 0) = static_cast<double>(i); } break;
            case 10: if (a.rows() > 1 && a.cols()) { malg::View v(&a, 1, a.rows(), 0, a.cols()); a = static_cast<const malg::MatrixBase<double> &>(v); } break;
            case 11: a += 1; a *= 2.0; a -= k(0, 0); break;
            case 12: a = a * ut::eye(a.cols(), a.cols() + 1, 3.0); break;
            case 13: a = q; break;
            case 14: q = std::move(a); a = la::transpose(q); break;
            case 15: if (a.rows() > 1 && a.cols()) a = ut::extract(a, 1, a.rows(), 0, a.cols()); break;
            case 16: a = k; break;
            case 17: a = { { 1, 2, 3 }, { 4, 5, 6 } }; break;
            case 18: if (a.rows() && a.cols()) a = la::cofactor(a, a.rows() - 1, 0); break;
            case 19: x = ut::to_vector(ut::to_matrix(ut::diag(a), true)); break;
            case 20: if (a.rows() > 1 && a.cols() > 1) { const malg::CofactorView v(&a, 0, a.cols() - 1); q = v * 2.0; } break;
            case 21: if (a.rows() > 1 && a.cols() > 1) { const malg::View v(&a, 0, a.rows(), 1, a.cols()); const malg::View z(&v, 1, a.rows(), 0, a.cols()); q = z + 1.0; } break;
            }
        } catch (const std::exception &) {
            return 1;
        }
        return 0;
    }
    void observe(Out &o) const override
    {
        put(o, a);
        put(o, q);
        put(o, k);
        put(o, x);
        // Linear positions go with the storage order; every way of reading agrees.
        for (size_t r = 0; r < a.rows(); ++r)
            for (size_t c = 0; c < a.cols(); ++c) {
                o.num(a[linear(a, r, c)] == a(r, c));
                o.num(a.data()[linear(a, r, c)] == a(r, c));
                o.num(a.begin()[static_cast<std::ptrdiff_t>(linear(a, r, c))] == a(r, c));
            }
        if (a.rows() > 1 && a.cols() > 1) {
            const malg::View v(&a, 1, a.rows(), 0, a.cols() - 1);
            const malg::CofactorView z(&a, 0, 1);
            for (size_t r = 0; r < v.rows(); ++r)
                for (size_t c = 0; c < v.cols(); ++c) o.num(v[linear(v, r, c)] == v(r, c)), put(o, v(r, c));
            for (size_t r = 0; r < z.rows(); ++r)
                for (size_t c = 0; c < z.cols(); ++c) o.num(z[linear(z, r, c)] == z(r, c)), put(o, z(r, c));
        }
        put(o, malg::sum(x));
    }
};
} // namespace OPS_NS
