// C18: files read back what was written.
#include "C18.hpp"
namespace
{
template <typename T>
std::vector<T> special()
{
    if constexpr (is_cx_v<T>) {
        using R = realof<T>;
        return { T(0, 0), T(R(1.5), R(-2)), T(R(-0.1), R(1e-30)), T(R(1) / 3, R(1e20)), T(R(-1e-5), R(-7)), T(std::numeric_limits<R>::max(), std::numeric_limits<R>::min()) };
    } else if constexpr (std::is_integral_v<T>) {
        return { T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), static_cast<T>(-7), T(1000) };
    } else {
        return { T(0), static_cast<T>(-1.5), T(1) / 3, static_cast<T>(-1e-30), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), static_cast<T>(12345678.9), static_cast<T>(1e20) };
    }
}
// Digits that determine every value of the type.
template <typename T>
constexpr int digits = std::is_integral_v<T> ? 6 : std::numeric_limits<realof<T>>::max_digits10;

template <typename T>
T value(size_t i, unsigned salt)
{
    const auto s = special<T>();
    return salt ? s[(i * 5 + salt) % s.size()] : label<T>(i / 7, i % 7, static_cast<int>(i));
}
// One object of a file: a vector (cols = NPOS) or a matrix.
struct Obj {
    size_t r, k;
    bool vector() const { return k == NPOS; }
};
const Obj objects[] = { { 0, NPOS }, { 1, NPOS }, { 3, NPOS }, { 1, 1 }, { 2, 3 }, { 3, 1 }, { 1, 4 }, { 0, 0 } };
const Obj receivers[] = { { 0, 0 }, { 2, 3 }, { 5, 5 }, { 7, 1 }, { 1, 2 } };

template <typename T>
void expect_vector(mc::Ctx &c, std::ifstream &in, const std::vector<T> &want, size_t had, const std::string &text)
{
    Vector<T> v(mkvec(labelled_vec<T>(had, 3)));
    auto &ref = (in >> v);
    if (&ref != &in) c.fail("read", "returns another stream");
    if (!veq(v, want)) c.fail("vector", "%s read back as %s (receiver had %zu elements) from:\n%s", show(want).c_str(), show(vec(v)).c_str(), had, text.substr(0, 600).c_str());
    if (in.fail()) c.fail("stream", "reading a vector of %zu fails on:\n%s", want.size(), text.substr(0, 600).c_str());
    c.step();
}
template <typename T>
void expect_matrix(mc::Ctx &c, std::ifstream &in, const Tab<T> &want, const Obj &had, const std::string &text)
{
    Matrix<T> m(mat(labelled<T>(had.r, had.k, 3)));
    auto &ref = (in >> m);
    if (&ref != &in) c.fail("read", "returns another stream");
    if (tab(m) != want) c.fail("matrix", "%s read back as %s (receiver was %zux%zu) from:\n%s", show(want).c_str(), show(tab(m)).c_str(), had.r, had.k, text.substr(0, 600).c_str());
    check_mat(c, "matrix", m, want);
    if (in.fail()) c.fail("stream", "reading a %zux%zu matrix fails on:\n%s", want.r, want.c, text.substr(0, 600).c_str());
    c.step();
}
// Sequences of up to three objects into receivers of other shapes.
template <typename T>
void sequence(mc::Ctx &c)
{
    Scratch clean;
    const unsigned n    = 1 + c.choose(c.thorough ? 4 : 3, "objects");
    std::vector<Obj> o, had;
    for (unsigned i = 0; i < n; ++i) o.push_back(c.pick(objects, "object")), had.push_back(i == 0 ? receivers[c.choose(5, "receiver")] : receivers[(i * 2 + o[i].r) % 5]);
    const unsigned salt = n < 3 ? c.choose(4, "content") : 2 * c.choose(2, "content");
    const bool views    = n == 1 && c.flip("views");
    c.go();
    std::vector<Tab<T>> t;
    {
        std::ofstream out(scratch());
        if (!out) c.fail("harness", "cannot write %s", scratch().c_str());
        out << std::setprecision(digits<T>);
        for (unsigned i = 0; i < n; ++i) {
            Tab<T> x(o[i].r, o[i].vector() ? 1 : o[i].k);
            for (size_t j = 0; j < x.v.size(); ++j) x.v[j] = value<T>(j + i, salt);
            t.push_back(x);
            if (o[i].vector()) {
                const Vector<T> v(mkvec(x.v));
                std::ofstream &ref = (out << v);
                if (&ref != &out) c.fail("write", "returns another stream");
                check_vec(c, "written-changed", v, x.v);
            } else if (views) {
                with_const(c, "written-changed", K_CONST_VIEW, x, [&](const auto &M) { out << M; });
            } else {
                const Matrix<T> m(mat(x));
                std::ofstream &ref = (out << m);
                if (&ref != &out) c.fail("write", "returns another stream");
                check_mat(c, "written-changed", m, x);
            }
            c.step();
            if (!out) c.fail("write", "the stream fails after object %u", i);
            if (static_cast<int>(out.precision()) != digits<T> || out.width() != 0) c.fail("format", "writing object %u leaves precision %ld, width %ld", i, static_cast<long>(out.precision()), static_cast<long>(out.width()));
        }
        // Something else afterwards is reachable too.
        out << "tail 42\n";
    }
    const std::string text = slurp(scratch());
    c.note("%s", text.c_str());
    std::ifstream in(scratch());
    for (unsigned i = 0; i < n; ++i) {
        if (o[i].vector()) expect_vector(c, in, t[i].v, had[i].r * 2, text);
        else expect_matrix(c, in, t[i], had[i], text);
    }
    std::string w;
    int k = 0;
    in >> w >> k;
    if (w != "tail" || k != 42) c.fail("tail", "what follows the objects reads as '%s' %d in:\n%s", w.c_str(), k, text.substr(0, 600).c_str());
    std::uint64_t h = n;
    for (auto &x : t) h = mc::mix(h, x.hash());
    c.state(mc::mix(h, sizeof(T) + std::is_integral_v<T>));
}
// Every small shape into every small receiver.
template <typename T>
void shapes(mc::Ctx &c)
{
    Scratch clean;
    const unsigned hi = c.thorough ? 5 : 4;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols"), R = c.choose(hi, "receiver rows"), K = c.choose(hi, "receiver cols");
    const unsigned salt = c.choose(2, "content");
    c.go();
    Tab<T> x(r, k);
    for (size_t j = 0; j < x.v.size(); ++j) x.v[j] = value<T>(j, salt);
    {
        std::ofstream out(scratch());
        out << std::setprecision(digits<T>) << std::flush;
        out << mat(x) << mkvec(x.v);
    }
    const std::string text = slurp(scratch());
    std::ifstream in(scratch());
    expect_matrix(c, in, x, Obj{ R, K }, text);
    expect_vector(c, in, x.v, R * K, text);
    c.state(mc::mix(x.hash(), mc::mix(R, K)));
}
// Every pair of special values next to each other (field widths and separators).
template <typename T>
void pairs(mc::Ctx &c)
{
    Scratch clean;
    const auto s = special<T>();
    const unsigned n = static_cast<unsigned>(s.size());
    Tab<T> x(2, 2);
    for (size_t i = 0; i < 3; ++i) x.v[i] = s[c.choose(n, "value")];
    x.v[3]            = s[0];
    const bool sci    = c.flip("scientific");
    const unsigned pr = c.choose(2, "more digits");
    c.go();
    {
        std::ofstream out(scratch());
        out << std::setprecision(digits<T> + static_cast<int>(pr) * 3);
        if (sci) out << std::scientific;
        out << mat(x);
        out << mkvec(x.v);
    }
    const std::string text = slurp(scratch());
    std::ifstream in(scratch());
    expect_matrix(c, in, x, Obj{ 1, 2 }, text);
    expect_vector(c, in, x.v, 1, text);
    c.state(mc::mix(x.hash(), sci * 2 + pr));
}
void sizes(mc::Ctx &c)
{
    Scratch clean;
    static const size_t dims[] = { 1, 9, 16, 64, 65, 130 };
    const size_t r = c.pick(dims, "rows"), k = c.pick(dims, "cols");
    const unsigned salt = c.choose(3, "content");
    const int kind      = static_cast<int>(c.choose(K_COUNT, "kind"));
    c.go();
    Tab<double> x(r, k);
    for (size_t j = 0; j < x.v.size(); ++j) x.v[j] = value<double>(j, salt) + (salt ? 0 : static_cast<double>(j) / 7);
    {
        std::ofstream out(scratch());
        out << std::setprecision(17);
        with_const(c, "written-changed", kind, x, [&](const auto &M) { out << M << mkvec(x.v) << M; });
    }
    const std::string text = slurp(scratch());
    std::ifstream in(scratch());
    expect_matrix(c, in, x, Obj{ 3, 3 }, text);
    expect_vector(c, in, x.v, 100, text);
    expect_matrix(c, in, x, Obj{ k, r }, text);
    c.state(mc::mix(x.hash(), static_cast<unsigned>(kind)));
}
// Long files, with something after them.
template <typename T>
void long_files(mc::Ctx &c)
{
    Scratch clean;
    static const size_t dims[][2] = { { 1, 2500 }, { 2500, 1 }, { 700, 3 }, { 3, 700 }, { 257, 17 }, { 17, 257 }, { 5000, 1 }, { 1030, 2 } };
    const auto &d = dims[c.choose(8, "shape")];
    const unsigned salt = c.choose(2, "content");
    c.go();
    Tab<T> x(d[0], d[1]), y(2, 3);
    for (size_t j = 0; j < x.v.size(); ++j) x.v[j] = value<T>(j, salt);
    for (size_t j = 0; j < y.v.size(); ++j) y.v[j] = value<T>(j + 3, salt);
    {
        std::ofstream out(scratch());
        out << std::setprecision(21);
        out << mat(x) << mkvec(x.v) << mat(y);
    }
    const std::string text = slurp(scratch());
    std::ifstream in(scratch());
    expect_matrix(c, in, x, Obj{ 3, 3 }, text);
    expect_vector(c, in, x.v, 100, text);
    expect_matrix(c, in, y, Obj{ 1, 1 }, text);
    c.state(x.hash() + sizeof(T) + std::is_integral_v<T>);
}
} // namespace
MC(long_files)
{
    switch (c.choose(4, "type")) {
    case 0: return long_files<double>(c);
    case 1: return long_files<int>(c);
    case 2: return long_files<cd>(c);
    case 3: return long_files<ld>(c);
    }
}
MC(sequence)
{
    switch (c.choose(6, "type")) {
    case 4: return sequence<long>(c);
    case 5: return sequence<ld>(c);
    case 0: return sequence<double>(c);
    case 1: return sequence<int>(c);
    case 2: return sequence<cd>(c);
    case 3: return sequence<float>(c);
    }
}
MC(shapes)
{
    switch (c.choose(4, "type")) {
    case 2: return shapes<int>(c);
    case 3: return shapes<cl>(c);
    case 0: return shapes<double>(c);
    case 1: return shapes<cd>(c);
    }
}
MC(pairs)
{
    switch (c.choose(8, "type")) {
    case 5: return pairs<ld>(c);
    case 6: return pairs<cl>(c);
    case 7: return pairs<unsigned>(c);
    case 0: return pairs<double>(c);
    case 1: return pairs<int>(c);
    case 2: return pairs<cd>(c);
    case 3: return pairs<float>(c);
    case 4: return pairs<long>(c);
    }
}
MC(sizes) { sizes(c); }
