// C19: damaged files.
#include "C18.hpp"
namespace
{
struct Obj {
    size_t r, k;
    bool vector() const { return k == NPOS; }
    size_t size() const { return vector() ? r : r * k; }
};
const Obj objects[] = { { 1, NPOS }, { 3, NPOS }, { 12, NPOS }, { 1, 1 }, { 2, 3 }, { 3, 1 }, { 1, 10 }, { 11, 1 }, { 0, NPOS }, { 0, 0 } };
template <typename T>
T value(size_t i)
{
    if constexpr (is_cx_v<T>) return T(static_cast<realof<T>>(static_cast<int>(i) * 25 - 30), static_cast<realof<T>>(static_cast<int>(i) - 1));
    else return static_cast<T>(static_cast<int>(i) * 25 - 30);
}
template <typename T>
Tab<T> content_of(const Obj &o)
{
    Tab<T> x(o.r, o.vector() ? 1 : o.k);
    for (size_t j = 0; j < x.v.size(); ++j) x.v[j] = value<T>(j);
    return x;
}
template <typename T>
void write(std::ofstream &out, const Obj &o)
{
    const auto x = content_of<T>(o);
    if (o.vector()) out << mkvec(x.v);
    else out << mat(x);
}
template <typename T>
std::string written(const Obj &a, const Obj *b = nullptr, size_t *first = nullptr)
{
    {
        std::ofstream out(scratch());
        write<T>(out, a);
        if (first) *first = static_cast<size_t>(out.tellp());
        if (b) write<T>(out, *b);
    }
    return slurp(scratch());
}
// The object can be read, written, copied, reshaped and given up.
template <typename T>
void usable(mc::Ctx &c, Vector<T> &v, const std::string &text)
{
    const auto now = vec(v);
    if (now.size() != v.size()) c.fail("receiver", "inconsistent vector");
    Vector<T> copy(v);
    if (!veq(copy, now)) c.fail("receiver", "the receiver cannot be copied after:\n%s", text.substr(0, 500).c_str());
    for (size_t i = 0; i < v.size(); ++i) v[i] = T(1);
    v.resize(v.size() + 3);
    v = copy;
    if (!veq(v, now)) c.fail("receiver", "the receiver cannot be assigned after:\n%s", text.substr(0, 500).c_str());
}
template <typename T>
void usable(mc::Ctx &c, Matrix<T> &m, const std::string &text)
{
    const auto now = tab(m);
    check_mat(c, "receiver", m, now);
    Matrix<T> copy(m);
    if (tab(copy) != now) c.fail("receiver", "the receiver cannot be copied after:\n%s", text.substr(0, 500).c_str());
    for (size_t i = 0; i < m.size(); ++i) m[i] = T(1);
    m.resize(m.rows() + 1, m.cols() + 2);
    m = copy;
    check_mat(c, "receiver", m, now);
}
// Where the last element of the object in text[from, end) starts; the end of the header without one.
size_t last_element(const std::string &text, size_t end, const Obj &o)
{
    size_t p = end;
    while (p > 0 && std::isspace(static_cast<unsigned char>(text[p - 1]))) --p;
    if (o.size() == 0) { // the last number of the header
        while (p > 0 && !std::isspace(static_cast<unsigned char>(text[p - 1]))) --p;
        return p;
    }
    while (p > 0 && !std::isspace(static_cast<unsigned char>(text[p - 1]))) --p;
    return p;
}
// Cut at every byte; the receiver had some other shape.
template <typename T>
void cut(mc::Ctx &c)
{
    Scratch clean;
    const Obj &o       = c.pick(objects, "object");
    const bool second  = c.flip("second object");
    const Obj &p       = objects[second ? c.choose(9, "first") : 0];
    const std::string text = second ? written<T>(p, &o) : written<T>(o);
    size_t first = 0;
    if (second) written<T>(p, &o, &first);
    const size_t from = second ? first : 0;
    const size_t len  = from + c.choose(static_cast<unsigned>(text.size() - from) + 1, "bytes");
    const size_t had  = c.choose(3, "receiver");
    c.go();
    const std::string kept = text.substr(0, len);
    spill(scratch(), kept);
    c.note("'%s'", kept.c_str());
    const bool must_fail = len <= last_element(text, text.size(), o);
    std::ifstream in(scratch());
    if (second) {
        const auto want = content_of<T>(p);
        if (p.vector()) {
            Vector<T> v;
            in >> v;
            if (!veq(v, want.v) || in.fail()) c.fail("first-object", "the intact first object is not read from:\n%s", kept.c_str());
        } else {
            Matrix<T> m;
            in >> m;
            if (tab(m) != want || in.fail()) c.fail("first-object", "the intact first object is not read from:\n%s", kept.c_str());
        }
        c.step();
    }
    const auto whole = content_of<T>(o);
    auto judge = [&](bool right) {
        if (must_fail && !in.fail()) c.fail("unreported", "a cut %s is not reported:\n%s", o.vector() ? "vector" : "matrix", kept.c_str());
        if (len == text.size() && (in.fail() || !right)) c.fail("complete", "the complete object is not read:\n%s", kept.c_str());
    };
    if (o.vector()) {
        Vector<T> v(mkvec(labelled_vec<T>(had * 4, 3)));
        in >> v;
        judge(veq(v, whole.v));
        usable(c, v, kept);
    } else {
        Matrix<T> m(mat(labelled<T>(had, had + 1, 3)));
        in >> m;
        judge(tab(m) == whole);
        usable(c, m, kept);
    }
    // A second attempt on the failed stream harms nothing either.
    if (in.fail()) {
        Vector<T> v(mkvec(labelled_vec<T>(2, 3)));
        in >> v;
        if (!in.fail()) c.fail("unreported", "the failure is forgotten");
        usable(c, v, kept);
    }
    c.step();
    c.state(mc::mix(mc::mix(o.r, o.k), mc::mix(len, had * 16 + second)) + p.r * 64 + sizeof(T));
}
// The other kind of object, or none.
template <typename T>
void other(mc::Ctx &c)
{
    Scratch clean;
    static const char *texts[] = { "", " ", "\n\n", "x", "12 3", "v 3\n1 2 3\n", "m 1 1\n5\n", "-1", "[1 2]", "name = 1 2", "\t\v\f", "\xff\xfe", "# V 3" };
    const bool library = c.flip("library object");
    const Obj *o       = library ? &c.pick(objects, "object") : nullptr;
    const char *plain  = library ? "" : c.pick(texts, "text");
    const bool vec_wanted = library ? !o->vector() : c.flip("vector wanted");
    const size_t had      = c.choose(4, "receiver");
    c.go();
    const std::string text = library ? written<T>(*o) : std::string(plain);
    spill(scratch(), text);
    c.note("'%s'", text.c_str());
    std::ifstream in(scratch());
    if (vec_wanted) {
        const auto before = labelled_vec<T>(had * 4, 3);
        Vector<T> v(mkvec(before));
        in >> v;
        if (!veq(v, before)) c.fail("receiver-changed", "reading a vector from '%s' changes %s to %s", text.c_str(), show(before).c_str(), show(vec(v)).c_str());
        usable(c, v, text);
    } else {
        const auto before = labelled<T>(had, had + 1, 3);
        Matrix<T> m(mat(before));
        in >> m;
        if (tab(m) != before) c.fail("receiver-changed", "reading a matrix from '%s' changes %s to %s", text.c_str(), show(before).c_str(), show(tab(m)).c_str());
        usable(c, m, text);
    }
    c.step();
    c.state(mc::mix(library ? mc::mix(o->r, o->k) : reinterpret_cast<std::uintptr_t>(plain), had * 2 + vec_wanted));
}
// Any one token replaced by something else.
template <typename T>
void token(mc::Ctx &c)
{
    Scratch clean;
    static const char *others[] = { "", "x", "-1", "-3", "99999999999999999999999999", "4294967297", "9223372036854775809", "18446744073709551615", "1e5", "nan", "(", "(1,2)", "0", "2", "4", "1.5", "V", "M", "\x80", "--" };
    const Obj &o           = c.pick(objects, "object");
    const std::string text = written<T>(o);
    std::vector<std::pair<size_t, size_t>> tokens;
    for (size_t i = 0; i < text.size();) {
        while (i < text.size() && std::isspace(static_cast<unsigned char>(text[i]))) ++i;
        size_t j = i;
        while (j < text.size() && !std::isspace(static_cast<unsigned char>(text[j]))) ++j;
        if (j > i) tokens.push_back({ i, j });
        i = j;
    }
    // One token, or (in a matrix header) two of them.
    const size_t t  = c.choose(static_cast<unsigned>(tokens.size()), "token");
    const char *with = c.pick(others, "replacement");
    const bool both  = t == 1 && !o.vector() && c.flip("both sizes");
    const char *also = both ? c.pick(others, "second replacement") : "";
    const size_t had = c.choose(3, "receiver");
    c.go();
    std::string now = text.substr(0, tokens[t].first) + with;
    if (both) now += text.substr(tokens[t].second, tokens[t + 1].first - tokens[t].second) + also + text.substr(tokens[t + 1].second);
    else now += text.substr(tokens[t].second);
    // A well-formed header of a matrix with very many empty rows (or columns) is not damage.
    if (!o.vector()) {
        unsigned long long a = 0, b = 0;
        std::istringstream h(now.substr(now.empty() ? 0 : 1));
        if ((h >> a >> b) && std::max(a, b) > 1000 && static_cast<unsigned __int128>(a) * b < 1000) return;
    }
    spill(scratch(), now);
    c.note("'%s'", now.c_str());
    std::ifstream in(scratch());
    if (o.vector()) {
        Vector<T> v(mkvec(labelled_vec<T>(had * 4, 3)));
        (void)throws([&] { in >> v; });
        usable(c, v, now);
    } else {
        Matrix<T> m(mat(labelled<T>(had, had + 1, 3)));
        (void)throws([&] { in >> m; });
        usable(c, m, now);
    }
    c.step();
    std::uint64_t h = had;
    for (char x : now) h = mc::mix(h, static_cast<unsigned char>(x));
    c.state(h);
}
// A stream that cannot be read at all.
void unreadable(mc::Ctx &c)
{
    const unsigned how = c.choose(3, "how");
    const bool vector  = c.flip("vector");
    const size_t had   = c.choose(3, "receiver");
    c.go();
    Scratch clean;
    spill(scratch(), "V 2\n1 2\nM 1 2\n3 4\n");
    std::ifstream in;
    if (how == 0) in.open("/nonexistent/file");
    else {
        in.open(scratch());
        if (how == 1) in.setstate(std::ios::failbit);
        else in.setstate(std::ios::badbit);
    }
    if (vector) {
        const auto before = labelled_vec<double>(had * 4, 3);
        Vector<double> v(mkvec(before));
        in >> v;
        if (!veq(v, before)) c.fail("receiver-changed", "by a failed stream");
    } else {
        const auto before = labelled<double>(had, had + 1, 3);
        Matrix<double> m(mat(before));
        in >> m;
        if (tab(m) != before) c.fail("receiver-changed", "by a failed stream");
    }
    if (!in.fail()) c.fail("unreported", "the failure is cleared");
    c.step();
    c.state(mc::mix(how, had * 2 + vector));
}
} // namespace
MC(cut)
{
    switch (c.choose(3, "type")) {
    case 0: return cut<double>(c);
    case 1: return cut<int>(c);
    case 2: return cut<cd>(c);
    }
}
MC(other)
{
    switch (c.choose(3, "type")) {
    case 0: return other<double>(c);
    case 1: return other<int>(c);
    case 2: return other<cd>(c);
    }
}
MC(token)
{
    switch (c.choose(3, "type")) {
    case 0: return token<double>(c);
    case 1: return token<int>(c);
    case 2: return token<cd>(c);
    }
}
MC(unreadable) { unreadable(c); }
