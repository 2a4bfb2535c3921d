// C20: text renderings.
#include "C18.hpp"
#include <sys/wait.h>
namespace
{
// Values that six significant digits denote exactly.
template <typename T>
T value(unsigned i)
{
    if constexpr (is_cx_v<T>) {
        static const double z[][2] = { { 0, 0 }, { 1, -2 }, { -0.5, 3 }, { 0, -1 }, { 1e20, 2.5 }, { -7, 0 }, { 12345, -1e-7 } };
        return T(static_cast<realof<T>>(z[i % 7][0]), static_cast<realof<T>>(z[i % 7][1]));
    } else if constexpr (std::is_same_v<T, unsigned>) {
        static const unsigned z[] = { 0, 1, 10, 4000000, 7, 123, 5 };
        return z[i % 7];
    } else if constexpr (std::is_same_v<T, long>) {
        static const long z[] = { 0, 1, -10, 9007199254740993, -7, 123, -4611686018427387905 };
        return z[i % 7];
    } else if constexpr (std::is_integral_v<T>) {
        static const int z[] = { 0, 1, -10, 4000000, -7, 123, -1 };
        return static_cast<T>(z[i % 7]);
    } else {
        static const double z[] = { 0, 1, -2.5, 1e20, -1e-7, 12345.5, -0.125 };
        return static_cast<T>(z[i % 7]);
    }
}
template <typename T>
bool denotes(const T &printed, const T &v, double rel = 1e-6)
{
    if constexpr (is_cx_v<T>) return denotes(printed.real(), v.real(), rel) && denotes(printed.imag(), v.imag(), rel);
    else if constexpr (std::is_floating_point_v<T>) return std::abs(printed - v) <= std::abs(v) * static_cast<T>(rel);
    else return printed == v;
}
template <typename T>
bool parse(const std::string &s, T &v)
{
    std::istringstream i(s);
    i >> v;
    return !i.fail() && i.peek() == std::istringstream::traits_type::eof();
}
// ---- the console form ----
// Rows on lines, equal field widths separated by one blank, every element in row order.
template <typename T>
void expect_table(mc::Ctx &c, const char *key, const std::string &text, const Tab<T> &t, double rel = 1e-6)
{
    auto bad = [&](const char *why) { c.fail(key, "%s: %s is rendered as:\n%s", why, show(t).c_str(), text.substr(0, 1500).c_str()); };
    if (t.size() == 0) {
        if (text.find_first_not_of(" \n") != std::string::npos) bad("elements of an empty object");
        return;
    }
    std::vector<std::string> lines;
    size_t p = 0;
    while (true) {
        const size_t q = text.find('\n', p);
        lines.push_back(text.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) break;
        p = q + 1;
    }
    if (lines.size() != t.r) bad("wrong number of lines");
    size_t width = NPOS;
    for (size_t i = 0; i < t.r; ++i) {
        // Equal fields: n * w + (n - 1) characters.
        const std::string &l = lines[i];
        if ((l.size() + 1) % t.c) bad("fields of different width");
        const size_t w = (l.size() + 1) / t.c - 1;
        if (width == NPOS) width = w;
        if (w != width) bad("lines of different width");
        for (size_t j = 0; j < t.c; ++j) {
            const size_t at = j * (w + 1);
            if (j && l[at - 1] != ' ') bad("fields are not separated");
            std::string f = l.substr(at, w);
            f.erase(0, f.find_first_not_of(' '));
            T v{};
            if (f.find(' ') != std::string::npos || !parse(f, v)) bad("a field is not an element");
            if (!denotes(v, t(i, j), rel)) bad("wrong element");
        }
    }
}
// ---- MATLAB ----
struct Bad {
    std::string why;
};
struct Lexer {
    const std::string &s;
    size_t p = 0;
    void skip()
    {
        while (p < s.size() && s[p] == ' ') ++p;
    }
    bool eat(char ch)
    {
        if (p < s.size() && s[p] == ch) return ++p, true;
        return false;
    }
    void need(char ch)
    {
        if (!eat(ch)) throw Bad{ std::string("expected '") + ch + "' at " + std::to_string(p) };
    }
    void word(const std::string &w)
    {
        if (s.compare(p, w.size(), w)) throw Bad{ "expected '" + w + "' at " + std::to_string(p) };
        p += w.size();
    }
    // A decimal number with an optional sign.
    std::string number(bool sign)
    {
        const size_t q = p;
        if (p < s.size() && (s[p] == '-' || s[p] == '+')) {
            if (!sign) throw Bad{ "a sign where none may stand" };
            ++p;
        }
        size_t digits = 0;
        while (p < s.size() && std::isdigit(static_cast<unsigned char>(s[p]))) ++p, ++digits;
        if (eat('.'))
            while (p < s.size() && std::isdigit(static_cast<unsigned char>(s[p]))) ++p, ++digits;
        if (!digits) throw Bad{ "no number at " + std::to_string(q) };
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
            ++p;
            if (p < s.size() && (s[p] == '-' || s[p] == '+')) ++p;
            if (p >= s.size() || !std::isdigit(static_cast<unsigned char>(s[p]))) throw Bad{ "malformed exponent" };
            while (p < s.size() && std::isdigit(static_cast<unsigned char>(s[p]))) ++p;
        }
        return s.substr(q, p - q);
    }
};
// One element: number, or re+imi without blanks (a blank would start another element).
template <typename T>
T matlab_element(Lexer &l)
{
    T v{};
    if constexpr (is_cx_v<T>) {
        realof<T> re, im;
        if (!parse(l.number(true), re)) throw Bad{ "real part" };
        if (l.p >= l.s.size() || (l.s[l.p] != '+' && l.s[l.p] != '-')) throw Bad{ "no imaginary part" };
        std::string n = l.number(true);
        if (n[0] == '+') n.erase(0, 1);
        if (!parse(n, im)) throw Bad{ "imaginary part" };
        l.need('i');
        v = T(re, im);
    } else {
        if (!parse(l.number(true), v)) throw Bad{ "element" };
    }
    return v;
}
// A bracketed list of rows and columns; rows may be bracketed themselves.
template <typename T>
Tab<T> matlab(const std::string &text, const std::string &name)
{
    Lexer l{ text };
    l.word(name);
    l.skip();
    l.need('=');
    l.skip();
    l.need('[');
    std::vector<std::vector<T>> rows(1);
    int depth = 1;
    bool gap  = true; // an element may start here
    while (depth) {
        const size_t before = l.p;
        l.skip();
        gap = gap || l.p != before;
        if (l.eat(']')) {
            --depth;
            gap = false;
        } else if (l.eat('[')) {
            if (depth == 2) throw Bad{ "too deep" };
            ++depth;
            gap = true;
        } else if (l.eat(';')) {
            rows.emplace_back();
            gap = true;
        } else if (l.eat(',')) {
            gap = true;
        } else {
            if (!gap) throw Bad{ "elements run together at " + std::to_string(l.p) };
            rows.back().push_back(matlab_element<T>(l));
            gap = false;
        }
        if (l.p > text.size()) throw Bad{ "unterminated" };
    }
    l.eat(';');
    if (l.p != text.size()) throw Bad{ "text after the declaration" };
    if (rows.back().empty()) rows.pop_back();
    Tab<T> t(rows.size(), rows.empty() ? 0 : rows[0].size());
    for (size_t i = 0; i < rows.size(); ++i) {
        if (rows[i].size() != t.c) throw Bad{ "ragged rows" };
        for (size_t j = 0; j < t.c; ++j) t(i, j) = rows[i][j];
    }
    return t;
}
// ---- C++ ----
template <typename T>
T cpp_element(Lexer &l, const std::string &type)
{
    T v{};
    l.skip();
    if constexpr (is_cx_v<T>) {
        realof<T> re, im;
        l.word(type);
        l.need('(');
        l.skip();
        if (!parse(l.number(true), re)) throw Bad{ "real part" };
        l.skip();
        l.need(',');
        l.skip();
        if (!parse(l.number(true), im)) throw Bad{ "imaginary part" };
        l.skip();
        l.need(')');
        v = T(re, im);
    } else if (!parse(l.number(true), v)) throw Bad{ "element" };
    l.skip();
    return v;
}
template <typename T>
std::vector<T> cpp_list(Lexer &l, const std::string &type)
{
    std::vector<T> v;
    l.skip();
    l.need('{');
    l.skip();
    if (l.eat('}')) return v;
    while (true) {
        v.push_back(cpp_element<T>(l, type));
        if (l.eat('}')) return v;
        l.need(',');
    }
}
void cpp_head(Lexer &l, const std::string &what, const std::string &type, const std::string &name)
{
    l.word("malg::" + what + "<" + type + ">");
    l.need(' ');
    l.skip();
    l.word(name);
    l.skip();
    l.need('=');
}
void cpp_end(Lexer &l)
{
    l.skip();
    l.eat(';');
    if (l.p != l.s.size()) throw Bad{ "text after the declaration" };
}
template <typename T>
std::vector<T> cpp_vector(const std::string &text, const std::string &type, const std::string &name)
{
    Lexer l{ text };
    cpp_head(l, "Vector", type, name);
    auto v = cpp_list<T>(l, type);
    cpp_end(l);
    return v;
}
template <typename T>
Tab<T> cpp_matrix(const std::string &text, const std::string &type, const std::string &name)
{
    Lexer l{ text };
    cpp_head(l, "Matrix", type, name);
    l.skip();
    l.need('{');
    std::vector<std::vector<T>> rows;
    while (true) {
        rows.push_back(cpp_list<T>(l, type));
        l.skip();
        if (l.eat('}')) break;
        l.need(',');
    }
    cpp_end(l);
    Tab<T> t(rows.size(), rows[0].size());
    for (size_t i = 0; i < rows.size(); ++i) {
        if (rows[i].size() != t.c) throw Bad{ "ragged rows" };
        for (size_t j = 0; j < t.c; ++j) t(i, j) = rows[i][j];
    }
    return t;
}
template <typename T>
const char *type_name()
{
    if constexpr (std::is_same_v<T, cd>) return "std::complex<double>";
    else if constexpr (std::is_same_v<T, cf>) return "std::complex<float>";
    else if constexpr (std::is_same_v<T, int>) return "int";
    else if constexpr (std::is_same_v<T, unsigned>) return "unsigned";
    else if constexpr (std::is_same_v<T, float>) return "float";
    else if constexpr (std::is_same_v<T, long>) return "long";
    else if constexpr (std::is_same_v<T, ld>) return "long double";
    else return "double";
}
template <typename T>
bool denote_all(const Tab<T> &p, const Tab<T> &t)
{
    if (p.r != t.r || p.c != t.c) return false;
    for (size_t i = 0; i < t.v.size(); ++i)
        if (!denotes<T>(p.v[i], t.v[i])) return false;
    return true;
}
template <typename F>
void parsed(mc::Ctx &c, const char *key, const std::string &text, F &&f)
{
    try {
        if (!f()) c.fail(key, "does not denote the object: %s", text.substr(0, 1500).c_str());
    } catch (Bad &b) {
        c.fail(key, "%s: %s", b.why.c_str(), text.substr(0, 1500).c_str());
    }
    c.step();
}
template <typename T>
void check_matrix(mc::Ctx &c, const Tab<T> &t, int kind)
{
    with_const(c, "operand-changed", kind, t, [&](const auto &M) {
        using E = typename std::remove_reference_t<decltype(M)>::value_type;
        std::ostringstream o;
        const Format before(o);
        o << M;
        if (!(Format(o) == before)) c.fail("format", "printing %s changes the formatting of the stream", show(t).c_str());
        const std::string text = o.str();
        expect_table(c, "console", text, t);
        const std::string d = malg::dump_matrix("some_name", M);
        if (d.compare(0, 9, "some_name") || d.find('=') == std::string::npos || d.find('\n') == std::string::npos) c.fail("dump", "dump is: %s", d.substr(0, 500).c_str());
        expect_table(c, "dump", d.substr(std::min(d.size(), d.find('\n') + 1)), t);
        c.step(2);
        if (t.size()) {
            const std::string m = malg::to_matlab("nm", M);
            parsed(c, "matlab", m, [&] { return denote_all(matlab<T>(m, "nm"), t); });
            if constexpr (!std::is_const_v<E> || !is_cx_v<T>) {
                const std::string x = malg::to_cpp("nm", type_name<T>(), M);
                parsed(c, "c++", x, [&] { return denote_all(cpp_matrix<T>(x, type_name<T>(), "nm"), t); });
            }
        }
    });
    c.state(mc::mix(t.hash(), static_cast<unsigned>(kind)) + sizeof(T) + std::is_integral_v<T>);
}
template <typename T>
void check_vector(mc::Ctx &c, const std::vector<T> &t)
{
    const Vector<T> V(mkvec(t));
    const Tab<T> row = [&] {
        Tab<T> r(t.empty() ? 0 : 1, t.size());
        r.v = t;
        return r;
    }();
    std::ostringstream o;
    const Format before(o);
    o << V;
    if (!(Format(o) == before)) c.fail("format", "printing %s changes the formatting of the stream", show(t).c_str());
    expect_table(c, "console", o.str(), row);
    const std::string d = malg::dump_vector("some_name", V);
    if (d.compare(0, 9, "some_name") || d.find('=') == std::string::npos) c.fail("dump", "dump is: %s", d.substr(0, 500).c_str());
    std::string rest = d.substr(d.find('=') + 1);
    if (!rest.empty()) rest.erase(0, 1);
    expect_table(c, "dump", rest, row);
    const std::string m = malg::to_matlab("nm", V);
    parsed(c, "matlab", m, [&] {
        auto p = matlab<T>(m, "nm");
        return t.empty() ? p.size() == 0 : denote_all(p, row);
    });
    const std::string x = malg::to_cpp("nm", type_name<T>(), V);
    parsed(c, "c++", x, [&] {
        auto p = cpp_vector<T>(x, type_name<T>(), "nm");
        Tab<T> pr(p.empty() ? 0 : 1, p.size());
        pr.v = p;
        return denote_all(pr, row);
    });
    check_vec(c, "operand-changed", V, t);
    c.step(2);
    c.state(column(t).hash() + sizeof(T) + std::is_integral_v<T>);
}
template <typename T>
void contents(mc::Ctx &c)
{
    static const size_t shapes[][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 } };
    const auto &s  = c.pick(shapes, "shape");
    const int kind = static_cast<int>(c.choose(s[0] * s[1] > 3 ? 2 : K_COUNT, "kind")) * (s[0] * s[1] > 3 ? 4 : 1);
    Tab<T> t(s[0], s[1]);
    for (auto &x : t.v) x = value<T>(c.choose(7, "value"));
    c.go();
    check_matrix(c, t, kind);
    if (kind == 0 && s[0] == 1) check_vector(c, t.v);
}
template <typename T>
void shapes(mc::Ctx &c)
{
    const unsigned hi = c.thorough ? 8 : 6;
    const size_t r = c.choose(hi, "rows"), k = c.choose(hi, "cols");
    const int kind      = static_cast<int>(c.choose(K_COUNT, "kind"));
    const unsigned salt = c.choose(3, "content");
    c.go();
    Tab<T> t(r, k);
    for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = value<T>(static_cast<unsigned>(i * (salt + 1) + salt + i / 7));
    check_matrix(c, t, kind);
    if (kind == 0) check_vector(c, t.v);
}
template <typename T>
void sizes(mc::Ctx &c)
{
    static const size_t dims[] = { 1, 9, 16, 33, 64, 65 };
    const size_t r = c.pick(dims, "rows"), k = c.pick(dims, "cols");
    c.go();
    Tab<T> t(r, k);
    for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = value<T>(static_cast<unsigned>(i * 3 + i / 7));
    check_matrix(c, t, 0);
    if (r == 1) check_vector(c, t.v);
}
// The precision in force decides the digits; the other settings survive.
void precisions(mc::Ctx &c)
{
    static const int prec[] = { 1, 2, 3, 6, 9, 17 };
    const int p          = c.pick(prec, "precision");
    const size_t n       = 1 + c.choose(4, "elements");
    const unsigned other = c.choose(9, "settings");
    const bool vector    = c.flip("vector");
    const bool cx        = c.flip("complex");
    c.go();
    auto run = [&](auto zero) {
        using T = decltype(zero);
        std::vector<T> v(n);
        for (size_t i = 0; i < n; ++i) {
            const double x = (i % 2 ? -1 : 1) * (1.0 / 3 + (i == 3 ? 2e10 : static_cast<double>(i) * 10));
            if constexpr (is_cx_v<T>) v[i] = T(x, -x / 7);
            else v[i] = x;
        }
        std::ostringstream o;
        o.precision(p);
        if (other == 1) o.fill('_');
        if (other == 2) o << std::left;
        if (other == 3) o << std::uppercase;
        if (other == 4) o << std::fixed;
        if (other == 5) o << std::scientific;
        if (other == 6) o << std::showpos;
        if (other == 7) o << std::fixed << std::showpos << std::showpoint;
        if (other == 8) o << std::showpoint << std::left;
        const Format before(o);
        const size_t rows = vector ? 1 : n == 4 ? 2 : n;
        Tab<T> t(rows, n / rows);
        t.v = v;
        if (vector) o << mkvec(v);
        else o << mat(t);
        if (!(Format(o) == before)) c.fail("format", "printing changes the formatting of the stream");
        // Later output looks as it would have.
        std::ostringstream plain, after;
        plain.copyfmt(o);
        plain << 1.0 / 3;
        const size_t len = o.str().size();
        o << 1.0 / 3;
        if (o.str().substr(len) != plain.str()) c.fail("format", "later output is '%s' instead of '%s'", o.str().substr(len).c_str(), plain.str().c_str());
        // Rows, equal fields and separators, whatever the number of digits.
        if (other != 1 && other != 2 && other != 8) expect_table(c, "layout", o.str().substr(0, len), t, other == 4 || other == 7 ? 20 * std::pow(10.0, -p) : p == 1 ? 0.5 : 10 * std::pow(10.0, -p));
        // With the content on the left there are blanks at the end of the fields.
        if (other == 2 || other == 8) {
            std::string line;
            std::istringstream text(o.str().substr(0, len));
            size_t width = NPOS;
            while (std::getline(text, line)) {
                if (width == NPOS) width = line.size();
                if (line.size() != width || (width + 1) % t.c) c.fail("layout", "fields of different width:\n%s", o.str().c_str());
            }
        }
        // Each element appears with the digits of that precision, in order.
        size_t at = 0;
        const std::string text = o.str().substr(0, len);
        for (auto &x : v) {
            std::ostringstream e;
            e.precision(p);
            e.flags(before.flags);
            e << x;
            const size_t f = text.find(e.str(), at);
            if (f == std::string::npos) c.fail("precision", "'%s' is missing in: %s", e.str().c_str(), text.c_str());
            at = f + e.str().size();
        }
        c.step();
        c.state(mc::mix(mc::mix(static_cast<unsigned>(p), n), other * 4 + vector * 2 + cx));
    };
    if (cx) run(cd());
    else run(0.0);
}
// Models and ranges.
void models(mc::Ctx &c)
{
    using malg::operator<<;
    const size_t n = 1 + c.choose(3, "states"), m = 1 + c.choose(3, "inputs"), p = 1 + c.choose(3, "outputs");
    const bool discrete = c.flip("discrete");
    const unsigned salt = c.choose(3, "content");
    c.go();
    auto fill = [&](size_t r, size_t k, unsigned s) {
        Tab<double> t(r, k);
        for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = value<double>(static_cast<unsigned>(i) * 2 + s + salt);
        return t;
    };
    const auto A = fill(n, n, 0), B = fill(n, m, 1), C = fill(p, n, 2), D = fill(p, m, 3);
    std::ostringstream o;
    const Format before(o);
    if (discrete) o << malg::control::DiscreteStateSpace<double>(mat(A), mat(B), mat(C), mat(D), 0.25);
    else o << malg::control::StateSpace<double>(mat(A), mat(B), mat(C), mat(D));
    if (!(Format(o) == before)) c.fail("format", "printing a model changes the formatting of the stream");
    const std::string text = o.str();
    size_t at              = 0;
    const char *names[]    = { "A =\n", "B =\n", "C =\n", "D =\n" };
    const Tab<double> *tabs[] = { &A, &B, &C, &D };
    for (int i = 0; i < 4; ++i) {
        const size_t f = text.find(names[i], at);
        if (f == std::string::npos) c.fail("model", "no matrix %c in:\n%s", names[i][0], text.c_str());
        at = f + 4;
        // As many lines as the matrix has rows.
        size_t end = at;
        for (size_t l = 0; l < tabs[i]->r; ++l) end = text.find('\n', end) + 1;
        expect_table(c, "model", text.substr(at, end - at - 1), *tabs[i]);
        at = end;
        c.step();
    }
    const std::string tail = text.substr(at);
    if (discrete ? tail != "Sample time: 0.25 seconds\nDiscrete-time state-space model.\n" : tail != "Continuous-time state-space model.\n") c.fail("model", "the model ends with '%s'", tail.c_str());
    std::ostringstream r;
    r << Range{ n, n + m };
    if (r.str() != "[" + std::to_string(n) + ", " + std::to_string(n + m) + "]") c.fail("range", "'%s'", r.str().c_str());
    c.state(mc::mix(mc::mix(n, m), mc::mix(p, discrete * 4 + salt)));
}
// The C++ forms compile and build the objects they came from.
template <typename T>
void declare(std::string &src, std::string &body, int &k)
{
    static const size_t shapes[][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 1, 5 }, { 5, 1 }, { 3, 4 } };
    auto compare = [&](const std::string &name, const std::string &at, const T &v) {
        std::ostringstream o;
        o.precision(17);
        if constexpr (is_cx_v<T>) o << "  if (!near(" << name << at << ".real(), " << v.real() << ") || !near(" << name << at << ".imag(), " << v.imag() << ")) return fail(\"" << name << "\");\n";
        else o << "  if (!near(" << name << at << ", " << v << ")) return fail(\"" << name << "\");\n";
        body += o.str();
    };
    for (auto &s : shapes) {
        Tab<T> t(s[0], s[1]);
        for (size_t i = 0; i < t.v.size(); ++i) t.v[i] = value<T>(static_cast<unsigned>(i * 3 + s[0]));
        const std::string m = "m" + std::to_string(k), v = "v" + std::to_string(k);
        ++k;
        src += malg::to_cpp(m.c_str(), type_name<T>(), mat(t)) + ";\n" + malg::to_cpp(v.c_str(), type_name<T>(), mkvec(t.v)) + ";\n";
        body += "  if (" + m + ".rows() != " + std::to_string(s[0]) + " || " + m + ".cols() != " + std::to_string(s[1]) + " || " + v + ".size() != " + std::to_string(t.v.size()) + ") return fail(\"" + m + "\");\n";
        for (size_t i = 0; i < s[0]; ++i)
            for (size_t j = 0; j < s[1]; ++j) {
                compare(m, "(" + std::to_string(i) + "," + std::to_string(j) + ")", t(i, j));
                compare(v, "[" + std::to_string(i * s[1] + j) + "]", t(i, j));
            }
    }
}
} // namespace
MC(contents)
{
    switch (c.choose(7, "type")) {
    case 5: return contents<long>(c);
    case 6: return contents<ld>(c);
    case 0: return contents<double>(c);
    case 1: return contents<int>(c);
    case 2: return contents<cd>(c);
    case 3: return contents<float>(c);
    case 4: return contents<unsigned>(c);
    }
}
MC(shapes)
{
    switch (c.choose(4, "type")) {
    case 0: return shapes<double>(c);
    case 1: return shapes<int>(c);
    case 2: return shapes<cd>(c);
    case 3: return shapes<cf>(c);
    }
}
MC(sizes)
{
    switch (c.choose(2, "type")) {
    case 0: return sizes<double>(c);
    case 1: return sizes<cd>(c);
    }
}
MC(precisions) { precisions(c); }
MC(models) { models(c); }
MC(compiled)
{
    c.go();
    std::string src, body;
    int k = 0;
    declare<double>(src, body, k);
    declare<int>(src, body, k);
    declare<float>(src, body, k);
    declare<cd>(src, body, k);
    declare<cf>(src, body, k);
    const std::string base = scratch().substr(0, scratch().size() - 4), file = base + ".cpp", exe = base + ".exe", err = base + ".err";
    spill(file, "#include <malg/matrix.hpp>\n#include <malg/vector.hpp>\n#include <complex>\n#include <cmath>\n#include <cstdio>\n" + src +
                    "static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * std::fabs(b); }\nstatic int fail(const char *n) { std::printf(\"%s differs\\n\", n); return 1; }\nint main() {\n" + body + "  return 0;\n}\n");
    const char *repo = std::getenv("VERIF_REPO");
    const std::string cmd = std::string("env -u ASAN_OPTIONS g++ -std=c++17 -O0 -w -I") + (repo ? repo : "/repo") + "/include " + file + " -o " + exe + " >" + err + " 2>&1 && " + exe + " >" + err + " 2>&1";
    const int rc          = std::system(cmd.c_str());
    const std::string out = slurp(err);
    for (auto &f : { file, exe, err }) ::unlink(f.c_str());
    if (rc == -1 || out.find("cc1plus") != std::string::npos) c.fail("harness", "the compiler cannot be run: %s", out.substr(0, 500).c_str());
    if (rc != 0) c.fail("compiled", "the C++ forms do not compile to the objects: %s", out.substr(0, 2500).c_str());
    c.step(static_cast<unsigned>(k) * 2);
    c.state(static_cast<unsigned>(k));
}
// Long objects: wide elements at either end or in the middle of short ones.
MC(long_shapes)
{
    const Shape s  = long_shape(c, 300, 2000);
    const size_t n = s.r * s.k, at[] = { 0, n / 3, n - 2, n - 1, n };
    const size_t p = c.pick(at, "wide");
    const unsigned type = c.choose(3, "type");
    c.go();
    auto run = [&](auto zero, auto wide_one) {
        using T = decltype(zero);
        Tab<T> t(s.r, s.k);
        for (size_t i = 0; i < n; ++i) t.v[i] = T(static_cast<int>(i % 9));
        if (p < n) t.v[p] = wide_one;
        check_matrix(c, t, 0);
        if (s.r == 1) check_vector(c, t.v);
    };
    switch (type) {
    case 0: return run(int(), -1234567);
    case 1: return run(double(), -1234.5);
    case 2: return run(cd(), cd(-12.25, 1234.5));
    }
}
