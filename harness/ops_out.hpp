// Neutral results of the operations in ops.hpp (independent of the library's namespace).
#pragma once
#include <cstdint>
#include <cstring>
#include <complex>
#include <string>
#include <vector>
enum { F_IO = 1, F_RAND = 2, F_TOL = 4, F_SLOW = 8, F_FILE = 16 };
struct Out {
    std::vector<double> v;
    std::string text;
    template <typename T>
    void num(const T &x) { v.push_back(static_cast<double>(x)); }
    void shape(std::size_t r, std::size_t c)
    {
        v.push_back(1e6 + static_cast<double>(r));
        v.push_back(2e6 + static_cast<double>(c));
    }
    bool identical(const Out &o) const
    {
        return text == o.text && v.size() == o.v.size() && (v.empty() || !std::memcmp(v.data(), o.v.data(), v.size() * sizeof(double)));
    }
    std::uint64_t hash() const
    {
        std::uint64_t h = 1469598103934665603ull;
        for (double d : v) {
            std::uint64_t u;
            std::memcpy(&u, &d, 8);
            h = (h ^ u) * 0x100000001b3ull;
            h ^= h >> 29;
        }
        for (unsigned char ch : text) h = (h ^ ch) * 0x100000001b3ull;
        return h;
    }
};
// The first difference, for messages.
inline std::string difference(const Out &a, const Out &b)
{
    if (a.v.size() != b.v.size()) return "a result of " + std::to_string(a.v.size()) + " instead of " + std::to_string(b.v.size()) + " numbers";
    for (std::size_t i = 0; i < a.v.size(); ++i)
        if (std::memcmp(&a.v[i], &b.v[i], sizeof(double))) {
            char buf[120];
            std::snprintf(buf, sizeof buf, "number %zu of the result is %.17g instead of %.17g", i, a.v[i], b.v[i]);
            return buf;
        }
    if (a.text != b.text) return "the text is '" + a.text + "' instead of '" + b.text + "'";
    return "no difference";
}
// Marks the calls into the library (allocation failures are injected only there).
extern thread_local int ops_window;
struct Window {
    Window() { ++ops_window; }
    ~Window() { --ops_window; }
};
std::string scratch_file();
