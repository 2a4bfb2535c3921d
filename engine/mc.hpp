// Stateless explicit-choice model checker for in-process C++ code.
//
// A scenario is a function that draws every nondeterministic decision through
// Ctx::choose(n).  The explorer runs it once per choice sequence (depth-first,
// complete), in several worker processes that split the choice tree by prefix.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
#include <complex>

namespace mc
{
struct Violation {
    std::string key, msg;
};
struct Skip {
};

constexpr int MAXD = 512;

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

// The part of an execution that must survive a crash lives in shared memory.
struct Shared {
    volatile std::uint64_t execs;   // heartbeat
    volatile int scenario;          // index
    volatile int len;               // choices made so far in this execution
    volatile unsigned choice[MAXD];
    volatile unsigned width[MAXD];
};

struct Ctx {
    // configuration
    bool thorough = false;
    bool tracing  = false;
    int worker = 0, workers = 1;
    bool force = false; // replay: run whatever the owner is
    // execution state
    Shared *sh = nullptr;
    unsigned choice[MAXD], width[MAXD];
    int pos = 0, prefix_len = 0;
    std::uint64_t prod = 1;
    bool decided = false, mine = false;
    // statistics of the scenario
    std::uint64_t steps = 0;
    std::uint64_t pending[64];
    int npending = 0;
    std::vector<std::string> trace;

    void decide()
    {
        if (decided) return;
        decided          = true;
        std::uint64_t h = 1469598103934665603ull;
        for (int i = 0; i < pos; ++i) h = mix(h, choice[i] + 1);
        mine = force || (h % static_cast<unsigned>(workers)) == static_cast<unsigned>(worker);
        if (!mine) throw Skip{};
    }

    unsigned choose(unsigned n, const char *label = "")
    {
        if (n == 0) {
            std::fprintf(stderr, "choose(0) %s\n", label);
            std::abort();
        }
        if (n == 1) return 0;
        if (pos >= MAXD) {
            std::fprintf(stderr, "too many choices\n");
            std::abort();
        }
        if (pos < prefix_len) {
            if (width[pos] != n) {
                std::fprintf(stderr, "MC-INTERNAL: nondeterministic scenario (%s: %u vs %u)\n", label, width[pos], n);
                std::_Exit(77);
            }
        } else {
            choice[pos] = 0;
            width[pos]  = n;
        }
        unsigned r = choice[pos];
        if (sh) {
            sh->choice[pos] = r;
            sh->width[pos]  = n;
            sh->len         = pos + 1;
        }
        ++pos;
        if (tracing) trace.push_back(std::string(label) + "=" + std::to_string(r) + "/" + std::to_string(n));
        if (!decided) {
            prod *= n;
            if (prod >= 4096) decide();
        }
        return r;
    }
    bool flip(const char *label = "") { return choose(2, label) != 0; }
    template <typename T, std::size_t N>
    const T &pick(const T (&a)[N], const char *label = "") { return a[choose(static_cast<unsigned>(N), label)]; }
    // Inclusive integer range.
    int range(int lo, int hi, const char *label = "") { return lo + static_cast<int>(choose(static_cast<unsigned>(hi - lo + 1), label)); }

    // All inputs are drawn: executions of other workers stop here.
    void go() { decide(); }

    // n operations of the library were executed and compared.
    void step(std::uint64_t n = 1) { steps += n; }
    // A distinct state of the explored space (canonical hash).
    void state(std::uint64_t h)
    {
        if (npending < 64) pending[npending++] = h;
    }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!tracing) return;
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        trace.push_back(buf);
    }
    // The execution shows a defect that may be listed in known-findings.txt; it goes on.
    std::string known_key, known_msg;
    void known(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        if (!known_key.empty()) return;
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        known_key = key;
        known_msg = buf;
    }
    [[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Violation{ key, buf };
    }
};

struct Scenario {
    const char *name;
    void (*fn)(Ctx &);
    bool leak;
    bool thorough_only;
};
std::vector<Scenario> &scenarios();
struct Register {
    Register(const char *n, void (*f)(Ctx &), bool leak, bool th) { scenarios().push_back({ n, f, leak, th }); }
};
#define MC_SCN(name, leak, th)                                    \
    static void mc_fn_##name(mc::Ctx &);                          \
    static mc::Register mc_reg_##name(#name, mc_fn_##name, leak, th); \
    static void mc_fn_##name([[maybe_unused]] mc::Ctx &c)
#define MC(name) MC_SCN(name, false, false)
#define MC_LEAK(name) MC_SCN(name, true, false)
#define MC_THOROUGH(name) MC_SCN(name, false, true)

#define MC_CHECK(cond, key, ...)            \
    do {                                    \
        if (!(cond)) c.fail(key, __VA_ARGS__); \
    } while (0)

// ---- live allocation accounting (engine/main.cpp installs the hooks) --------
long live_blocks();

// ---- hashing of values ------------------------------------------------------
template <typename T>
inline std::uint64_t hv(const T &v)
{
    if constexpr (std::is_floating_point_v<T>) {
        double d = static_cast<double>(v);
        std::uint64_t u;
        std::memcpy(&u, &d, 8);
        return u;
    } else {
        return static_cast<std::uint64_t>(v);
    }
}
template <typename T>
inline std::uint64_t hv(const std::complex<T> &v) { return mix(hv(v.real()), hv(v.imag())); }

} // namespace mc
