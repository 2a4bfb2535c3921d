// Driver of the explorer: worker processes, crash and hang detection, replay.
#include "mc.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));

namespace mc
{
std::vector<Scenario> &scenarios()
{
    static std::vector<Scenario> s;
    return s;
}
static volatile long g_live = 0;
static bool g_hooks         = false;
static void on_malloc(const volatile void *p, size_t)
{
    if (p) g_live = g_live + 1;
}
static void on_free(const volatile void *p)
{
    if (p) g_live = g_live - 1;
}
long live_blocks() { return g_live; }
} // namespace mc

using namespace mc;
using clk = std::chrono::steady_clock;

struct NullBuf : std::streambuf {
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
static NullBuf nullbuf;

static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += static_cast<char>(ch);
        } else if (ch < 0x20 || ch >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else {
            o += static_cast<char>(ch);
        }
    }
    return o;
}

// Open-addressing set of 64-bit hashes with a cap.
struct HSet {
    std::vector<std::uint64_t> t;
    std::size_t n = 0;
    bool capped   = false;
    static constexpr std::size_t CAP = 3000000;
    bool add(std::uint64_t h)
    {
        if (h == 0) h = 1;
        if (t.empty()) t.assign(1024, 0);
        std::size_t i = h & (t.size() - 1);
        while (t[i]) {
            if (t[i] == h) return false;
            i = (i + 1) & (t.size() - 1);
        }
        if (n >= CAP) {
            capped = true;
            return false;
        }
        t[i] = h;
        if (++n * 2 > t.size()) {
            std::vector<std::uint64_t> o(t.size() * 2, 0);
            o.swap(t);
            for (auto x : o)
                if (x) {
                    std::size_t k = x & (t.size() - 1);
                    while (t[k]) k = (k + 1) & (t.size() - 1);
                    t[k] = x;
                }
        }
        return true;
    }
};

struct Outcome {
    bool violated = false, skipped = false;
    Violation v;
};

static Outcome run_once(const Scenario &s, Ctx &c)
{
    Outcome o;
    c.pos     = 0;
    c.prod    = 1;
    c.decided = c.mine = false;
    c.npending         = 0;
    c.known_key.clear();
    if (c.sh) c.sh->len = 0;
    try {
        s.fn(c);
    } catch (Skip &) {
        o.skipped = true;
    } catch (Violation &v) {
        o.violated = true;
        o.v        = std::move(v);
    } catch (std::exception &e) {
        o.violated = true;
        o.v        = { "exception", std::string("unexpected exception: ") + e.what() };
    } catch (...) {
        o.violated = true;
        o.v        = { "exception", "unexpected exception of unknown type" };
    }
    return o;
}

// Runs one execution; for leak-checked scenarios a change of the number of live
// blocks must repeat on re-execution (one-off initialisations are not leaks).
static Outcome run_checked(const Scenario &s, Ctx &c)
{
    const auto steps0 = c.steps;
    long before       = live_blocks();
    Outcome o         = run_once(s, c);
    if (!s.leak || !g_hooks || o.violated || o.skipped || c.tracing) return o;
    for (int i = 0; i < 2 && live_blocks() != before; ++i) {
        c.prefix_len = c.pos;
        c.steps      = steps0;
        before       = live_blocks();
        o            = run_once(s, c);
        if (o.violated || o.skipped) return o;
        if (i == 1 && live_blocks() != before) {
            o.violated = true;
            o.v        = { "leak", "the execution changes the number of live heap blocks by " + std::to_string(live_blocks() - before) };
        }
    }
    return o;
}

static std::string choices_str(const Ctx &c)
{
    std::string s;
    for (int i = 0; i < c.pos; ++i) {
        if (i) s += ",";
        s += std::to_string(c.choice[i]) + "/" + std::to_string(c.width[i]);
    }
    return s;
}

struct Opt {
    std::string out, replay_scn, replay_choices, only;
    int jobs = 8, shard = -1;
    double budget = 1e9, hang = 40;
    bool thorough = false, quietio = true;
    bool list = false;
};

static int worker_main(const Opt &opt, int w, Shared *sh)
{
    std::ofstream res(opt.out + "." + std::to_string(w));
    std::ofstream hs(opt.out + ".states." + std::to_string(w), std::ios::binary);
    auto t0       = clk::now();
    int nviol     = 0;
    auto &sc      = scenarios();
    for (std::size_t si = 0; si < sc.size(); ++si) {
        const Scenario &s = sc[si];
        if (s.thorough_only && !opt.thorough) continue;
        if (!opt.only.empty() && opt.only != s.name) continue;
        sh->scenario = static_cast<int>(si);
        static Ctx c;
        c.thorough   = opt.thorough;
        c.worker     = w;
        c.workers    = opt.jobs;
        c.sh         = sh;
        c.prefix_len = 0;
        c.steps      = 0;
        std::uint64_t execs = 0, maxdepth = 0;
        HSet set;
        bool complete = true;
        std::map<std::string, int> keys, knowns;
        int scn_viol = 0;
        auto ts = clk::now();
        std::uint64_t salt = 1469598103934665603ull;
        for (const char *p = s.name; *p; ++p) salt = mix(salt, static_cast<unsigned char>(*p));
        std::string sample_first;
        for (;;) {
            std::uint64_t steps0 = c.steps;
            Outcome o            = run_checked(s, c);
            sh->execs            = sh->execs + 1;
            bool count           = !o.skipped;
            if (!c.decided && !o.skipped) {
                try {
                    c.decide();
                } catch (Skip &) {
                    count = false;
                }
            }
            if (count) {
                ++execs;
                if (static_cast<std::uint64_t>(c.pos) > maxdepth) maxdepth = static_cast<std::uint64_t>(c.pos);
                for (int i = 0; i < c.npending; ++i) set.add(mix(salt, c.pending[i]));
                if (execs == 1 || execs == 1001) {
                    // Written-out case: repeat the execution with tracing on.
                    c.tracing = true;
                    c.trace.clear();
                    int pl       = c.prefix_len;
                    auto st      = c.steps;
                    c.prefix_len = c.pos;
                    bool m       = c.mine;
                    run_once(s, c);
                    c.tracing    = false;
                    c.prefix_len = pl;
                    c.steps      = st;
                    c.decided    = true;
                    c.mine       = m;
                    std::string t;
                    for (auto &x : c.trace) t += (t.empty() ? "" : "; ") + x;
                    if (t.size() > 1500) t = t.substr(0, 1500) + " ...";
                    res << "{\"t\":\"sample\",\"scenario\":\"" << s.name << "\",\"text\":\"" << esc(t) << "\"}\n";
                }
            } else {
                c.steps = steps0;
            }
            if (!c.known_key.empty() && count && knowns[c.known_key]++ < 1) {
                res << "{\"t\":\"violation\",\"scenario\":\"" << s.name << "\",\"worker\":" << w << ",\"choices\":\"" << choices_str(c) << "\",\"key\":\"" << esc(c.known_key) << "\",\"msg\":\"" << esc(c.known_msg) << "\"}\n"
                    << std::flush;
            }
            if (o.violated) {
                int &k = keys[o.v.key];
                if (k++ < 2) {
                    res << "{\"t\":\"violation\",\"scenario\":\"" << s.name << "\",\"worker\":" << w << ",\"choices\":\"" << choices_str(c) << "\",\"key\":\"" << esc(o.v.key) << "\",\"msg\":\"" << esc(o.v.msg) << "\"}\n"
                        << std::flush;
                }
                ++nviol;
                if (k > 20000 || ++scn_viol > 200000) {
                    complete = false;
                    break;
                }
            }
            // Next choice sequence.
            int p = c.pos - 1;
            while (p >= 0 && c.choice[p] + 1 >= c.width[p]) --p;
            if (p < 0) break;
            ++c.choice[p];
            c.prefix_len = p + 1;
            if ((execs & 63) == 0 || !count) {
                double el = std::chrono::duration<double>(clk::now() - t0).count();
                if (el > opt.budget) {
                    complete = false;
                    break;
                }
            }
        }
        double secs = std::chrono::duration<double>(clk::now() - ts).count();
        for (auto x : set.t)
            if (x) hs.write(reinterpret_cast<const char *>(&x), 8);
        res << "{\"t\":\"scenario\",\"scenario\":\"" << s.name << "\",\"execs\":" << execs << ",\"steps\":" << c.steps << ",\"states\":" << set.n << ",\"capped\":" << (set.capped ? "true" : "false")
            << ",\"maxdepth\":" << maxdepth << ",\"complete\":" << (complete ? "true" : "false") << ",\"secs\":" << secs << "}\n"
            << std::flush;
    }
    res << "{\"t\":\"done\"}\n"
        << std::flush;
    return 0;
}

// Replays with explicit widths (choices are given as value/width pairs).
static int replay_exact(const Opt &opt)
{
    for (const Scenario &s : scenarios()) {
        if (opt.replay_scn != s.name) continue;
        static Ctx c;
        c.thorough = opt.thorough;
        c.force    = true;
        c.tracing  = true;
        std::stringstream ss(opt.replay_choices);
        std::string tok;
        int n = 0;
        while (std::getline(ss, tok, ',')) {
            auto k      = tok.find('/');
            c.choice[n] = static_cast<unsigned>(std::stoul(tok.substr(0, k)));
            c.width[n]  = static_cast<unsigned>(std::stoul(tok.substr(k + 1)));
            ++n;
        }
        c.prefix_len = n;
        if (s.leak) c.tracing = false;
        Outcome o = run_checked(s, c);
        for (auto &t : c.trace) std::printf("  %s\n", t.c_str());
        if (o.violated) {
            std::printf("REPLAY-VIOLATION key=%s\n%s\n", o.v.key.c_str(), o.v.msg.c_str());
            return 1;
        }
        if (!c.known_key.empty()) {
            std::printf("REPLAY-VIOLATION key=%s\n%s\n", c.known_key.c_str(), c.known_msg.c_str());
            return 1;
        }
        std::printf("REPLAY-OK\n");
        return 0;
    }
    std::printf("no such scenario\n");
    return 3;
}

int main(int argc, char **argv)
{
    Opt opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next     = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") opt.out = next();
        else if (a == "--jobs") opt.jobs = std::stoi(next());
        else if (a == "--tier") opt.thorough = (next() == "thorough");
        else if (a == "--budget") opt.budget = std::stod(next());
        else if (a == "--hang") opt.hang = std::stod(next());
        else if (a == "--only") opt.only = next();
        else if (a == "--shard") opt.shard = std::stoi(next());
        else if (a == "--replay") {
            opt.replay_scn     = next();
            opt.replay_choices = next();
        } else if (a == "--list") opt.list = true;
    }
    if (opt.list) {
        for (auto &s : scenarios()) std::printf("%s\n", s.name);
        return 0;
    }
    std::cout.flush();
    std::cout.rdbuf(&nullbuf);
    std::cerr.rdbuf(&nullbuf);
    g_hooks = __sanitizer_install_malloc_and_free_hooks && __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
    if (!opt.replay_scn.empty()) return replay_exact(opt);

    void *mem   = mmap(nullptr, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared *shs = static_cast<Shared *>(mem);
    std::vector<pid_t> pids(static_cast<std::size_t>(opt.jobs), 0);
    std::vector<std::uint64_t> last(pids.size(), 0);
    std::vector<clk::time_point> when(pids.size(), clk::now());
    std::ofstream crash(opt.out + ".crash");
    for (int w = 0; w < opt.jobs; ++w) {
        if (opt.shard >= 0 && w != opt.shard) continue;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            int fd = open((opt.out + ".err." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            dup2(fd, 1);
            int rc = 76;
            try {
                rc = worker_main(opt, w, &shs[w]);
            } catch (...) {
            }
            std::_Exit(rc);
        }
        pids[static_cast<std::size_t>(w)] = p;
    }
    int alive = 0;
    for (auto p : pids) alive += p != 0;
    auto report = [&](int w, const std::string &kind, const std::string &detail) {
        Shared &s = shs[w];
        std::string ch;
        for (int i = 0; i < s.len; ++i) {
            if (i) ch += ",";
            ch += std::to_string(s.choice[i]) + "/" + std::to_string(s.width[i]);
        }
        crash << "{\"t\":\"crash\",\"kind\":\"" << kind << "\",\"worker\":" << w << ",\"scenario\":\"" << scenarios()[static_cast<std::size_t>(s.scenario)].name << "\",\"choices\":\"" << ch << "\",\"detail\":\"" << esc(detail) << "\"}\n"
              << std::flush;
    };
    while (alive > 0) {
        usleep(50000);
        for (int w = 0; w < opt.jobs; ++w) {
            auto i = static_cast<std::size_t>(w);
            if (!pids[i]) continue;
            int st;
            pid_t r = waitpid(pids[i], &st, WNOHANG);
            if (r == pids[i]) {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                } else if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 76)) {
                    report(w, "internal", "engine");
                } else {
                    report(w, "crash", WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)));
                }
                kill(-pids[i], SIGKILL);
                pids[i] = 0;
                --alive;
                continue;
            }
            if (shs[w].execs != last[i]) {
                last[i] = shs[w].execs;
                when[i] = clk::now();
            } else if (std::chrono::duration<double>(clk::now() - when[i]).count() > opt.hang) {
                report(w, "hang", "no progress");
                kill(-pids[i], SIGKILL);
                waitpid(pids[i], &st, 0);
                pids[i] = 0;
                --alive;
            }
        }
    }
    // Merge the distinct states.
    std::vector<std::uint64_t> all;
    for (int w = 0; w < opt.jobs; ++w) {
        std::string f = opt.out + ".states." + std::to_string(w);
        std::ifstream in(f, std::ios::binary);
        if (!in) continue;
        in.seekg(0, std::ios::end);
        auto n = static_cast<std::size_t>(in.tellg()) / 8;
        in.seekg(0);
        std::size_t o = all.size();
        all.resize(o + n);
        in.read(reinterpret_cast<char *>(all.data() + o), static_cast<std::streamsize>(n * 8));
        unlink(f.c_str());
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    std::ofstream sum(opt.out + ".sum");
    sum << "{\"t\":\"merged\",\"states\":" << all.size() << "}\n";
    return 0;
}
