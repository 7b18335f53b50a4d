// vx.hpp -- exhaustive exploration engine used by all sequential checks.
//
// Two explorers, both exhaustive within their stated bounds and both running the real code:
//
//  explore_histories(): depth-bounded enumeration of all operation sequences. Every node of the
//     history tree is a live process; each enabled operation is executed in a forked child, so the
//     implementation state (singletons included) is copied exactly and each transition is executed
//     once. After each transition the world compares implementation and reference model; at every
//     node an optional (destructive) end-of-history check runs in its own fork.
//
//  enumerate(): all cases 0..n-1 of a finite input space, spread over worker processes; a crash or
//     hang is attributed to the case that was running.
//
// A violation is recorded with a replay string "<scenario>|<choices>" and is re-executed alone from
// the initial state before it is reported.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace vx {

struct Violation {
    char scenario[96];
    char replay[2048];
    char sig[512];
    char msg[3072];
    int  len;
};

constexpr size_t   MAXV    = 48;
constexpr size_t   NSAMPLE = 12;
constexpr uint64_t HASHN   = 1u << 23;
constexpr int      MAXW    = 64;

struct Shared {
    std::atomic<uint64_t> evaluations, transitions, leaves, distinct, hash_full, outcomes;
    std::atomic<int>      tokens;
    std::atomic<uint32_t> known_hits[64];
    std::atomic<uint32_t> nviol, nviol_total, nsample, capped;
    std::atomic<uint64_t> next_block;
    std::atomic<uint64_t> cur[MAXW];
    std::atomic<uint64_t> wend[MAXW];
    Violation             viol[MAXV];
    char                  sample[NSAMPLE][768];
    std::atomic<uint64_t> hash[HASHN];
};

inline Shared* S = nullptr;

struct Options {
    std::string tier = "quick", out, replay, only, scratch = "/tmp";
    int         jobs    = 8;
    double      budget  = 600;
    bool        verbose = false;
};
inline Options opt;
inline bool    thorough() { return opt.tier == "thorough"; }
inline double  now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
inline double t_start = 0;

struct Fail {
    std::string msg, sig;
};
inline std::vector<std::string> known; // signatures of listed findings (--known FILE)

inline std::string vfmt(const char* f, va_list ap)
{
    char    buf[3000];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
// fail(): the property is broken in the current execution.
[[noreturn]] inline void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    throw Fail { s, "" };
}
[[noreturn]] inline void failsig(const char* sig, const char* f, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] inline void failsig(const char* sig, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    throw Fail { s, sig };
}
#define VX_CHECK(cond, ...)            \
    do {                               \
        if (!(cond)) vx::fail(__VA_ARGS__); \
    } while (0)

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// Count a distinct state / distinct non-trivial case. Returns true if new.
inline bool seen(uint64_t h)
{
    if (h == 0) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 41; // 23 bits
    for (int probe = 0; probe < 256; ++probe, i = (i + 1) % HASHN) {
        uint64_t v = S->hash[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) {
            if (S->hash[i].compare_exchange_strong(v, h)) {
                S->distinct++;
                return true;
            }
            if (v == h) return false;
        }
    }
    S->hash_full++;
    return false;
}
inline bool seen(const std::string& s) { return seen(fnv(s)); }

inline void sample(const std::string& s)
{
    if (S->nsample.load() >= NSAMPLE) return;
    uint32_t n = S->nsample++;
    if (n < NSAMPLE) snprintf(S->sample[n], sizeof S->sample[n], "%s", s.c_str());
}

inline void record(const std::string& scen, const std::string& replay, const std::string& msg, const std::string& sig, int len)
{
    if (!sig.empty())
        for (size_t k = 0; k < known.size() && k < 64; ++k)
            if (known[k] == sig) {
                S->known_hits[k]++;
                return;
            }
    S->nviol_total++;
    uint32_t n = S->nviol++;
    if (n >= MAXV) return;
    Violation& v = S->viol[n];
    snprintf(v.scenario, sizeof v.scenario, "%s", scen.c_str());
    snprintf(v.replay, sizeof v.replay, "%s", replay.c_str());
    snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
    snprintf(v.sig, sizeof v.sig, "%s", sig.c_str());
    v.len = len;
}
inline bool too_many() { return S->nviol.load(std::memory_order_relaxed) >= MAXV; }
inline bool over_budget()
{
    if (now() - t_start > opt.budget) {
        S->capped = 1;
        return true;
    }
    return false;
}

inline std::string status_str(int st)
{
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGALRM || s == SIGVTALRM || s == SIGXCPU) return "does not terminate (CPU time limit)";
        return fmt("crash: signal %d (%s)", s, strsignal(s));
    }
    int c = WEXITSTATUS(st);
    if (c == 99) return "sanitizer report";
    return fmt("abnormal exit %d", c);
}

// Limit CPU time of the current process (hang detection that is independent of machine load).
inline void cpu_limit(int sec)
{
    timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    itimerval it {};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    // blocked-forever detection (deadlock on a lock): wall clock, generous
    itimerval rt {};
    rt.it_value.tv_sec = 2 * sec;
    setitimer(ITIMER_REAL, &rt, nullptr);
}
inline void cpu_unlimit()
{
    itimerval z {};
    setitimer(ITIMER_VIRTUAL, &z, nullptr);
    setitimer(ITIMER_REAL, &z, nullptr);
}

constexpr int EX_OK = 0, EX_VIOL = 3;

// Run f in a forked copy of this process; a failure or crash there is rethrown here as Fail.
// Returns the string produced by f.
inline std::string in_fork(const std::function<std::string()>& f, int cpu_sec = 20)
{
    int pfd[2];
    if (pipe(pfd)) abort();
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        cpu_limit(cpu_sec);
        std::string out;
        char        tag = 'K';
        std::string sig;
        try {
            out = f();
        } catch (Fail& x) {
            tag = 'F';
            out = x.msg;
            sig = x.sig;
        } catch (std::exception& e) {
            tag = 'F';
            out = std::string("uncaught exception: ") + e.what();
        }
        std::string all = std::string(1, tag) + sig + "\1" + out;
        size_t      off = 0;
        while (off < all.size()) {
            ssize_t n = write(pfd[1], all.data() + off, all.size() - off);
            if (n <= 0) break;
            off += n;
        }
        fflush(nullptr);
        _exit(0);
    }
    close(pfd[1]);
    std::string res;
    char        buf[65536];
    ssize_t     n;
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) res.append(buf, n);
    close(pfd[0]);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || res.empty()) throw Fail { status_str(st), "" };
    auto        q   = res.find('\1');
    std::string sig = res.substr(1, q - 1), out = res.substr(q + 1);
    if (res[0] == 'F') throw Fail { out, sig };
    return out;
}

// ------------------------------------------------------------------ history explorer
struct World {
    virtual ~World() {}
    virtual void        setup() {}
    virtual int         nops() const = 0;
    virtual std::string opname(int) const = 0;
    virtual bool        enabled(int) const { return true; }
    virtual void        apply(int) = 0;   // execute on implementation and model, compare
    virtual bool        has_final() const { return false; }
    virtual void        final() {}        // destructive end-of-history check
    virtual std::string state() const { return ""; } // canonical model state (for counting only)
};
using WorldFactory = std::function<std::unique_ptr<World>()>;

struct Scenario {
    std::string  name;
    WorldFactory make;
    int          depth;
};

inline std::string path_str(const std::vector<int>& p)
{
    std::string s;
    for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + std::to_string(p[i]);
    return s;
}
inline std::string path_names(const World& w, const std::vector<int>& p)
{
    std::string s;
    for (size_t i = 0; i < p.size(); ++i) s += (i ? "; " : "") + w.opname(p[i]);
    return s;
}

inline void rec_hist(const Scenario& sc, const World& w, const std::vector<int>& path, const std::string& msg, const std::string& sig, bool fin)
{
    record(sc.name, sc.name + "|" + path_str(path) + (fin ? "|final" : "|"), msg + "\n  history: " + path_names(w, path) + (fin ? " ; <end-of-history check>" : ""), sig, (int) path.size());
}

inline void hist_node(const Scenario& sc, World& w, std::vector<int>& path, bool hold_token);

inline void run_final(const Scenario& sc, World& w, std::vector<int>& path)
{
    S->evaluations++;
    try {
        w.final();
    } catch (Fail& f) {
        rec_hist(sc, w, path, f.msg, f.sig, true);
    } catch (std::exception& e) {
        rec_hist(sc, w, path, std::string("uncaught exception: ") + e.what(), "", true);
    }
}

inline void hist_node(const Scenario& sc, World& w, std::vector<int>& path)
{
    if (!w.state().empty() || true) seen(fnv(sc.name, fnv(w.state())));
    if (too_many() || over_budget()) return;
    bool leaf = (int) path.size() >= sc.depth;
    if (leaf) {
        S->leaves++;
        if (w.has_final())
            run_final(sc, w, path);
        if (S->leaves.load(std::memory_order_relaxed) % 997 == 1) sample(sc.name + ": " + path_names(w, path));
        return;
    }
    std::vector<std::pair<pid_t, int>> async; // pid, op (-1 = final)
    auto reap = [&](pid_t p, int op) {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == EX_OK)) {
            std::vector<int> pp = path;
            if (op >= 0) pp.push_back(op);
            rec_hist(sc, w, pp, status_str(st), "", op < 0);
            return false;
        }
        return true;
    };
    auto child = [&](int op, bool tok) {
        pid_t p = fork();
        if (p < 0) {
            S->capped = 1;
            return;
        }
        if (p == 0) {
            cpu_limit(20);
            if (op < 0) {
                run_final(sc, w, path);
            } else {
                path.push_back(op);
                S->transitions++;
                bool ok = false;
                try {
                    w.apply(op);
                    ok = true;
                } catch (Fail& f) {
                    rec_hist(sc, w, path, f.msg, f.sig, false);
                } catch (std::exception& e) {
                    rec_hist(sc, w, path, std::string("uncaught exception: ") + e.what(), "", false);
                }
                cpu_unlimit();
                if (ok) {
                    hist_node(sc, w, path);
                }
            }
            fflush(nullptr);
            if (tok) S->tokens++; // hand the processor slot on at once
            _exit(EX_OK);
        }
        if (tok)
            async.emplace_back(p, op);
        else
            reap(p, op);
    };
    auto try_token = [&]() {
        if ((int) path.size() > sc.depth - 2) return false;
        int t = S->tokens.load();
        while (t > 0)
            if (S->tokens.compare_exchange_weak(t, t - 1)) return true;
        return false;
    };
    int                           n = w.nops();
    for (int op = (w.has_final() ? -1 : 0); op < n; ++op) {
        if (op >= 0 && !w.enabled(op)) continue;
        bool tok = try_token();
        child(op, tok);
        if (tok) {
            // reap finished children early so that tokens flow back
            for (size_t i = 0; i < async.size();) {
                int   st = 0;
                pid_t r  = waitpid(async[i].first, &st, WNOHANG);
                if (r == async[i].first) {
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == EX_OK)) {
                        S->tokens++;
                        std::vector<int> pp = path;
                        if (async[i].second >= 0) pp.push_back(async[i].second);
                        rec_hist(sc, w, pp, status_str(st), "", async[i].second < 0);
                    }
                    async.erase(async.begin() + i);
                } else
                    ++i;
            }
        }
        if (too_many()) break;
    }
    if (!async.empty()) {
        S->tokens++; // waiting costs no CPU: lend the slot while waiting
        for (auto& a : async)
            if (!reap(a.first, a.second)) S->tokens++;
        S->tokens--;
    }
}

struct Result {
    std::string scenario;
    double      wall;
    uint64_t    transitions, leaves, evaluations, distinct;
    int         depth;
};
inline std::vector<Result>& results()
{
    static std::vector<Result> r;
    return r;
}

struct Snap {
    uint64_t t, l, e, d;
    double   w;
    Snap() : t(S->transitions), l(S->leaves), e(S->evaluations), d(S->distinct), w(now()) {}
    void done(const std::string& n, int depth)
    {
        results().push_back({ n, now() - w, S->transitions - t, S->leaves - l, S->evaluations - e, S->distinct - d, depth });
        if (opt.verbose)
            fprintf(stderr, "[vx] %s depth=%d transitions=%lu leaves=%lu evals=%lu distinct=%lu viol=%u %.1fs\n", n.c_str(), depth,
                    S->transitions - t, S->leaves - l, S->evaluations - e, S->distinct - d, (unsigned) S->nviol_total, now() - w);
    }
};

// Run one history alone, from the initial state. Returns "" if no violation.
inline std::string replay_history(const Scenario& sc, const std::vector<int>& path, bool fin, bool verbose)
{
    int pfd[2];
    if (pipe(pfd)) abort();
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        cpu_limit(60);
        std::string out;
        try {
            auto w = sc.make();
            w->setup();
            for (size_t i = 0; i < path.size(); ++i) {
                if (verbose) {
                    fprintf(stderr, "  step %zu: %s\n", i, w->opname(path[i]).c_str());
                    fflush(stderr);
                }
                if (!w->enabled(path[i])) {
                    out = "!replay divergence: operation not enabled";
                    break;
                }
                w->apply(path[i]);
            }
            if (out.empty() && fin) w->final();
        } catch (Fail& f) {
            out = f.msg;
        } catch (std::exception& e) {
            out = std::string("uncaught exception: ") + e.what();
        }
        (void) !write(pfd[1], out.data(), out.size());
        fflush(nullptr);
        _exit(0);
    }
    close(pfd[1]);
    std::string res;
    char        buf[4096];
    ssize_t     n;
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) res.append(buf, n);
    close(pfd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) res = status_str(st) + res;
    return res;
}

struct EnumCase {
    std::string                          name;
    uint64_t                             n;
    std::function<void(uint64_t)>        run;
    std::function<std::string(uint64_t)> describe;
    uint64_t                             block = 64;
    std::function<void()>                init; // runs once per worker process
};

inline std::string replay_enum(const EnumCase& ec, uint64_t i)
{
    int pfd[2];
    if (pipe(pfd)) abort();
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        cpu_limit(120);
        std::string out;
        try {
            if (ec.init) ec.init();
            ec.run(i);
        } catch (Fail& f) {
            out = f.msg;
        } catch (std::exception& e) {
            out = std::string("uncaught exception: ") + e.what();
        }
        (void) !write(pfd[1], out.data(), out.size());
        fflush(nullptr);
        _exit(0);
    }
    close(pfd[1]);
    std::string res;
    char        buf[4096];
    ssize_t     n;
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) res.append(buf, n);
    close(pfd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) res = status_str(st) + res;
    return res;
}

struct Driver {
    std::vector<Scenario> scen;
    std::vector<EnumCase> enums;

    void histories(const std::string& name, int depth, WorldFactory f) { scen.push_back({ name, f, depth }); }
    void enumerate(const std::string& name, uint64_t n, std::function<void(uint64_t)> run, std::function<std::string(uint64_t)> desc, uint64_t block = 64, std::function<void()> init = {})
    {
        enums.push_back({ name, n, run, desc, block, init });
    }

    void run_scen(const Scenario& sc)
    {
        Snap snap;
        S->tokens = opt.jobs - 1;
        pid_t p   = fork();
        if (p == 0) {
            std::vector<int> path;
            auto             w = sc.make();
            try {
                w->setup();
            } catch (Fail& f) {
                rec_hist(sc, *w, path, "setup: " + f.msg, f.sig, false);
                _exit(0);
            }
            hist_node(sc, *w, path);
            fflush(nullptr);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            record(sc.name, sc.name + "||", "setup failed: " + status_str(st), "", 0);
        }
        snap.done(sc.name, sc.depth);
    }

    void run_enum(const EnumCase& ec)
    {
        Snap snap;
        S->next_block = 0;
        int W         = opt.jobs;
        std::vector<pid_t> pid(W, 0);
        auto               worker = [&](int k, uint64_t from, uint64_t to) {
            pid_t p = fork();
            if (p) return p;
            if (ec.init) ec.init();
            uint64_t i = from, e = to;
            for (;;) {
                for (; i < e; ++i) {
                    if (too_many()) _exit(0);
                    S->cur[k]  = i;
                    S->wend[k] = e;
                    cpu_limit(60);
                    S->evaluations++;
                    try {
                        ec.run(i);
                    } catch (Fail& f) {
                        record(ec.name, ec.name + "|" + std::to_string(i), f.msg + "\n  case: " + ec.describe(i), f.sig, 1);
                    } catch (std::exception& x) {
                        record(ec.name, ec.name + "|" + std::to_string(i), std::string("uncaught exception: ") + x.what() + "\n  case: " + ec.describe(i), "", 1);
                    }
                    if (i % 10007 == 3 || ec.n < 8) sample(ec.name + ": " + ec.describe(i));
                }
                if (over_budget()) break;
                uint64_t b = S->next_block.fetch_add(ec.block);
                if (b >= ec.n) break;
                i = b;
                e = std::min(ec.n, b + ec.block);
            }
            fflush(nullptr);
            _exit(0);
        };
        int live = 0;
        for (int k = 0; k < W; ++k) {
            S->cur[k] = S->wend[k] = 0;
            pid[k]                 = worker(k, 0, 0);
            ++live;
        }
        while (live > 0) {
            int   st = 0;
            pid_t p  = waitpid(-1, &st, 0);
            if (p < 0) break;
            int k = 0;
            while (k < W && pid[k] != p) ++k;
            if (k == W) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                --live;
                continue;
            }
            uint64_t i = S->cur[k];
            record(ec.name, ec.name + "|" + std::to_string(i), status_str(st) + "\n  case: " + ec.describe(i), "", 1);
            if (too_many()) {
                --live;
                continue;
            }
            pid[k] = worker(k, i + 1, S->wend[k]);
        }
        snap.done(ec.name, 0);
    }

    static std::string jesc(const std::string& s)
    {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
            else o += c;
        }
        return o;
    }

    int do_replay(const std::string& r)
    {
        auto p1 = r.find('|');
        std::string scn = r.substr(0, p1), rest = p1 == std::string::npos ? "" : r.substr(p1 + 1);
        for (auto& sc : scen)
            if (sc.name == scn) {
                auto             p2 = rest.find('|');
                std::string      ops = rest.substr(0, p2), fin = p2 == std::string::npos ? "" : rest.substr(p2 + 1);
                std::vector<int> path;
                for (const char* c = ops.c_str(); *c;) {
                    path.push_back(strtol(c, const_cast<char**>(&c), 10));
                    if (*c == ',') ++c;
                }
                std::string m = replay_history(sc, path, fin == "final", true);
                fprintf(stderr, "%s\n", m.empty() ? "no violation" : m.c_str());
                return m.empty() ? 0 : 1;
            }
        for (auto& ec : enums)
            if (ec.name == scn) {
                uint64_t i = strtoull(rest.c_str(), nullptr, 10);
                fprintf(stderr, "case: %s\n", ec.describe(i).c_str());
                std::string m = replay_enum(ec, i);
                fprintf(stderr, "%s\n", m.empty() ? "no violation" : m.c_str());
                return m.empty() ? 0 : 1;
            }
        fprintf(stderr, "unknown scenario %s\n", scn.c_str());
        return 2;
    }

    std::string confirm(const Violation& v)
    {
        std::string r = v.replay;
        auto        p1 = r.find('|');
        std::string scn = r.substr(0, p1), rest = r.substr(p1 + 1);
        for (auto& sc : scen)
            if (sc.name == scn) {
                auto             p2 = rest.find('|');
                std::string      ops = rest.substr(0, p2), fin = rest.substr(p2 + 1);
                std::vector<int> path;
                for (const char* c = ops.c_str(); *c;) {
                    path.push_back(strtol(c, const_cast<char**>(&c), 10));
                    if (*c == ',') ++c;
                }
                return replay_history(sc, path, fin == "final", false);
            }
        for (auto& ec : enums)
            if (ec.name == scn) return replay_enum(ec, strtoull(rest.c_str(), nullptr, 10));
        return "";
    }

    int main(int argc, char** argv)
    {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto        nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--tier") opt.tier = nx();
            else if (a == "--out") opt.out = nx();
            else if (a == "--replay") opt.replay = nx();
            else if (a == "--only") opt.only = nx();
            else if (a == "--jobs") opt.jobs = atoi(nx().c_str());
            else if (a == "--budget") opt.budget = atof(nx().c_str());
            else if (a == "--scratch") opt.scratch = nx();
            else if (a == "--known") {
                FILE* f = fopen(nx().c_str(), "r");
                char  b[1024];
                while (f && fgets(b, sizeof b, f)) {
                    b[strcspn(b, "\n")] = 0;
                    if (*b) known.push_back(b);
                }
                if (f) fclose(f);
            }
            else if (a == "-v") opt.verbose = true;
        }
        if (opt.jobs > MAXW) opt.jobs = MAXW;
        t_start = now();
        S       = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (S == MAP_FAILED) { perror("mmap"); return 2; }
        define();
        if (!opt.replay.empty()) return do_replay(opt.replay);
        int savederr = -1;
        if (!opt.verbose || getenv("VX_QUIET")) {
            // the library's own log goes to stderr
            int dn   = open("/dev/null", O_WRONLY);
            savederr = dup(2);
            dup2(dn, 2);
        }
        for (auto& ec : enums)
            if (opt.only.empty() || ec.name.find(opt.only) == 0) run_enum(ec);
        for (auto& sc : scen)
            if (opt.only.empty() || sc.name.find(opt.only) == 0) run_scen(sc);
        // replay before report
        uint32_t nv = std::min<uint32_t>(S->nviol, MAXV);
        std::vector<std::pair<int, std::string>> conf;
        int                                      unconfirmed = 0;
        std::vector<int> order(nv);
        for (uint32_t k = 0; k < nv; ++k) order[k] = k;
        std::stable_sort(order.begin(), order.end(), [](int a, int b) { return S->viol[a].len < S->viol[b].len; });
        double tc = now();
        for (int k : order) {
            if (conf.size() >= 8 || (now() - tc > 150 && !conf.empty()) || now() - tc > 300) break;
            std::string m = confirm(S->viol[k]);
            if (m.empty()) { ++unconfirmed; continue; }
            conf.emplace_back(k, m);
        }
        if (savederr >= 0) dup2(savederr, 2);
        std::string j = "{\n";
        j += fmt("\"evaluations\": %lu, \"transitions\": %lu, \"leaves\": %lu, \"distinct\": %lu, \"capped\": %s, \"violations_total\": %u, \"unconfirmed\": %d, \"wall\": %.3f,\n",
                 S->evaluations.load(), S->transitions.load(), S->leaves.load(), S->distinct.load(), (S->capped || S->hash_full) ? "true" : "false", S->nviol_total.load(), unconfirmed, now() - t_start);
        j += "\"scenarios\": [";
        bool first = true;
        for (auto& r : results()) {
            j += std::string(first ? "\n" : ",\n") + fmt(" {\"name\": \"%s\", \"depth\": %d, \"transitions\": %lu, \"histories\": %lu, \"evaluations\": %lu, \"distinct\": %lu, \"wall\": %.2f}",
                     jesc(r.scenario).c_str(), r.depth, r.transitions, r.leaves, r.evaluations, r.distinct, r.wall);
            first = false;
        }
        j += "],\n\"samples\": [";
        for (uint32_t k = 0; k < std::min<uint32_t>(S->nsample, NSAMPLE); ++k) j += std::string(k ? ",\n \"" : "\n \"") + jesc(S->sample[k]) + "\"";
        j += "],\n\"known_hits\": [";
        for (size_t k = 0, c = 0; k < known.size() && k < 64; ++k)
            if (S->known_hits[k]) j += std::string(c++ ? ", \"" : "\"") + jesc(known[k]) + "\"";
        j += "],\n\"violations\": [";
        first = true;
        for (auto& c : conf) {
            Violation& v = S->viol[c.first];
            j += std::string(first ? "\n" : ",\n") + " {\"scenario\": \"" + jesc(v.scenario) + "\", \"replay\": \"" + jesc(v.replay) + "\", \"sig\": \"" + jesc(v.sig) + "\", \"len\": " + std::to_string(v.len) + ", \"msg\": \"" + jesc(v.msg) + "\", \"confirmed\": \"" + jesc(c.second.substr(0, 1000)) + "\"}";
            first = false;
        }
        j += "]\n}\n";
        if (!opt.out.empty()) {
            FILE* f = fopen(opt.out.c_str(), "w");
            fputs(j.c_str(), f);
            fclose(f);
        } else
            fputs(j.c_str(), stdout);
        return 0;
    }
    std::function<void()> define = [] {};
};

} // namespace vx
