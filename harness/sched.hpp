// Controlled scheduling of real threads (runtime in sched_rt.cpp).  explore() runs a body once per schedule, each
// in a forked process: threads are real pthreads of which one runs at a time; the runtime decides at every
// synchronization operation that can conflict which one continues.  All schedules with up to `bound' preemptions
// are run.  Every run checks for data races (vector clocks), use of freed memory, deadlocks and livelocks.
#pragma once
#include "vx.hpp"
#include <functional>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>

extern "C" {
enum { SR_MAXPT = 4096, SR_MAXDEV = 128, SR_MAXKEY = 4096, SR_NKEY = 1 << 13, SR_MAXOPEN = 200000, SR_MAXEV = 16384 };
struct sr_dev { uint16_t step; uint8_t tid, pad; };
struct sr_pt { uint8_t enabled, chosen, cur, cur_enabled, def; };
struct sr_ev { uint16_t obj; int16_t pt; uint8_t tid, write, svc[4]; };  // svc: order by creation and joining of threads
struct sr_shm {
    // set by the explorer
    uint32_t ndev; sr_dev dev[SR_MAXDEV];
    uint64_t keyset[SR_NKEY];                   // operations that are scheduling points (hash table)
    uint32_t nnew; uint64_t fresh[SR_MAXKEY];   // (by the run) further such operations
    uint64_t sig_at, sig_at2;                   // interrupt thread 0 at its n-th access in the window (0: never)
    uint32_t sig_survey;                        // and at every access where `survey' says that the handler is locked out
    // set by the run
    uint32_t done, failed, diverged, grown;
    uint32_t npt; sr_pt pt[SR_MAXPT];
    uint32_t nev; sr_ev ev[SR_MAXEV];           // operations at scheduling points, in order
    uint64_t accesses, syncs, window;
    uint32_t sig_ran;                           // handlers at sig_at, sig_at2
    uint64_t sig_locked, sig_wrote;             // survey: handlers that were locked out; of those, that wrote memory
    uint32_t nopen; uint32_t open[SR_MAXOPEN];  // survey: accesses where the handler is not locked out, or wrote
    char msg[8192];
};
void sr_setup(sr_shm*);
void sr_start();                 // in the forked process, before the body
void sr_stop();                  // after all threads were joined: no more scheduling or checks
void sr_window(int on, void (*handler)());
uint64_t sr_allocations();        // so far
void sr_survey(bool (*locked)());  // is the handler locked out?
int sr_self();
void sr_pause(int on);           // the calling thread's accesses are not checked (harness bookkeeping)
}

namespace sched {

struct Quiet { Quiet() { sr_pause(1); } ~Quiet() { sr_pause(-1); } };

inline std::string symbolize(const std::string& m)
{
    // replaces "@401234" by function and line
    std::string o, pcs;
    std::vector<std::string> l;
    for (size_t i = 0; i + 1 < m.size(); ++i) if (m[i] == '@' && isxdigit(m[i + 1])) { size_t e = i + 1; while (e < m.size() && isxdigit(m[e])) ++e; l.push_back(m.substr(i + 1, e - i - 1)); }
    if (l.empty()) return m;
    std::string cmd = "addr2line -Csfpe /proc/" + std::to_string(getpid()) + "/exe";
    for (auto& p : l) cmd += vx::fmt(" 0x%lx", strtoul(p.c_str(), nullptr, 16) - 1);
    FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r");
    std::vector<std::string> r;
    char b[2048];
    while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; r.push_back(std::string(b).substr(0, 160)); }
    if (f) pclose(f);
    size_t k = 0;
    for (size_t i = 0; i < m.size(); ++i) {
        if (m[i] == '@' && i + 1 < m.size() && isxdigit(m[i + 1])) { size_t e = i + 1; while (e < m.size() && isxdigit(m[e])) ++e; o += k < r.size() ? r[k] : m.substr(i, e - i); ++k; i = e - 1; }
        else o += m[i];
    }
    return o;
}

// the same addresses in every run
inline void fixed_addresses(char** argv)
{
    int p = personality(0xffffffff);
    if (p == -1 || (p & ADDR_NO_RANDOMIZE) || getenv("SR_FIXED")) return;
    setenv("SR_FIXED", "1", 1);
    if (personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
}
struct Stats { uint64_t runs = 0, points = 0, maxpt = 0, dropped = 0; bool complete = true; };

// one execution; returns "" or what failed
inline std::string run1(sr_shm* s, const std::vector<sr_dev>& dev, const std::function<void()>& body)
{
    s->ndev = dev.size();
    if (dev.size() > SR_MAXDEV) return "internal: schedule too long";
    memcpy(s->dev, dev.data(), dev.size() * sizeof(sr_dev));
    s->done = s->failed = s->diverged = s->grown = s->npt = s->nev = s->sig_ran = s->nnew = s->nopen = 0;
    s->accesses = s->syncs = s->window = s->sig_locked = s->sig_wrote = 0;
    s->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        alarm(60);
        try { sr_start(); body(); sr_stop(); s->done = 1; }
        catch (vx::Fail& f) { sr_stop(); s->failed = 1; strncpy(s->msg, f.msg.c_str(), sizeof s->msg - 1); }
        catch (std::exception& x) { sr_stop(); s->failed = 1; strncpy(s->msg, (std::string("uncaught exception: ") + x.what()).c_str(), sizeof s->msg - 1); }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (s->failed) return std::string("f") + s->msg;
    if (!s->done) return "f" + vx::status_str(st);
    return "";
}
inline sr_shm* shm()
{
    static sr_shm* s = nullptr;
    static pid_t owner = 0;
    if (owner != getpid()) { s = (sr_shm*) mmap(nullptr, sizeof(sr_shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner = getpid(); sr_setup(s); }
    return s;
}
inline std::string show(const std::vector<sr_dev>& d)
{
    std::string r;
    for (auto& x : d) r += vx::fmt("%s%d>T%d", r.empty() ? "" : " ", x.step, x.tid);
    return r.empty() ? "run each thread until it blocks" : r;
}
inline void clear_keys(sr_shm* s) { memset(s->keyset, 0, sizeof s->keyset); s->nnew = 0; }
inline void add_keys(sr_shm* s)
{
    for (unsigned i = 0; i < s->nnew; ++i) {
        uint64_t k = s->fresh[i];
        unsigned h = (unsigned) ((k >> 2) * 2654435761u) & (SR_NKEY - 1);
        while (s->keyset[h] && s->keyset[h] != k) h = (h + 1) & (SR_NKEY - 1);
        s->keyset[h] = k;
    }
    s->nnew = 0;
}
// All schedules with up to `bound' preemptions, up to equivalence (commuting independent operations): bounded dynamic
// partial-order reduction after Coons, Musuvathi and McKinley.  After each run, every pair of conflicting operations of
// two threads that are not ordered otherwise asks for the other order: the second thread is scheduled before the first
// operation, and (as that may exceed the bound) at the place where the first thread was switched in.
// Throws on the first failure (after running it again).
inline Stats explore(int bound, const std::function<void()>& body, uint64_t salt = 0, uint64_t maxruns = ~0ull)
{
    sr_shm* s = shm();
    clear_keys(s);
    s->sig_at = s->sig_at2 = s->sig_survey = 0;
    Stats t;
    typedef std::vector<sr_dev> Devs;
    auto hash = [](const Devs& d) { uint64_t h = 1469598103934665603ull; for (auto& x : d) h = (h ^ (x.step * 8u + x.tid + 1)) * 1099511628211ull; return h ^ h >> 29; };
    for (int restarts = 0;; ++restarts) {
        std::vector<Devs> stack(1);
        std::set<uint64_t> asked;
        bool again = false;
        uint64_t runs = t.runs;
        t = Stats();
        (void) runs;
        while (!stack.empty()) {
            Devs j = stack.back();
            stack.pop_back();
            vx::cpu_limit(60);
            std::string m = run1(s, j, body);
            ++t.runs;
            if (t.runs % 64 == 0 && vx::over_budget()) { t.complete = false; return t; }
            vx::S->transitions++;
            if (getenv("SR_DEBUG")) fprintf(stderr, "run %lu: %s npt %u nev %u new keys %u grown %u stack %zu\n", t.runs, show(j).c_str(), s->npt, s->nev, s->nnew, s->grown, stack.size());
            if (!m.empty() || s->diverged) {
                // timing (a limit on a loaded machine) is the only thing not under control: report what can be repeated
                std::string first = m;
                for (int k = 0; k < 3; ++k) {
                    m = run1(s, j, body);
                    if (!m.empty() && !s->diverged) vx::fail("%s\n(schedule: %s)", symbolize(m.substr(1)).c_str(), show(j).c_str());
                    if (m.empty()) break;
                }
                if (!m.empty()) { fprintf(stderr, "[sched] dropped (%s): %s\n", show(j).c_str(), first.c_str()); ++t.dropped; continue; }
            }
            if (s->grown && restarts < 100) { add_keys(s); again = true; break; }
            t.points += s->npt;
            t.maxpt = std::max<uint64_t>(t.maxpt, s->npt);
            uint64_t h = 1469598103934665603ull;
            for (unsigned i = 0; i < s->npt; ++i) h = (h ^ (s->pt[i].chosen + 16 * s->pt[i].enabled)) * 1099511628211ull;
            vx::seen(h ^ (salt + 1) * 0x9e3779b97f4a7c15ull);
            if (t.runs >= maxruns) { t.complete = false; return t; }
            std::vector<int> cost(s->npt + 1, 0);
            for (unsigned i = 0; i < s->npt; ++i) cost[i + 1] = cost[i] + (s->pt[i].cur_enabled && s->pt[i].chosen != s->pt[i].cur);
            auto ask = [&](int pt, int u) {     // schedule u at point pt
                const sr_pt& p = s->pt[pt];
                auto add = [&](int a) {
                    if (a == p.chosen || a == p.def || cost[pt] + (p.cur_enabled && a != p.cur ? 1 : 0) > bound) return;
                    Devs n;
                    for (auto& x : j) if (x.step < pt) n.push_back(x);
                    n.push_back({ (uint16_t) pt, (uint8_t) a, 0 });
                    if (asked.insert(hash(n)).second) stack.push_back(n);
                };
                if (p.enabled >> u & 1) add(u);
                else for (int a = 0; a < 8; ++a) if (p.enabled >> a & 1) add(a);
            };
            // the default choice at a deviation point is asked for by the run that had it
            struct Obj { int w = -1; std::vector<int> r; std::vector<uint32_t> cw = std::vector<uint32_t>(8), cr = std::vector<uint32_t>(8); };
            std::map<int, Obj> obj;
            uint32_t clk[8][8] = {};
            std::vector<uint32_t> own(s->nev);
            for (unsigned k = 0; k < s->nev; ++k) {
                const sr_ev& e = s->ev[k];
                Obj& o = obj[e.obj];
                uint32_t* c = clk[e.tid];
                auto conflict = [&](int i) {
                    const sr_ev& f = s->ev[i];
                    if (f.tid == e.tid || own[i] <= c[f.tid] || f.pt < 0 || f.svc[f.tid] <= e.svc[f.tid]) return;
                    ask(f.pt, e.tid);
                    int b = f.pt;   // start of the block
                    while (b > 0 && s->pt[b].cur == f.tid && s->pt[b - 1].chosen == f.tid) --b;
                    if (b != f.pt) ask(b, e.tid);
                };
                if (o.w >= 0) conflict(o.w);
                if (e.write) for (int i : o.r) conflict(i);
                for (int u = 0; u < 8; ++u) { c[u] = std::max(c[u], o.cw[u]); if (e.write) c[u] = std::max(c[u], o.cr[u]); }
                own[k] = ++c[e.tid];
                if (e.write) { o.w = k; o.r.clear(); for (int u = 0; u < 8; ++u) o.cw[u] = c[u]; }
                else { o.r.push_back(k); for (int u = 0; u < 8; ++u) o.cr[u] = std::max(o.cr[u], c[u]); }
            }
        }
        if (!again) return t;
    }
}
// One execution per interruption point, which is an access of thread 0 inside sr_window().  Where the handler is locked out
// and then writes nothing, the program goes on as without it: all such points are done in a single execution.
// `twice': all pairs of interruptions, too.  Interruptions i with i % step == part.
struct Interrupts { uint64_t points = 0, open = 0, pairs = 0, wrote = 0; };
inline Interrupts interrupts(const std::function<void()>& body, bool twice = false, bool each = false, uint64_t part = 0, uint64_t step = 1)
{
    sr_shm* s = shm();
    Interrupts n;
    auto run = [&](uint64_t at, uint64_t at2, bool survey) {
        clear_keys(s);
        s->sig_at = at; s->sig_at2 = at2; s->sig_survey = survey;
        vx::cpu_limit(120);
        std::string m = run1(s, {}, body);
        vx::S->transitions++;
        if (m.empty()) return;
        std::string first = m;
        for (int i = 0; i < 3 && !m.empty(); ++i) {
            m = run1(s, {}, body);
            if (!m.empty()) vx::fail("%s\n(interrupted at %s)", symbolize(m.substr(1)).c_str(), survey ? "some access where the handler is locked out" : vx::fmt(at2 ? "accesses %lu and %lu" : "access %lu", at, at2).c_str());
        }
        fprintf(stderr, "[sched] dropped (%lu): %s\n", at, first.c_str());
    };
    auto survey = [&](uint64_t at) {
        run(at, 0, true);
        n.points += s->window;
        n.wrote += s->sig_wrote;
        if (s->nopen >= SR_MAXOPEN) vx::fail("internal: too many interruption points");
        return std::vector<uint32_t>(s->open, s->open + s->nopen);
    };
    std::vector<uint32_t> open = survey(0);
    n.open = open.size();
    if (each) { uint64_t w = n.points; open.clear(); for (uint64_t k = 1; k <= w; ++k) open.push_back(k); }
    for (size_t i = part; i < open.size(); i += step) {
        run(open[i], 0, false);
        if (vx::over_budget()) break;
        if (!twice) continue;
        for (uint32_t k : survey(open[i])) { run(open[i], k, false); ++n.pairs; }
    }
    s->sig_at = s->sig_at2 = s->sig_survey = 0;
    return n;
}

} // namespace sched
