// Runtime of sched.hpp: the entry points of compiler instrumentation (-fsanitize=thread, without its library), memory
// allocation and the pthread functions, so that one thread runs at a time and every access is seen.  Not instrumented
// itself, and free of templates from headers (they must not replace instrumented instances).
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" {
enum { SR_MAXPT = 4096, SR_MAXDEV = 128, SR_MAXKEY = 4096, SR_NKEY = 1 << 13, SR_MAXOPEN = 200000, SR_MAXEV = 16384 };
struct sr_dev { uint16_t step; uint8_t tid, pad; };
struct sr_pt { uint8_t enabled, chosen, cur, cur_enabled, def; };
struct sr_ev { uint16_t obj; int16_t pt; uint8_t tid, write, svc[4]; };
struct sr_shm {
    uint32_t ndev; sr_dev dev[SR_MAXDEV];
    uint64_t keyset[SR_NKEY];
    uint32_t nnew; uint64_t fresh[SR_MAXKEY];
    uint64_t sig_at, sig_at2;
    uint32_t sig_survey;
    uint32_t done, failed, diverged, grown;
    uint32_t npt; sr_pt pt[SR_MAXPT];
    uint32_t nev; sr_ev ev[SR_MAXEV];
    uint64_t accesses, syncs, window;
    uint32_t sig_ran;
    uint64_t sig_locked, sig_wrote;
    uint32_t nopen; uint32_t open[SR_MAXOPEN];
    char msg[8192];
};
}
namespace {
enum { MAXT = 4 };
typedef uint32_t VC[MAXT];
sr_shm* S;
bool active;
__thread int me __attribute__((tls_model("initial-exec")));
__thread bool gone __attribute__((tls_model("initial-exec")));
__thread int paused __attribute__((tls_model("initial-exec")));
uint64_t allocations;
bool (*locked_out)();
uintptr_t hstack;
uint64_t hwrites;
bool in_handler, window_on;
void (*handler)();
uint64_t accesses, syncs, wcount;

// ---------------------------------------------------------------- failures
struct Pcs { uint32_t n; uint32_t pc[12]; };
void stack_of(Pcs& p, void* pc)
{
    // frame pointers; the first frame is the caller of the entry point
    p.n = 0;
    p.pc[p.n++] = (uint32_t) (uintptr_t) pc;
    uintptr_t* fp = (uintptr_t*) __builtin_frame_address(0);
    uintptr_t lo = (uintptr_t) fp;
    bool on = false;
    for (int k = 0; k < 40 && fp && p.n < 10; ++k) {
        if ((uintptr_t) fp < lo || (uintptr_t) fp > lo + (1 << 20) || ((uintptr_t) fp & 7)) break;
        uintptr_t ret = fp[1];
        if (ret < 0x1000) break;
        if (on && ret < 0x10000000) p.pc[p.n++] = (uint32_t) ret;
        if (ret == (uintptr_t) pc) on = true;
        uintptr_t* nx = (uintptr_t*) fp[0];
        if (nx <= fp) break;
        fp = nx;
    }
}
[[noreturn]] void die(void* pc, const char* f, ...)
{
    active = false;
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(S->msg, sizeof S->msg, f, ap);
    va_end(ap);
    Pcs p;
    stack_of(p, pc);
    for (unsigned k = 0; k < p.n; ++k) n += snprintf(S->msg + n, sizeof S->msg - n, "\n   %s @%x", k ? "called from" : "at", p.pc[k]);
    S->failed = 1;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

// ---------------------------------------------------------------- memory
const uintptr_t ARENA = 0x100000000000ull;
const size_t ZSIZE = 1ull << 31, TSIZE = 1ull << 29, STACK = 1 << 20;   // zygote part, part of each thread
const size_t ASIZE = ZSIZE + MAXT * TSIZE;
bool have_arena;
uintptr_t zcur = ARENA, tcur[MAXT];
struct Hdr { uint64_t size; uint64_t magic; };
const uint64_t MAGIC = 0x5ced5ced5ced5cedull;
void* freelist[40];
void arena_init()
{
    void* p = mmap((void*) ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*) ARENA) { if (write(2, "no arena\n", 9)) {} _exit(99); }
    for (int t = 0; t < MAXT; ++t) tcur[t] = ARENA + ZSIZE + t * TSIZE;
    have_arena = true;
}
int cls(size_t n) { int c = 5; while ((1ull << c) < n) ++c; return c; }
void* alloc(size_t n, size_t al, void* pc);
void mark_free(uintptr_t a, size_t n, void* pc);
void* alloc(size_t n, size_t al, void* pc)
{
    if (!have_arena) arena_init();
    if (al < 16) al = 16;
    if (!n) n = 1;
    ++allocations;
    if (active) {
        if (in_handler) die(pc, "a signal handler allocates memory");
        uintptr_t& c = gone ? tcur[MAXT - 1] : tcur[me];
        uintptr_t p = (c + sizeof(Hdr) + al - 1) & ~(al - 1);
        c = p + ((n + 15) & ~15ull);
        if (c > ARENA + ZSIZE + (me + 1) * TSIZE) die(pc, "internal: out of memory");
        Hdr* h = (Hdr*) p - 1;
        h->size = n;
        h->magic = MAGIC;
        return (void*) p;
    }
    int k = cls(n + al);
    if (al == 16 && freelist[k]) {
        void* p = freelist[k];
        freelist[k] = *(void**) p;
        ((Hdr*) p - 1)->size = n;
        ((Hdr*) p - 1)->magic = MAGIC;
        return p;
    }
    uintptr_t p = (zcur + sizeof(Hdr) + al - 1) & ~(al - 1);
    zcur = p + (1ull << k);
    if (zcur > ARENA + ZSIZE) { if (write(2, "arena full\n", 11)) {} _exit(98); }
    Hdr* h = (Hdr*) p - 1;
    h->size = n;
    h->magic = MAGIC;
    return (void*) p;
}
void release(void* p, void* pc)
{
    if (!p) return;
    uintptr_t a = (uintptr_t) p;
    if (a < ARENA || a >= ARENA + ASIZE) return;
    Hdr* h = (Hdr*) p - 1;
    if (active) {
        if (gone) return;
        if (in_handler) die(pc, "a signal handler frees memory");
        if (h->magic == ~MAGIC) die(pc, "memory freed twice");
        if (h->magic != MAGIC) die(pc, "invalid pointer freed");
        h->magic = ~MAGIC;
        mark_free(a, h->size, pc);
        return;
    }
    if (h->magic != MAGIC) return;
    if (a >= ARENA + ZSIZE) return;
    int k = cls(h->size + 16);
    h->magic = ~MAGIC;
    *(void**) p = freelist[k];
    freelist[k] = p;
}

// ---------------------------------------------------------------- threads
struct Thr {
    int state;              // 0 unused, 1 alive, 2 finished
    VC vc, svc, acq, rel;   // clocks; structural clocks (create and join only); pending acquire and release fences
    int wait;               // what its next operation needs: 0 nothing, 1 lock, 2 thread end, 3 change of a value, 4 signal, 5 guard
    struct Sync* wobj; uint32_t wver; int wtid;
    struct Sync* failobj; uint32_t failver;
    int go;
    pthread_t pt;
    void* (*fn)(void*); void* arg; void* ret;
} T[MAXT];
int nthr;
struct Sync {
    uintptr_t addr;
    VC vc;
    uint32_t ver;
    int owner, count;       // locks: owner + 1
    int readers;
    uint32_t sr[MAXT], sw[MAXT];    // structural clocks of the last read and write
    void *pr[MAXT], *pw[MAXT];
    int state;              // once, guards
    uint32_t signals;
};
const unsigned NSYNC = 1 << 14;
uint16_t sync_idx[NSYNC];
Sync* syncs_tab;
unsigned nsync;
Sync* sync_of(const volatile void* p)
{
    uintptr_t a = (uintptr_t) p;
    unsigned h = (unsigned) ((a >> 2) * 2654435761u >> 7) & (NSYNC - 1);
    while (sync_idx[h] && syncs_tab[sync_idx[h]].addr != a) h = (h + 1) & (NSYNC - 1);
    if (!sync_idx[h]) {
        if (++nsync > NSYNC / 2) die(nullptr, "internal: too many synchronization objects");
        sync_idx[h] = nsync;
        syncs_tab[nsync].addr = a;
    }
    return &syncs_tab[sync_idx[h]];
}
void join(VC a, const VC b) { for (int t = 0; t < MAXT; ++t) if (b[t] > a[t]) a[t] = b[t]; }

// --- points: operations on objects that existed before the threads are named by address, others by the code location
const unsigned NKEY = SR_NKEY;
#define keyset (S->keyset)
uint64_t key_of(uintptr_t a, void* pc) { return a < ARENA + ZSIZE ? (uint64_t) a : (uint64_t) (uintptr_t) pc | 1ull << 63; }
bool key_in(uint64_t k) { unsigned h = (unsigned) ((k >> 2) * 2654435761u) & (NKEY - 1); while (keyset[h] && keyset[h] != k) h = (h + 1) & (NKEY - 1); return keyset[h] == k; }
void key_new(uint64_t k)
{
    if (key_in(k)) return;
    for (unsigned i = 0; i < S->nnew; ++i) if (S->fresh[i] == k) return;
    if (S->nnew >= SR_MAXKEY) die(nullptr, "internal: too many points");
    S->fresh[S->nnew++] = k;        // from the next run on
    S->grown = 1;
}
void note(Sync* s, bool w, void* pc)
{
    Thr& t = T[me];
    for (int u = 0; u < nthr; ++u)
        if (u != me) {
            if (s->sw[u] > t.svc[u]) { key_new(key_of(s->addr, pc)); key_new(key_of(s->addr, s->pw[u])); }
            if (w && s->sr[u] > t.svc[u]) { key_new(key_of(s->addr, pc)); key_new(key_of(s->addr, s->pr[u])); }
        }
    if (w) { s->sw[me] = t.svc[me]; s->pw[me] = pc; } else { s->sr[me] = t.svc[me]; s->pr[me] = pc; }
}
bool enabled(int t)
{
    Thr& x = T[t];
    if (x.state != 1) return false;
    switch (x.wait) {
    case 1: return !x.wobj->owner && (x.wtid == 0 || x.wobj->readers == 0);     // wtid: exclusive
    case 2: return T[x.wtid].state == 2;
    case 3: return x.wobj->ver != x.wver;
    case 4: return x.wobj->signals != x.wver;
    case 5: return x.wobj->state != 1;
    }
    return true;
}
void fut_wait(int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void fut_wake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void pass_to(int t) { __atomic_store_n(&T[t].go, 1, __ATOMIC_RELEASE); fut_wake(&T[t].go); }
void await_go()
{
    while (!__atomic_load_n(&T[me].go, __ATOMIC_ACQUIRE)) fut_wait(&T[me].go, 0);
    T[me].go = 0;
}
unsigned nextdev;
int lastdec = -1;       // the recorded decision that led to the current operation, or -1
// lets the scheduler choose; `always': the caller cannot continue, or gives way
void choose(void* pc, bool yield = false)
{
    unsigned en = 0;
    int n = 0;
    for (int t = 0; t < nthr; ++t) if (enabled(t)) { en |= 1u << t; ++n; }
    if (!en) {
        bool all = true;
        for (int t = 0; t < nthr; ++t) if (T[t].state == 1) all = false;
        if (all) return;
        if (in_handler) die(pc, "a signal handler waits for the interrupted operation (deadlock)");
        char b[512]; int k = 0;
        for (int t = 0; t < nthr; ++t) if (T[t].state == 1) k += snprintf(b + k, sizeof b - k, " thread %d waits for %s;", t, T[t].wait == 1 ? "a lock" : T[t].wait == 2 ? "the end of a thread" : T[t].wait == 3 ? "a spin lock" : T[t].wait == 5 ? "the initialization of a static variable" : "a signal");
        die(pc, "deadlock:%s", b);
    }
    if (in_handler) { if (!(en >> me & 1)) die(pc, "a signal handler waits for the interrupted operation (deadlock)"); return; }
    bool self = (en >> me & 1) && T[me].state == 1;
    int c;
    lastdec = -1;
    if (n == 1) c = __builtin_ctz(en);
    else {
        c = -1;
        if (yield) for (int k = 1; k <= nthr && c < 0; ++k) { int t = (me + k) % nthr; if (en >> t & 1) c = t; }
        else if (self) c = me;
        else c = __builtin_ctz(en);
        int def = c;
        unsigned step = S->npt;
        if (step >= SR_MAXPT) die(pc, "no end after %d scheduling points (livelock?)", (int) SR_MAXPT);
        if (nextdev < S->ndev && S->dev[nextdev].step == step) {
            c = S->dev[nextdev++].tid;
            if (!(en >> c & 1)) { S->diverged = 1; die(pc, "internal: thread %d is not enabled at point %u", c, step); }
        }
        lastdec = S->npt;
        sr_pt& p = S->pt[S->npt++];
        p.enabled = en; p.chosen = c; p.cur = me; p.cur_enabled = self && !yield; p.def = def;
    }
    if (c == me) return;
    bool fin = T[me].state == 2;
    pass_to(c);
    if (!fin) await_go();
}
// before an operation on a synchronization object
void point(Sync* s, bool w, void* pc)
{
    if (++syncs > 4000000) die(pc, "no end after %lu synchronization operations (livelock?)", (unsigned long) syncs);
    note(s, w, pc);
    if (in_handler && w) ++hwrites;
    bool key = key_in(key_of(s->addr, pc));
    if (key || !enabled(me)) choose(pc);
    T[me].wait = 0;
    if (key && !in_handler) {
        if (S->nev >= SR_MAXEV) die(pc, "no end after %d synchronization operations (livelock?)", (int) SR_MAXEV);
        sr_ev& e = S->ev[S->nev++];
        e.obj = s - syncs_tab; e.pt = lastdec; e.tid = me; e.write = w; for (int u = 0; u < MAXT; ++u) e.svc[u] = T[me].svc[u];
    }
}
void maybe_signal()
{
    if (!window_on || me != 0 || in_handler || paused) return;
    S->window = ++wcount;
    bool at = wcount == S->sig_at || wcount == S->sig_at2;
    if (!at && !S->sig_survey) return;
    if (!at && wcount < S->sig_at) return;
    in_handler = true;
    int w = T[me].wait; Sync* o = T[me].wobj; int wt = T[me].wtid; uint32_t wv = T[me].wver;
    T[me].wait = 0;
    if (at) { ++S->sig_ran; handler(); }
    else {
        bool open = !locked_out();
        if (!open) {
            hstack = (uintptr_t) __builtin_frame_address(0);
            hwrites = 0;
            handler();
            ++S->sig_locked;
            if (hwrites) { open = true; ++S->sig_wrote; }
        }
        if (open && S->nopen < SR_MAXOPEN) S->open[S->nopen++] = wcount;
    }
    T[me].wait = w; T[me].wobj = o; T[me].wtid = wt; T[me].wver = wv;
    in_handler = false;
}

// ---------------------------------------------------------------- races
// what happened to 8 bytes: by one thread, or (full) an entry of `fulls'
struct Cell { uint32_t wpc, rpc; uint16_t wclk, rclk; uint8_t wm, rm, tid, pad; };      // tid: thread + 1
enum { FULL = 0xff, FREED = 0xfe };                                                     // wpc: entry; freed there
struct Acc { uint32_t wpc, rpc; uint16_t wclk, rclk, awclk, arclk; uint8_t wm, rm, am, pad; };   // plain and atomic
struct Full { Acc t[MAXT]; };
const unsigned NFULL = 1 << 20;
Full* fulls;
unsigned nfull;
struct Region { uintptr_t lo, hi; Cell* cells; } R[3];
void region(int k, uintptr_t lo, uintptr_t hi)
{
    size_t n = (hi - lo) / 8 * sizeof(Cell);
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { if (write(2, "no shadow\n", 10)) {} _exit(97); }
    R[k].lo = lo; R[k].hi = hi; R[k].cells = (Cell*) p;
}
Cell* cell(uintptr_t a) { for (int k = 0; k < 3; ++k) if (a >= R[k].lo && a < R[k].hi) return R[k].cells + (a - R[k].lo) / 8; return nullptr; }
[[noreturn]] void race(void* pc, uintptr_t a, const char* what, int u, const char* other, uint32_t opc)
{
    die(pc, "data race: thread %d %s memory that thread %d %s (@%x) without synchronization", me, what, u, other, opc);
}
inline void acc8(uintptr_t g, unsigned mask, bool w, bool atomic, void* pc)
{
    Cell* c = cell(g);
    if (!c) return;
    Thr& t = T[me];
    uint32_t now = t.vc[me], at = (uint32_t) (uintptr_t) pc;
    if (now > 65000) die(pc, "internal: clock overflow");
    if (c->tid != FULL) {
        if (c->tid == FREED) die(pc, "%s freed memory (freed at @%x)", w ? "write to" : "read of", c->wpc);
        if (!atomic && (c->tid == 0 || c->tid == me + 1)) {
            c->tid = me + 1;
            if (w) { c->wm = c->wclk == now ? c->wm | mask : mask; c->wclk = now; c->wpc = at; }
            else { c->rm = c->rclk == now ? c->rm | mask : mask; c->rclk = now; c->rpc = at; }
            return;
        }
        if (nfull >= NFULL) die(pc, "internal: too many shared locations");
        Full& f = fulls[nfull];
        if (c->tid) { Acc& x = f.t[c->tid - 1]; x.wclk = c->wclk; x.rclk = c->rclk; x.wpc = c->wpc; x.rpc = c->rpc; x.wm = c->wm; x.rm = c->rm; }
        c->wpc = nfull++;
        c->tid = FULL;
    }
    Full& f = fulls[c->wpc];
    for (int u = 0; u < nthr; ++u) {
        if (u == me) continue;
        Acc& x = f.t[u];
        if (x.wclk > t.vc[u] && (x.wm & mask)) race(pc, g, w ? "writes" : "reads", u, "wrote", x.wpc);
        if (w && x.rclk > t.vc[u] && (x.rm & mask)) race(pc, g, "writes", u, "read", x.rpc);
        if (!atomic && x.awclk > t.vc[u] && (x.am & mask)) race(pc, g, w ? "writes" : "reads", u, "wrote atomically", x.wpc);
        if (!atomic && w && x.arclk > t.vc[u] && (x.am & mask)) race(pc, g, "writes", u, "read atomically", x.rpc);
    }
    Acc& x = f.t[me];
    if (atomic) { if (w) { x.awclk = now; x.wpc = at; } else { x.arclk = now; x.rpc = at; } x.am |= mask; }
    else if (w) { x.wm = x.wclk == now ? x.wm | mask : mask; x.wclk = now; x.wpc = at; }
    else { x.rm = x.rclk == now ? x.rm | mask : mask; x.rclk = now; x.rpc = at; }
}
inline void access(uintptr_t a, size_t n, bool w, void* pc, bool atomic = false)
{
    if (!active || gone || paused) return;
    if (window_on) { if (in_handler) { if (w && (a >= hstack || a < hstack - (1 << 20))) ++hwrites; } else maybe_signal(); }
    ++accesses;
    uintptr_t g = a & ~7ull, e = a + n;
    if (e <= g + 8) { acc8(g, ((1u << n) - 1) << (a - g), w, atomic, pc); return; }
    if (n > 16384) { access(a, 2048, w, pc); access(e - 2048, 2048, w, pc); return; }
    for (; g < e; g += 8) {
        unsigned lo = g < a ? a - g : 0, hi = e - g < 8 ? e - g : 8;
        acc8(g, ((1u << (hi - lo)) - 1) << lo, w, atomic, pc);
    }
}
void mark_free(uintptr_t a, size_t n, void* pc)
{
    if (n > (1 << 20)) n = 1 << 20;
    if (n <= 16384) access(a, n, true, pc);
    for (uintptr_t g = a & ~7ull; g < a + n; g += 8) { Cell* c = cell(g); if (c) { c->tid = FREED; c->wpc = (uint32_t) (uintptr_t) pc; } }
}

// ---------------------------------------------------------------- locks
void lock_obj(Sync* s, void* pc, bool exclusive = true)
{
    Thr& t = T[me];
    if (s->owner == me + 1 && exclusive && !in_handler) die(pc, "deadlock: the thread waits for a lock it holds");
    t.wait = 1; t.wobj = s; t.wtid = exclusive;
    point(s, true, pc);
    if (exclusive) s->owner = me + 1; else ++s->readers;
    join(t.vc, s->vc);
    maybe_signal();
}
void unlock_obj(Sync* s, void* pc, bool exclusive = true)
{
    Thr& t = T[me];
    maybe_signal();
    if (exclusive && s->owner != me + 1) die(pc, "unlock of a lock that the thread does not hold");
    note(s, true, pc);
    if (exclusive) s->owner = 0; else --s->readers;
    join(s->vc, t.vc);
    ++t.vc[me];
    maybe_signal();
}
void acquire(Sync* s, int mo)
{
    Thr& t = T[me];
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) join(t.vc, s->vc);
    else join(t.acq, s->vc);
}
void publish(Sync* s, int mo, bool rmw)
{
    Thr& t = T[me];
    ++s->ver;
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) {
        if (rmw) join(s->vc, t.vc); else memcpy(s->vc, t.vc, sizeof(VC));
        ++t.vc[me];
    } else if (rmw) join(s->vc, t.rel);
    else memcpy(s->vc, t.rel, sizeof(VC));
}
bool on() { return active && !gone && !paused; }

template <typename V> V a_load(const volatile V* p, int mo, void* pc)
{
    if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    Sync* s = sync_of(p);
    point(s, false, pc);
    access((uintptr_t) p, sizeof(V), false, pc, true);
    V v = *p;
    acquire(s, mo);
    return v;
}
template <typename V> void a_store(volatile V* p, V v, int mo, void* pc)
{
    if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
    Sync* s = sync_of(p);
    point(s, true, pc);
    access((uintptr_t) p, sizeof(V), true, pc, true);
    publish(s, mo, false);
    *p = v;
    maybe_signal();
}
// a thread that failed once on an unchanged value waits until it changes
void spin_wait(Sync* s)
{
    Thr& t = T[me];
    if (t.failobj == s && t.failver == s->ver) { t.wait = 3; t.wobj = s; t.wver = s->ver; }
}
template <typename V, typename F> V a_rmw(volatile V* p, F f, int mo, void* pc)
{
    if (!on()) { V o = *p; *p = f(o); return o; }
    Sync* s = sync_of(p);
    if (f(*p) == *p) spin_wait(s); // test-and-set of a set flag
    point(s, true, pc);
    access((uintptr_t) p, sizeof(V), true, pc, true);
    V o = *p, n = f(o);
    Thr& t = T[me];
    acquire(s, mo);
    if (n == o) { if (t.failobj == s && t.failver == s->ver && in_handler) die(pc, "a signal handler waits for the interrupted operation (deadlock)"); t.failobj = s; t.failver = s->ver; }
    else { t.failobj = nullptr; publish(s, mo, true); *p = n; }
    maybe_signal();
    return o;
}
template <typename V> V a_cas(volatile V* p, V exp, V val, int mo, int fmo, void* pc)
{
    if (!on()) { V o = *p; if (o == exp) *p = val; return o; }
    Sync* s = sync_of(p);
    if (*p != exp) spin_wait(s);
    point(s, true, pc);
    access((uintptr_t) p, sizeof(V), true, pc, true);
    V o = *p;
    Thr& t = T[me];
    if (o == exp) { acquire(s, mo); t.failobj = nullptr; publish(s, mo, true); *p = val; }
    else { acquire(s, fmo); t.failobj = s; t.failver = s->ver; }
    maybe_signal();
    return o;
}

// ---------------------------------------------------------------- real functions
template <typename F> F real(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
pthread_key_t endkey;
int endcount[MAXT];
void thread_end(void* v)
{
    // runs after the destructors of thread-local objects; again after those of other keys
    int t = (int) (intptr_t) v - 1;
    if (++endcount[t] < 3) { pthread_setspecific(endkey, v); return; }
    if (!active) return;
    T[t].state = 2;
    gone = true;
    ++T[t].vc[t];
    ++T[t].svc[t];
    choose(nullptr);
}
void* thread_main(void* v)
{
    me = (int) (intptr_t) v;
    await_go();
    pthread_setspecific(endkey, (void*) (intptr_t) (me + 1));
    return T[me].fn(T[me].arg);
}
} // namespace

#define PC __builtin_return_address(0)
extern "C" {
void sr_setup(sr_shm* s)
{
    S = s;
    if (!R[0].cells) {
        extern char _end, __executable_start;
        region(0, ARENA, ARENA + ASIZE);
        region(1, (uintptr_t) &__executable_start & ~7ull, ((uintptr_t) &_end + 7) & ~7ull);
        uintptr_t sp = (uintptr_t) __builtin_frame_address(0);
        region(2, (sp - (8 << 20)) & ~7ull, (sp + (1 << 16)) & ~7ull);
        syncs_tab = (Sync*) mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        fulls = (Full*) mmap(nullptr, sizeof(Full) * NFULL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pthread_key_create(&endkey, thread_end);
    }
}
void sr_start()
{
    nthr = 1;
    me = 0;
    T[0].state = 1;
    T[0].vc[0] = T[0].svc[0] = 1;
    nextdev = 0;
    active = true;
}
void sr_stop() { S->accesses = accesses; S->syncs = syncs; active = false; window_on = false; }
uint64_t sr_allocations() { return allocations; }
void sr_survey(bool (*f)()) { locked_out = f; }
void sr_window(int o, void (*h)()) { handler = h; window_on = o; }
int sr_self() { return me; }
void sr_pause(int o) { paused += o; }

// --- instrumentation
void __tsan_init() {}
#define RW(n) \
    void __tsan_read##n(void* a) { access((uintptr_t) a, n, false, PC); } \
    void __tsan_write##n(void* a) { access((uintptr_t) a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t) a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t) a, n, true, PC); } \
    void __tsan_read_write##n(void* a) { access((uintptr_t) a, n, false, PC); access((uintptr_t) a, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* a) { access((uintptr_t) a, n, false, PC); access((uintptr_t) a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uintptr_t) a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t) a, 8, false, PC); }
void __tsan_read_range(void* a, unsigned long n) { if (n) access((uintptr_t) a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { if (n) access((uintptr_t) a, n, true, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access((uintptr_t) d, n, true, PC); return memset(d, c, n); }
#define ATOMICS(B, V) \
    V __tsan_atomic##B##_load(const volatile V* p, int mo) { return a_load(p, mo, PC); } \
    void __tsan_atomic##B##_store(volatile V* p, V v, int mo) { a_store(p, v, mo, PC); } \
    V __tsan_atomic##B##_exchange(volatile V* p, V v, int mo) { return a_rmw(p, [=](V) { return v; }, mo, PC); } \
    V __tsan_atomic##B##_fetch_add(volatile V* p, V v, int mo) { return a_rmw(p, [=](V o) { return (V) (o + v); }, mo, PC); } \
    V __tsan_atomic##B##_fetch_sub(volatile V* p, V v, int mo) { return a_rmw(p, [=](V o) { return (V) (o - v); }, mo, PC); } \
    V __tsan_atomic##B##_fetch_and(volatile V* p, V v, int mo) { return a_rmw(p, [=](V o) { return (V) (o & v); }, mo, PC); } \
    V __tsan_atomic##B##_fetch_or(volatile V* p, V v, int mo) { return a_rmw(p, [=](V o) { return (V) (o | v); }, mo, PC); } \
    V __tsan_atomic##B##_fetch_xor(volatile V* p, V v, int mo) { return a_rmw(p, [=](V o) { return (V) (o ^ v); }, mo, PC); } \
    V __tsan_atomic##B##_fetch_nand(volatile V* p, V v, int mo) { return a_rmw(p, [=](V o) { return (V) ~(o & v); }, mo, PC); } \
    V __tsan_atomic##B##_compare_exchange_val(volatile V* p, V e, V v, int mo, int fmo) { return a_cas(p, e, v, mo, fmo, PC); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile V* p, V* e, V v, int mo, int fmo) { V o = a_cas(p, *e, v, mo, fmo, PC); int r = o == *e; *e = o; return r; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile V* p, V* e, V v, int mo, int fmo) { V o = a_cas(p, *e, v, mo, fmo, PC); int r = o == *e; *e = o; return r; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!on()) return;
    if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED) join(T[me].vc, T[me].acq);
    if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_RELAXED) { memcpy(T[me].rel, T[me].vc, sizeof(VC)); ++T[me].vc[me]; }
}
void __tsan_atomic_signal_fence(int) {}

// --- memory
void* malloc(size_t n) { return alloc(n, 16, PC); }
void free(void* p) { release(p, PC); }
void* calloc(size_t a, size_t b)
{
    size_t n = a * b;
    void* p = alloc(n, 16, PC);
    if (!active) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n)
{
    void* q = alloc(n, 16, PC);
    if (p) { size_t o = ((Hdr*) p - 1)->size; memcpy(q, p, o < n ? o : n); release(p, PC); }
    return q;
}
void* memalign(size_t al, size_t n) { return alloc(n, al, PC); }
void* aligned_alloc(size_t al, size_t n) { return alloc(n, al, PC); }
int posix_memalign(void** r, size_t al, size_t n) { *r = alloc(n, al, PC); return 0; }
void* valloc(size_t n) { return alloc(n, 4096, PC); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*) p - 1)->size : 0; }

// --- threads
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static F f = real<F>("pthread_create");
    if (!on()) return f(out, attr, fn, arg);
    if (nthr >= MAXT) die(PC, "internal: too many threads");
    int k = nthr++;
    Thr& t = T[k];
    memset(&t, 0, sizeof t);
    t.state = 1;
    t.fn = fn;
    t.arg = arg;
    join(t.vc, T[me].vc);
    join(t.svc, T[me].svc);
    t.vc[k] = t.svc[k] = 1;
    ++T[me].vc[me];
    ++T[me].svc[me];
    pthread_attr_t a;
    pthread_attr_init(&a);
    uintptr_t st = ARENA + ZSIZE + (k + 1) * TSIZE - STACK;
    pthread_attr_setstack(&a, (void*) st, STACK);
    int r = f(&t.pt, &a, thread_main, (void*) (intptr_t) k);
    pthread_attr_destroy(&a);
    if (r) die(PC, "internal: pthread_create failed: %d", r);
    *out = t.pt;
    return 0;
}
int pthread_join(pthread_t p, void** ret)
{
    typedef int (*F)(pthread_t, void**);
    static F f = real<F>("pthread_join");
    if (!on()) return f(p, ret);
    for (int k = 1; k < nthr; ++k)
        if (pthread_equal(T[k].pt, p)) {
            T[me].wait = 2; T[me].wtid = k;
            if (!enabled(me)) choose(PC);
            T[me].wait = 0;
            join(T[me].vc, T[k].vc);
            join(T[me].svc, T[k].svc);
            break;
        }
    return f(p, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F f = real<F>("pthread_mutex_lock");
    if (!active || gone) return f(m);
    Sync* s = sync_of(m);
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && s->owner == me + 1) { ++s->count; return 0; }
    lock_obj(s, PC);
    s->count = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F f = real<F>("pthread_mutex_trylock");
    if (!active || gone) return f(m);
    Sync* s = sync_of(m);
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && s->owner == me + 1) { ++s->count; return 0; }
    point(s, true, PC);
    if (s->owner) return EBUSY;
    s->owner = me + 1;
    s->count = 1;
    join(T[me].vc, s->vc);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F f = real<F>("pthread_mutex_unlock");
    if (!active || gone) return f(m);
    Sync* s = sync_of(m);
    if (s->owner == me + 1 && --s->count > 0) return 0;
    unlock_obj(s, PC);
    return 0;
}
#define RWL(name, body) int pthread_rwlock_##name(pthread_rwlock_t* m) { typedef int (*F)(pthread_rwlock_t*); static F f = real<F>("pthread_rwlock_" #name); if (!active || gone) return f(m); Sync* s = sync_of(m); body return 0; }
RWL(rdlock, lock_obj(s, PC, false);)
RWL(wrlock, lock_obj(s, PC, true);)
RWL(tryrdlock, point(s, true, PC); if (s->owner) return EBUSY; ++s->readers; join(T[me].vc, s->vc);)
RWL(trywrlock, point(s, true, PC); if (s->owner || s->readers) return EBUSY; s->owner = me + 1; join(T[me].vc, s->vc);)
RWL(unlock, if (s->owner == me + 1) unlock_obj(s, PC); else unlock_obj(s, PC, false);)
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*);
    static F f = real<F>("pthread_cond_wait");
    if (!active || gone) return f(c, m);
    Sync *s = sync_of(c), *l = sync_of(m);
    uint32_t v = s->signals;
    unlock_obj(l, PC);
    T[me].wait = 4; T[me].wobj = s; T[me].wver = v;
    point(s, true, PC);
    lock_obj(l, PC);
    l->count = 1;
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    typedef int (*F)(pthread_cond_t*);
    static F f = real<F>("pthread_cond_signal");
    if (!active || gone) return f(c);
    Sync* s = sync_of(c);
    point(s, true, PC);
    ++s->signals;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
int pthread_once(pthread_once_t* o, void (*fn)())
{
    typedef int (*F)(pthread_once_t*, void (*)());
    static F f = real<F>("pthread_once");
    if (!active || gone) return f(o, fn);
    Sync* s = sync_of(o);
    if (*o == 2 && !s->state) return 0;     // done before the threads started
    T[me].wait = 5; T[me].wobj = s;
    point(s, true, PC);
    if (s->state == 2) { join(T[me].vc, s->vc); return 0; }
    s->state = 1;
    fn();
    s->state = 2;
    *o = 2;
    join(s->vc, T[me].vc);
    ++T[me].vc[me];
    return 0;
}
int sched_yield() { if (on()) choose(PC, true); return 0; }
int usleep(unsigned us) { if (on()) choose(PC, true); else { struct timespec t = { us / 1000000, (long) (us % 1000000) * 1000 }; syscall(SYS_nanosleep, &t, nullptr); } return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (on()) { choose(PC, true); return 0; } return syscall(SYS_nanosleep, a, b); }
// --- initialization of static variables
int __cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = (uint8_t*) g;
    if (!active || gone) return *b ? 0 : (b[1] = 1);
    Sync* s = sync_of(g);
    if (*b && !s->state) return 0;
    if (s->state == 1 && s->owner == me + 1) die(PC, "recursive initialization of a static variable");
    T[me].wait = 5; T[me].wobj = s;
    point(s, true, PC);
    if (*b) { join(T[me].vc, s->vc); return 0; }
    s->state = 1;
    s->owner = me + 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    uint8_t* b = (uint8_t*) g;
    if (!active || gone) { *b = 1; b[1] = 0; return; }
    Sync* s = sync_of(g);
    note(s, true, PC);
    *b = 1;
    s->state = 2;
    s->owner = 0;
    join(s->vc, T[me].vc);
    ++T[me].vc[me];
}
void __cxa_guard_abort(uint64_t* g)
{
    uint8_t* b = (uint8_t*) g;
    if (!active || gone) { b[1] = 0; return; }
    Sync* s = sync_of(g);
    s->state = 0;
    s->owner = 0;
}
}
