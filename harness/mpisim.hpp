// mpisim.hpp -- a message-passing machine for P ranks that run the real code as coroutines of one process.
// A run executes one maximal trace; with buffered sends every send completes at once, with synchronous
// sends a send completes only when it is received. Receives name their source and tag, so traces that differ
// only in the order of operations of different ranks are equivalent; choices that matter (a receive or probe
// from any source with several candidates, or a polling probe) are enumerated by explore().
#pragma once
#include "vx.hpp"
#include "mpistub/mpi.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
namespace mpi {
// ranks in processes of their own (buffered sends): nothing but the messages can carry data
struct Shm {
    struct Rec { int src, dst, tag, comm, type, len; size_t off; bool taken; };
    pthread_mutex_t mu;
    pthread_cond_t  cv;
    int    n, P, bar[256];
    bool   sync, dead;
    long   version;            // counts everything that can let a waiting rank go on
    long   waits[64];          // the version a rank waits at, -1: runs, -2: ended
    char   where[64][100];
    size_t used;
    char   fail[64][400];
    Rec    rec[1024];
    char   data[32 << 20];
};
inline Shm*& shm() { static Shm* s = nullptr; return s; }
struct Msg { int src, dst, tag, comm; MPI_Datatype type; std::string data; bool taken = false; int idx = -1; };
struct Req { bool recv; std::shared_ptr<Msg> m; void* buf; int max, src, tag, comm; MPI_Datatype t; bool done = false; MPI_Status st; };
struct Sim {
    struct Rank { ucontext_t ctx; void* stack = nullptr; bool done = false, finalized = false; std::function<bool()> ready; std::string fail, where; std::vector<Req> req; int nbar = 0, nb = 0; };
    int P = 0, cur = -1, pulled = 0;
    bool sync = false;
    ucontext_t main;
    std::vector<Rank> r;
    std::deque<std::shared_ptr<Msg>> box;
    std::vector<int> choice; std::vector<int> width; size_t pos = 0; // enumeration of the choices
    std::function<void(int)> body;
    long ops = 0;
    int live_comms = 0;
    std::map<std::pair<int, int>, int> bar;
    std::map<std::pair<int, int>, std::string> bc;
};
inline Sim*& sim() { static Sim* s = nullptr; return s; }
inline int size_of(MPI_Datatype t) { switch (t) { case MPI_BYTE: case MPI_CHAR: case MPI_UNSIGNED_CHAR: return 1; case MPI_INT: case MPI_UNSIGNED: case MPI_UINT32_T: case MPI_INT32_T: return 4; default: return 8; } }
static const size_t STACK = 1 << 20;
inline void block(const std::string& where, std::function<bool()> ready)
{
    Sim& s = *sim();
    ++s.ops;
    if (shm()) {
        Shm& h = *shm();
        pthread_mutex_lock(&h.mu);
        for (;;) {
            for (int& k = s.pulled; k < h.n; ++k)
                if (h.rec[k].dst == s.cur) {
                    auto m = std::make_shared<Msg>();
                    m->src = h.rec[k].src; m->dst = s.cur; m->tag = h.rec[k].tag; m->comm = h.rec[k].comm; m->type = h.rec[k].type; m->idx = k;
                    m->data.assign(h.data + h.rec[k].off, h.rec[k].len);
                    s.box.push_back(m);
                }
            if (ready()) break;
            h.waits[s.cur] = h.version;
            snprintf(h.where[s.cur], sizeof h.where[0], "%s", where.c_str());
            bool dead = true;
            for (int k = 0; k < h.P; ++k) dead &= h.waits[k] == -2 || h.waits[k] == h.version;
            if (dead) { h.dead = true; pthread_cond_broadcast(&h.cv); }
            if (h.dead) { pthread_mutex_unlock(&h.mu); throw vx::Fail { "deadlock, waiting in " + where, "" }; }
            pthread_cond_wait(&h.cv, &h.mu);
        }
        h.waits[s.cur] = -1;
        pthread_mutex_unlock(&h.mu);
        return;
    }
    auto& me = s.r[s.cur];
    if (ready()) return;
    me.ready = ready;
    me.where = where;
    swapcontext(&me.ctx, &s.main);
    me.ready = nullptr;
}
inline int choose(int n)
{
    Sim& s = *sim();
    if (s.pos == s.choice.size()) { s.choice.push_back(0); s.width.push_back(n); }
    return s.choice[s.pos++];
}
inline void entry()
{
    Sim& s = *sim();
    int k = s.cur;
    try { s.body(k); }
    catch (vx::Fail& f) { s.r[k].fail = f.msg.empty() ? "failure" : f.msg; }
    catch (std::exception& e) { s.r[k].fail = std::string("exception: ") + e.what(); }
    s.r[k].done = true;
    swapcontext(&s.r[k].ctx, &s.main);
}
// run the ranks until all are done
inline void run_once(Sim& s)
{
    static std::vector<void*> stacks;
    sim() = &s;
    s.r.assign(s.P, Sim::Rank());
    s.box.clear();
    s.bar.clear();
    s.bc.clear();
    s.live_comms = 0;
    for (int k = 0; k < s.P; ++k) {
        if ((int) stacks.size() <= k) stacks.push_back(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        getcontext(&s.r[k].ctx);
        s.r[k].ctx.uc_stack.ss_sp = stacks[k];
        s.r[k].ctx.uc_stack.ss_size = STACK;
        s.r[k].ctx.uc_link = nullptr;
        makecontext(&s.r[k].ctx, entry, 0);
    }
    for (;;) {
        bool all = true, moved = false;
        for (int k = 0; k < s.P; ++k) {
            if (s.r[k].done) continue;
            all = false;
            if (s.r[k].ready && !s.r[k].ready()) continue;
            moved = true;
            s.cur = k;
            swapcontext(&s.main, &s.r[k].ctx);
            if (!s.r[k].fail.empty()) vx::fail("rank %d: %s", k, s.r[k].fail.c_str());
        }
        if (all) break;
        if (!moved) {
            std::string w;
            for (int k = 0; k < s.P; ++k) if (!s.r[k].done) w += vx::fmt(" rank %d waits in %s;", k, s.r[k].where.c_str());
            vx::fail("deadlock with %s sends:%s", s.sync ? "synchronous" : "buffered", w.c_str());
        }
    }
    for (auto& m : s.box) vx::fail("a message from rank %d to rank %d with tag %d is never received", m->src, m->dst, m->tag);
    VX_CHECK(s.live_comms == 0, "%d communicators are not freed", s.live_comms);
}
// all traces with buffered and with synchronous sends; returns their number
inline long explore(int P, const std::function<void(int)>& body, const std::function<void()>& after)
{
    long n = 0;
    for (int sync = 0; sync < 2; ++sync) {
        std::vector<int> c, w;
        for (;;) {
            Sim s;
            s.P = P;
            s.sync = sync;
            s.body = body;
            s.choice = c;
            s.width = w;
            run_once(s);
            after();
            ++n;
            c = s.choice;
            w = s.width;
            while (!c.empty() && c.back() + 1 >= w.back()) { c.pop_back(); w.pop_back(); }
            if (c.empty()) break;
            ++c.back();
        }
    }
    return n;
}
inline void end_process(Shm* h, int k) { pthread_mutex_lock(&h->mu); h->waits[k] = -2; bool dead = true, all = true; for (int j = 0; j < h->P; ++j) { dead &= h->waits[j] == -2 || h->waits[j] == h->version; all &= h->waits[j] == -2; } if (dead && !all) h->dead = true; pthread_cond_broadcast(&h->cv); pthread_mutex_unlock(&h->mu); }
inline bool taken(const std::shared_ptr<Msg>& m) { return shm() ? shm()->rec[m->idx].taken : m->taken; }
inline void processes(int P, const std::function<void(int)>& body, bool sync = false)
{
    Shm* h = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&h->mu, &ma);
    pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED); pthread_cond_init(&h->cv, &ca);
    h->P = P;
    h->sync = sync;
    for (int k = 0; k < 64; ++k) h->waits[k] = -1;
    std::vector<pid_t> pid;
    for (int k = 0; k < P; ++k) {
        pid_t c = fork();
        if (c == 0) {
            static Sim s;
            s.P = P;
            s.cur = k;
            s.sync = sync;
            alarm(60);
            s.r.resize(P);
            sim() = &s;
            shm() = h;
            // the heaps of the processes differ
            static std::vector<std::string> junk;
            for (int n = 0; n < 400; ++n) junk.push_back(std::string(8 + 8 * ((n * 7 + k) % 13), 'A' + k));
            for (size_t n = k % 3; n < junk.size(); n += 3 + k) std::string().swap(junk[n]);
            try { body(k); }
            catch (vx::Fail& f) { snprintf(h->fail[k], sizeof h->fail[k], "%s", f.msg.c_str()); }
            catch (std::exception& e) { snprintf(h->fail[k], sizeof h->fail[k], "exception: %s", e.what()); }
            end_process(h, k);
            _exit(0);
        }
        pid.push_back(c);
    }
    std::string bad;
    std::vector<std::string> why(P);
    for (int left = P; left;) {
        int st = 0;
        pid_t c = waitpid(-1, &st, 0);
        int k = std::find(pid.begin(), pid.end(), c) - pid.begin();
        if (k == P) continue;
        --left;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { end_process(h, k); why[k] = vx::fmt("rank %d: ended with status 0x%x; ", k, st); }
        else if (h->fail[k][0]) why[k] = vx::fmt("rank %d: %s; ", k, h->fail[k]);
    }
    for (auto& w : why) bad += w;
    if (bad.empty()) for (int k = 0; k < h->n; ++k) if (!h->rec[k].taken) bad = vx::fmt("a message from rank %d to rank %d with tag %d is never received", h->rec[k].src, h->rec[k].dst, h->rec[k].tag);
    munmap(h, sizeof(Shm));
    if (!bad.empty()) throw vx::Fail { "in separate processes: " + bad, "" };
}
inline std::vector<std::shared_ptr<Msg>> candidates(int src, int tag, int comm) // the first one of every source
{
    Sim& s = *sim();
    std::vector<std::shared_ptr<Msg>> o;
    for (auto& m : s.box)
        if (m->dst == s.cur && !m->taken && m->comm == comm && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag)) {
            bool first = true;
            for (auto& x : o) first &= x->src != m->src;
            if (first) o.push_back(m);
        }
    return o;
}
inline void status(MPI_Status* st, const Msg& m) { if (st) { st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->size = m.data.size(); } }
inline std::shared_ptr<Msg> pick(const std::string& where, int src, int tag, int comm)
{
    VX_CHECK(src == MPI_ANY_SOURCE || (src >= 0 && src < sim()->P), "%s: bad rank %d", where.c_str(), src);
    int me = sim()->cur;
    block(where, [=] { int c = sim()->cur; sim()->cur = me; bool r = !candidates(src, tag, comm).empty(); sim()->cur = c; return r; });
    auto c = candidates(src, tag, comm);
    return c[c.size() > 1 ? choose(c.size()) : 0];
}
inline std::shared_ptr<Msg> post(const void* b, int n, MPI_Datatype t, int dst, int tag, int comm)
{
    Sim& s = *sim();
    VX_CHECK(dst >= 0 && dst < s.P && n >= 0 && tag >= 0, "send to rank %d of %d, %d items, tag %d", dst, s.P, n, tag);
    auto m = std::make_shared<Msg>();
    m->src = s.cur; m->dst = dst; m->tag = tag; m->comm = comm; m->type = t;
    m->data.assign((const char*) b, b ? (size_t) n * size_of(t) : 0);
    if (shm()) {
        Shm& h = *shm();
        pthread_mutex_lock(&h.mu);
        if (h.n == 1024 || h.used + m->data.size() > sizeof h.data) abort();
        memcpy(h.data + h.used, m->data.data(), m->data.size());
        h.rec[h.n++] = { m->src, dst, tag, comm, t, (int) m->data.size(), h.used, false };
        h.used += m->data.size();
        m->idx = h.n - 1;
        ++h.version;
        pthread_cond_broadcast(&h.cv);
        pthread_mutex_unlock(&h.mu);
        return m;
    }
    s.box.push_back(m);
    return m;
}
inline void take(const std::shared_ptr<Msg>& m, void* b, int n, MPI_Datatype t, MPI_Status* st)
{
    Sim& s = *sim();
    VX_CHECK(m->data.size() <= (size_t) n * size_of(t), "a message of %zu bytes is received into %zu bytes", m->data.size(), (size_t) n * size_of(t));
    VX_CHECK(size_of(m->type) == size_of(t), "the types of send and receive differ");
    if (m->data.size()) memcpy(b, m->data.data(), m->data.size());
    m->taken = true;
    if (shm()) { pthread_mutex_lock(&shm()->mu); shm()->rec[m->idx].taken = true; ++shm()->version; pthread_cond_broadcast(&shm()->cv); pthread_mutex_unlock(&shm()->mu); }
    status(st, *m);
    s.box.erase(std::find(s.box.begin(), s.box.end(), m));
}
}
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize(void) { if (mpi::sim()) mpi::sim()->r[mpi::sim()->cur].finalized = true; return 0; }
int MPI_Initialized(int* f) { *f = mpi::sim() != nullptr; return 0; }
int MPI_Finalized(int* f) { *f = mpi::sim() && mpi::sim()->cur >= 0 && mpi::sim()->r[mpi::sim()->cur].finalized; return 0; }
int PMPI_Initialized(int* f) { return MPI_Initialized(f); }
int PMPI_Finalized(int* f) { return MPI_Finalized(f); }
int MPI_Abort(MPI_Comm, int c) { throw vx::Fail { vx::fmt("MPI_Abort(%d)", c), "" }; }
int MPI_Comm_size(MPI_Comm, int* n) { *n = mpi::sim()->P; return 0; }
int MPI_Comm_rank(MPI_Comm, int* n) { *n = mpi::sim()->cur; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { auto& s = *mpi::sim(); *d = c * 100 + 10 + ++s.r[s.cur].nb; ++s.live_comms; MPI_Barrier(*d); return 0; }
int MPI_Comm_free(MPI_Comm* c) { VX_CHECK(*c > MPI_COMM_SELF, "a predefined communicator is freed"); --mpi::sim()->live_comms; *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { *g = c; return 0; }
int MPI_Group_rank(MPI_Group, int* n) { *n = mpi::sim()->cur; return 0; }
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { auto m = mpi::post(b, n, t, dst, tag, c); mpi::block(vx::fmt("a send to rank %d with tag %d", dst, tag), [m] { return mpi::taken(m); }); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { if (mpi::sim()->sync) return MPI_Ssend(b, n, t, dst, tag, c); ++mpi::sim()->ops; mpi::post(b, n, t, dst, tag, c); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q) { auto& s = *mpi::sim(); auto m = mpi::post(b, n, t, dst, tag, c); s.r[s.cur].req.push_back({ false, m }); *q = s.r[s.cur].req.size(); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) { mpi::take(mpi::pick(vx::fmt("a receive from rank %d with tag %d", src, tag), src, tag, c), b, n, t, st); return 0; }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q) { auto& s = *mpi::sim(); s.r[s.cur].req.push_back({ true, nullptr, b, n, src, tag, c, t }); *q = s.r[s.cur].req.size(); return 0; }
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
    auto& s = *mpi::sim();
    if (*q <= 0) return 0;
    mpi::Req r = s.r[s.cur].req[*q - 1];
    *q = MPI_REQUEST_NULL;
    if (r.recv) return MPI_Recv(r.buf, r.max, r.t, r.src, r.tag, r.comm, st);
    auto m = r.m;
    if (s.sync) mpi::block("a wait for a send", [m] { return mpi::taken(m); });
    return 0;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) { for (int k = 0; k < n; ++k) MPI_Wait(q + k, st ? st + k : nullptr); return 0; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) { mpi::status(st, *mpi::pick(vx::fmt("a probe of rank %d with tag %d", src, tag), src, tag, c)); return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* f, MPI_Status* st) { auto v = mpi::candidates(src, tag, c); *f = !v.empty(); if (*f) mpi::status(st, *v[v.size() > 1 ? mpi::choose(v.size()) : 0]); else { bool once = false; mpi::block("a polling probe", [&once] { bool r = once; once = true; return r; }); } return 0; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->size / mpi::size_of(t); return 0; }
int MPI_Barrier(MPI_Comm c)
{
    auto& s = *mpi::sim();
    if (mpi::shm()) { // one sequence of barriers per communicator order
        mpi::Shm* h = mpi::shm();
        int k = s.r[s.cur].nbar++, P = s.P;
        pthread_mutex_lock(&h->mu); ++h->bar[k % 256]; ++h->version; pthread_cond_broadcast(&h->cv); pthread_mutex_unlock(&h->mu);
        mpi::block("a barrier", [h, k, P] { return h->bar[k % 256] == P; });
        return 0;
    } auto k = std::make_pair((int) c, s.r[s.cur].nbar++); ++s.bar[k]; mpi::Sim* p = &s; mpi::block("a barrier", [p, k] { return p->bar[k] == p->P; }); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    auto& s = *mpi::sim();
    if (mpi::shm()) {
        if (s.cur == root) { for (int k = 0; k < s.P; ++k) if (k != root) mpi::post(b, n, t, k, 1 << 20, c); }
        else mpi::take(mpi::pick("a broadcast", root, 1 << 20, c), b, n, t, nullptr);
        return 0;
    }
    auto k = std::make_pair((int) c, s.r[s.cur].nbar++);
    if (s.cur == root) { s.bc[k].assign((const char*) b, (size_t) n * mpi::size_of(t)); ++s.bar[k]; return 0; }
    mpi::Sim* p = &s;
    mpi::block("a broadcast", [p, k] { return p->bar[k] > 0; });
    VX_CHECK(s.bc[k].size() == (size_t) n * mpi::size_of(t), "a broadcast of %zu bytes is received as %zu bytes", s.bc[k].size(), (size_t) n * mpi::size_of(t));
    memcpy(b, s.bc[k].data(), s.bc[k].size());
    return 0;
}
int MPI_Pcontrol(int, ...) { return 0; }
double MPI_Wtime(void) { return 0; }
}
