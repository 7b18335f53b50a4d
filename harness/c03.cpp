// C03 (sequential part): every order of first use, thread start, thread exit, finalization and program exit.
// A script of steps is executed in a fresh process (Caliper not initialized): threads run one step at a time.  The process
// then really exits (on the main thread, or by exit() on another one), its output is read back and compared: what was
// annotated before finalization is there exactly once, nothing after, and the process ends normally.
#include "calidb.hpp"
#include "svc.hpp"
#include "vx.hpp"
#include <caliper/Annotation.h>
#include <caliper/AsyncEvent.h>
#include <caliper/Caliper.h>
#include <caliper/ConfigManager.h>
#include <caliper/RegionProfile.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/cali.h>
#include <caliper/cali_datatracker.h>
#include <condition_variable>
#include <fstream>
#include <mutex>
#include <thread>
using namespace cali;
namespace {
// what is left of Caliper objects after finalization
struct Left {
    cali_id_t chn = CALI_INV_ID, attr = CALI_INV_ID;
    Channel channel;
    Attribute a, inv;
    ConfigManager* mgr = nullptr;
    std::shared_ptr<ChannelController> ctrl;
    RegionProfile* prof = nullptr;
    cali::Annotation* ann = nullptr;
    cali::Loop* loop = nullptr;
    TimedAsyncEvent* ev = nullptr;
};
Left* left;
int report_fd = -1;         // set in a process that runs a script
void wrong(const char* m) { if (write(report_fd, m, strlen(m)) < 0) abort(); fflush(nullptr); _exit(3); }
#define OK(c, m) do { if (!(c)) wrong(m); } while (0)

// every operation, with live and with invalid handles; nothing may happen
void everything(bool last)
{
    Left& l = *left;
    OK(!cali_is_initialized() && !Caliper::is_initialized(), "still initialized");
    cali_init();
    OK(!cali_is_initialized(), "initialized again");
    cali_caliper_version();
    for (int k = 0; k < 2; ++k) {
        cali_id_t at = k ? CALI_INV_ID : l.attr, ch = k ? CALI_INV_ID : l.chn;
        OK(cali_create_attribute("post.x", CALI_TYPE_INT, CALI_ATTR_DEFAULT) == CALI_INV_ID, "attribute created");
        cali_variant_t mv = cali_make_variant_from_int(1);
        cali_create_attribute_with_metadata("post.y", CALI_TYPE_INT, 0, 1, &at, &mv);
        OK(cali_find_attribute("region") == CALI_INV_ID, "attribute found");
        cali_attribute_name(at); cali_attribute_type(at); cali_attribute_properties(at);
        cali_push_snapshot(0, 1, &at, &mv);
        cali_channel_push_snapshot(ch, 0, 1, &at, &mv);
        unsigned char buf[256] = { 0 };
        OK(cali_channel_pull_snapshot(ch, CALI_SCOPE_THREAD, sizeof buf, buf) == 0, "snapshot taken");
        size_t rd = 0;
        cali_unpack_snapshot(buf, &rd, [](void*, cali_id_t, cali_variant_t) { return 1; }, nullptr);
        cali_find_first_in_snapshot(buf, at, &rd);
        cali_find_all_in_snapshot(buf, at, &rd, [](void*, cali_id_t, cali_variant_t) { return 1; }, nullptr);
        OK(cali_variant_is_empty(cali_get(at)), "value");
        OK(cali_variant_is_empty(cali_channel_get(ch, at)), "value");
        OK(!strcmp(cali_get_current_region_or("none"), "none"), "region");
        cali_begin(at); cali_begin_int(at, 1); cali_begin_double(at, 1); cali_begin_string(at, "post"); cali_end(at);
        cali_set_int(at, 1); cali_set_double(at, 2); cali_set_string(at, "post"); int i = 1; cali_set(at, &i, sizeof i);
        OK(!cali_channel_is_active(ch), "channel active");
        cali_activate_channel(ch); cali_deactivate_channel(ch); cali_channel_flush(ch, CALI_FLUSH_CLEAR_BUFFERS); cali_delete_channel(ch);
    }
    cali_begin_region("post"); cali_end_region("post"); cali_begin_phase("post"); cali_end_phase("post"); cali_begin_comm_region("post"); cali_end_comm_region("post");
    cali_begin_byname("post"); cali_begin_int_byname("post", 1); cali_begin_double_byname("post", 1); cali_begin_string_byname("post", "post"); cali_end_byname("post");
    cali_set_int_byname("post", 1); cali_set_double_byname("post", 1); cali_set_string_byname("post", "post");
    cali_set_global_int_byname("post", 1); cali_set_global_double_byname("post", 1); cali_set_global_string_byname("post", "post"); cali_set_global_uint_byname("post", 1);
    cali_flush(0); cali_flush(CALI_FLUSH_CLEAR_BUFFERS);
    cali_make_loop_iteration_attribute("post");
    const char* kv[][2] = { { "CALI_SERVICES_ENABLE", "event,trace" }, { nullptr, nullptr } };
    cali_configset_t cs = cali_create_configset(kv);
    cali_id_t nc = cali_create_channel("post", 0, cs);
    OK(nc == CALI_INV_ID, "channel created");
    cali_delete_configset(cs);
    char mem[8];
    cali_datatracker_track(mem, "post", 8);
    size_t dim = 2;
    cali_datatracker_track_dimensional(mem, "post", 4, &dim, 1);
    cali_datatracker_untrack(mem);
    { CALI_CXX_MARK_SCOPE("post"); }
    { CALI_CXX_MARK_FUNCTION; }
    { cali::Annotation a("post"); a.begin(1); a.end(); a.begin("x"); a.set("x"); a.end(); cali::Annotation::Guard g(a); }
    { cali::Annotation a("post", cali::Annotation::MetadataListType { { "post.m", Variant(1) } }, CALI_ATTR_ASVALUE); a.set(1.5); }
    { cali::Loop lp("post"); { auto it = lp.iteration(1); } lp.end(); }
    { auto e = TimedAsyncEvent::begin("post"); e.end(); }
    { RegionProfile p; p.start(); p.stop(); p.exclusive_region_times(); p.inclusive_region_times(); p.clear(); }
    if (!last) {     // (parsing needs the library's own global objects)
        ConfigManager m;
        m.add("event-trace(output=post.cali)");
        m.add("runtime-report");
        m.check("runtime-report");
        m.start(); m.flush(); m.stop();
        for (auto& p : m.get_all_channels()) { p->start(); p->flush(); p->stop(); }
    }
    // the C++ interface; objects made before
    for (int k = 0; k < 4; ++k) {
        Caliper c = k & 1 ? Caliper::sigsafe_instance() : k & 2 ? Caliper() : Caliper::instance();
        OK(!c, "still usable");
        Attribute a = k & 2 ? l.a : l.inv;
        Entry e(a, Variant(1));
        OK(c.create_attribute("post", CALI_TYPE_INT, 0) == Attribute(), "attribute created");
        c.begin(a, Variant(1)); c.set(a, Variant(1)); c.end_with_value_check(a, Variant(1)); c.end(a); c.exchange(a, Variant(1));
        OK(c.get(a).empty() && c.get_path_node().empty() && c.get_blackboard_entry(a).empty() && c.get_globals().empty() && c.get_all_attributes().empty() && c.get_all_channels().empty(), "data");
        c.async_event(SnapshotView(1, &e));
        c.memory_region_begin(mem, "post", 1, 1, &dim); c.memory_region_end(mem);
        FixedSizeSnapshotRecord<60> r;
        c.pull_context(r.builder());
        Variant v(1);
        c.make_record(1, &a, &v, r.builder());
        OK(r.view().size() == 0, "snapshot taken");
        c.make_tree_entry(a, v); c.make_tree_entry(a, 1, &v); c.make_tree_entry(0, nullptr); c.node(0); c.node(12);
        c.get_attribute(0); c.get_attribute("region");
        Channel none;
        for (Channel* ch : { &l.channel, &none }) {
            if (*ch) {
                c.begin(ch->body(), a, v); c.set(ch->body(), a, v); c.end(ch->body(), a); c.get(ch->body(), a); c.get_globals(ch->body());
                c.push_snapshot(ch->body(), SnapshotView()); c.push_snapshot_replace(ch->body(), SnapshotView(), e); c.pull_snapshot(ch->body(), SnapshotView(), r.builder());
                c.flush(ch->body(), SnapshotView(), [](CaliperMetadataAccessInterface&, const std::vector<Entry>&) { wrong("record"); });
                c.flush_and_write(ch->body(), SnapshotView());
                c.memory_region_begin(ch->body(), mem, "post", 1, 1, &dim); c.memory_region_end(ch->body(), mem);
                c.clear(ch); c.activate_channel(*ch); c.deactivate_channel(*ch); c.delete_channel(*ch);
            }
        }
        c.get_channel(0);
        c.finalize();
        Caliper::release();
    }
    if (l.ann) { l.ann->begin("post"); l.ann->set("post"); l.ann->end(); }
    if (l.loop) { { auto it = l.loop->iteration(7); } l.loop->end(); }
    if (l.ev) l.ev->end();
    if (l.prof) { l.prof->start(); l.prof->stop(); l.prof->inclusive_region_times(); l.prof->clear(); }
    if (l.ctrl) { l.ctrl->start(); l.ctrl->flush(); l.ctrl->stop(); l.ctrl->is_active(); l.ctrl->name(); }
    if (l.mgr) { l.mgr->start(); l.mgr->flush(); l.mgr->stop(); }
}
// destroyed after all else
bool used;
struct Last { ~Last() { if (report_fd >= 0) { if (used) everything(true); if (write(report_fd, "E", 1) != 1) abort(); } } };
Last last __attribute__((init_priority(101)));

struct Cfg { const char* name; std::vector<std::pair<const char*, std::string>> env; std::string code; bool report = false, at_exit = true; };
std::vector<Cfg> cfgs()
{
    return {
        { "trace", { { "CALI_SERVICES_ENABLE", "event,trace,recorder,timer" } }, "" },
        { "aggregate", { { "CALI_SERVICES_ENABLE", "aggregate,event,recorder,statistics,validator,alloc" } }, "" },
        { "two channels", { { "CALI_SERVICES_ENABLE", "event,trace,recorder" }, { "CALI_CONFIG", "event-trace(output=@.2)" } }, "" },
        { "CALI_CONFIG report", { { "CALI_CONFIG", "runtime-report(output=@)" } }, "", true },
        { "no output", { { "CALI_SERVICES_ENABLE", "" } }, "", false, false },
    };
}
enum Actor { M, W1, W2, NACT };
enum Step { A_M, S_1, A_1, E_1, S_2, A_2, E_2, R_M, R_1, B_M, NSTEP };
const char* SN[] = { "main annotates", "start T1", "T1 annotates", "T1 ends", "start T2", "T2 annotates", "T2 ends", "main finalizes", "T1 finalizes", "main opens a region" };
enum Exit { X_M, X_1, X_2, NEXIT };
const char* XN[] = { "main exits", "exit() on T1", "exit() on T2" };

// threads of the script, one step at a time
struct Worker {
    std::mutex m; std::condition_variable cv;
    std::function<void()> todo; bool have = false, quit = false;
    std::thread th;
    void loop() { for (;;) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return have || quit; }); if (quit) return; auto f = todo; l.unlock(); f(); l.lock(); have = false; cv.notify_all(); } }
    void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); todo = f; have = true; cv.notify_all(); cv.wait(l, [&] { return !have; }); }
};
void annotate(const std::string& v) { cali_begin_region(v.c_str()); cali_end_region(v.c_str()); }
void take_left()
{
    // needs Caliper: only for those that annotate anyway
    Left& l = *left;
    if (l.attr != CALI_INV_ID) return;
    Caliper c;
    if (!c) return;
    l.a = c.create_attribute("left", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    l.attr = l.a.id();
    auto ch = c.get_all_channels();
    if (!ch.empty()) { l.channel = ch[0]; l.chn = ch[0].id(); }
}
[[noreturn]] void script(const std::vector<int>& st, int ex, const Cfg& cfg, const std::string& out, int handles)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    for (auto& e : cfg.env) { std::string v = e.second; auto p = v.find('@'); if (p != std::string::npos) v.replace(p, 1, out); setenv(e.first, v.c_str(), 1); }
    setenv("CALI_RECORDER_FILENAME", out.c_str(), 1);
    Worker* w = new Worker[NACT];   // not destroyed
    int n = 0;
    for (int s : st) {
        std::string v = vx::fmt("r%d", n++);
        if (s == A_M || s == A_1 || s == A_2 || s == R_M || s == R_1 || s == B_M) used = true;
        switch (s) {
        case A_M: annotate(v); if (handles) take_left(); break;
        case B_M: cali_begin_region(v.c_str()); break;
        case S_1: case S_2: { Worker& x = w[s == S_1 ? W1 : W2]; x.th = std::thread([&x] { x.loop(); }); break; }
        case A_1: case A_2: w[s == A_1 ? W1 : W2].run([&] { annotate(v); if (handles) take_left(); }); break;
        case E_1: case E_2: { Worker& x = w[s == E_1 ? W1 : W2]; { std::lock_guard<std::mutex> g(x.m); x.quit = true; x.cv.notify_all(); } x.th.join(); x.quit = false; break; }
        case R_M: if (handles) take_left(); Caliper::release(); if (handles) everything(false); break;
        case R_1: w[W1].run([&] { if (handles) take_left(); Caliper::release(); if (handles) everything(false); }); break;
        }
        if (handles && n == 1 && left->attr != CALI_INV_ID) {
            // objects that outlive Caliper
            left->ann = new cali::Annotation("left.ann");
            left->loop = new cali::Loop("left.loop"); left->loop->end();
            left->mgr = new ConfigManager; left->mgr->add(handles == 2 ? "runtime-report(output=stderr)" : "event-trace(output=/dev/null)"); left->mgr->start();
            auto all = left->mgr->get_all_channels(); if (!all.empty()) left->ctrl = all[0];
            left->prof = new RegionProfile; left->prof->start();
        }
    }
    if (ex == X_M) exit(0);
    w[ex == X_1 ? W1 : W2].run([] { exit(0); });
    abort();
}
std::string read_all(const std::string& f) { std::ifstream i(f); return { std::istreambuf_iterator<char>(i), {} }; }
std::map<std::string, int> regions_of(const std::string& text, bool report)
{
    std::map<std::string, int> r;
    if (report) {
        std::istringstream i(text);
        std::string ln;
        while (std::getline(i, ln)) { std::istringstream w(ln); std::string a; if (w >> a && a != "Path") ++r[a]; }
        return r;
    }
    CaliperMetadataDB db;
    CaliReader rd;
    std::istringstream in(text);
    rd.read(in, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& d, const std::vector<Entry>& rec) {
        std::string path;
        for (const Entry& e : rec)
            for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent())
                if (d.get_attribute(n->attribute()).name() == "region") path = n->data().to_string() + (path.empty() ? "" : "/") + path;
        // nested regions: inside a region that is open
        auto p = path.rfind('/');
        if (p != std::string::npos) path = path.substr(p + 1);
        if (!path.empty()) ++r[path];
    });
    VX_CHECK(!rd.error(), "output cannot be read: %s", rd.error_msg().c_str());
    return r;
}
std::string show(const std::map<std::string, int>& m) { std::string s; for (auto& p : m) s += vx::fmt("%s%s:%d", s.empty() ? "" : " ", p.first.c_str(), p.second); return s.empty() ? "nothing" : s; }
void run(const std::vector<int>& st, int ex, const Cfg& cfg, int handles)
{
    std::string out = vx::opt.scratch + vx::fmt("/c03.%d", getpid());
    unlink(out.c_str()); unlink((out + ".2").c_str());
    int pfd[2];
    if (pipe(pfd)) abort();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]);
        vx::cpu_limit(20);
        report_fd = pfd[1];
        left = new Left;
        if (chdir(vx::opt.scratch.c_str())) abort();
        alarm(60);
        script(st, ex, cfg, out, handles);
    }
    close(pfd[1]);
    std::string msg;
    char b[512];
    for (ssize_t n; (n = read(pfd[0], b, sizeof b)) > 0;) msg.append(b, n);
    close(pfd[0]);
    int s = 0;
    while (waitpid(p, &s, 0) < 0 && errno == EINTR) {}
    VX_CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 0, "%s %s", vx::status_str(s).c_str(), msg.c_str());
    VX_CHECK(msg == "E", "the program did not run to its end: %s", msg.c_str());
    // the model: until finalization
    std::map<std::string, int> exp;
    int n = 0;
    bool inited = false, fini = false;
    std::string open;
    for (int x : st) {
        std::string v = vx::fmt("r%d", n++);
        if (x == R_M || x == R_1) fini = inited = true;
        if (fini) continue;
        if (x == A_M || x == A_1 || x == A_2) { ++exp[v]; inited = true; }
        if (x == B_M) { inited = true; open = v; }
    }
    for (int k = 0; k < 2; ++k) {
        std::string f = out + (k ? ".2" : "");
        bool there = access(f.c_str(), F_OK) == 0;
        if (!cfg.at_exit || (k && strcmp(cfg.name, "two channels"))) { VX_CHECK(!there, "unexpected output"); continue; }
        if (!inited) { VX_CHECK(!there, "output although Caliper was never used"); continue; }
        VX_CHECK(there || (exp.empty()), "no output");
        auto got = regions_of(read_all(f), cfg.report);
        // records of regions inside the open one also refer to it; itself, it has none of its own when it is never ended
        if (!open.empty()) { got.erase(open); }
        got.erase("left.loop");
        VX_CHECK(got == exp, "recorded %s instead of %s", show(got).c_str(), show(exp).c_str());
    }
    unlink(out.c_str()); unlink((out + ".2").c_str());
    vx::seen(vx::fnv(show(exp)));
}
struct Case { std::vector<int> st; int ex; };
// scripts: T2 starts after T1 did (they are alike)
void gen(std::vector<Case>& o, std::vector<int>& st, int alive, int used, bool fini, bool opened, int left)
{
    for (int x = 0; x < NEXIT; ++x) if (x == X_M || alive >> x & 1) o.push_back({ st, x });
    if (!left) return;
    for (int s = 0; s < NSTEP; ++s) {
        int a = alive, u = used;
        bool f = fini, op = opened;
        switch (s) {
        case S_1: if (alive & 2) continue; a |= 2; break;                       // a thread can be started again
        case S_2: if (!(alive & 2) || (alive & 4)) continue; a |= 4; break;
        case A_1: case R_1: if (!(alive & 2)) continue; break;
        case E_1: if (!(alive & 2)) continue; a &= ~2; break;
        case A_2: if (!(alive & 4)) continue; break;
        case E_2: if (!(alive & 4)) continue; a &= ~4; break;
        case B_M: if (opened || fini) continue; op = true; break;
        }
        if (s == R_M || s == R_1) { if (fini) continue; f = true; }
        st.push_back(s);
        gen(o, st, a, u, f, op, left - 1);
        st.pop_back();
    }
}
std::string name(const Case& c, const Cfg& cfg) { std::string s = std::string(cfg.name) + ": "; for (int x : c.st) s += std::string(SN[x]) + "; "; return s + XN[c.ex]; }
}
int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        static std::vector<Cfg> C = cfgs();
        auto add = [&](const char* nm, int depth, std::vector<int> cs, int handles) {
            auto* v = new std::vector<Case>;
            std::vector<int> st;
            gen(*v, st, 0, 0, false, false, depth);
            auto* cc = new std::vector<int>(cs);
            uint64_t n = v->size() * cc->size();
            d.enumerate(nm, n, [=](uint64_t i) { run((*v)[i / cc->size()].st, (*v)[i / cc->size()].ex, C[(*cc)[i % cc->size()]], handles); },
                        [=](uint64_t i) { return name((*v)[i / cc->size()], C[(*cc)[i % cc->size()]]); });
        };
        bool t = vx::thorough();
        add("lifecycles", t ? 6 : 5, { 0, 1 }, 0);
        add("lifecycles with several channels", t ? 5 : 4, { 2, 3, 4 }, 0);
        add("objects that outlive the library", t ? 4 : 3, { 0, 1, 2, 3, 4 }, 1);
        add("reports that outlive the library", t ? 4 : 3, { 0, 1, 3 }, 2);
    };
    return d.main(argc, argv);
}
