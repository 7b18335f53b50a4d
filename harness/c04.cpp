// C04: a signal handler that takes snapshots and queries the context, run at every memory access of every operation.
// The handler must not allocate or wait; what it records is the context before or after the interrupted step, or nothing;
// everything else comes out as without it.
#include "sched.hpp"
#include "svc.hpp"
#include <caliper/Annotation.h>
#include <caliper/AsyncEvent.h>
#include <caliper/ConfigManager.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/cali_datatracker.h>
#include <caliper/common/Node.h>
#include <sstream>
#include <thread>
using namespace cali;
namespace {
using svc::Rec; using svc::Recs;
Attribute aIdx, aSig, aR, aI, aJ, aM, aD, aP, aV, aG, aC, aK, aAddr, aAd;
Channel chS, chT, chA, chM;
char mem[64];

// ------------------------------------------------------- the handler
struct Handled {
    int step = 0;
    size_t n = 0;
    Entry ctx[120];
    cali_variant_t vI, vR, vV, vC;
    const char* region = nullptr;
} H[2];
Node* sig_node[2];
int nH;
const char* bad;
volatile int step_;
bool fill_trace;
uint64_t fill_allocs;
bool locked_out() { return !Caliper::sigsafe_instance(); }
void handler()
{
    // no memory is written when locked out
    unsigned char cbuf[4096];
    size_t cbytes = cali_channel_pull_snapshot(chT.id(), CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, sizeof cbuf, cbuf);
    cali_variant_t vI = cali_get(aI.id()), vR = cali_get(aR.id()), vV = cali_get(aV.id()), vC = cali_channel_get(chT.id(), aC.id());
    const char* region = cali_get_current_region_or("none");
    Caliper c = Caliper::sigsafe_instance();
    if (!c) {
        if (cbytes) bad = "a snapshot";
        if (!cali_variant_is_empty(vI) || !cali_variant_is_empty(vR) || !cali_variant_is_empty(vV) || !cali_variant_is_empty(vC)) bad = "a value";
        if (strcmp(region, "none")) bad = "a region";
        return;
    }
    if (nH == 2) { bad = "internal: too many handlers"; return; }
    if (fill_trace) {
        // more than a trace buffer holds
        Entry big[60];
        for (int i = 0; i < 60; ++i) big[i] = Entry(aM, Variant(1e9 + i));
        for (int i = 0; i < 4000; ++i) c.push_snapshot(chS.body(), SnapshotView(60, big));
        return;
    }
    Entry e(sig_node[nH]);
    Handled& h = H[nH++];
    h.step = step_;
    h.vI = vI; h.vR = vR; h.vV = vV; h.vC = vC; h.region = region;
    FixedSizeSnapshotRecord<120> r;
    c.pull_snapshot(chS.body(), SnapshotView(), r.builder());
    for (const Entry& e : r.view()) if (h.n < 120) h.ctx[h.n++] = e;
    for (Channel* ch : { &chS, &chT, &chA, &chM }) if (*ch) c.push_snapshot(ch->body(), SnapshotView(1, &e));
}

// ------------------------------------------------------- operations
using Step = std::function<void()>;
struct Op { const char* name; std::vector<Step> pre, steps, post; bool gone = false; };    // gone: chM is deleted
void snap(std::initializer_list<Channel*> chs) { Caliper c; Entry e[2] = { Entry(aM, Variant(3)), Entry(aD, Variant(0.5)) }; for (Channel* ch : chs) c.push_snapshot(ch->body(), SnapshotView(2, e)); }
cali::Annotation* ann;
cali::Loop* loop;
cali::Loop::Iteration* iter;
Channel chX;
std::vector<Op> OPS()
{
    auto rb = [] { Caliper().begin(aR, Variant("x")); };
    auto re = [] { Caliper().end(aR); };
    auto pb = [] { Caliper().begin(aP, Variant("p")); };
    auto pe = [] { Caliper().end(aP); };
    return {
        { "begin region", {}, { rb }, { re } },
        { "begin nested region", { rb }, { rb }, { re, re } },
        { "end region", { rb }, { re }, {} },
        { "set a value", {}, { [] { Caliper().set(aI, Variant(5)); } }, {} },
        { "replace a value", { [] { Caliper().set(aI, Variant(5)); } }, { [] { Caliper().set(aI, Variant(6)); } }, {} },
        { "set a path value", { [] { Caliper().set(aJ, Variant("one")); } }, { [] { Caliper().set(aJ, Variant("two")); } }, {} },
        { "end a path value", { rb, [] { Caliper().begin(aK, Variant("k")); } }, { [] { Caliper().end(aK); } }, { re } },
        { "begin process region", {}, { pb }, { pe } },
        { "end process region", { pb, rb }, { pe }, { re } },
        { "set a process value", { [] { Caliper().set(aV, Variant(5)); } }, { [] { Caliper().set(aV, Variant(6)); } }, {} },
        { "set a global", {}, { [] { Caliper().set(aG, Variant("g")); } }, {} },
        { "channel region", {}, { [] { Caliper().begin(chT.body(), aC, Variant("c")); }, [] { Caliper().set(chT.body(), aC, Variant("d")); }, [] { Caliper().end(chT.body(), aC); } }, {} },
        { "region by name", {}, { [] { cali_begin_region("n"); }, [] { cali_end_region("n"); } }, {} },
        { "new attribute by name", {}, { [] { cali_begin_int_byname("new", 4); }, [] { cali_end_byname("new"); } }, {} },
        { "new attribute", {}, { [] { Caliper c; c.create_attribute("newm", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE); } }, {} },
        { "new attribute with metadata", {}, { [] { Caliper c; Variant t(true); c.create_attribute("newad", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, 1, &aAddr, &t); } }, {} },
        { "end with value check", { rb }, { [] { Caliper c; c.end_with_value_check(aR, Variant("x")); } }, {} },
        { "snapshot", { rb }, { [] { snap({ &chT }); }, [] { snap({ &chA }); }, [] { snap({ &chS }); } }, { re } },
        { "snapshot with replacement", { rb }, { [] { Caliper c; Entry e = c.get(aR); c.push_snapshot_replace(chT.body(), SnapshotView(), e); } }, { re } },
        { "read the context", { rb }, { [] { Caliper c; FixedSizeSnapshotRecord<60> r; c.pull_snapshot(chA.body(), SnapshotView(), r.builder()); c.pull_context(r.builder()); c.get(aR); c.get(aV); c.get_path_node(); c.get_globals(); c.get_globals(chT.body()); c.get_attribute("r"); c.get_all_attributes(); c.exchange(aI, Variant(9)); } }, { re } },
        { "make nodes", {}, { [] { Caliper c; Variant v[3] = { Variant("a"), Variant("b"), Variant("c") }; c.make_tree_entry(aK, 3, v); c.make_tree_entry(aK, v[1]); } }, {} },
        { "track memory", {}, { [] { cali_datatracker_track(mem, "mem", 64); } }, { [] { cali_datatracker_untrack(mem); } } },
        { "untrack memory", { [] { cali_datatracker_track(mem, "mem", 64); } }, { [] { cali_datatracker_untrack(mem); } }, {} },
        { "resolve an address", { [] { cali_datatracker_track(mem, "mem", 64); } }, { [] { Caliper c; void* p = mem + 4; Entry e(aAd, Variant(CALI_TYPE_ADDR, &p, sizeof p)); c.push_snapshot(chM.body(), SnapshotView(1, &e)); } }, { [] { cali_datatracker_untrack(mem); } } },
        { "asynchronous event", {}, { [] { auto e = TimedAsyncEvent::begin("e"); e.end(); } }, {} },
        { "annotation object", { [] { ann = new cali::Annotation("ann"); } }, { [] { ann->begin(1); }, [] { ann->set(2); }, [] { ann->end(); } }, {} },
        { "loop object", {}, { [] { loop = new cali::Loop("loop"); }, [] { iter = new cali::Loop::Iteration(loop->iteration(0)); }, [] { delete iter; iter = nullptr; }, [] { loop->end(); } }, {} },
        { "deactivate and activate", {}, { [] { Caliper().deactivate_channel(chM); }, [] { Caliper().activate_channel(chM); } }, {} },
        { "create a channel", {}, { [] { const char* kv[][2] = { { "CALI_SERVICES_ENABLE", "event,trace,timer" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { nullptr, nullptr } }; cali_configset_t cs = cali_create_configset(kv); cali_id_t id = cali_create_channel("x", 0, cs); cali_delete_configset(cs); chX = Caliper().get_channel(id); } }, { [] { Caliper().delete_channel(chX); chX = Channel(); } } },
        { "flush", { rb, re }, { [] { Caliper c; for (Channel* ch : { &chT, &chA }) c.flush(ch->body(), SnapshotView(), [](CaliperMetadataAccessInterface&, const std::vector<Entry>&) {}); } }, {} },
        { "write", { rb, re }, { [] { Caliper().flush_and_write(chM.body(), SnapshotView()); } }, {} },
        { "clear", { rb, re }, { [] { Caliper().clear(&chM); } }, {} },
        { "query configuration", {}, { [] { cali_find_attribute("r"); cali_attribute_name(aR.id()); cali_attribute_type(aR.id()); cali_channel_is_active(chT.id()); Caliper().get_all_channels(); } }, {} },
    };
}
std::vector<Op> ops;
void init()
{
    auto mk = [](std::vector<std::pair<const char*, const char*>> e, const char* n) { std::vector<std::pair<std::string, std::string>> m(e.begin(), e.end()); return Caliper().get_channel(svc::mkchannel(m, n)); };
    chS = mk({ { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "sample");
    chT = mk({ { "CALI_SERVICES_ENABLE", "event,trace,timer,validator,statistics" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_TIMER_INCLUSIVE_DURATION", "true" } }, "trace");
    chA = mk({ { "CALI_SERVICES_ENABLE", "event,aggregate,timer" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "agg");
    chM = mk({ { "CALI_SERVICES_ENABLE", "event,trace,alloc,recorder" }, { "CALI_RECORDER_FILENAME", "/dev/null" }, { "CALI_ALLOC_TRACK_ALLOCATIONS", "true" }, { "CALI_ALLOC_RESOLVE_ADDRESSES", "true" }, { "CALI_ALLOC_RECORD_ACTIVE_MEM", "true" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "mem");
    Caliper c;
    aAddr = c.create_attribute("class.memoryaddress", CALI_TYPE_BOOL, CALI_ATTR_SKIP_EVENTS);
    { Variant t(true); aAd = c.create_attribute("ad", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, 1, &aAddr, &t); }
    aIdx = c.create_attribute("idx", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    aSig = c.create_attribute("sig", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    for (int k = 0; k < 2; ++k) sig_node[k] = c.make_tree_entry(aSig, Variant(k));
    aR = c.create_attribute("r", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    aI = c.create_attribute("i", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    aJ = c.create_attribute("j", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    aK = c.create_attribute("k", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    aM = c.create_attribute("m", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    aD = c.create_attribute("d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    aP = c.create_attribute("procP", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS);
    aV = c.create_attribute("procv", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS);
    aG = c.create_attribute("procg", CALI_TYPE_STRING, CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS);
    aC = c.create_attribute("chn.c", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SKIP_EVENTS);
    ops = OPS();
}
std::string text(const Rec& r)
{
    // times are not reproducible
    std::string s;
    for (auto& e : r) if (e.find("time") == std::string::npos && e.find("duration") == std::string::npos && e.rfind("!aggregate.slot", 0) != 0) s += e + " ";
    return s;
}
std::string context(Caliper& c)
{
    FixedSizeSnapshotRecord<120> r;
    c.pull_snapshot(chS.body(), SnapshotView(), r.builder());
    Rec o;
    for (const Entry& e : r.view()) o.insert(cm::decode_entry(c, e));
    return text(o);
}
std::string vs(cali_variant_t v) { return Variant(v).to_string(); }
// what the interrupted code and the rest of the program see; the handler's own records apart
struct Out { std::string data, own; };
struct Base { std::vector<std::string> ctx, I, R, V, C, region; std::string data; };
std::string queries(Caliper& c) { return vs(cali_get(aI.id())) + "|" + vs(cali_get(aR.id())) + "|" + vs(cali_get(aV.id())) + "|" + vs(cali_channel_get(chT.id(), aC.id())) + "|" + cali_get_current_region_or("none"); }
Out collect(Caliper& c)
{
    Out o;
    std::string q = queries(c);
    for (Channel* ch : { &chS, &chT, &chA, &chM }) {
        std::multiset<std::string> agg;
        std::string tr;
        for (auto& r : svc::flush_records(c, ch->id())) {
            bool own = false;
            for (auto& e : r) own |= e.find("/sig=") != std::string::npos;
            if (own) o.own += ch->name() + ": " + text(r) + "\n";
            else if (ch == &chA) agg.insert(text(r));
            else tr += text(r) + "\n";
        }
        for (auto& a : agg) tr += a + "\n";
        o.data += "-- " + ch->name() + "\n" + tr;
    }
    o.data += "-- context " + context(c) + "\n-- values " + q + "\n";
    std::string at;
    for (auto& a : c.get_all_attributes()) at += a.name() + " ";
    o.data += "-- attributes " + at + "\n";
    return o;
}
struct Mode { const char* name; bool warm, fresh_thread; };
void perform(const Op& op, bool warm, std::vector<std::string>* ctx, std::vector<std::string>* qs, bool windows)
{
    Caliper c;
    if (warm) { snap({ &chS, &chT, &chA, &chM }); Caliper().begin(aR, Variant("warm")); Caliper().end(aR); }
    for (auto& s : op.pre) s();
    auto mark = [&] { if (ctx) { ctx->push_back(context(c)); qs->push_back(queries(c)); } };
    step_ = 0;
    mark();
    for (size_t k = 0; k < op.steps.size(); ++k) {
        step_ = k;
        if (windows) sr_window(1, handler);
        op.steps[k]();
        if (windows) sr_window(0, handler);
        mark();
    }
    for (auto& s : op.post) s();
    // everything still works
    Caliper().begin(aR, Variant("after"));
    snap({ &chS, &chT, &chA, &chM });
    Caliper().end(aR);
}
struct Expect { std::vector<std::string> ctx, qs; std::string data; };
Expect baseline(const Op& op, bool warm)
{
    std::string r = vx::in_fork([&]() -> std::string {
        Expect e;
        perform(op, warm, nullptr, nullptr, false);
        Caliper c;
        return collect(c).data;
    });
    Expect e;
    e.data = r;
    r = vx::in_fork([&]() -> std::string {
        std::vector<std::string> x, q;
        perform(op, warm, &x, &q, false);
        std::string s;
        for (size_t k = 0; k < x.size(); ++k) s += x[k] + "\2" + q[k] + "\3";
        return s;
    });
    for (size_t i = 0; i < r.size();) { size_t a = r.find('\2', i), b = r.find('\3', a); e.ctx.push_back(r.substr(i, a - i)); e.qs.push_back(r.substr(a + 1, b - a - 1)); i = b + 1; }
    return e;
}
std::string field(const std::string& q, int k) { size_t i = 0; while (k--) i = q.find('|', i) + 1; return q.substr(i, q.find('|', i) - i); }
std::atomic<uint64_t>* stat_;  // shared: interrupted, recorded
void body(const Op& op, bool warm, const Expect& ex)
{
    perform(op, warm, nullptr, nullptr, true);
    sr_stop();
    Caliper c;
    VX_CHECK(Caliper::sigsafe_instance(), "handlers are locked out after the operation");
    Out o = collect(c);
    if (o.data != ex.data) {
        std::istringstream x(o.data), y(ex.data);
        std::string p, q, sec;
        while (std::getline(x, p), std::getline(y, q), p == q) if (p.rfind("--", 0) == 0) sec = p;
        vx::fail("recorded %s: `%s' instead of `%s'", sec.c_str(), p.c_str(), q.c_str());
    }
    VX_CHECK(!fill_allocs, "snapshots in a signal handler allocate memory (%lu times)", fill_allocs);
    VX_CHECK(!bad, "a handler that is locked out gets %s", bad);
    if (!nH) VX_CHECK(o.own.empty(), "records of a handler that was locked out:\n%s", o.own.c_str());
    for (int k = 0; k < nH; ++k) {
        Handled& h = H[k];
        ++stat_[1];
        const std::string &b = ex.ctx[h.step], &a = ex.ctx[h.step + 1], &qb = ex.qs[h.step], &qa = ex.qs[h.step + 1];
        auto is = [&](const char* what, const std::string& v, int k) { VX_CHECK(v == field(qb, k) || v == field(qa, k), "the handler got %s `%s', which is `%s' before and `%s' after", what, v.c_str(), field(qb, k).c_str(), field(qa, k).c_str()); };
        is("i", vs(h.vI), 0); is("r", vs(h.vR), 1); is("procv", vs(h.vV), 2); is("chn.c", vs(h.vC), 3); is("region", h.region, 4);
        Rec r;
        for (size_t i = 0; i < h.n; ++i) r.insert(cm::decode_entry(c, h.ctx[i]));
        VX_CHECK(text(r) == a || text(r) == b, "the handler's context is\n%s\nwhich is before:\n%s\nand after:\n%s", text(r).c_str(), b.c_str(), a.c_str());
        // its records: in each channel at most one, of that context
        std::map<std::string, int> n;
        std::istringstream in(o.own);
        std::string ln;
        while (std::getline(in, ln)) if (ln.find(vx::fmt("/sig=%d", k)) != std::string::npos) ++n[ln.substr(0, ln.find(':'))];
        for (auto& p : n) VX_CHECK(p.second == 1, "%d records of the handler in channel %s", p.second, p.first.c_str());
        if (warm) for (const char* ch : { "sample", "trace", "mem" }) VX_CHECK(n.count(ch) || !strcmp(op.name, "clear"), "the handler's record is missing in channel %s", ch);
        stat_[2] += n.size();
    }
}
}
int main(int argc, char** argv)
{
    sched::fixed_addresses(argv);
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    stat_ = (std::atomic<uint64_t>*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    vx::Driver d;
    sr_survey(locked_out);
    d.define = [&]() {
        static const int N = OPS().size(), W = 4;
        enum { MAIN, THREAD, OTHER };   // channels are created in: the main thread, before it uses Caliper another thread, another thread
        auto add = [&](const char* name, bool warm, int where, bool twice, bool each, bool full = false) {
            d.enumerate(name, N * W, [=](uint64_t i) {
                            const Op& op = ops[i / W];
                            Expect ex = baseline(op, warm);
                            sched::Interrupts n = sched::interrupts([&]() { body(op, warm, ex); }, twice, each, i % W, W);
                            for (uint64_t k = i % W; k < n.open; k += W) vx::seen(((uint64_t) (warm + 2 * where + 8 * full) << 40) + (i / W) * 1000003 + k);
                            stat_[0] += n.points / (i % W ? ~0ull : 1);
                            if (getenv("VX_VERBOSE") && i % W == 0) fprintf(stderr, "%s: %lu accesses, %lu open, %lu wrote\n", op.name, n.points, n.open, n.wrote);
                        },
                        [=](uint64_t i) { return vx::fmt("%s (part %d of %d)", OPS()[i / W].name, (int) (i % W) + 1, W); }, 1,
                        [=]() {
                            if (where == OTHER) { Caliper c; c.get_attribute("none"); }
                            if (where != MAIN) std::thread(init).join(); else init();
                            if (full) {
                                // a handler finds no more room in the aggregation database
                                Caliper h = Caliper::sigsafe_instance(), c;
                                std::vector<Entry> v;
                                for (int i = 0; i < 20000; ++i) v.push_back(Entry(c.make_tree_entry(aIdx, Variant(i))));
                                uint64_t n = sr_allocations();
                                for (Entry& e : v) h.push_snapshot(chA.body(), SnapshotView(1, &e));
                                fill_allocs = sr_allocations() - n;
                            }
                        });
        };
        add("warm", true, MAIN, false, false);
        add("first snapshots", false, MAIN, false, false);
        add("first use in a thread", false, THREAD, false, false);
        add("channels of another thread", false, OTHER, false, false);
        add("aggregation database full", true, MAIN, false, false, true);
        add("two interruptions, warm", true, MAIN, true, false);
        if (vx::thorough()) {
            add("two interruptions", false, MAIN, true, false);
            add("two interruptions, first use in a thread", false, THREAD, true, false);
            add("two interruptions, channels of another thread", false, OTHER, true, false);
            add("each access", true, MAIN, false, true);
        }
        d.enumerate("trace buffer full", 1, [](uint64_t) {
            fill_trace = true;
            try { sched::interrupts([]() { snap({ &chS }); sr_window(1, handler); Caliper().begin(aR, Variant("x")); sr_window(0, nullptr); Caliper().end(aR); sr_stop(); }); }
            catch (vx::Fail& f) {
                if (f.msg.find("a signal handler allocates memory") != std::string::npos) vx::failsig("C04:trace-grow", "%s", f.msg.c_str());
                throw;
            } }, [](uint64_t) { return std::string("a handler's snapshot exceeds the trace buffer"); }, 1, init);
    };
    int rc = d.main(argc, argv);
    if (getenv("VX_VERBOSE")) fprintf(stderr, "interrupted %lu, recorded %lu, records %lu\n", stat_[0].load(), stat_[1].load(), stat_[2].load());
    return rc;
}
