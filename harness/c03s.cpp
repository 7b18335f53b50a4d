// C03 (concurrent part): first calls of several threads at the same time, threads that end while others start or work,
// and finalization by another thread than the first, under all schedules up to a number of preemptions.  The library is
// not initialized when a run starts.
#include "sched.hpp"
#include "svc.hpp"
#include <caliper/common/Node.h>
#include <thread>
using namespace cali;
namespace {
struct Ctx { int t; std::vector<std::string>* regions; };
void note(Ctx& x, const std::string& r) { sched::Quiet q; x.regions->push_back(r); }
std::string val(Ctx& x, const char* s) { return std::string(s) + std::to_string(x.t); }
std::atomic<int> announced;
using Op = std::pair<const char*, std::function<void(Ctx&)>>;
std::vector<Op> OPS()
{
    return {
        { "region", [](Ctx& x) { cali_begin_region(val(x, "r").c_str()); cali_end_region(val(x, "r").c_str()); note(x, "region=" + val(x, "r")); } },
        { "init", [](Ctx&) { cali_init(); VX_CHECK(cali_is_initialized(), "not initialized after cali_init()"); } },
        { "attribute", [](Ctx& x) { cali_id_t a = cali_create_attribute("x", CALI_TYPE_INT, CALI_ATTR_DEFAULT); VX_CHECK(a != CALI_INV_ID, "no attribute"); VX_CHECK(cali_find_attribute("x") == a, "attribute not found"); cali_begin_int(a, x.t); cali_end(a); note(x, "x=" + std::to_string(x.t)); } },
        { "signal-safe query", [](Ctx&) { unsigned char b[400]; cali_channel_pull_snapshot(0, CALI_SCOPE_THREAD, sizeof b, b); VX_CHECK(!strcmp(cali_get_current_region_or("none"), "none"), "region"); } },
        { "global", [](Ctx& x) { cali_set_global_int_byname("g", x.t); } },
        { "query if initialized", [](Ctx&) { if (Caliper::is_initialized()) { Caliper c; auto v = c.get_all_channels(); VX_CHECK(v.size() == 1 && v[0].is_active(), "initialized without the configured channel"); } } },
        { "region in a thread of its own", [](Ctx& x) { std::thread([&] { cali_begin_region(val(x, "o").c_str()); cali_end_region(val(x, "o").c_str()); }).join(); note(x, "region=" + val(x, "o")); } },
    };
}
std::vector<Op> ops;
using Prog = std::vector<std::vector<int>>;   // of main and of the threads
void body(const Prog& p, const char* services)
{
    setenv("CALI_SERVICES_ENABLE", services, 1);
    setenv("CALI_CHANNEL_FLUSH_ON_EXIT", "false", 1);
    std::vector<std::thread> th;
    std::vector<std::string> err(p.size());
    std::vector<std::vector<std::string>> reg(p.size());
    auto run = [&](size_t t) {
        Ctx x { (int) t, &reg[t] };
        try { for (int o : p[t]) ops[o].second(x); }
        catch (vx::Fail& f) { sched::Quiet q; err[t] = f.msg; }
    };
    for (size_t t = 1; t < p.size(); ++t) th.emplace_back(run, t);
    run(0);
    for (auto& t : th) t.join();
    for (size_t t = 0; t < p.size(); ++t) VX_CHECK(err[t].empty(), "thread %zu: %s", t, err[t].c_str());
    {
        Caliper c;
        VX_CHECK(c, "Caliper is not usable");
        auto chs = c.get_all_channels();
        VX_CHECK(chs.size() == 1, "%zu channels", chs.size());
        VX_CHECK(chs[0].name() == "default" && chs[0].is_active(), "the default channel is not set up");
        std::set<std::string> names;
        for (const Attribute& a : c.get_all_attributes()) VX_CHECK(names.insert(a.name()).second, "attribute `%s' twice", a.name().c_str());
        int nv = 0;
        for (const Entry& e : c.get_globals()) for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) if (c.get_attribute(n->attribute()).name() == "cali.caliper.version") ++nv;
        VX_CHECK(nv == 1, "%d version entries", nv);
        std::multiset<std::string> exp, got;
        for (auto& r : reg) for (auto& s : r) exp.insert(s);
        c.flush(chs[0].body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
            for (const Entry& e : rec) for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) {
                std::string a = db.get_attribute(n->attribute()).name();
                if (a == "region" || a == "x") got.insert(a + "=" + n->data().to_string());
            }
        });
        std::string ge, ee;
        for (auto& s : got) ge += s + " ";
        for (auto& s : exp) ee += s + " ";
        VX_CHECK(got == exp, "recorded %s instead of %s", ge.c_str(), ee.c_str());
    }
    Caliper::release();
    VX_CHECK(!cali_is_initialized(), "initialized after finalization");
    cali_begin_region("late");
    VX_CHECK(!Caliper(), "usable after finalization");
    sr_stop();
}
std::string show_prog(const Prog& p)
{
    std::string s;
    for (size_t t = 0; t < p.size(); ++t) { s += t ? vx::fmt(" || T%zu: ", t) : "main: "; for (size_t k = 0; k < p[t].size(); ++k) s += (k ? "; " : "") + std::string(OPS()[p[t][k]].first); }
    return s;
}
}
int main(int argc, char** argv)
{
    sched::fixed_addresses(argv);
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    ops = OPS();
    vx::Driver d;
    d.define = [&]() {
        static const int N = OPS().size();
        auto add = [&](const char* name, std::vector<Prog>* ps, int bound, const char* sv) {
            d.enumerate(name, ps->size(), [=](uint64_t i) { auto t = sched::explore(bound, [=]() { body((*ps)[i], sv); }, i); if (getenv("VX_VERBOSE")) fprintf(stderr, "%s: %lu runs, %lu points\n", show_prog((*ps)[i]).c_str(), t.runs, t.maxpt); },
                        [=](uint64_t i) { return show_prog((*ps)[i]); }, 1);
        };
        auto pairs = new std::vector<Prog>, two = new std::vector<Prog>, three = new std::vector<Prog>, seq = new std::vector<Prog>;
        for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) {
            pairs->push_back({ { a }, { b } });                         // main and a thread
            if (a <= b && (a != 6 || b != 6)) two->push_back({ {}, { a }, { b } });           // two threads; main comes last
            for (int c = 0; c < N; ++c) {
                if (b <= c && a < 6 && b < 6 && c < 6) three->push_back({ { a }, { b }, { c } });
                if (b != c) seq->push_back({ { a, 0 }, { b, c } });
            }
        }
        const char* s1 = "event,trace", *s2 = "aggregate,event,timer,statistics,alloc,validator";
        add("first calls of main and a thread", pairs, 2, s1);
        add("first calls of two threads", two, 2, s1);
        add("first calls, more services", two, 1, s2);
        add("first calls of three", three, 1, s1);
        if (vx::thorough()) {
            add("two operations", seq, 1, s1);
            add("main and a thread, three preemptions", pairs, 3, s1);
            add("two threads, more services, two preemptions", two, 2, s2);
            add("three, two preemptions", three, 2, s1);
        }
    };
    return d.main(argc, argv);
}
