// C01: threads that annotate at the same time, under all schedules up to a number of preemptions.
// After each run: every thread's trace is (apart from process-scope data) what the thread records when it runs alone;
// aggregated counts and values are the sums over the threads; and all that was seen of the process-scope values can be
// explained by the threads' operations taking effect one after another in some order.
#include "sched.hpp"
#include "svc.hpp"
#include <caliper/common/Node.h>
#include <thread>
using namespace cali;
namespace {
using svc::Rec; using svc::Recs;
Attribute aMe, aR, aI, aJ, aM, aD, aP, aV, aG, aC, aAddr, aAd;
cali_id_t chT, chA, chM;
// what a thread did with process-scope data, in order
enum Kind { EVENT, PUSH, POP, SETV, SETG, TOP, GETV };     // EVENT: a trace record was made
struct Step { Kind k; std::string val; };                  // EVENT: "b", "s", "e" for events of procP
using Log = std::vector<Step>;
struct Ctx { int t; Log* log; };
void note(Ctx& x, Kind k, const std::string& v = "") { sched::Quiet q; x.log->push_back({ k, v }); }
std::string val(Ctx& x, const char* s) { return std::string(s) + std::to_string(x.t); }
void region(Ctx& x, const std::string& v, const std::function<void()>& in = nullptr)
{
    Caliper c;
    c.begin(aR, Variant(v.c_str())); note(x, EVENT);
    if (in) in();
    c.end(aR); note(x, EVENT);
}
void proc(Ctx& x, const std::string& v, const std::function<void()>& in = nullptr)
{
    Caliper c;
    c.begin(aP, Variant(v.c_str())); note(x, EVENT, "b"); note(x, PUSH, v);
    if (in) in();
    c.end(aP); note(x, EVENT, "e"); note(x, POP);
}
void snap(Ctx& x, const Attribute& a, const Variant& v)
{
    Caliper c;
    Entry e(a, v);
    c.push_snapshot(c.get_channel(chT).body(), SnapshotView(1, &e)); note(x, EVENT);
    c.push_snapshot(c.get_channel(chA).body(), SnapshotView(1, &e));
}
int mem[4][16];
void memory(Ctx& x, const Attribute& a)
{
    Caliper c;
    size_t dim[1] = { 16 };
    c.memory_region_begin(mem[x.t], val(x, "m").c_str(), 4, 1, dim);
    void* p = &mem[x.t][5];
    Entry e(a, Variant(CALI_TYPE_ADDR, &p, sizeof p));
    c.push_snapshot(c.get_channel(chM).body(), SnapshotView(1, &e));
    c.memory_region_end(mem[x.t]);
}
using Op = std::pair<const char*, std::function<void(Ctx&)>>;
std::vector<Op> OPS()
{
    return {
        { "region", [](Ctx& x) { region(x, val(x, "a")); } },
        { "nested regions", [](Ctx& x) { region(x, "a", [&] { region(x, val(x, "b")); }); } },
        { "snapshot with metrics", [](Ctx& x) { snap(x, aM, Variant(x.t + 1)); snap(x, aD, Variant(0.5 * x.t)); } },
        { "set values", [](Ctx& x) { Caliper c; c.set(aI, Variant(x.t)); note(x, EVENT); c.set(aJ, Variant(val(x, "j").c_str())); note(x, EVENT); } },
        { "region by name", [](Ctx& x) { cali_begin_region(val(x, "n").c_str()); note(x, EVENT); cali_end_region(val(x, "n").c_str()); note(x, EVENT); } },
        { "process region", [](Ctx& x) { proc(x, val(x, "p")); } },
        { "process region with a snapshot", [](Ctx& x) { proc(x, val(x, "q"), [&] { snap(x, aM, Variant(10)); }); } },
        { "set a process value", [](Ctx& x) { Caliper c; c.set(aV, Variant(x.t + 1)); note(x, EVENT); note(x, SETV, std::to_string(x.t + 1)); } },
        { "set and read a process value", [](Ctx& x) { Caliper c; c.set(aV, Variant(x.t + 11)); note(x, EVENT); note(x, SETV, std::to_string(x.t + 11)); std::string v = c.get(aV).value().to_string(); note(x, GETV, v); } },
        { "set a global", [](Ctx& x) { Caliper c; std::string v = val(x, "g"); c.set(aG, Variant(v.c_str())); note(x, SETG, v); for (const Entry& e : c.get_globals()) (void) e; } },
        { "read process data", [](Ctx& x) { Caliper c; std::string v = c.get(aV).value().to_string(); note(x, GETV, v); v = c.get(aP).value().to_string(); note(x, TOP, v); } },
        { "channel region", [](Ctx& x) { Caliper c; ChannelBody* b = c.get_channel(chT).body(); c.begin(b, aC, Variant(val(x, "c").c_str())); c.end(b, aC); } },
        { "tracked memory", [](Ctx& x) { Caliper c; memory(x, aAd); } },
        { "new address attribute", [](Ctx& x) { Caliper c; Variant t(true); memory(x, c.create_attribute("newad", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, 1, &aAddr, &t)); } },
        { "new attribute", [](Ctx& x) { cali_begin_int_byname("new", x.t); note(x, EVENT); cali_end_byname("new"); note(x, EVENT); } },
        { "new metric", [](Ctx& x) { Caliper c; Attribute a = c.create_attribute("newm", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS); snap(x, a, Variant(7 + x.t)); } },
        { "read own context", [](Ctx& x) { Caliper c; FixedSizeSnapshotRecord<60> r; c.pull_snapshot(c.get_channel(chA).body(), SnapshotView(), r.builder()); std::string v = r.view().get(aMe).value().to_string(); VX_CHECK(v == std::to_string(x.t + 1), "own context has the thread mark %s instead of %d", v.c_str(), x.t + 1); } },
    };
}
std::vector<Op> ops;
std::vector<std::vector<std::string>> reset_;
void program(Ctx& x, const std::vector<int>& p)
{
    { Caliper c; c.set(aMe, Variant(x.t + 1)); }
    for (int o : p) ops[o].second(x);
}
bool is_proc(const std::string& e) { return e.find("proc") != std::string::npos || e.find("/cali.caliper.version=") == 0; }
Rec strip(const Rec& r)
{
    Rec o;
    for (auto& e : r) {
        if (is_proc(e)) continue;
        o.insert(e.rfind("!time", 0) == 0 ? e.substr(0, e.find('=')) : e);
    }
    return o;
}
int thread_of(const Rec& r) { for (auto& e : r) { size_t p = e.find("/me="); if (p != std::string::npos) return atoi(e.c_str() + p + 4); } return 0; }
// aggregated data without process-scope keys: merged as different values of those split it
using Agg = std::map<std::string, std::map<std::string, double>>;
void add(Agg& g, const Rec& r)
{
    std::string key;
    std::map<std::string, double> v;
    for (auto& e : strip(r)) {
        size_t q = e.find('=');
        if (e[0] != '!') key += e + " ";
        else if (e.rfind("!aggregate.slot", 0) != 0 && e.find("time") == std::string::npos && e.rfind("!avg#", 0) != 0 && q != std::string::npos) v[e.substr(1, q - 1)] = atof(e.c_str() + q + 1);
    }
    auto& k = g[key];
    for (auto& x : v) {
        if (!k.count(x.first)) k[x.first] = x.second;
        else if (x.first.rfind("min#", 0) == 0) k[x.first] = std::min(k[x.first], x.second);
        else if (x.first.rfind("max#", 0) == 0) k[x.first] = std::max(k[x.first], x.second);
        else k[x.first] += x.second;
    }
}
std::string show(const Agg& g)
{
    std::string s;
    for (auto& k : g) { s += "{" + k.first + ":"; for (auto& v : k.second) s += vx::fmt(" %s=%g", v.first.c_str(), v.second); s += "} "; }
    return s;
}
std::string lines(const Recs& r) { std::string s; for (auto& x : r) s += cm::show(x) + "\n"; return s; }
struct Solo { std::string trace; Agg agg; };
// the process-scope part of a trace record
struct Seen { bool event = false; std::vector<std::string> pre, stack; std::string ev, v, g; };
Seen seen_of(const Rec& r)
{
    Seen s;
    auto split = [](const std::string& e) { std::vector<std::string> p; size_t i = 1; while (i < e.size()) { size_t n = e.find('/', i); if (n == std::string::npos) n = e.size(); p.push_back(e.substr(i, n - i)); i = n + 1; } return p; };
    for (auto& e : r) {
        if (e.rfind("!procv=", 0) == 0) s.v = e.substr(7);
        else if (e.rfind("/cali.caliper.version=", 0) == 0) { size_t q = e.find("/procg="); if (q != std::string::npos) s.g = e.substr(q + 7, e.find('/', q + 1) - q - 7); }
        else if (e[0] == '/' && is_proc(e)) {
            std::vector<std::string> p = split(e), st;
            bool ev = false;
            for (auto& kv : p) {
                if (kv.rfind("procP=", 0) == 0) st.push_back(kv.substr(6));
                else if (kv.rfind("event.", 0) == 0) { ev = true; s.ev = kv.substr(kv.find('=') + 1); }
            }
            if (ev) { s.event = true; s.pre = st; } else s.stack = st;
        }
    }
    return s;
}
struct State { std::vector<std::string> stack; std::string v, g; bool operator<(const State& o) const { return std::tie(stack, v, g) < std::tie(o.stack, o.v, o.g); } };
struct M { int k; std::string val; Seen seen; };    // elementary steps: see run()
enum { M_PUSH, M_POP, M_SETV, M_SETG, M_TOP, M_GETV, M_PRE, M_SNAP };
bool apply(const M& m, State& s)
{
    switch (m.k) {
    case M_PUSH: s.stack.push_back(m.val); return true;
    case M_POP: if (s.stack.empty()) return false; s.stack.pop_back(); return true;
    case M_SETV: s.v = m.val; return true;
    case M_SETG: s.g = m.val; return true;
    case M_TOP: return (s.stack.empty() ? "" : s.stack.back()) == m.val;
    case M_GETV: return s.v == m.val;
    case M_PRE: return s.stack == m.seen.pre;
    case M_SNAP: return s.v == m.seen.v && s.g == m.seen.g && (m.seen.event && s.stack == m.seen.pre ? m.seen.stack.empty() : s.stack == m.seen.stack);
    }
    return false;
}
bool explain(const std::vector<std::vector<M>>& ms, const State& fin)
{
    std::set<std::pair<std::vector<int>, State>> done;
    std::function<bool(std::vector<int>, State)> go = [&](std::vector<int> pos, State s) -> bool {
        if (!done.insert({ pos, s }).second) return false;
        bool end = true;
        for (size_t t = 0; t < ms.size(); ++t)
            if (pos[t] < (int) ms[t].size()) {
                end = false;
                State n = s;
                if (!apply(ms[t][pos[t]], n)) continue;
                auto p = pos;
                ++p[t];
                if (go(p, n)) return true;
            }
        return end && s.stack == fin.stack && s.v == fin.v && s.g == fin.g;
    };
    return go(std::vector<int>(ms.size(), 0), State());
}
void init()
{
    chT = svc::mkchannel({ { "CALI_SERVICES_ENABLE", "event,trace,timer,validator,statistics" }, { "CALI_TIMER_INCLUSIVE_DURATION", "true" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "trace");
    chA = svc::mkchannel({ { "CALI_SERVICES_ENABLE", "event,aggregate,timer" }, { "CALI_AGGREGATE_KEY", "i" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "agg");
    chM = svc::mkchannel({ { "CALI_SERVICES_ENABLE", "event,trace,alloc" }, { "CALI_ALLOC_TRACK_ALLOCATIONS", "true" }, { "CALI_ALLOC_RESOLVE_ADDRESSES", "true" }, { "CALI_ALLOC_RECORD_ACTIVE_MEM", "true" }, { "CALI_ALLOC_RECORD_HIGHWATERMARK", "true" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "mem");
    Caliper c;
    aAddr = c.create_attribute("class.memoryaddress", CALI_TYPE_BOOL, CALI_ATTR_SKIP_EVENTS);
    { Variant t(true); aAd = c.create_attribute("ad", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, 1, &aAddr, &t); }
    aMe = c.create_attribute("me", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    aR = c.create_attribute("r", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    aI = c.create_attribute("i", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    aJ = c.create_attribute("j", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    aM = c.create_attribute("m", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    aD = c.create_attribute("d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    aP = c.create_attribute("procP", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS);
    aV = c.create_attribute("procv", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS);
    aG = c.create_attribute("procg", CALI_TYPE_STRING, CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS);
    aC = c.create_attribute("chn.c", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SKIP_EVENTS);
    ops = OPS();
}
Recs traces[5];
Agg collect(Caliper& c, int n)
{
    for (int t = 0; t <= n; ++t) traces[t].clear();
    for (auto& r : svc::flush_records(c, chT)) { int t = thread_of(r); VX_CHECK(t <= n, "record of thread %d", t); traces[t].push_back(r); }
    Agg g;
    for (auto& r : svc::flush_records(c, chA)) add(g, r);
    return g;
}
// every tracked region appears once when it is tracked and once when it is freed, with its thread; addresses are resolved
// to the thread's own region; at the end, nothing is active
void check_memory(Caliper& c, int track)
{
    c.push_snapshot(c.get_channel(chM).body(), SnapshotView());
    std::map<std::string, int> alloc, freed;
    std::set<std::string> uids;
    Recs rs = svc::flush_records(c, chM);
    int last = 0;
    for (auto& r : rs) {
        int t = thread_of(r);
        std::string l = "m" + std::to_string(t - 1);
        auto get = [&](const char* pre) { for (auto& e : r) if (e.rfind(pre, 0) == 0) return e.substr(strlen(pre)); return std::string(); };
        std::string a = get("/mem.alloc="), f = get("/mem.free="), act = get("!alloc.active="), v = get("/alloc.label#ad="), uid = get("!alloc.uid=");
        if (!a.empty()) { ++alloc[a]; VX_CHECK(a == l, "thread %d tracks %s", t, a.c_str()); VX_CHECK(uids.insert(uid).second, "two regions with uid %s", uid.c_str()); }
        if (!f.empty()) { ++freed[f]; VX_CHECK(f == l, "thread %d frees %s", t, f.c_str()); VX_CHECK(uids.count(uid), "no region with uid %s", uid.c_str()); }
        if (!get("!ad=").empty()) VX_CHECK(v == l && get("!alloc.index#ad=") == "5", "address resolved to `%s' [%s] in thread %d (%s)", v.c_str(), get("!alloc.index#ad=").c_str(), t, cm::show(r).c_str());
        if (t == 0) { ++last; VX_CHECK(get("!mem.active=") == "0", "%s bytes are active at the end (%s)", get("!mem.active=").c_str(), cm::show(r).c_str()); }
    }
    int na = 0, nf = 0;
    for (auto& a : alloc) na += a.second;
    for (auto& a : freed) nf += a.second;
    VX_CHECK(na == track && nf == track, "%d regions were tracked: recorded %d, freed %d", track, na, nf);
    VX_CHECK(last == 1, "%d records of no thread", last);

}
void run(const std::vector<std::vector<int>>& prog, const std::vector<Solo>& solo)
{
    std::vector<std::thread> th;
    int n = prog.size();
    std::vector<std::string> err(n);
    std::vector<Log> logs(n);
    for (int t = 0; t < n; ++t)
        th.emplace_back([&, t]() {
            Ctx x { t, &logs[t] };
            try { program(x, prog[t]); }
            catch (vx::Fail& f) { sched::Quiet q; err[t] = f.msg; }
        });
    for (auto& t : th) t.join();
    sr_stop();
    for (int t = 0; t < n; ++t) VX_CHECK(err[t].empty(), "thread %d: %s", t + 1, err[t].c_str());
    Caliper c;
    Agg g = collect(c, n), e;
    int track = 0;
    for (auto& pr : prog) for (int o : pr) track += ops[o].first == std::string("tracked memory") || ops[o].first == std::string("new address attribute");
    check_memory(c, track);
    VX_CHECK(traces[0].empty(), "records of no thread: %s", lines(traces[0]).c_str());
    std::vector<std::vector<M>> ms(n);
    for (int t = 0; t < n; ++t) {
        Recs st;
        for (auto& r : traces[t + 1]) st.push_back(strip(r));
        VX_CHECK(lines(st) == solo[t].trace, "thread %d recorded:\n%sinstead of:\n%s", t + 1, lines(st).c_str(), solo[t].trace.c_str());
        for (auto& k : solo[t].agg) { VX_CHECK(!e.count(k.first), "internal: key in two threads"); e[k.first] = k.second; }
        size_t k = 0;
        for (auto& s : logs[t]) {
            if (s.k == EVENT) {
                VX_CHECK(k < traces[t + 1].size(), "thread %d has only %zu records", t + 1, k);
                Seen x = seen_of(traces[t + 1][k++]);
                if (s.val == "e") ms[t].push_back({ M_TOP, x.ev, x });
                if (x.event) ms[t].push_back({ M_PRE, "", x });
                ms[t].push_back({ M_SNAP, "", x });
            } else ms[t].push_back({ s.k == PUSH ? M_PUSH : s.k == POP ? M_POP : s.k == SETV ? M_SETV : s.k == SETG ? M_SETG : s.k == TOP ? M_TOP : M_GETV, s.val, Seen() });
        }
    }
    VX_CHECK(show(g) == show(e), "aggregated:\n%s\ninstead of:\n%s", show(g).c_str(), show(e).c_str());
    // process-scope data
    State fin;
    fin.v = c.get(aV).value().to_string();
    fin.g = c.get(aG).value().to_string();
    for (Node* p = c.get(aP).node(); p && p->attribute() == aP.id(); p = p->parent()) fin.stack.insert(fin.stack.begin(), p->data().to_string());
    if (!explain(ms, fin)) {
        std::string s;
        for (int t = 0; t < n; ++t) {
            s += vx::fmt("\n thread %d:", t + 1);
            for (auto& m : ms[t]) {
                const char* N[] = { "push ", "pop", "set procv=", "set procg=", "top: ", "procv: ", "stack: ", "record: " };
                s += std::string(" ") + N[m.k] + m.val;
                if (m.k == M_PRE) for (auto& x : m.seen.pre) s += "/" + x;
                if (m.k == M_SNAP) { for (auto& x : m.seen.stack) s += "/" + x; s += " v=" + m.seen.v + " g=" + m.seen.g; }
                s += ";";
            }
        }
        std::string st;
        for (auto& x : fin.stack) st += "/" + x;
        vx::fail("no order of the operations on process-scope data explains what was seen; at the end procP=%s procv=%s procg=%s%s", st.c_str(), fin.v.c_str(), fin.g.c_str(), s.c_str());
    }
    std::string cs = c.get(c.get_channel(chT).body(), aC).value().to_string();
    VX_CHECK(cs.empty(), "channel region `%s' is still open after all were closed", cs.c_str());
}
std::string show_prog(const std::vector<std::vector<int>>& p)
{
    std::string s;
    for (auto& t : p) { s += s.empty() ? "" : " || "; for (size_t k = 0; k < t.size(); ++k) s += (k ? "; " : "") + std::string(OPS()[t[k]].first); }
    return s;
}
using Prog = std::vector<std::vector<int>>;
std::map<std::pair<int, std::vector<int>>, Solo> cache;
Solo alone(int t, const std::vector<int>& p)
{
    auto it = cache.find({ t, p });
    if (it != cache.end()) return it->second;
    std::string r = vx::in_fork([&]() -> std::string {
        Log log;
        std::string err;
        std::thread th([&]() { Ctx x { t, &log }; try { program(x, p); } catch (vx::Fail& f) { err = f.msg; } });
        th.join();
        VX_CHECK(err.empty(), "alone: %s", err.c_str());
        Caliper c;
        Agg g = collect(c, t + 1);
        Recs st;
        for (auto& r : traces[t + 1]) st.push_back(strip(r));
        std::string s = lines(st) + "\1";
        for (auto& k : g) { s += k.first + "\2"; for (auto& v : k.second) s += vx::fmt("%s\3%.17g\3", v.first.c_str(), v.second); s += "\1"; }
        return s;
    });
    Solo so;
    size_t i = r.find('\1');
    so.trace = r.substr(0, i++);
    while (i < r.size()) {
        size_t e = r.find('\1', i), k = r.find('\2', i);
        std::string key = r.substr(i, k - i);
        auto& m = so.agg[key];
        for (size_t p = k + 1; p < e;) { size_t a = r.find('\3', p), b = r.find('\3', a + 1); m[r.substr(p, a - p)] = atof(r.substr(a + 1, b - a - 1).c_str()); p = b + 1; }
        i = e + 1;
    }
    return cache[{ t, p }] = so;
}
}
int main(int argc, char** argv)
{
    sched::fixed_addresses(argv);
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        static const int N = OPS().size();
        auto add = [&](const char* name, std::vector<Prog>* ps, int bound) {
            d.enumerate(name, ps->size(), [=](uint64_t i) {
                            std::vector<Solo> solo;
                            for (size_t t = 0; t < (*ps)[i].size(); ++t) solo.push_back(alone(t, (*ps)[i][t]));
                            auto t = sched::explore(bound, [=]() { run((*ps)[i], solo); }, i);
                            if (getenv("VX_VERBOSE")) fprintf(stderr, "%s: %lu runs, %lu points\n", show_prog((*ps)[i]).c_str(), t.runs, t.maxpt);
                        },
                        [=](uint64_t i) { return show_prog((*ps)[i]); }, 1, init);
        };
        auto mk = [](const std::vector<int>& ops, int what) {
            auto* ps = new std::vector<Prog>;
            for (int a : ops) for (int b : ops) {
                if (what == 0 && a <= b) ps->push_back({ { a }, { b } });
                for (int c : ops) {
                    if (what == 2 && a <= b && b <= c) ps->push_back({ { a }, { b }, { c } });
                    for (int e : ops) if (what == 1 && std::make_pair(a, b) <= std::make_pair(c, e)) ps->push_back({ { a, b }, { c, e } });
                }
            }
            return ps;
        };
        std::vector<int> all, few = { 1, 2, 5, 8, 14 };
        for (int a = 0; a < N; ++a) all.push_back(a);
        std::vector<int> pd = { 5, 7, 8, 9, 10 };
        add("pairs", mk(all, 0), 1);
        add("two operations", mk(few, 1), 1);
        add("three threads", mk(few, 2), 1);
        add("process data, two preemptions", mk(pd, 0), 2);
        if (vx::thorough()) {
            add("pairs, two preemptions", mk(all, 0), 2);
            add("process data, three threads", mk(pd, 2), 2);
            add("process data, two operations", mk(pd, 1), 2);
            add("three threads of more", mk({ 1, 2, 3, 5, 8, 10, 12, 14, 15 }, 2), 1);
            add("two operations of more", mk({ 1, 2, 3, 5, 8, 10, 12, 14, 15 }, 1), 1);
            add("pairs, three preemptions", mk(all, 0), 3);
        }
    };
    return d.main(argc, argv);
}
