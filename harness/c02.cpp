// C02: concurrent creation of attributes, values and paths, under all schedules up to a number of preemptions.
// After each run: one attribute per name (with the type and properties of one of the requests), announced exactly
// once, everything usable by every thread as soon as it is returned, no identifier used twice.
#include "sched.hpp"
#include "svc.hpp"
#include <caliper/common/Node.h>
#include <atomic>
#include <mutex>
#include <thread>
using namespace cali;
namespace {
std::mutex rec_lock;                       // harness bookkeeping (not a scheduling point: see Quiet)
std::vector<std::pair<std::string, cali_id_t>> announced;
struct Got { std::string name; cali_id_t id; int req; };
std::vector<Got> got;
struct NodeGot { Node* node; cm::Path path; };
std::vector<NodeGot> nodes;
std::atomic<cali_id_t> published { CALI_INV_ID };
Attribute aR, aI, aX;
cali_id_t chn[2];
// what an attribute request asks for
struct Req { const char* name; cali_attr_type type; int prop; };
const Req REQ[] = { { "x", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "x", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "y", CALI_TYPE_DOUBLE, CALI_ATTR_DEFAULT },
                    { "m", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE }, { "n", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE } };
void created(Attribute a, int req)
{
    sched::Quiet q;
    got.push_back({ a.name(), a.id(), req });
}
// an attribute must be usable at once: by name, id, with the requested name, and a valid type
void usable(Caliper& c, Attribute a, const std::string& name)
{
    VX_CHECK(a.name() == name, "attribute `%s' instead of `%s'", a.name().c_str(), name.c_str());
    Attribute b = c.get_attribute(name), d = c.get_attribute(a.id());
    VX_CHECK(b.id() == a.id(), "`%s' has id %lu, but is found by name as %lu", name.c_str(), (unsigned long) a.id(), (unsigned long) b.id());
    VX_CHECK(d.name() == name && d.type() == a.type() && d.properties() == a.properties(), "`%s' looks different when found by id", name.c_str());
}
void node_ok(Caliper& c, Node* n, const cm::Path& path)
{
    VX_CHECK(n, "no node");
    VX_CHECK(c.node(n->id()) == n, "node %lu is not found by its id", (unsigned long) n->id());
    sched::Quiet q;
    nodes.push_back({ n, path });
}
using Op = std::pair<const char*, std::function<void()>>;
void create(int r)
{
    Caliper c;
    Attribute a = c.create_attribute(REQ[r].name, REQ[r].type, REQ[r].prop);
    created(a, r);
    usable(c, a, REQ[r].name);
}
std::vector<Op> OPS()
{
    return {
        { "create x (int)", [] { create(0); } },
        { "create x (string)", [] { create(1); } },
        { "create y", [] { create(2); } },
        { "create metric m", [] { create(3); } },
        { "create metric n and publish its id", [] { create(4); Caliper c; published.store(c.get_attribute("n").id(), std::memory_order_release); } },
        { "use the published attribute", [] { cali_id_t id = published.load(std::memory_order_acquire); if (id != CALI_INV_ID) { Caliper c; usable(c, c.get_attribute(id), "n"); cali_begin_double(id, 1.5); cali_end(id); } } },
        { "create x with metadata", [] { Caliper c; Variant v[2] = { Variant("meta"), Variant(5) }; Attribute m[2] = { aR, aI }; Attribute a = c.create_attribute("x", CALI_TYPE_INT, CALI_ATTR_ASVALUE, 2, m, v); created(a, 0); usable(c, a, "x"); } },
        { "find x", [] { Caliper c; Attribute a = c.get_attribute("x"); if (a) usable(c, a, "x"); } },
        { "list attributes", [] { Caliper c; for (const Attribute& a : c.get_all_attributes()) { VX_CHECK(c.get_attribute(a.id()).name() == a.name(), "listed attribute %lu has no name", (unsigned long) a.id()); } } },
        { "path a", [] { Caliper c; Variant v("a"); node_ok(c, c.make_tree_entry(aR, 1, &v), { { "r", "a" } }); } },
        { "path a/b/c", [] { Caliper c; Variant v[3] = { Variant("a"), Variant("b"), Variant("c") }; node_ok(c, c.make_tree_entry(aR, 3, v), { { "r", "a" }, { "r", "b" }, { "r", "c" } }); } },
        { "path a, then 1 below", [] { Caliper c; Variant v("a"), w(1); Node* n = c.make_tree_entry(aR, 1, &v); node_ok(c, c.make_tree_entry(aI, 1, &w, n), { { "r", "a" }, { "i", "1" } }); } },
        { "copy a path", [] { Caliper c; Variant v("k"), w(1); Node* n = c.make_tree_entry(aR, 1, &v); const Node* l[1] = { n }; node_ok(c, c.make_tree_entry(1, l, c.make_tree_entry(aI, 1, &w)), { { "i", "1" }, { "r", "k" } }); } },
        { "region by name", [] { cali_begin_region("reg"); cali_end_region("reg"); } },
        { "begin by name", [] { cali_begin_int_byname("y2", 3); cali_end_byname("y2"); } },
        { "set by name", [] { cali_set_string_byname("z", "val"); } },
    };
}
std::vector<Op> ops;
void check()
{
    Caliper c;
    std::map<std::string, int> times;
    std::map<std::string, cali_id_t> ids;
    for (auto& a : announced) { ++times[a.first]; ids[a.first] = a.second; }
    for (auto& t : times) VX_CHECK(t.second == 2, "attribute `%s' was announced %d times to two channels", t.first.c_str(), t.second);
    for (auto& g : got) {
        VX_CHECK(times.count(g.name), "attribute `%s' was not announced", g.name.c_str());
        VX_CHECK(ids[g.name] == g.id, "two attributes `%s': %lu and %lu", g.name.c_str(), (unsigned long) g.id, (unsigned long) ids[g.name]);
        Attribute a = c.get_attribute(g.id);
        bool any = false;
        for (auto& r : REQ) any |= g.name == r.name && a.type() == r.type && (a.properties() & ~CALI_ATTR_SCOPE_MASK) == r.prop;
        VX_CHECK(any, "`%s' has type %s and properties %d", g.name.c_str(), cali_type2string(a.type()), a.properties());
    }
    // identifiers: every node is found by its id, with its own content; ids differ
    std::map<cali_id_t, const Node*> seen;
    auto visit = [&](const Node* n) {
        for (; n && n->attribute() != CALI_INV_ID; n = n->parent()) {
            auto it = seen.emplace(n->id(), n).first;
            VX_CHECK(it->second == n, "two nodes with id %lu", (unsigned long) n->id());
            VX_CHECK(c.node(n->id()) == n, "node %lu is not found by its id", (unsigned long) n->id());
            bool child = false;
            for (const Node* k = n->parent()->first_child(); k && !child; k = k->next_sibling()) child = k == n;
            VX_CHECK(child, "node %lu is not among the children of its parent", (unsigned long) n->id());
        }
    };
    std::set<std::string> names;
    for (const Attribute& a : c.get_all_attributes()) { VX_CHECK(names.insert(a.name()).second, "attribute `%s' listed twice", a.name().c_str()); visit(a.node()); }
    for (auto& n : nodes) { visit(n.node); VX_CHECK(cm::show(cm::decode_node(c, n.node)) == cm::show(n.path), "path %s instead of %s", cm::show(cm::decode_node(c, n.node)).c_str(), cm::show(n.path).c_str()); }
    // the data of both channels must be there, and be readable
    for (int k = 0; k < 2; ++k) svc::flush_records(c, chn[k]);
}
void init(int per_block)
{
    if (per_block) setenv("CALI_CONTEXTTREE_NODES_PER_BLOCK", std::to_string(per_block).c_str(), 1);
    chn[0] = svc::mkchannel({ { "CALI_SERVICES_ENABLE", "event,trace,aggregate" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "one");
    chn[1] = svc::mkchannel({ { "CALI_SERVICES_ENABLE", "event,aggregate" }, { "CALI_AGGREGATE_KEY", "m" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "two");
    Caliper c;
    aR = c.create_attribute("r", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    aI = c.create_attribute("i", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
    // from here on
    for (int k = 0; k < 2; ++k) c.get_channel(chn[k]).events().create_attr_evt.connect([](Caliper*, const Attribute& a) { sched::Quiet q; for (const char* p : { "x", "y", "m", "n", "y2", "z" }) if (a.name() == p) announced.emplace_back(a.name(), a.id()); });
    ops = OPS();
}
void run(const std::vector<std::vector<int>>& prog)
{
    std::vector<std::thread> th;
    std::vector<std::string> err(prog.size());
    for (size_t t = 0; t < prog.size(); ++t)
        th.emplace_back([&, t]() {
            try { for (int o : prog[t]) ops[o].second(); }
            catch (vx::Fail& f) { sched::Quiet q; err[t] = f.msg; }
        });
    for (auto& t : th) t.join();
    sr_stop();
    for (size_t t = 0; t < prog.size(); ++t) VX_CHECK(err[t].empty(), "thread %zu: %s", t + 1, err[t].c_str());
    check();
}
std::string show_prog(const std::vector<std::vector<int>>& p)
{
    std::string s;
    for (auto& t : p) { s += s.empty() ? "" : " || "; for (size_t k = 0; k < t.size(); ++k) s += (k ? "; " : "") + std::string(OPS()[t[k]].first); }
    return s;
}
using Prog = std::vector<std::vector<int>>;
}
int main(int argc, char** argv)
{
    sched::fixed_addresses(argv);
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        static const int N = OPS().size();
        auto add = [&](const char* name, std::vector<Prog>* ps, int bound, int per_block) {
            d.enumerate(name, ps->size(), [=](uint64_t i) { auto t = sched::explore(bound, [=]() { run((*ps)[i]); }, i); if (getenv("VX_VERBOSE")) fprintf(stderr, "%s: %lu runs, %lu points\n", show_prog((*ps)[i]).c_str(), t.runs, t.maxpt); },
                        [=](uint64_t i) { return show_prog((*ps)[i]); }, 1, [=]() { init(per_block); });
        };
        std::vector<int> sel = { 0, 3, 4, 5, 9, 10, 13 }, few = { 0, 3, 9, 10, 13 };
        auto mk = [](const std::vector<int>& ops, int what) {
            auto* ps = new std::vector<Prog>;
            for (int a : ops) for (int b : ops) {
                if (what == 0 && a <= b) ps->push_back({ { a }, { b } });
                for (int c : ops) {
                    if (what == 2 && a <= b && b <= c) ps->push_back({ { a }, { b }, { c } });
                    for (int e : ops) if (what == 1 && std::make_pair(a, b) <= std::make_pair(c, e)) ps->push_back({ { a, b }, { c, e } });
                }
            }
            return ps;
        };
        std::vector<int> all;
        for (int a = 0; a < N; ++a) all.push_back(a);
        add("pairs", mk(all, 0), 1, 0);
        add("pairs, small blocks", mk(all, 0), 1, 16);
        add("pairs, two preemptions", mk(few, 0), 2, 0);
        add("two operations", mk(few, 1), 1, 0);
        add("three threads", mk(few, 2), 1, 0);
        if (vx::thorough()) {
            add("two operations of more", mk(sel, 1), 1, 0);
            add("three threads of more", mk(sel, 2), 1, 0);
            add("pairs of more, two preemptions", mk(all, 0), 2, 0);
            add("pairs, small blocks, two preemptions", mk(all, 0), 2, 16);
            add("pairs, three preemptions", mk(few, 0), 3, 0);
            add("three threads, two preemptions", mk(few, 2), 2, 0);
        }
    };
    return d.main(argc, argv);
}
