// A05: identity of attribute keys and value-tree nodes.
#include "ctxmodel.hpp"
#include <pthread.h>
#include <functional>
using namespace cali;
using namespace cm;

static void in_thread(const std::function<void()>& f)
{
    struct A { const std::function<void()>* f; std::string msg, sig; bool failed = false; } a { &f };
    pthread_t t;
    pthread_create(&t, nullptr, [](void* p) -> void* {
        A* a = (A*) p;
        try { (*a->f)(); } catch (vx::Fail& x) { a->failed = true; a->msg = x.msg; a->sig = x.sig; }
        return nullptr;
    }, &a);
    pthread_join(t, nullptr);
    if (a.failed) throw vx::Fail { a.msg, a.sig };
}

// ---------------------------------------------------------------- attributes
struct ADef { cali_attr_type type; int prop; int meta; };
// meta: 0 none, 1 {unit="ms"}, 2 {unit="ms",level=3}, 3 {class.aggregatable=true}, 4 {level=3,unit="ms"}
static const ADef DEFS[] = {
    { CALI_TYPE_STRING, CALI_ATTR_DEFAULT, 0 },
    { CALI_TYPE_INT, CALI_ATTR_ASVALUE, 2 },
    { CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, 3 },
    { CALI_TYPE_UINT, CALI_ATTR_GLOBAL, 1 },
    { CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS, 4 },
    { CALI_TYPE_INT, CALI_ATTR_HIDDEN | CALI_ATTR_UNALIGNED, 2 },
};
static std::string longname(600, 'n');
static const std::vector<std::string> NAMES_Q { "a", "a ", "aa", "" }, NAMES_T { "a", "a ", "aa", "", "A", longname, "cali.attribute.name" };

struct Known { cali_id_t id; cali_attr_type type; int prop; int meta; };

struct Attrs : vx::World {
    std::vector<std::string>     names;
    int                          ndefs;
    std::map<std::string, Known> model;
    std::vector<std::string>     never;
    int                          base = 0;

    struct O { int name, def, how; }; // how: 0 C++, 1 C, 2 C++ in a new thread
    std::vector<O> ops;
    Attrs(const std::vector<std::string>& n, int nd) : names(n), ndefs(nd)
    {
        for (size_t i = 0; i < n.size(); ++i)
            for (int d = 0; d < nd; ++d) ops.push_back({ (int) i, d, (int) (i + d) % 3 });
    }
    void setup() override
    {
        Caliper c;
        c.create_attribute("unit", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
        c.create_attribute("level", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
        for (const Attribute& a : c.get_all_attributes()) model[a.name()] = { a.id(), a.type(), a.properties(), -1 };
        base = model.size();
        check(c);
    }
    int         nops() const override { return ops.size(); }
    std::string opname(int i) const override { return vx::fmt("create(\"%s\", def %d)%s", names[ops[i].name].substr(0, 20).c_str(), ops[i].def, ops[i].how == 2 ? " in a thread" : ops[i].how ? " C" : ""); }
    bool        enabled(int) const override { return true; }
    static int normal(int prop, int meta)
    {
        if (prop & CALI_ATTR_GLOBAL) { prop &= ~CALI_ATTR_SCOPE_MASK; prop |= CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED; }
        if (!(prop & CALI_ATTR_SCOPE_MASK)) prop |= CALI_ATTR_SCOPE_THREAD;
        if (meta == 3) prop |= CALI_ATTR_AGGREGATABLE;
        return prop;
    }
    cali_id_t create(const O& o)
    {
        const ADef& d = DEFS[o.def];
        const std::string& n = names[o.name];
        Caliper c;
        Attribute unit = c.get_attribute("unit"), level = c.get_attribute("level"), agg = c.get_attribute("class.aggregatable");
        std::vector<Attribute> ma; std::vector<Variant> mv;
        if (d.meta == 1 || d.meta == 2) { ma.push_back(unit); mv.push_back(Variant("ms")); }
        if (d.meta == 2 || d.meta == 4) { ma.push_back(level); mv.push_back(Variant(3)); }
        if (d.meta == 4) { ma.push_back(unit); mv.push_back(Variant("ms")); }
        if (d.meta == 3) { ma.push_back(agg); mv.push_back(Variant(true)); }
        if (o.how == 1) {
            if (ma.empty()) return cali_create_attribute(n.c_str(), d.type, d.prop);
            std::vector<cali_id_t> mi; std::vector<cali_variant_t> mc;
            for (size_t i = 0; i < ma.size(); ++i) { mi.push_back(ma[i].id()); mc.push_back(mv[i].c_variant()); }
            return cali_create_attribute_with_metadata(n.c_str(), d.type, d.prop, ma.size(), mi.data(), mc.data());
        }
        Attribute a = c.create_attribute(n, d.type, d.prop, ma.size(), ma.data(), mv.data());
        VX_CHECK(a, "create returned an invalid attribute");
        return a.id();
    }
    void apply(int i) override
    {
        const O&  o = ops[i];
        cali_id_t id = CALI_INV_ID;
        if (o.how == 2) in_thread([&] { id = create(o); Caliper c; VX_CHECK(c.get_attribute(names[o.name]).id() == id, "creating thread does not find the new attribute"); });
        else id = create(o);
        auto it = model.find(names[o.name]);
        if (it != model.end()) {
            VX_CHECK(it->second.id == id, "create of existing attribute '%s' returned id %lu, expected %lu", names[o.name].c_str(), id, it->second.id);
        } else {
            for (auto& k : model) VX_CHECK(k.second.id != id, "new attribute got the id of '%s'", k.first.c_str());
            const ADef& d = DEFS[o.def];
            model[names[o.name]] = { id, d.type, normal(d.prop, d.meta), d.meta };
        }
        Caliper c;
        check(c);
    }
    void check(Caliper& c)
    {
        for (auto& n : names)
            if (!model.count(n)) {
                VX_CHECK(!c.get_attribute(n), "attribute '%s' was never created", n.c_str());
                VX_CHECK(cali_find_attribute(n.c_str()) == CALI_INV_ID, "cali_find_attribute: attribute '%s' was never created", n.c_str());
            }
        for (auto& k : model) {
            Attribute a = c.get_attribute(k.first), b = c.get_attribute(k.second.id);
            for (const Attribute& x : { a, b }) {
                VX_CHECK(x && x.id() == k.second.id && x.name() == k.first && x.type() == k.second.type && x.properties() == k.second.prop,
                         "attribute '%s': found id %lu name '%s' type %d prop %d, created as id %lu type %d prop %d", k.first.c_str(), x.id(), x.name().c_str(), x.type(), x.properties(), k.second.id, k.second.type, k.second.prop);
                int m = k.second.meta;
                if (m >= 0) {
                    Variant u = x.get(c.get_attribute("unit")), l = x.get(c.get_attribute("level")), g = x.get(c.get_attribute("class.aggregatable"));
                    bool wu = m == 1 || m == 2 || m == 4, wl = m == 2 || m == 4, wg = m == 3;
                    VX_CHECK(wu ? u == Variant("ms") : u.empty(), "attribute '%s': wrong metadata unit=%s", k.first.c_str(), u.to_string().c_str());
                    VX_CHECK(wl ? l == Variant(3) : l.empty(), "attribute '%s': wrong metadata level=%s", k.first.c_str(), l.to_string().c_str());
                    VX_CHECK(wg ? g == Variant(true) : g.empty(), "attribute '%s': wrong metadata class.aggregatable=%s", k.first.c_str(), g.to_string().c_str());
                }
            }
            if (k.first.size() == strlen(k.first.c_str())) VX_CHECK(cali_find_attribute(k.first.c_str()) == k.second.id, "cali_find_attribute('%s')", k.first.c_str());
            const char* nm = cali_attribute_name(k.second.id);
            VX_CHECK(nm && k.first == nm && cali_attribute_type(k.second.id) == k.second.type && cali_attribute_properties(k.second.id) == k.second.prop, "C attribute queries for '%s'", k.first.c_str());
            VX_CHECK(a == b && a.node() == c.node(k.second.id), "attribute objects for '%s' differ", k.first.c_str());
        }
        VX_CHECK(c.get_all_attributes().size() == model.size(), "get_all_attributes: %zu attributes, expected %zu", c.get_all_attributes().size(), model.size());
        for (cali_id_t id : { (cali_id_t) 0, (cali_id_t) 1, (cali_id_t) 60, (cali_id_t) 255, (cali_id_t) 256, (cali_id_t) 100000000, (cali_id_t) CALI_INV_ID, (cali_id_t) 1 << 63 }) {
            Attribute a = c.get_attribute(id);
            bool known = false;
            for (auto& k : model) known |= k.second.id == id;
            // ids of discarded name nodes may still be name nodes: only require that valid results name themselves
            VX_CHECK(!a || known || a.id() == id, "get_attribute(%lu) found attribute %s", id, a.name().c_str());
            if (id >= 100000000) VX_CHECK(!a, "get_attribute(%lu) found attribute %s", id, a.name().c_str());
        }
    }
    std::string state() const override
    {
        std::string s;
        for (auto& k : model) if (k.second.meta >= 0 ) s += k.first + ":" + std::to_string(k.second.type) + "," + std::to_string(k.second.prop) + "," + std::to_string(k.second.meta) + ";";
        return s;
    }
};

// ---------------------------------------------------------------- value paths
struct Trie : vx::World {
    std::vector<AttrDef>   ad { { "s", CALI_TYPE_STRING, 0 }, { "i", CALI_TYPE_INT, 0 }, { "t", CALI_TYPE_STRING, 0 }, { "d", CALI_TYPE_DOUBLE, 0 } };
    std::vector<Attribute> at;
    std::map<Path, Node*>  model; // every path prefix requested so far
    std::vector<Path>      order; // requested paths, in order
    struct O { int attr; std::vector<int> v; int parent; int how; }; // parent: -1 root, else order[size-1-parent]; how 0: (n,values) 1: single value 2: nodelist copy of the last path 3: n values in a thread
    std::vector<O> ops;
    static Variant val(cali_attr_type t, int v)
    {
        static const char* S[] = { "x", "", "xx", "x yz0123" };
        static const double D[] = { 0.0, -0.0, 1.5, 1e300 };
        static const int I[] = { 0, 1, -1, 2147483647 };
        return t == CALI_TYPE_STRING ? Variant(CALI_TYPE_STRING, S[v], strlen(S[v])) : t == CALI_TYPE_DOUBLE ? Variant(D[v]) : Variant(I[v]);
    }
    Trie(bool thorough)
    {
        std::vector<std::vector<int>> vs { { 0 }, { 1 }, { 2 }, { 0, 0 }, { 0, 1 }, { 3, 0, 2 } };
        for (int a = 0; a < (thorough ? 4 : 3); ++a)
            for (auto& v : vs) {
                ops.push_back({ a, v, -1, v.size() == 1 ? 1 : 0 });
                if (v.size() > 1 || a == 0) ops.push_back({ a, v, 0, 0 });
            }
        ops.push_back({ 0, {}, -1, 2 });
        ops.push_back({ 0, {}, 1, 2 });
        ops.push_back({ 0, { 0, 2 }, -1, 3 });
        ops.push_back({ 1, { 0 }, 1, 3 });
    }
    void setup() override
    {
        Caliper c;
        for (auto& a : ad) at.push_back(c.create_attribute(a.name, a.type, a.prop));
    }
    int         nops() const override { return ops.size(); }
    bool        enabled(int i) const override { return (ops[i].parent < (int) order.size()) && (ops[i].how != 2 || !order.empty()); }
    std::string opname(int i) const override
    {
        const O& o = ops[i];
        std::string s = o.how == 2 ? "copy last path" : ad[o.attr].name + ":";
        for (int v : o.v) s += " " + val(ad[o.attr].type, v).to_string();
        return s + (o.parent < 0 ? " at root" : vx::fmt(" at path -%d", o.parent)) + (o.how == 3 ? " in a thread" : "");
    }
    void apply(int i) override
    {
        const O& o = ops[i];
        Path     want;
        Node*    parent = nullptr;
        if (o.parent >= 0) { want = order[order.size() - 1 - o.parent]; parent = model[want]; }
        size_t   base = want.size();
        std::vector<Variant> vals;
        Node* n = nullptr;
        if (o.how == 2) {
            std::vector<const Node*> list;
            for (Node* p = model[order.back()]; p && p->attribute() != CALI_INV_ID; p = p->parent()) list.insert(list.begin(), p);
            Path lp = order.back();
            want.insert(want.end(), lp.begin(), lp.end());
            n = Caliper::instance().make_tree_entry(list.size(), list.data(), parent);
        } else {
            for (int v : o.v) { vals.push_back(val(ad[o.attr].type, v)); want.push_back({ ad[o.attr].name, std::to_string(v) }); }
            auto f = [&] {
                Caliper c;
                n = o.how == 1 ? c.make_tree_entry(at[o.attr], vals[0], parent) : c.make_tree_entry(at[o.attr], vals.size(), vals.data(), parent);
            };
            if (o.how == 3) in_thread(f); else f();
        }
        VX_CHECK(n, "no node");
        // register prefixes
        Node* x = n;
        for (size_t k = want.size(); k > 0; --k, x = x->parent()) {
            Path pre(want.begin(), want.begin() + k);
            VX_CHECK(x && x->attribute() != CALI_INV_ID, "path of length %zu has only %zu nodes", want.size(), want.size() - k);
            auto it = model.find(pre);
            if (it != model.end()) VX_CHECK(it->second == x, "path %s is a different node than before", show(pre).c_str());
            else model[pre] = x;
        }
        VX_CHECK(x && x->attribute() == CALI_INV_ID, "path has additional nodes");
        (void) base;
        order.push_back(want);
        check();
    }
    void check()
    {
        Caliper c;
        std::map<Node*, const Path*> rev;
        std::map<cali_id_t, Node*>  ids;
        for (auto& m : model) {
            VX_CHECK(rev.emplace(m.second, &m.first).second, "paths %s and %s are the same node", show(m.first).c_str(), show(*rev[m.second]).c_str());
            Node* n = m.second;
            VX_CHECK(ids.emplace(n->id(), n).second, "two nodes with id %lu", n->id());
            VX_CHECK(c.node(n->id()) == n, "node lookup by id %lu failed", n->id());
            for (size_t k = m.first.size(); k-- > 0; n = n->parent()) {
                int a = 0;
                while (ad[a].name != m.first[k].first) ++a;
                VX_CHECK(n->attribute() == at[a].id(), "path %s: wrong attribute at level %zu", show(m.first).c_str(), k);
                Variant v = val(ad[a].type, atoi(m.first[k].second.c_str())), d = n->data();
                VX_CHECK(d.type() == v.type() && d.size() == v.size() && memcmp(d.data(), v.data(), v.size()) == 0, "path %s: wrong value '%s' at level %zu", show(m.first).c_str(), d.to_string().c_str(), k);
                if (d.type() == CALI_TYPE_STRING) VX_CHECK(((const char*) d.data())[d.size()] == 0, "string value in tree is not 0-terminated");
            }
        }
    }
    std::string state() const override
    {
        std::string s;
        for (auto& m : model) s += show(m.first) + ";";
        return s;
    }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        bool t = vx::thorough();
        d.histories("attributes", t ? 4 : 3, [t]() { return std::make_unique<Attrs>(t ? NAMES_T : NAMES_Q, t ? 6 : 6); });
        d.histories("value paths", t ? 4 : 3, [t]() { return std::make_unique<Trie>(t); });
        // paths across block boundaries: fill the current node block up to every position, then request a long path
        static const std::vector<int> LQ { 1, 2, 3, 5, 128, 243, 244, 245, 254, 255, 256, 257, 300, 511, 512, 513, 600 };
        static const int NB[] = { 256, 256, 100, 16 };
        static std::vector<int> fills;
        for (int i = 0; i < 260; i += (i < 3 || i > 236 || (i > 120 && i < 136) || t) ? 1 : 7) fills.push_back(i);
        static int nl = LQ.size(), nf = fills.size();
        auto desc = [](uint64_t i) { return vx::fmt("%d single nodes, then a path of %d %s values, %d nodes per block", fills[i / nl % nf], LQ[i % nl], i / nl / nf % 2 ? "int" : "string", NB[i / nl / nf / 2]); };
        d.enumerate("long paths", (uint64_t) nl * nf * 2 * 4, [desc](uint64_t i) {
            if (i / nl / nf / 2 == 1) return;
            std::string r = vx::in_fork([&]() -> std::string {
                int f = fills[i / nl % nf], L = LQ[i % nl], ty = i / nl / nf % 2, nb = NB[i / nl / nf / 2];
                if (nb != 256) setenv("CALI_CONTEXTTREE_NODES_PER_BLOCK", std::to_string(nb).c_str(), 1);
                Caliper c;
                Attribute s = c.create_attribute("s", CALI_TYPE_STRING, 0), n = c.create_attribute("n", CALI_TYPE_INT, 0);
                // the fill is relative to the block's current position
                std::vector<Node*> single;
                for (int k = 0; k < f; ++k) single.push_back(c.make_tree_entry(n, Variant(1000 + k), nullptr));
                std::vector<std::string> str; std::vector<Variant> v;
                for (int k = 0; k < L; ++k) str.push_back("value " + std::to_string(k) + std::string(k % 9, 'z'));
                for (int k = 0; k < L; ++k) v.push_back(ty ? Variant(k) : Variant(CALI_TYPE_STRING, str[k].data(), str[k].size()));
                Node* p = c.make_tree_entry(ty ? n : s, L, v.data(), nullptr);
                std::vector<Node*> after;
                for (int k = 0; k < 300; ++k) after.push_back(c.make_tree_entry(s, Variant(str[0].c_str()), c.make_tree_entry(n, Variant(5000 + k), nullptr)));
                if (!p) return "path not created";
                if (c.make_tree_entry(ty ? n : s, L, v.data(), nullptr) != p) return "second request gave a different node";
                std::set<cali_id_t> ids;
                auto reg = [&](Node* x) { return x && c.node(x->id()) == x && ids.insert(x->id()).second; };
                Node* x = p;
                for (int k = L; k-- > 0; x = x->parent()) {
                    if (!x || !reg(x)) return vx::fmt("node %d of the path is not found by its id", k);
                    if (!(x->data() == v[k]) || x->attribute() != (ty ? n : s).id()) return vx::fmt("node %d of the path has value %s", k, x->data().to_string().c_str());
                }
                if (!x || x->attribute() != CALI_INV_ID) return "path has wrong length";
                for (int k = 0; k < f; ++k) if (!reg(single[k]) || !(single[k]->data() == Variant(1000 + k))) return vx::fmt("earlier node %d was overwritten", k);
                for (int k = 0; k < 300; ++k) if (!reg(after[k]) || !(after[k]->parent()->data() == Variant(5000 + k)) || !(after[k]->data() == Variant(str[0].c_str()))) return vx::fmt("later node %d is wrong", k);
                return "";
            });
            vx::seen(vx::fmt("%lu", i));
            VX_CHECK(r.empty(), "%s", r.c_str());
        }, desc, 16);
    };
    return d.main(argc, argv);
}
