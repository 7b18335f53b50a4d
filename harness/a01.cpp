// A01/A02: annotation context vs. reference model, all operation histories up to a depth.
#include "ctxmodel.hpp"
#include <pthread.h>
#include <semaphore.h>
using namespace cali;
using namespace cm;

enum Kind { BEGIN, SET, END, XCHG, SWITCH };
struct Op {
    Kind        k;
    int         a;
    std::string v;
};

struct Cfg {
    std::vector<AttrDef> attrs;
    bool                 begin = true, set = true, xchg = false, two_threads = false, unique_vals = false;
    int                  nvals = 2;
    int                  wrap = -1; // place the first id at this slot of the context store
    bool                 collide = false; // force ids equal modulo the context store size
    bool                 adjacent = false; // ids adjacent -> probe chains
};

struct Ctx : vx::World {
    Cfg                    cfg;
    Model                  m;
    std::vector<Attribute> at;
    std::vector<Op>        ops;
    Channel                ch;
    Attribute              trg;
    int                    step = 0;

    Ctx(const Cfg& c) : cfg(c)
    {
        m.attrs = c.attrs;
        for (size_t i = 0; i < c.attrs.size(); ++i) {
            int nv = c.unique_vals ? 1 : c.nvals;
            for (int v = 0; v < nv; ++v) {
                if (c.begin) ops.push_back({ BEGIN, (int) i, valname(c.attrs[i].type, v) });
                if (c.set) ops.push_back({ SET, (int) i, valname(c.attrs[i].type, v) });
                if (c.xchg && (c.attrs[i].prop & CALI_ATTR_ASVALUE)) ops.push_back({ XCHG, (int) i, valname(c.attrs[i].type, v) });
            }
            ops.push_back({ END, (int) i, "" });
        }
    }
    static std::string valname(cali_attr_type t, int v)
    {
        if (t == CALI_TYPE_STRING) return v == 0 ? "a" : v == 1 ? "bb" : "c c";
        if (t == CALI_TYPE_BOOL) return v ? "true" : "false";
        return std::to_string(v ? 11 * v : 4);
    }
    void setup() override
    {
        Caliper c;
        int     n = 0;
        cali_id_t base = 0;
        Attribute fill = c.create_attribute("fill.attr", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
        auto target = [&](size_t i) -> cali_id_t {
            // ids congruent mod 1021 in pairs; pairs adjacent when requested
            if (cfg.adjacent) { static const int off[] = { 0, 1021, 1, 1022, 2042, 2 }; return base + off[i % 6]; }
            return base + 1021 * i;
        };
        if (cfg.collide) {
            // Learn how many new nodes an attribute creation takes (its name node), then place ids.
            for (auto& a : cfg.attrs) { Attribute x = c.create_attribute(a.name + ".probe", a.type, a.prop); base = x.id() + 40; }
            if (cfg.wrap >= 0) while (base % 1021 != (cali_id_t) cfg.wrap) ++base;
            std::vector<size_t> order(cfg.attrs.size());
            for (size_t i = 0; i < order.size(); ++i) order[i] = i;
            std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return target(x) < target(y); });
            at.resize(cfg.attrs.size());
            for (size_t i : order) {
                cali_id_t want = target(i), last = 0;
                for (;;) {
                    Node* nd = c.make_tree_entry(fill, Variant(n++), nullptr);
                    last     = nd->id();
                    if (last + 1 >= want) break;
                }
                at[i] = c.create_attribute(cfg.attrs[i].name, cfg.attrs[i].type, cfg.attrs[i].prop);
                // not a property of Caliper, only of this driver: skip silently if ids are handed out differently
            }
        } else
            for (auto& a : cfg.attrs) at.push_back(c.create_attribute(a.name, a.type, a.prop));
        trg = c.create_attribute("x.trigger", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
        const char*      cfg0[][2] = { { NULL, NULL } };
        cali_configset_t cs        = cali_create_configset(cfg0);
        cali_id_t        cid       = cali_create_channel("A01", 0, cs);
        cali_delete_configset(cs);
        ch = c.get_channel(cid);
        // initial process-scope content (library globals) is taken as given
        FixedSizeSnapshotRecord<120> rec;
        c.pull_context(rec.builder());
        for (const Entry& e : rec.view()) {
            if (e.is_reference()) {
                Path p = decode_node(c, e.node());
                m.proc.unaligned.insert(m.proc.unaligned.end(), p.begin(), p.end());
            }
        }
        check(c);
    }
    int  nops() const override { return ops.size(); }
    std::string opname(int i) const override
    {
        const Op& o = ops[i];
        static const char* kn[] = { "begin", "set", "end", "exchange", "switch" };
        return std::string(kn[o.k]) + "(" + cfg.attrs[o.a].name + (o.k == END ? "" : "=" + o.v) + ")";
    }
    bool enabled(int i) const override
    {
        const Op& o = ops[i];
        if (o.k == END) return const_cast<Model&>(m).can_end(cfg.attrs[o.a]);
        return true;
    }
    void apply(int i) override
    {
        const Op&      o = ops[i];
        const AttrDef& a = cfg.attrs[o.a];
        Caliper        c;
        std::string    v = cfg.unique_vals && o.k != END ? std::to_string(++step) : o.v;
        switch (o.k) {
        case BEGIN: m.begin(a, v); c.begin(at[o.a], mkval(a.type, v)); break;
        case SET: m.set(a, v); c.set(at[o.a], mkval(a.type, v)); break;
        case END: m.end(a); c.end(at[o.a]); break;
        case XCHG: {
            std::string old = m.get(a);
            m.set(a, v);
            Variant r = c.exchange(at[o.a], mkval(a.type, v));
            std::string rs = r.empty() ? "" : r.to_string();
            VX_CHECK(rs == old, "exchange(%s) returned \"%s\", previous value was \"%s\"", a.name.c_str(), rs.c_str(), old.c_str());
            break;
        }
        default: break;
        }
        check(c);
    }
    void check(Caliper& c)
    {
        for (size_t i = 0; i < at.size(); ++i) {
            const AttrDef& a = cfg.attrs[i];
            std::string    e = m.get(a);
            Entry          g = c.get(at[i]);
            std::string    r = g.empty() ? "" : g.value(at[i]).to_string();
            VX_CHECK(r == e, "get(%s) = \"%s\", expected \"%s\"", a.name.c_str(), r.c_str(), e.c_str());
            Variant cv(cali_get(at[i].id()));
            r = cv.empty() ? "" : cv.to_string();
            VX_CHECK(r == e, "cali_get(%s) = \"%s\", expected \"%s\"", a.name.c_str(), r.c_str(), e.c_str());
        }
        std::multiset<std::string> exp = m.snapshot();
        for (int k = 0; k < 2; ++k) {
            FixedSizeSnapshotRecord<120> rec;
            std::multiset<std::string>   exp1 = exp, got;
            if (k == 0) c.pull_context(rec.builder());
            else {
                Entry trig(trg, Variant(7));
                c.pull_snapshot(ch.body(), SnapshotView(1, &trig), rec.builder());
                exp1.insert("!x.trigger=7");
            }
            for (const Entry& e : rec.view()) got.insert(decode_entry(c, e));
            VX_CHECK(got == exp1, "%s is %s, expected %s", k ? "snapshot" : "context", show(got).c_str(), show(exp1).c_str());
            // values as seen through the record
            for (size_t i = 0; i < at.size(); ++i) {
                if (k == 1 || (cfg.attrs[i].prop & CALI_ATTR_HIDDEN)) continue;
                Entry       g = rec.view().get(at[i]);
                std::string r = g.empty() ? "" : g.value(at[i]).to_string();
                VX_CHECK(r == m.get(cfg.attrs[i]), "value of %s in snapshot is \"%s\", expected \"%s\"", cfg.attrs[i].name.c_str(), r.c_str(), m.get(cfg.attrs[i]).c_str());
            }
        }
        // region path
        {
            Scope& s = m.thr[m.cur];
            Path&  p = !s.region.empty() ? s.region : m.proc.region;
            // nested attributes of the path
            const KV* inner = nullptr;
            const AttrDef* ia = nullptr;
            for (auto& kv : p)
                for (auto& a : cfg.attrs)
                    if (a.name == kv.first && (a.prop & CALI_ATTR_NESTED)) { inner = &kv; ia = &a; }
            Entry e = c.get_path_node();
            if (inner) {
                VX_CHECK(!e.empty(), "current region path is empty, expected %s", show(p).c_str());
                Path got = decode_node(c, e.node()), exp;
                for (auto& kv : p) { exp.push_back(kv); if (&kv == inner) break; }
                VX_CHECK(got == exp, "current region path is %s, expected %s", show(got).c_str(), show(exp).c_str());
                if (ia->type == CALI_TYPE_STRING)
                    VX_CHECK(cali_get_current_region_or("?") == inner->second, "current region is %s, expected %s", cali_get_current_region_or("?"), inner->second.c_str());
            } else if (p.empty()) {
                VX_CHECK(e.empty(), "current region path is %s, expected none", decode_entry(c, e).c_str());
                VX_CHECK(std::string(cali_get_current_region_or("?")) == "?", "current region is %s, expected none", cali_get_current_region_or("?"));
            }
        }
    }
    std::string state() const override { return const_cast<Model&>(m).str(); }
};

// Two threads: every interleaving of whole operations of two threads; each history runs in its own
// process. After every operation both threads check their own snapshot.
struct TwoThreads {
    std::vector<AttrDef> attrs { { "x.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "x.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "p.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS }, { "p.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS } };
    struct TOp { int t, k, a; };
    std::vector<TOp> ops;
    int depth;
    TwoThreads(int d) : depth(d)
    {
        for (int t = 0; t < 2; ++t)
            for (int a = 0; a < 4; ++a) { ops.push_back({ t, a % 3 ? SET : BEGIN, a }); ops.push_back({ t, END, a }); }
        for (auto& o : ops) if (o.a == 3 && o.k == SET) o.k = BEGIN;
    }
    uint64_t count() const { uint64_t n = 1; for (int i = 0; i < depth; ++i) n *= ops.size(); return n; }
    std::vector<TOp> decode(uint64_t i) const { std::vector<TOp> r; for (int k = 0; k < depth; ++k) { r.push_back(ops[i % ops.size()]); i /= ops.size(); } return r; }
    std::string describe(uint64_t i) const
    {
        std::string s;
        for (auto& o : decode(i)) s += std::string(s.empty() ? "" : "; ") + "T" + std::to_string(o.t) + (o.k == BEGIN ? ":begin(" : o.k == SET ? ":set(" : ":end(") + attrs[o.a].name + ")";
        return s;
    }
    void run(uint64_t i) const
    {
        auto seq = decode(i);
        // only histories with matched ends; thread 1 must act (else it is the single-thread space)
        Model m; m.attrs = attrs;
        bool t1 = false;
        for (auto& o : seq) {
            m.cur = o.t; t1 |= o.t;
            if (o.k == END && !m.can_end(attrs[o.a])) return;
            if (o.k == END) m.end(attrs[o.a]); else if (o.k == SET) m.set(attrs[o.a], "1"); else m.begin(attrs[o.a], "1");
        }
        if (!t1) return;
        vx::seen(vx::fnv("tt" + m.str()));
        vx::S->leaves++;
        vx::in_fork([&]() -> std::string {
            Model mm; mm.attrs = attrs;
            std::vector<Attribute> at;
            Caliper c;
            for (auto& a : attrs) at.push_back(c.create_attribute(a.name, a.type, a.prop));
            FixedSizeSnapshotRecord<120> r0;
            c.pull_context(r0.builder());
            for (const Entry& e : r0.view()) { Path p = decode_node(c, e.node()); mm.proc.unaligned.insert(mm.proc.unaligned.end(), p.begin(), p.end()); }
            struct Sh { sem_t req[2], done; int op = -2; std::string err; } sh;
            sem_init(&sh.req[0], 0, 0); sem_init(&sh.req[1], 0, 0); sem_init(&sh.done, 0, 0);
            int n = 0;
            std::string val;
            auto body = [&](int t) {
                for (;;) {
                    sem_wait(&sh.req[t]);
                    if (sh.op == -2) break;
                    Caliper cc;
                    if (sh.op >= 0) {
                        auto& o = seq[sh.op];
                        if (o.k == END) cc.end(at[o.a]);
                        else if (o.k == SET) cc.set(at[o.a], mkval(attrs[o.a].type, val));
                        else cc.begin(at[o.a], mkval(attrs[o.a].type, val));
                    }
                    // own view
                    FixedSizeSnapshotRecord<120> rec;
                    cc.pull_context(rec.builder());
                    std::multiset<std::string> got;
                    for (const Entry& e : rec.view()) got.insert(decode_entry(cc, e));
                    Model& m2 = mm; m2.cur = t;
                    auto exp = m2.snapshot();
                    if (got != exp && sh.err.empty()) sh.err = vx::fmt("thread %d sees %s, expected %s after step %d", t, show(got).c_str(), show(exp).c_str(), sh.op);
                    sem_post(&sh.done);
                }
            };
            pthread_t th[2];
            struct Arg { decltype(body)* b; int t; } arg[2] = { { &body, 0 }, { &body, 1 } };
            for (int t = 0; t < 2; ++t) pthread_create(&th[t], nullptr, [](void* p) -> void* { auto* a = (Arg*) p; (*a->b)(a->t); return nullptr; }, &arg[t]);
            for (size_t k = 0; k < seq.size(); ++k) {
                auto& o = seq[k];
                val = std::to_string(++n);
                mm.cur = o.t;
                if (o.k == END) mm.end(attrs[o.a]); else if (o.k == SET) mm.set(attrs[o.a], val); else mm.begin(attrs[o.a], val);
                sh.op = k; sem_post(&sh.req[o.t]); sem_wait(&sh.done);
                sh.op = -1; sem_post(&sh.req[1 - o.t]); sem_wait(&sh.done);
                if (!sh.err.empty()) vx::fail("%s", sh.err.c_str());
            }
            return "ok";
        });
    }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    bool       snapmode = false;
    for (int i = 1; i < argc; ++i)
        if (std::string(argv[i]) == "--snap") snapmode = true;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        const int S = CALI_TYPE_STRING, I = CALI_TYPE_INT;
        (void) S; (void) I;
        AttrDef n1 { "x.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED }, n2 { "x.nest2", CALI_TYPE_STRING, CALI_ATTR_NESTED }, r1 { "x.ref", CALI_TYPE_INT, CALI_ATTR_DEFAULT }, r2 { "x.ref2", CALI_TYPE_STRING, CALI_ATTR_DEFAULT },
            nm { "x.nomerge", CALI_TYPE_INT, CALI_ATTR_NOMERGE }, u1 { "x.una", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED }, u2 { "x.una2", CALI_TYPE_INT, CALI_ATTR_UNALIGNED }, h1 { "x.hid", CALI_TYPE_STRING, CALI_ATTR_HIDDEN },
            hv { "x.hidval", CALI_TYPE_INT, CALI_ATTR_HIDDEN | CALI_ATTR_ASVALUE }, v1 { "x.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, v2 { "x.val2", CALI_TYPE_INT, CALI_ATTR_ASVALUE },
            pn { "p.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS }, pr { "p.ref", CALI_TYPE_INT, CALI_ATTR_SCOPE_PROCESS }, pu { "p.una", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED | CALI_ATTR_SCOPE_PROCESS },
            pv { "p.val", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS }, ph { "p.hid", CALI_TYPE_STRING, CALI_ATTR_HIDDEN | CALI_ATTR_SCOPE_PROCESS }, gl { "g.glob", CALI_TYPE_STRING, CALI_ATTR_GLOBAL };
        auto add = [&](const char* name, int depth, Cfg c) { d.histories(name, depth, [c]() { return std::unique_ptr<vx::World>(new Ctx(c)); }); };
        auto mk  = [](std::vector<AttrDef> a, int nv = 2, bool set = true) { Cfg c; c.attrs = a; c.nvals = nv; c.set = set; return c; };
        if (!snapmode) {
            // nesting: same values / re-entered values, one or two attributes deep
            add("nest1", 7 + T, mk({ n1 }, 2));
            add("nest2", 5 + T, mk({ n1, r1 }, 2));
            add("nest3-noset", 6 + T, mk({ n1, n2, r1 }, 1, false));
            add("nomerge", 5 + T, mk({ n1, nm }, 2));
            add("unaligned", 5 + T, mk({ u1, u2 }, 2));
            add("nest-unaligned", 5 + T, mk({ n1, u1 }, 2));
            add("hidden", 5 + T, mk({ n1, h1 }, 2));
            add("hidden-mix", 4 + T, mk({ n1, h1, hv, u1 }, 1));
            add("process", 4 + T, mk({ n1, pn, pr, ph }, 1));
            add("process-una", 4 + T, mk({ n1, pu, gl, r1 }, 1));
            add("all-kinds", 3 + T, mk({ n1, r1, u1, h1, v1, hv, pn, pu, pv }, 1));
            add("three-refs", 5 + T, mk({ n1, r1, r2 }, 1));
        } else {
            auto tt = std::make_shared<TwoThreads>(4 + T);
            d.enumerate("two-threads", tt->count(), [tt](uint64_t i) { tt->run(i); }, [tt](uint64_t i) { return tt->describe(i); }, 256);
            Cfg c = mk({ v1, v2, hv }, 1);
            c.begin = false; c.xchg = true; c.unique_vals = true;
            c.collide = true;
            add("collide3", 6 + T, c);
            c = mk({ v1, { "x.hv2", CALI_TYPE_INT, CALI_ATTR_HIDDEN | CALI_ATTR_ASVALUE }, { "x.v3", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "x.v4", CALI_TYPE_INT, CALI_ATTR_ASVALUE } }, 1);
            c.begin = false; c.unique_vals = true; c.collide = true; c.adjacent = true;
            add("adjacent4", 6 + T, c);
            c.wrap = 1020; // collision chains that continue at the start of the store
            add("wrap4", 6 + T, c);
            c = mk({ v1, { "x.v3", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "x.hv2", CALI_TYPE_INT, CALI_ATTR_HIDDEN | CALI_ATTR_ASVALUE }, { "x.v4", CALI_TYPE_INT, CALI_ATTR_ASVALUE },
                     { "x.v5", CALI_TYPE_INT, CALI_ATTR_ASVALUE } }, 1);
            c.begin = false; c.unique_vals = true; c.collide = true; c.adjacent = true;
            add("adjacent5", 5 + T, c);
            c.wrap = 1019;
            add("wrap5", 5 + T, c);
            c = mk({ pv, { "p.v2", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS }, { "p.hv", CALI_TYPE_INT, CALI_ATTR_HIDDEN | CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS } }, 1);
            c.begin = false; c.xchg = true; c.unique_vals = true; c.collide = true;
            add("collide3-process", 5 + T, c);
            c = mk({ v1, hv, pv, n1 }, 1);
            c.xchg = true; c.unique_vals = false;
            add("mixed-scope", 4 + T, c);
            c = mk({ v1, hv, u1, h1 }, 1);
            c.xchg = true;
            add("mixed-una", 4 + T, c);
        }
    };
    return d.main(argc, argv);
}
