// D01: channels are independent. History tree over annotation and channel operations; a per-channel
// model of what each one must have recorded; flush counting at finalization.
#include "svc.hpp"
using namespace cali;
using namespace cm;
using namespace svc;

enum { TRACE_EV, AGG_EV, TRACE_SNAP };
struct Ch {
    int kind; // configuration
    cali_id_t id = CALI_INV_ID;
    bool exists = false, active = false;
    Recs rec;          // TRACE_*
    AggModel agg;      // AGG_EV
    int writes = 0, finishes = 0;
    int gen = 0;
};
struct Counters { int writes = 0, finishes = 0, flushes_after_finish = 0; };
static std::map<cali_id_t, Counters>* g_cnt;

struct W : vx::World {
    std::vector<AttrDef> attrs;
    std::vector<Attribute> at;
    Model m;
    std::vector<Ch> ch;
    std::vector<std::string> names;
    std::vector<std::function<bool()>> en;
    std::vector<std::function<void()>> op;
    std::map<cali_id_t, std::pair<int, int>> past; // deleted channels: writes, finishes
    Caliper* cp = nullptr;
    int trigger_attr = 0; // AGG_EV is triggered by this attribute only
    void add(const std::string& n, std::function<bool()> e, std::function<void()> f) { names.push_back(n); en.push_back(e); op.push_back(f); }

    W(std::vector<AttrDef> a, std::vector<int> kinds, int nstart, bool full)
    {
        attrs = a;
        m.attrs = a;
        for (int k : kinds) { Ch c; c.kind = k; ch.push_back(c); }
        for (size_t i = 0; i < attrs.size(); ++i) {
            add("begin(" + attrs[i].name + ")", [this, i] { return !(attrs[i].prop & CALI_ATTR_ASVALUE) || m.get(attrs[i]).empty(); }, [this, i] { annot(i, "begin", attrs[i].type == CALI_TYPE_STRING ? "a" : "3"); });
            if (full && attrs[i].type == CALI_TYPE_STRING) add("set(" + attrs[i].name + ")", [this, i] { m.cur = 0; return !m.get(attrs[i]).empty(); }, [this, i] { annot(i, "set", "b"); });
            add("end(" + attrs[i].name + ")", [this, i] { m.cur = 0; return m.can_end(attrs[i]); }, [this, i] { annot(i, "end", ""); });
        }
        for (size_t k = 0; k < ch.size(); ++k) {
            std::string n = "ch" + std::to_string(k);
            add("activate(" + n + ")", [this, k] { return ch[k].gen > 0; }, [this, k] { cali_activate_channel(ch[k].id); ch[k].active = ch[k].exists; });
            add("deactivate(" + n + ")", [this, k] { return ch[k].exists; }, [this, k] { cali_deactivate_channel(ch[k].id); ch[k].active = false; });
            add("flush(" + n + ")", [this, k] { return ch[k].exists; }, [this, k] { cali_channel_flush(ch[k].id, 0); ch[k].writes++; });
            add("flush+clear(" + n + ")", [this, k] { return ch[k].gen > 0; }, [this, k] { cali_channel_flush(ch[k].id, CALI_FLUSH_CLEAR_BUFFERS); ch[k].writes++; ch[k].rec.clear(); ch[k].agg.clear(); });
            add("delete(" + n + ")", [this, k] { return ch[k].exists; }, [this, k] { cali_delete_channel(ch[k].id); past[ch[k].id] = { ch[k].writes, 1 }; ch[k].exists = ch[k].active = false; });
            add("create(" + n + ")", [this, k] { return !ch[k].exists; }, [this, k] { create(k, ch[k].gen % 2 == 0); });
            if (ch[k].kind == TRACE_SNAP || full) add("snapshot(" + n + ")", [this, k] { return ch[k].gen > 0; }, [this, k] {
                Variant v(7); (void) v;
                cali_channel_push_snapshot(ch[k].id, 0, 0, nullptr, nullptr);
                if (ch[k].exists && ch[k].active) record(k, m.snapshot());
            });
        }
        add("snapshot(all)", [] { return true; }, [this] { cali_push_snapshot(0, 0, nullptr, nullptr); for (size_t k = 0; k < ch.size(); ++k) if (ch[k].exists && ch[k].active) record(k, m.snapshot()); });
        start = nstart;
    }
    int start;
    void create(int k, bool active)
    {
        Ch& c = ch[k];
        static const Cfg cfgs[] = {
            { { "CALI_SERVICES_ENABLE", "event,trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" } },
            { { "CALI_SERVICES_ENABLE", "event,aggregate" }, { "CALI_EVENT_TRIGGER", "x.nest" } },
            { { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" } } };
        c.id = mkchannel(cfgs[c.kind], ("ch" + std::to_string(k)).c_str(), active ? 0 : CALI_CHANNEL_LEAVE_INACTIVE);
        VX_CHECK(!g_cnt->count(c.id), "channel id %lu is used twice", (unsigned long) c.id);
        cali_id_t id = c.id;
        (*g_cnt)[id] = Counters();
        Channel h = cp->get_channel(id);
        VX_CHECK(h && h.is_active() == active, "new channel is %s", active ? "not active" : "active");
        h.events().write_output_evt.connect([id](Caliper*, ChannelBody*, SnapshotView) { auto& x = (*g_cnt)[id]; ++x.writes; if (x.finishes) ++x.flushes_after_finish; });
        h.events().finish_evt.connect([id](Caliper*, Channel*) { ++(*g_cnt)[id].finishes; });
        c.exists = true;
        c.active = active;
        c.rec.clear();
        c.agg.clear();
        c.agg.aggr = { "region.count" };
        c.writes = 0;
        c.gen++;
    }
    void record(int k, const Rec& r) { if (ch[k].kind == AGG_EV) ch[k].agg.add(r); else if (!r.empty()) ch[k].rec.push_back(r); }
    void annot(int i, const char* what, const std::string& val)
    {
        std::string v = *what == 'e' ? m.get(attrs[i]) : val;
        Rec r = EventModel::record(m, attrs[i], what, v);
        for (size_t k = 0; k < ch.size(); ++k) {
            if (!ch[k].exists || !ch[k].active) continue;
            if (ch[k].kind == TRACE_EV || (ch[k].kind == AGG_EV && i == trigger_attr)) record(k, r);
        }
        Variant x = mkval(attrs[i].type, v);
        if (*what == 'b') { cp->begin(at[i], x); m.begin(attrs[i], v); }
        else if (*what == 's') { cp->set(at[i], x); m.set(attrs[i], v); }
        else { cp->end(at[i]); m.end(attrs[i]); }
    }
    void setup() override
    {
        g_cnt = new std::map<cali_id_t, Counters>();
        cp = new Caliper();
        for (auto& a : attrs) at.push_back(cp->create_attribute(a.name, a.type, a.prop));
        FixedSizeSnapshotRecord<120> rec;
        cp->pull_context(rec.builder());
        for (const Entry& e : rec.view())
            if (e.is_reference()) { Path p = decode_node(*cp, e.node()); m.proc.unaligned.insert(m.proc.unaligned.end(), p.begin(), p.end()); }
        m.cur = 0;
        for (int k = 0; k < start; ++k) create(k, true);
        // the created channels may add globals to the process context
    }
    int nops() const override { return op.size(); }
    std::string opname(int i) const override { return names[i]; }
    bool enabled(int i) const override { return const_cast<W*>(this)->en[i](); }
    void apply(int i) override
    {
        op[i]();
        for (size_t k = 0; k < ch.size(); ++k) {
            if (ch[k].gen == 0) continue;
            Channel h = cp->get_channel(ch[k].id);
            VX_CHECK(!!h == ch[k].exists, "ch%zu %s after %s", k, ch[k].exists ? "vanished" : "still exists", names[i].c_str());
            if (!ch[k].exists) continue;
            VX_CHECK((cali_channel_is_active(ch[k].id) != 0) == ch[k].active, "ch%zu is %sactive after %s", k, ch[k].active ? "not " : "", names[i].c_str());
            VX_CHECK((*g_cnt)[ch[k].id].writes == ch[k].writes, "ch%zu wrote output %d times, expected %d", k, (*g_cnt)[ch[k].id].writes, ch[k].writes);
        }
    }
    bool has_final() const override { return true; }
    void final() override
    {
        for (int rep = 0; rep < 2; ++rep)
            for (size_t k = 0; k < ch.size(); ++k) {
                if (!ch[k].exists) continue;
                std::string nm = "ch" + std::to_string(k) + (rep ? " (second flush)" : "");
                Recs got = flush_records(*cp, ch[k].id);
                if (ch[k].kind == AGG_EV) expect_set(nm.c_str(), AggModel::strip_slot(got), ch[k].agg.result());
                else expect_seq(nm.c_str(), got, ch[k].rec);
            }
        cp->finalize();
        std::map<cali_id_t, std::pair<int, int>> exp = past;
        for (auto& c : ch)
            if (c.exists) exp[c.id] = { c.writes + 1, 1 };
        for (auto& e : exp) {
            auto& g = (*g_cnt)[e.first];
            VX_CHECK(g.writes == e.second.first && g.finishes == 1 && !g.flushes_after_finish, "after finalization channel %lu has written %d times (expected %d), finished %d times, %d writes after finish", (unsigned long) e.first, g.writes, e.second.first, g.finishes, g.flushes_after_finish);
        }
    }
    std::string state() const override
    {
        auto& x = const_cast<W&>(*this);
        std::string s = x.m.str();
        for (auto& c : x.ch) s += vx::fmt("|%d%d%d:", c.exists, c.active, c.gen) + show(c.rec) + show(c.agg.result());
        return s;
    }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        AttrDef n { "x.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED }, v { "x.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, p { "p.ref", CALI_TYPE_STRING, CALI_ATTR_SCOPE_PROCESS };
        auto add = [&](const char* name, int depth, std::vector<AttrDef> a, std::vector<int> k, int ns, bool full) { d.histories(name, depth, [=]() { return std::unique_ptr<vx::World>(new W(a, k, ns, full)); }); };
        add("trace+aggregate", 5 + T, { n }, { TRACE_EV, AGG_EV }, 2, false);
        add("one-channel", 6 + T, { n, v }, { TRACE_EV }, 1, false);
        add("three", 4 + T, { n, v }, { TRACE_EV, AGG_EV, TRACE_SNAP }, 2, false);
        add("values", 4 + T, { n, v, p }, { TRACE_EV, AGG_EV }, 1, true);
    };
    return d.main(argc, argv);
}
