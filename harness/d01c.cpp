// D01: channel controller objects (copied, moved, destroyed in any order) always refer to a live channel or none.
#include "svc.hpp"
#include <caliper/ChannelController.h>
using namespace cali;
struct Obj { int refs = 0; bool exists = false, active = false; int events = 0; cali_id_t id = CALI_INV_ID; };
struct Ctl : ChannelController {
    int* created; int* flushed;
    Ctl(int n, int* c, int* f) : ChannelController(("ctl" + std::to_string(n)).c_str(), 0, { { "CALI_SERVICES_ENABLE", "event,trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }), created(c), flushed(f) {}
    void on_create(Caliper*, Channel&) override { ++*created; }
    void flush() override { ++*flushed; ChannelController::flush(); }
};
struct W : vx::World {
    Ctl* slot[3] = { nullptr, nullptr, nullptr };
    int obj[3] = { -1, -1, -1 };
    std::vector<Obj> o;
    std::vector<std::pair<std::string, std::function<void()>>> ops;
    std::vector<std::function<bool()>> en;
    int ncreated = 0, nflushed = 0, ecreated = 0, eflushed = 0;
    Attribute at;
    Caliper* cp = nullptr;
    bool fin = false;
    int open = 0;
    void op(const std::string& n, std::function<void()> f, std::function<bool()> e) { ops.push_back({ n, f }); en.push_back([this, e] { return e(); }); }
    W()
    {
        for (int s = 0; s < 3; ++s) {
            auto S = std::to_string(s);
            if (s == 0) op("new(" + S + ")", [this, s] { slot[s] = new Ctl(o.size(), &ncreated, &nflushed); obj[s] = o.size(); Obj x; x.refs = 1; o.push_back(x); }, [this, s] { return !slot[s] && o.size() < 2; });
            op("copy(0->" + S + ")", [this, s] { slot[s] = new Ctl(*slot[0]); obj[s] = obj[0]; o[obj[s]].refs++; }, [this, s] { return s > 0 && slot[0] && !slot[s]; });
            op("assign(" + S + "=other)", [this, s] { int q = (s + 1) % 3; *slot[s] = *slot[q]; if (obj[s] != obj[q]) { drop(obj[s]); obj[s] = obj[q]; o[obj[s]].refs++; } }, [this, s] { return slot[s] && slot[(s + 1) % 3]; });
            op("delete(" + S + ")", [this, s] { delete slot[s]; slot[s] = nullptr; drop(obj[s]); obj[s] = -1; }, [this, s] { return !!slot[s]; });
            if (s == 2) continue;
            op("start(" + S + ")", [this, s] { slot[s]->start(); Obj& x = o[obj[s]]; if (fin) return; if (!x.exists) { x.exists = true; ++ecreated; x.id = slot[s]->channel().id(); x.events = 0; } x.active = true; }, [this, s] { return !!slot[s]; });
            op("stop(" + S + ")", [this, s] { slot[s]->stop(); if (!fin) o[obj[s]].active = false; }, [this, s] { return !!slot[s]; });
            op("flush(" + S + ")", [this, s] { slot[s]->flush(); ++eflushed; }, [this, s] { return !!slot[s]; });
        }
        op("begin", [this] { cp->begin(at, Variant("a")); ++open; ev(); }, [this] { return open < 2; });
        op("end", [this] { cp->end(at); --open; ev(); }, [this] { return open > 0; });
        op("delete channel", [this] { for (auto& x : o) if (x.exists) { cali_delete_channel(x.id); x.exists = x.active = false; break; } }, [this] { for (auto& x : o) if (x.exists) return true; return false; });
    }
    void ev() { for (auto& x : o) if (x.exists && x.active) ++x.events; }
    void drop(int i) { if (i >= 0 && --o[i].refs == 0) o[i].exists = o[i].active = false; }
    void setup() override { cp = new Caliper(); at = cp->create_attribute("x.r", CALI_TYPE_STRING, CALI_ATTR_NESTED); }
    int nops() const override { return ops.size(); }
    std::string opname(int i) const override { return ops[i].first; }
    bool enabled(int i) const override { return const_cast<W*>(this)->en[i](); }
    void check(const char* after)
    {
        for (int s = 0; s < 3; ++s) {
            if (!slot[s]) continue;
            Obj& x = o[obj[s]];
            VX_CHECK(slot[s]->is_instantiated() == x.exists, "controller %d is %sinstantiated after %s", s, x.exists ? "not " : "", after);
            VX_CHECK(slot[s]->is_active() == x.active, "controller %d is %sactive after %s", s, x.active ? "not " : "", after);
            VX_CHECK(slot[s]->name() == "ctl" + std::to_string(obj[s]), "controller %d has name %s", s, slot[s]->name().c_str());
        }
        VX_CHECK(ncreated == ecreated, "on_create was called %d times, expected %d", ncreated, ecreated);
        VX_CHECK(nflushed == eflushed, "flush was called %d times, expected %d", nflushed, eflushed);
        for (size_t i = 0; i < o.size(); ++i) if (o[i].id != CALI_INV_ID) VX_CHECK(!!cp->get_channel(o[i].id) == o[i].exists, "channel of object %zu %s after %s", i, o[i].exists ? "vanished" : "still exists", after);
    }
    void apply(int i) override { ops[i].second(); check(ops[i].first.c_str()); }
    bool has_final() const override { return true; }
    void final() override
    {
        for (auto& x : o) if (x.exists) { auto r = svc::flush_records(*cp, x.id); VX_CHECK((int) r.size() == x.events, "%zu events recorded, expected %d", r.size(), x.events); }
        cp->finalize();
        fin = true;
        for (auto& x : o) x.exists = x.active = false;
        for (int s = 0; s < 3; ++s) if (slot[s]) { VX_CHECK(!slot[s]->is_instantiated() && !slot[s]->is_active(), "controller %d still has a channel after finalization", s); slot[s]->stop(); delete slot[s]; slot[s] = nullptr; }
    }
    std::string state() const override
    {
        std::string s;
        for (int i : obj) s += vx::fmt("%d,", i);
        for (auto& x : o) s += vx::fmt("(%d%d%d%d)", x.refs, x.exists, x.active, x.events);
        return s + vx::fmt("%d", open);
    }
};
int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() { d.histories("controllers", vx::thorough() ? 6 : 5, []() { return std::unique_ptr<vx::World>(new W); }); };
    return d.main(argc, argv);
}
