// E04: time attribution under a controlled clock. Every operation advances the clock by a distinct
// power of two, so every reported time identifies exactly the intervals it is made of.
#include "svc.hpp"
#include "fakeclock.hpp"
#include <caliper/RegionProfile.h>
#include <caliper/reader/FlatExclusiveRegionProfile.h>
#include <caliper/reader/FlatInclusiveRegionProfile.h>
#include <caliper/reader/NestedExclusiveRegionProfile.h>
#include <caliper/reader/NestedInclusiveRegionProfile.h>
#include <cmath>
#include <pthread.h>
using namespace cali;
using namespace cm;
using namespace svc;
typedef unsigned long long u64;
using Prof = std::tuple<std::map<std::string, double>, double, double>;

struct Sample { Path path; u64 dur; }; // a region-profile snapshot: thread region path and time since the last one
struct ThrTime { u64 prev = 0; std::map<std::string, std::vector<u64>> stack; };
struct ChanModel {
    u64 start = 0;
    bool exists = false, active = false;
    std::map<int, ThrTime> t;
};

struct W : vx::World {
    std::vector<AttrDef> attrs;
    std::vector<Attribute> at;
    std::vector<std::pair<std::string, std::function<void()>>> ops;
    std::vector<std::function<bool()>> en;
    Model m;
    Caliper* cp = nullptr;
    cali_id_t tr = CALI_INV_ID, pr = CALI_INV_ID;
    ChanModel ctr, cpr, crp;
    RegionProfile* rp = nullptr;
    Recs exp;
    AggModel agg;
    std::vector<Sample> samples;
    int nthr = 0, step = 0;
    int mode;
    bool toggles = false, on = true; // channel (de)activation: inclusive times are then not compared
    void op(const std::string& n, std::function<void()> f, std::function<bool()> e = [] { return true; }) { ops.push_back({ n, f }); en.push_back(e); }
    void tick() { fake_ns() += 1ll << step++; }
    // mode: 1 trace + inclusive profile, 2 region profile
    W(std::vector<std::string> use, int md, bool tog = false) : mode(md), toggles(tog)
    {
        const std::vector<AttrDef> all { { "x.r", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "y.r", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "x.i", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "x.d", CALI_TYPE_STRING, CALI_ATTR_DEFAULT }, { "x.p", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS }, { "x.u", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED } };
        for (auto& u : use) for (auto& a : all) if (a.name == u) attrs.push_back(a);
        m.attrs = attrs;
        for (size_t i = 0; i < attrs.size(); ++i) {
            const AttrDef& a = attrs[i];
            for (auto& v : a.type == CALI_TYPE_INT ? std::vector<std::string>{ "3" } : a.name == "x.r" ? std::vector<std::string>{ "a", "b" } : std::vector<std::string>{ "c" }) {
                op("begin(" + a.name + "=" + v + ")", [this, i, v] { annot(i, 'b', v); }, [this, i] { return !(attrs[i].prop & CALI_ATTR_ASVALUE) || m.get(attrs[i]).empty(); });
                if (a.type == CALI_TYPE_INT) op("set(" + a.name + ")", [this, i, v] { annot(i, 's', v); }, [this, i] { return !m.get(attrs[i]).empty(); });
            }
            op("end(" + a.name + ")", [this, i] { annot(i, 'e', ""); }, [this, i] { return m.can_end(attrs[i]); });
        }
        op("snapshot", [this] {
            if (on) for (cali_id_t id : { tr, pr }) if (id != CALI_INV_ID) cali_channel_push_snapshot(id, 0, 0, nullptr, nullptr);
            if (rp && rp->is_active()) Caliper().push_snapshot(rp->channel_body(), SnapshotView());
            pushed(m.snapshot(), "", ' ', true);
        });
        op("thread", [this] { thread(); }, [this] { return nthr < 2; });
        if (mode == 2) {
            op("profile.start", [this] { rp->start(); if (!crp.exists) { crp.exists = true; crp.start = fake_ns(); } crp.active = true; }, [this] { return !crp.active; });
            op("profile.stop", [this] { rp->stop(); crp.active = false; }, [this] { return crp.active; });
            op("profile.clear", [this] { rp->clear(); samples.clear(); });
        } else if (toggles) {
            op("deactivate", [this] { cali_deactivate_channel(tr); cali_deactivate_channel(pr); on = false; }, [this] { return on; });
            op("activate", [this] { cali_activate_channel(tr); cali_activate_channel(pr); on = true; }, [this] { return !on; });
        } else op("flush+clear", [this] { cali_channel_flush(pr, CALI_FLUSH_CLEAR_BUFFERS); agg.clear(); });
    }
    // account for one snapshot (on all channels): kind ' ' = plain, 'b','s','e'
    void pushed(Rec rec, const std::string& attr, char kind, bool plain)
    {
        u64 now = fake_ns();
        auto dur = [&](ChanModel& c, u64& off) { ThrTime& t = c.t[m.cur]; off = now - c.start; u64 d = off - t.prev; t.prev = off; return d; };
        if (crp.active) { u64 o; u64 d = dur(crp, o); samples.push_back({ m.thr[m.cur].region, d }); }
        if (mode == 1 && on)
            for (ChanModel* c : { &ctr, &cpr }) {
                u64 off, d = dur(*c, off);
                Rec r = rec;
                r.insert(vx::fmt("!time.offset.ns=%llu", off));
                r.insert(vx::fmt("!time.duration.ns=%llu", d));
                auto& st = c->t[m.cur].stack[attr];
                if (kind == 'b') st.push_back(off);
                if (toggles) {}
                else if (kind == 'e' && !st.empty()) { r.insert(vx::fmt("!time.inclusive.duration.ns=%llu", off - st.back())); st.pop_back(); }
                if (c == &ctr) exp.push_back(r);
                else agg.add(r);
            }
    }
    void annot(int i, char k, const std::string& val)
    {
        const AttrDef& a = attrs[i];
        std::string v = k == 'e' ? m.get(a) : val;
        pushed(EventModel::record(m, a, k == 'b' ? "begin" : k == 's' ? "set" : "end", v), a.name, k, false);
        Variant x = mkval(a.type, v);
        Caliper c;
        if (k == 'b') { c.begin(at[i], x); m.begin(a, v); }
        else if (k == 's') { c.set(at[i], x); m.set(a, v); }
        else { c.end(at[i]); m.end(a); }
    }
    void thread()
    {
        m.cur = ++nthr;
        pthread_t t;
        pthread_create(&t, nullptr, [](void* p) -> void* { W* w = (W*) p; { Caliper c; } w->annot(0, 'b', "a"); w->tick(); w->annot(0, 'b', "b"); w->tick(); w->annot(0, 'e', ""); w->tick(); w->annot(0, 'e', ""); return nullptr; }, this);
        pthread_join(t, nullptr);
        m.thr.erase(m.cur);
        m.cur = 0;
    }
    void setup() override
    {
        cp = new Caliper();
        for (size_t i = 0; i < attrs.size(); ++i) at.push_back(cp->create_attribute(attrs[i].name, attrs[i].type, attrs[i].prop));
        agg.aggr = { "region.count", "time.duration.ns", "time.inclusive.duration.ns" };
        fake_ns() += 12345;
        if (mode == 1) {
            tr = mkchannel({ { "CALI_SERVICES_ENABLE", "event,timer,trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_TIMER_INCLUSIVE_DURATION", "true" } }, "tr");
            ctr.start = fake_ns();
            fake_ns() += 55;
            pr = mkchannel({ { "CALI_SERVICES_ENABLE", "event,timer,aggregate" }, { "CALI_TIMER_INCLUSIVE_DURATION", "true" } }, "pr");
            cpr.start = fake_ns();
        } else rp = new RegionProfile;
        m.cur = 0;
        FixedSizeSnapshotRecord<120> rec;
        cp->pull_context(rec.builder());
        for (const Entry& e : rec.view())
            if (e.is_reference()) { Path p = decode_node(*cp, e.node()); m.proc.unaligned.insert(m.proc.unaligned.end(), p.begin(), p.end()); }
    }
    int nops() const override { return ops.size(); }
    std::string opname(int i) const override { return ops[i].first; }
    bool enabled(int i) const override { return const_cast<W*>(this)->en[i](); }
    void apply(int i) override { tick(); ops[i].second(); }
    bool has_final() const override { return true; }
    bool nested(const std::string& n) { for (auto& a : attrs) if (a.name == n) return a.prop & CALI_ATTR_NESTED; return false; }
    static std::string show(const std::map<std::string, double>& p) { std::string s; for (auto& x : p) s += vx::fmt(" %s:%.17g", x.first.c_str(), x.second); return s; }
    void cmp(const char* what, const Prof& g, const Prof& e, double scale)
    {
        auto cl = [](double a, double b) { return fabs(a - b) <= 1e-12 * std::max(fabs(a), fabs(b)); };
        auto& gm = std::get<0>(g);
        auto em = std::get<0>(e);
        for (auto& x : em) x.second *= scale;
        bool ok = gm.size() == em.size();
        for (auto& x : em) ok = ok && gm.count(x.first) && cl(gm.at(x.first), x.second);
        VX_CHECK(ok, "%s: times are {%s}, expected {%s}", what, show(gm).c_str(), show(em).c_str());
        VX_CHECK(cl(std::get<1>(g), std::get<1>(e) * scale), "%s: total region time is %.17g, expected %.17g", what, std::get<1>(g), std::get<1>(e) * scale);
        VX_CHECK(cl(std::get<2>(g), std::get<2>(e) * scale), "%s: total time is %.17g, expected %.17g", what, std::get<2>(g), std::get<2>(e) * scale);
    }
    void final() override
    {
        if (mode == 1) {
            auto strip = [this](Recs r) {
                if (toggles)
                    for (auto& x : r)
                        for (auto it = x.begin(); it != x.end();) it = it->find("inclusive.duration") != it->npos ? x.erase(it) : std::next(it);
                return r;
            };
            Recs got = strip(flush_records(*cp, tr));
            if (nthr) expect_set("trace", got, exp);
            else expect_seq("trace", got, exp);
            got = strip(AggModel::strip_slot(flush_records(*cp, pr)));
            if (nthr == 0) expect_set("profile", got, agg.result());
            return;
        }
        if (!crp.exists) return;
        for (std::string type : { "", "x.r", "y.r" }) {
            bool known = type.empty();
            for (auto& a : attrs) known = known || a.name == type;
            if (!known) continue;
            auto want = [&](const std::string& n) { return type.empty() ? nested(n) : n == type; };
            Prof ex, in, nex, nin;
            for (auto& s : samples) {
                double d = s.dur;
                for (Prof* p : { &ex, &in, &nex, &nin }) std::get<2>(*p) += d;
                std::string pathstr, last;
                bool any = false;
                // exclusive: the innermost open entry, if it is a region (a non-region value on top of
                // a region is not the region itself: NestedRegion unit tests)
                std::string inner, innerattr;
                if (!s.path.empty()) inner = s.path.back().second, innerattr = s.path.back().first;
                if (!nested(innerattr) && innerattr != type) innerattr.clear();
                for (auto& kv : s.path)
                    if (want(kv.first)) {
                        any = true;
                        pathstr += (pathstr.empty() ? "" : "/") + kv.second;
                        std::get<0>(in)[kv.second] += d;
                        std::get<0>(nin)[pathstr] += d;
                    }
                if (any) { std::get<1>(in) += d; std::get<1>(nin) += d; }
                if (!innerattr.empty() && want(innerattr)) { std::get<0>(ex)[inner] += d; std::get<1>(ex) += d; std::get<0>(nex)[pathstr] += d; std::get<1>(nex) += d; }
            }
            cmp(("exclusive_region_times(" + type + ")").c_str(), rp->exclusive_region_times(type), ex, 1e-9);
            cmp(("inclusive_region_times(" + type + ")").c_str(), rp->inclusive_region_times(type), in, 1e-9);
            NestedExclusiveRegionProfile ne(*cp, "sum#time.duration.ns", type.c_str());
            NestedInclusiveRegionProfile ni(*cp, "sum#time.duration.ns", type.c_str());
            FlatExclusiveRegionProfile fe(*cp, "sum#time.duration.ns", type.c_str());
            cp->flush(rp->channel_body(), SnapshotView(), ne);
            cp->flush(rp->channel_body(), SnapshotView(), ni);
            cp->flush(rp->channel_body(), SnapshotView(), fe);
            cmp(("nested exclusive profile(" + type + ")").c_str(), ne.result(), nex, 1);
            cmp(("nested inclusive profile(" + type + ")").c_str(), ni.result(), nin, 1);
            cmp(("flat exclusive profile(" + type + ")").c_str(), fe.result(), ex, 1);
        }
    }
    std::string state() const override
    {
        auto& w = const_cast<W&>(*this);
        std::string s = w.m.str();
        for (auto& x : samples) s += vx::fmt("%llu%s;", x.dur, cm::show(x.path).c_str());
        return s + vx::fmt("%lld.%zu.%d%d", (long long) fake_ns(), exp.size(), crp.exists, crp.active + 2 * on);
    }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        auto add = [&](const char* n, int depth, std::vector<std::string> use, int mode) { d.histories(n, depth + T, [=]() { return std::unique_ptr<vx::World>(new W(use, mode)); }); };
        add("timer:nested", 6, { "x.r" }, 1);
        add("timer:mixed", 5, { "x.r", "y.r", "x.i" }, 1);
        add("timer:other", 4, { "x.r", "x.i", "x.d", "x.p", "x.u" }, 1);
        d.histories("timer:activation", 6 + T, [=]() { return std::unique_ptr<vx::World>(new W({ "x.r" }, 1, true)); });
        add("profile:nested", 6, { "x.r" }, 2);
        add("profile:types", 5, { "x.r", "y.r" }, 2);
        add("profile:other", 5, { "x.r", "x.d", "x.i" }, 2);
    };
    return d.main(argc, argv);
}
