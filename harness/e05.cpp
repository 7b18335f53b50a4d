// E05: loop statistics, loop monitor, region monitor under a controlled clock.
#include "svc.hpp"
#include "fakeclock.hpp"
using namespace cali;
using namespace cm;
using namespace svc;
typedef unsigned long long u64;
namespace cali { extern Attribute loop_attr; extern Attribute region_attr; }

struct LMCfg { std::string name; int iv = 0; double tv = 0; std::string targets; };
struct OpenLoop { std::string name; int next; u64 t0; u64 n; };

struct W : vx::World {
    LMCfg cfg;
    int mode; // 1 loop statistics, 2 loop monitor, 3 region monitor
    std::vector<std::string> loops;
    std::vector<std::pair<std::string, std::function<void()>>> ops;
    std::vector<std::function<bool()>> en;
    Model m;
    AttrDef aloop, areg, areg2;
    std::map<std::string, AttrDef> aiter;
    std::map<std::string, Attribute> iter;
    Attribute reg2;
    Caliper* cp = nullptr;
    cali_id_t ch;
    Recs exp;
    bool active = true;
    std::vector<OpenLoop> lp;
    std::string stk; // L loop, I iteration, R region
    // loop monitor model
    int target = -1, num = 0, start = -1;
    u64 last = 0;
    // region monitor model
    struct RI { double inc = 0, child = 0; };
    std::map<std::string, RI> tracked;
    std::vector<u64> tstack;
    int skip = 0;
    void op(const std::string& n, std::function<void()> f, std::function<bool()> e = [] { return true; }) { ops.push_back({ n, f }); en.push_back(e); }
    W(int md, LMCfg c, std::vector<std::string> lps) : cfg(c), mode(md), loops(lps)
    {
        if (mode != 3) {
            for (auto& l : loops) op("loop(" + l + ")", [this, l] { begin_loop(l); }, [this, l] { for (auto& x : lp) if (x.name == l) return false; return lp.size() < 3; }); // value-only iteration attributes do not nest
            op("end loop", [this] { end_loop(); }, [this] { return !stk.empty() && stk.back() == 'L'; });
            op("iteration{}", [this] { begin_iter(); fake_ns() += 100; end_iter(); }, [this] { return !stk.empty() && stk.back() == 'L'; });
            op("iteration{long}", [this] { begin_iter(); fake_ns() += 700000000ll; end_iter(); }, [this] { return !stk.empty() && stk.back() == 'L'; });
            op("begin iteration", [this] { begin_iter(); }, [this] { return !stk.empty() && stk.back() == 'L'; });
            op("end iteration", [this] { end_iter(); }, [this] { return !stk.empty() && stk.back() == 'I'; });
            if (cfg.tv > 0) op("pause", [this] { fake_ns() += 700000000ll; }, [this] { return stk.empty() || stk.back() == 'L'; });
            op("region", [this] { annot(areg, 'b', "a"); stk += 'R'; }, [this] { return stk.size() < 4; });
            op("end region", [this] { annot(areg, 'e', "a"); stk.pop_back(); }, [this] { return !stk.empty() && stk.back() == 'R'; });
        } else {
            for (const char* v : { "a", "b" }) op(std::string("begin(") + v + ")", [this, v] { rbegin(areg, v); }, [this] { return stk.size() < 4; });
            op("begin(2:c)", [this] { rbegin(areg2, "c"); }, [this] { return stk.size() < 4; });
            for (u64 t : { 1000000ull, 30000000ull, 70000000ull }) op(vx::fmt("end after %llums", t / 1000000), [this, t] { fake_ns() += t; rend(); }, [this] { return !stk.empty(); });
        }
        if (mode == 3) {
            op("deactivate", [this] { cali_deactivate_channel(ch); active = false; tstack.clear(); skip = 0; }, [this] { return active && stk.empty(); });
            op("activate", [this] { cali_activate_channel(ch); active = true; }, [this] { return !active; });
        }
    }
    void push(std::vector<std::string> extra)
    {
        if (!active) return;
        Rec r = m.snapshot();
        for (auto& e : extra) r.insert(e);
        exp.push_back(r);
    }
    Attribute A(const AttrDef& a) { return a.name == "loop" ? loop_attr : a.name == "region" ? region_attr : a.name == "y.r" ? reg2 : iter[a.name]; }
    void annot(const AttrDef& a, char k, const std::string& v)
    {
        if (k == 'b') { cp->begin(A(a), mkval(a.type, v)); m.begin(a, v); }
        else { cp->end(A(a)); m.end(a); }
    }
    bool is_target(const std::string& l)
    {
        if (cfg.targets.empty()) return true;
        std::string t = cfg.targets + ",";
        for (size_t i = 0, j; (j = t.find(',', i)) != t.npos; i = j + 1) if (t.substr(i, j - i) == l) return true;
        return false;
    }
    void lmsnap()
    {
        std::vector<std::string> e { vx::fmt("!loop.iterations=%d", num) };
        if (start >= 0) e.push_back(vx::fmt("!loop.start_iteration=%d", start));
        push(e);
        num = 0; start = -1; last = fake_ns();
    }
    void begin_loop(const std::string& l)
    {
        if (mode == 2 && target < 0 && is_target(l)) { target = lp.size(); lmsnap(); }
        annot(aloop, 'b', l);
        lp.push_back({ l, lp.size() % 2 ? 5 : 0, 0, 0 });
        stk += 'L';
    }
    void end_loop()
    {
        if (mode == 1) push({ vx::fmt("!iter.count=%llu", lp.back().n) });
        if (mode == 2 && (int) lp.size() - 1 == target) { lmsnap(); target = -1; }
        annot(aloop, 'e', "");
        lp.pop_back();
        stk.pop_back();
    }
    void begin_iter()
    {
        OpenLoop& l = lp.back();
        l.t0 = fake_ns();
        l.n++;
        if (mode == 2 && (int) lp.size() - 1 == target) { ++num; if (start < 0) start = l.next; }
        annot(aiter["iteration#" + l.name], 'b', std::to_string(l.next));
        l.next++;
        stk += 'I';
    }
    void end_iter()
    {
        OpenLoop& l = lp.back();
        if (mode == 1) push({ vx::fmt("!iter.duration.ns=%llu", (u64) fake_ns() - l.t0) });
        if (mode == 2 && (int) lp.size() - 1 == target)
            if ((cfg.iv > 0 && num == cfg.iv) || (cfg.tv > 0 && (fake_ns() - last) * 1e-9 > cfg.tv)) lmsnap();
        annot(aiter["iteration#" + l.name], 'e', "");
        stk.pop_back();
    }
    std::string path(size_t n) { Path p = m.thr[0].region; p.resize(n); return cm::show(p); }
    void rbegin(const AttrDef& a, const std::string& v)
    {
        annot(a, 'b', v);
        stk += a.name == "y.r" ? 'S' : 'R';
        if (!active) return;
        if (skip) { ++skip; return; }
        tstack.push_back(fake_ns());
        auto it = tracked.find(path(m.thr[0].region.size()));
        if (it != tracked.end() && it->second.inc > 2.0 * it->second.child) skip = 1;
    }
    void rend()
    {
        const AttrDef& a = stk.back() == 'S' ? areg2 : areg;
        bool on = active;
        if (on && skip) { if (--skip > 0) on = false; else push({}); }
        if (on && !tstack.empty()) { // regions that were open at activation are not timed
            double d = (fake_ns() - tstack.back()) * 1e-9;
            tstack.pop_back();
            size_t n = m.thr[0].region.size();
            if (d > 0.01) { tracked[path(n)].inc = d; if (n > 1) tracked[path(n - 1)].child += d; }
        }
        annot(a, 'e', "");
        stk.pop_back();
    }
    void setup() override
    {
        cp = new Caliper();
        auto def = [](const Attribute& a) { return AttrDef { a.name(), a.type(), a.properties() }; };
        aloop = def(loop_attr); areg = def(region_attr);
        reg2 = cp->create_attribute("y.r", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        areg2 = def(reg2);
        for (auto& l : loops) { Attribute a = cp->get_attribute(cali_make_loop_iteration_attribute(l.c_str())); iter[a.name()] = a; aiter[a.name()] = def(a); }
        Cfg c { { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_SERVICES_ENABLE", mode == 1 ? "loop_statistics,trace" : mode == 2 ? "loop_monitor,trace" : "region_monitor,trace" } };
        if (cfg.iv) c.push_back({ "CALI_LOOP_MONITOR_ITERATION_INTERVAL", std::to_string(cfg.iv) });
        if (cfg.tv > 0) c.push_back({ "CALI_LOOP_MONITOR_TIME_INTERVAL", std::to_string(cfg.tv) });
        if (!cfg.targets.empty()) c.push_back({ "CALI_LOOP_MONITOR_TARGET_LOOPS", cfg.targets });
        ch = mkchannel(c, "ch");
        m.cur = 0;
        FixedSizeSnapshotRecord<120> rec;
        cp->pull_context(rec.builder());
        for (const Entry& e : rec.view())
            if (e.is_reference()) { Path p = decode_node(*cp, e.node()); m.proc.unaligned.insert(m.proc.unaligned.end(), p.begin(), p.end()); }
        fake_ns() += 777;
    }
    int nops() const override { return ops.size(); }
    std::string opname(int i) const override { return ops[i].first; }
    bool enabled(int i) const override { return const_cast<W*>(this)->en[i](); }
    void apply(int i) override { fake_ns() += 1000; ops[i].second(); }
    bool has_final() const override { return true; }
    void final() override { expect_seq(cfg.name.c_str(), flush_records(*cp, ch), exp); }
    std::string state() const override
    {
        auto& w = const_cast<W&>(*this);
        std::string s = w.m.str() + stk + cfg.name + vx::fmt("%zu.%d.%d.%d.%d.%d", exp.size(), target, num, start, skip, active);
        for (auto& l : lp) s += vx::fmt("%s%d", l.name.c_str(), l.next);
        for (auto& t : tracked) s += t.first + vx::fmt("%g,%g", t.second.inc, t.second.child);
        return s;
    }
};

// late activation of the region monitor inside open regions
struct Late : W {
    Late() : W(3, LMCfg { "late activation" }, {}) { op("deactivate inside", [this] { cali_deactivate_channel(ch); active = false; }, [this] { return active && !stk.empty() && tstack.empty() && !skip; }); }
    void setup() override { W::setup(); cali_deactivate_channel(ch); active = false; }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        auto add = [&](int mode, LMCfg c, int depth, std::vector<std::string> loops) { d.histories(c.name, depth + T, [=]() { return std::unique_ptr<vx::World>(new W(mode, c, loops)); }); };
        add(1, { "loop statistics" }, 7, { "lp", "lpx" });
        add(2, { "monitor off" }, 6, { "lp", "lpx" });
        add(2, { "every iteration", 1 }, 7, { "lp" });
        add(2, { "every 2 iterations", 2 }, 7, { "lp", "q" });
        add(2, { "every 3 iterations", 3 }, 8, { "lp" });
        add(2, { "time 0.5 s", 0, 0.5 }, 7, { "lp", "q" });
        add(2, { "2 iterations or 1 s", 2, 1.0 }, 8, { "lp" });
        add(2, { "target lp, every 2", 2, 0, "lp" }, 7, { "lp", "lpx" });
        add(2, { "target lpx", 1, 0, "lpx" }, 7, { "lp", "lpx" });
        add(2, { "targets q,lp, 0.5 s", 0, 0.5, "q,lp" }, 6, { "lp", "q", "l" });
        add(3, { "region monitor" }, 7, {});
        d.histories("late activation", 6 + T, []() { return std::unique_ptr<vx::World>(new Late); });
    };
    return d.main(argc, argv);
}
