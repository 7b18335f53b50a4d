// E03: event-triggered snapshots: trigger lists, trigger data, levels and region filters.
#include "svc.hpp"
#include <regex>
#include <pthread.h>
using namespace cali;
using namespace cm;
using namespace svc;

// independent description of a region filter: list of (kind, pattern)
struct Pat { char kind; std::string s; }; // m = match, s = startswith, r = regex
using Filter = std::vector<Pat>;
static bool matches(const Filter& f, const std::string& v)
{
    for (auto& p : f) {
        if (p.kind == 'm' && v == p.s) return true;
        if (p.kind == 's' && v.substr(0, p.s.size()) == p.s) return true;
        if (p.kind == 'r' && std::regex_match(v, std::regex(p.s))) return true;
    }
    return false;
}
static bool pass(const Filter& inc, const Filter& exc, const std::string& v) { return !matches(exc, v) && (inc.empty() || matches(inc, v)); }
static std::string quote(const std::string& s, int style)
{
    bool special = s.find_first_of(" ,()\"\\") != s.npos;
    if (style == 1 || (special && style == 0)) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
    std::string r;
    for (char c : s) { if (strchr(" ,()\"\\", c)) r += '\\'; r += c; }
    return r;
}
static std::string text(const Filter& f, int style, int spaces)
{
    std::string o, sp = spaces ? " " : "";
    for (size_t i = 0; i < f.size(); ++i) {
        if (i) o += sp + "," + sp;
        auto q = [&](const std::string& s) { return quote(s, style); };
        if (f[i].kind == 'm') o += style == 2 || i % 2 || f[i].s == "match" ? "match(" + sp + q(f[i].s) + sp + ")" : q(f[i].s);
        else {
            o += std::string(f[i].kind == 's' ? "startswith" : "regex") + sp + "(" + sp + q(f[i].s);
            while (i + 1 < f.size() && f[i + 1].kind == f[i].kind) o += sp + "," + sp + q(f[++i].s);
            o += sp + ")";
        }
    }
    return o.empty() ? o : sp + o + sp;
}

struct EvCfg {
    std::string name;
    std::vector<std::string> trigger; // empty: all
    int level = 0;
    std::string leveltext;
    bool info = true;
    Filter inc, exc, br;
    std::string sep = ",";
};
struct W : vx::World {
    EvCfg cfg, cfg2;
    bool two = false;
    std::vector<AttrDef> attrs;
    std::vector<int> level;
    std::vector<Attribute> at;
    std::vector<char> created;
    std::vector<std::pair<std::string, std::function<void()>>> ops;
    std::vector<std::function<bool()>> en;
    Model m;
    Caliper* cp = nullptr;
    cali_id_t ch[2];
    bool active = true;
    Recs exp[2];
    int nthr = 0;
    static std::vector<AttrDef> all_attrs()
    {
        return { { "x.r", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "x.i", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "x.s", CALI_TYPE_STRING, CALI_ATTR_ASVALUE }, { "x.d", CALI_TYPE_STRING, CALI_ATTR_DEFAULT }, { "x.u", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED },
                 { "x.p", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS }, { "x.skip", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SKIP_EVENTS }, { "x.n", CALI_TYPE_INT, CALI_ATTR_NESTED }, { "x.l2", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_LEVEL_2 }, { "x.l7", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_LEVEL_7 } };
    }
    static int lvl(const AttrDef& a) { return a.prop & CALI_ATTR_LEVEL_7 ? ((a.prop & CALI_ATTR_LEVEL_7) == CALI_ATTR_LEVEL_2 ? 2 : 7) : 0; }
    void op(const std::string& n, std::function<void()> f, std::function<bool()> e = [] { return true; }) { ops.push_back({ n, f }); en.push_back(e); }
    // use: indices of attributes, vals: values for string attributes, late: attributes created by an operation
    W(EvCfg c, std::vector<std::string> use, std::vector<std::string> vals, std::set<std::string> late, bool chanops, bool threads, const EvCfg* c2 = nullptr) : cfg(c)
    {
        if (c2) cfg2 = *c2, two = true;
        for (auto& u : use)
            for (auto& a : all_attrs()) if (a.name == u) attrs.push_back(a);
        at.resize(attrs.size());
        created.assign(attrs.size(), 1);
        m.attrs = attrs;
        for (size_t i = 0; i < attrs.size(); ++i) {
            const AttrDef& a = attrs[i];
            if (late.count(a.name)) { created[i] = 0; op("create(" + a.name + ")", [this, i] { created[i] = 1; at[i] = cp->create_attribute(attrs[i].name, attrs[i].type, attrs[i].prop); }, [this, i] { return !created[i]; }); }
            std::vector<std::string> vv = a.type == CALI_TYPE_INT ? std::vector<std::string>{ "3" } : vals;
            for (auto& v : vv) {
                op("begin(" + a.name + "=" + v + ")", [this, i, v] { annot(i, 'b', v); }, [this, i] { return created[i] && (!(attrs[i].prop & CALI_ATTR_ASVALUE) || m.get(attrs[i]).empty()); });
                if (a.type != CALI_TYPE_STRING || (a.prop & CALI_ATTR_ASVALUE) || a.name == "x.r" || a.name == "x.d") op("set(" + a.name + "=" + v + ")", [this, i, v] { annot(i, 's', v); }, [this, i] { return created[i]; });
            }
            op("end(" + a.name + ")", [this, i] { annot(i, 'e', ""); }, [this, i] { return created[i] && m.can_end(attrs[i]); });
        }
        if (chanops) {
            op("deactivate", [this] { cali_deactivate_channel(ch[0]); active = false; }, [this] { return active; });
            op("activate", [this] { cali_activate_channel(ch[0]); active = true; }, [this] { return !active; });
        }
        if (threads)
            for (auto& v : vals) op("thread(begin,end " + attrs[0].name + "=" + v + ")", [this, v] { thread(v); }, [this] { return nthr < 2; });
    }
    bool trig(const EvCfg& c, const AttrDef& a)
    {
        if (a.prop & CALI_ATTR_SKIP_EVENTS) return false;
        if (!c.trigger.empty() && std::find(c.trigger.begin(), c.trigger.end(), a.name) == c.trigger.end()) return false;
        return lvl(a) >= c.level;
    }
    bool selected(const EvCfg& c, const AttrDef& a, const std::string& v)
    {
        if (!trig(c, a)) return false;
        if (a.type == CALI_TYPE_STRING && !pass(c.inc, c.exc, v)) return false;
        if (c.br.empty()) return true;
        if (a.type == CALI_TYPE_STRING && matches(c.br, v)) return true;
        Scope& s = m.scope(a);
        auto in = [&](const Path& p) { for (auto& kv : p) for (auto& x : attrs) if (x.name == kv.first && x.type == CALI_TYPE_STRING && trig(c, x) && matches(c.br, kv.second)) return true; return false; };
        if (in(m.thr[m.cur].region)) return true;
        return !(a.prop & CALI_ATTR_ASVALUE) && in(is_unaligned(a.prop) ? s.unaligned : s.region);
    }
    void annot(int i, char k, const std::string& val)
    {
        const AttrDef& a = attrs[i];
        std::string v = k == 'e' ? m.get(a) : val;
        for (int q = 0; q < (two ? 2 : 1); ++q) {
            EvCfg& c = q ? cfg2 : cfg;
            if ((q || active) && selected(c, a, v)) {
                Rec r;
                if (c.info) r = EventModel::record(m, a, k == 'b' ? "begin" : k == 's' ? "set" : "end", v);
                else { r = m.snapshot(); if (k == 'e') r.insert("!region.count=1"); }
                exp[q].push_back(r);
            }
        }
        Variant x = mkval(a.type, v);
        Caliper c;
        if (k == 'b') { c.begin(at[i], x); m.begin(a, v); }
        else if (k == 's') { c.set(at[i], x); m.set(a, v); }
        else { c.end(at[i]); m.end(a); }
    }
    void thread(const std::string& v)
    {
        m.cur = ++nthr;
        struct A { W* w; std::string v; } a { this, v };
        pthread_t t;
        pthread_create(&t, nullptr, [](void* p) -> void* { A* a = (A*) p; a->w->annot(0, 'b', a->v); a->w->annot(0, 'b', "zz"); a->w->annot(0, 'e', ""); a->w->annot(0, 'e', ""); return nullptr; }, &a);
        pthread_join(t, nullptr);
        m.thr.erase(m.cur);
        m.cur = 0;
    }
    Cfg conf(const EvCfg& c)
    {
        Cfg r { { "CALI_SERVICES_ENABLE", "event,trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" } };
        std::string t;
        for (auto& x : c.trigger) t += (t.empty() ? "" : c.sep) + x;
        if (!t.empty()) r.push_back({ "CALI_EVENT_TRIGGER", t });
        if (!c.leveltext.empty()) r.push_back({ "CALI_EVENT_REGION_LEVEL", c.leveltext });
        if (!c.info) r.push_back({ "CALI_EVENT_ENABLE_SNAPSHOT_INFO", "false" });
        if (!c.inc.empty()) r.push_back({ "CALI_EVENT_INCLUDE_REGIONS", text(c.inc, 0, 0) });
        if (!c.exc.empty()) r.push_back({ "CALI_EVENT_EXCLUDE_REGIONS", text(c.exc, 0, 0) });
        if (!c.br.empty()) r.push_back({ "CALI_EVENT_INCLUDE_BRANCHES", text(c.br, 0, 0) });
        return r;
    }
    void setup() override
    {
        cp = new Caliper();
        for (size_t i = 0; i < attrs.size(); ++i) if (created[i] && i % 2 == 0) at[i] = cp->create_attribute(attrs[i].name, attrs[i].type, attrs[i].prop);
        ch[0] = mkchannel(conf(cfg), "ch0");
        if (two) ch[1] = mkchannel(conf(cfg2), "ch1");
        for (size_t i = 0; i < attrs.size(); ++i) if (created[i] && i % 2) at[i] = cp->create_attribute(attrs[i].name, attrs[i].type, attrs[i].prop);
        m.cur = 0;
        FixedSizeSnapshotRecord<120> rec;
        cp->pull_context(rec.builder());
        for (const Entry& e : rec.view())
            if (e.is_reference()) { Path p = decode_node(*cp, e.node()); m.proc.unaligned.insert(m.proc.unaligned.end(), p.begin(), p.end()); }
    }
    int nops() const override { return ops.size(); }
    std::string opname(int i) const override { return ops[i].first; }
    bool enabled(int i) const override { return const_cast<W*>(this)->en[i](); }
    void apply(int i) override { ops[i].second(); }
    bool has_final() const override { return true; }
    void final() override
    {
        for (int q = 0; q < (two ? 2 : 1); ++q) {
            Recs got = flush_records(*cp, ch[q]);
            std::string what = "channel " + (q ? cfg2.name : cfg.name);
            if (nthr) expect_set(what.c_str(), got, exp[q]);
            else expect_seq(what.c_str(), got, exp[q]);
        }
    }
    std::string state() const override
    {
        auto& w = const_cast<W&>(*this);
        std::string s = w.m.str() + (active ? "A" : "-") + cfg.name;
        for (char c : created) s += char('0' + c);
        return s + vx::fmt("%zu.%zu.%d", exp[0].size(), exp[1].size(), nthr);
    }
};

// ------------------------------------------------------------ filter texts
static std::vector<Filter> filters()
{
    std::vector<Filter> r;
    const std::vector<Pat> P { { 'm', "a" }, { 'm', "ab" }, { 'm', "foo bar" }, { 'm', "a(b)" }, { 'm', "match" }, { 'm', "a,b" }, { 'm', "q\"z" }, { 's', "a" }, { 's', "ab" }, { 's', "foo " }, { 's', "b" }, { 'r', "a.*" }, { 'r', "b" }, { 'r', ".*o.*" }, { 'r', "(a|b)b?" }, { 'r', "a\\(b\\)" } };
    for (auto& p : P) r.push_back({ p });
    for (auto& p : P) for (auto& q : P) if (&p != &q) r.push_back({ p, q });
    for (size_t i = 0; i < P.size(); i += 3) for (size_t j = 1; j < P.size(); j += 2) for (size_t k = 0; k < P.size(); k += 3) if (i != j && j != k && i != k) r.push_back({ P[i], P[j], P[k] });
    return r;
}
static const std::vector<std::string> NAMES { "a", "ab", "abc", "A", "b", "bb", "foo bar", "foo", "foo ", "xfoo", "a(b)", "a,b", "match", "q\"z", "aa", " a", "a(b", "z", "o" };
static void filter_case(uint64_t i)
{
    static const auto F = filters();
    int style = i % 3, spaces = i / 3 % 2, mode = i / 6 % 4;
    const Filter& f = F[i / 24];
    const Filter& g = F[(i * 7) % F.size()];
    Filter inc = mode == 1 ? Filter() : f, exc = mode == 0 ? Filter() : mode == 1 ? f : g, br;
    if (mode == 3) inc.clear(), exc.clear(), br = f;
    vx::in_fork([&]() -> std::string {
        Caliper c;
        Attribute a = c.create_attribute("x.r", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        Cfg cfg { { "CALI_SERVICES_ENABLE", "event,trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" } };
        if (!inc.empty()) cfg.push_back({ "CALI_EVENT_INCLUDE_REGIONS", text(inc, style, spaces) });
        if (!exc.empty()) cfg.push_back({ "CALI_EVENT_EXCLUDE_REGIONS", text(exc, style, spaces) });
        if (!br.empty()) cfg.push_back({ "CALI_EVENT_INCLUDE_BRANCHES", text(br, style, spaces) });
        cali_id_t id = mkchannel(cfg, "ch");
        std::vector<std::string> exp;
        for (auto& n : NAMES) {
            c.begin(a, Variant(n.c_str()));
            c.end(a);
            if (mode == 3 ? matches(br, n) : pass(inc, exc, n)) exp.push_back(n);
        }
        auto recs = flush_records(c, id);
        std::vector<std::string> got;
        for (auto& r : recs) for (auto& e : r) { size_t q = e.find("event.begin#x.r="); if (q != e.npos) got.push_back(e.substr(q + 16)); }
        auto show = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "[" + x + "]"; return s; };
        VX_CHECK(got == exp, "filter include<%s> exclude<%s> branch<%s> selects %s, expected %s", text(inc, style, spaces).c_str(), text(exc, style, spaces).c_str(), text(br, style, spaces).c_str(), show(got).c_str(), show(exp).c_str());
        return "";
    });
    vx::seen(text(f, style, spaces) + vx::fmt("%d", mode));
}

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        auto add = [&](EvCfg c, int depth, std::vector<std::string> use, std::vector<std::string> vals, std::set<std::string> late = {}, bool chanops = false, bool threads = false) {
            d.histories(c.name, depth + T, [=]() { return std::unique_ptr<vx::World>(new W(c, use, vals, late, chanops, threads)); });
        };
        EvCfg c;
        c.name = "all triggers";
        add(c, 4, { "x.r", "x.i", "x.d", "x.u", "x.skip", "x.n" }, { "a" });
        c.name = "all triggers, process and levels";
        add(c, 4, { "x.r", "x.s", "x.p", "x.l2" }, { "a", "b" });
        c.name = "all triggers, late attributes, (de)activation";
        add(c, 5, { "x.r", "x.i", "x.d" }, { "a" }, { "x.i", "x.d" }, true);
        c.name = "trigger list";
        c.trigger = { "x.r", "x.i" };
        add(c, 4, { "x.r", "x.i", "x.s", "x.d", "x.n" }, { "a" });
        c.name = "trigger list with colons, late attributes";
        c.sep = ":";
        c.trigger = { "x.s", "x.u", "x.skip", "x.p" };
        add(c, 5, { "x.r", "x.s", "x.u", "x.skip" }, { "a" }, { "x.s", "x.u" });
        c = EvCfg();
        c.info = false;
        c.name = "no snapshot info";
        add(c, 4, { "x.r", "x.i", "x.d", "x.u", "x.n" }, { "a" });
        for (auto lv : std::vector<std::pair<std::string, int>> { { "1", 1 }, { "2", 2 }, { "7", 7 }, { "phase", 4 }, { "0", 0 }, { "8", 0 }, { "x", 0 } }) {
            c = EvCfg();
            c.name = "region level " + lv.first;
            c.leveltext = lv.first;
            c.level = lv.second;
            add(c, 3, { "x.r", "x.i", "x.l2", "x.l7" }, { "a" }, { "x.l7" });
        }
        auto filt = [&](const char* n, Filter inc, Filter exc, Filter br, int depth, std::vector<std::string> use, std::vector<std::string> vals, bool threads = false, bool chanops = false, bool info = true) {
            EvCfg c;
            c.name = n;
            c.inc = inc; c.exc = exc; c.br = br; c.info = info;
            add(c, depth, use, vals, {}, chanops, threads);
        };
        filt("include exact and prefix", { { 'm', "ab" }, { 's', "b" } }, {}, {}, 4, { "x.r", "x.i", "x.s" }, { "a", "ab", "bc" });
        filt("include regex, exclude prefix", { { 'r', "a.*" } }, { { 's', "ab" } }, {}, 4, { "x.r", "x.d", "x.n" }, { "a", "ab", "b" });
        filt("exclude", {}, { { 'm', "a" }, { 'm', "c" } }, {}, 4, { "x.r", "x.u", "x.i" }, { "a", "b", "c" });
        filt("branch", {}, {}, { { 'm', "a" } }, 5, { "x.r", "x.i" }, { "a", "b" });
        filt("branch, plain snapshots", {}, {}, { { 's', "a" } }, 5, { "x.r", "x.i" }, { "ab", "b" }, false, false, false);
        filt("branch, process scope and default attributes", {}, {}, { { 's', "a" }, { 'r', "b" } }, 4, { "x.r", "x.d", "x.p", "x.u" }, { "a", "c" });
        filt("branch with include", { { 'm', "b" } }, {}, { { 'm', "a" } }, 5, { "x.r", "x.i" }, { "a", "b" });
        filt("branch with exclude", {}, { { 'm', "a" } }, { { 'm', "a" } }, 5, { "x.r", "x.i" }, { "a", "b" });
        filt("branch, threads and (de)activation", {}, {}, { { 'm', "a" } }, 5, { "x.r", "x.i" }, { "a", "b" }, true, true);
        filt("include, threads", { { 'm', "a" } }, {}, {}, 5, { "x.r" }, { "a", "b" }, true);
        EvCfg c1, c2;
        c1.name = "two channels"; c1.trigger = { "x.r" }; c1.exc = { { 'm', "b" } };
        c2.name = "two channels (2)"; c2.trigger = { "x.i", "x.d", "x.r" }; c2.level = 0; c2.info = false;
        d.histories("two channels", 5 + T, [=]() { return std::unique_ptr<vx::World>(new W(c1, { "x.r", "x.i", "x.d" }, { "a", "b" }, { "x.d" }, true, false, &c2)); });
        uint64_t nf = filters().size();
        d.enumerate("filter texts", nf * 24, filter_case, [](uint64_t i) { return vx::fmt("filter case %lu", (unsigned long) i); }, 64);
    };
    return d.main(argc, argv);
}
