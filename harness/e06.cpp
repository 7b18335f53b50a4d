// E06: tracked memory regions (alloc, allocstats services) and the interval lookup tree.
#include "svc.hpp"
#include <caliper/cali_datatracker.h>
using namespace cali;
using namespace cm;
using namespace svc;
typedef unsigned long long u64;
namespace cali { extern Attribute region_attr; extern Attribute class_memoryaddress_attr; }

struct Reg { u64 addr, elem, size, uid; std::string label, extra; std::set<int> attrs; };
struct Track { std::string name; u64 addr; std::string label; u64 elem; std::vector<size_t> dims; int api; bool retrack; }; // api 0 track, 1 dimensional, 2 extra attributes

struct W : vx::World {
    bool resolve, active, hwm, trk, stats;
    std::vector<std::pair<std::string, std::function<void()>>> ops;
    std::vector<std::function<bool()>> en;
    std::vector<Track> tracks;
    Model m;
    AttrDef areg;
    Caliper* cp = nullptr;
    cali_id_t ch;
    Recs exp;
    std::map<u64, Reg> live;
    std::set<u64> probes;
    u64 bytes = 0, rhwm = 0, uid = 0;
    int aon = 0; // address attributes known
    Attribute addr[2];
    // allocstats
    struct SI { u64 cur = 0, total = 0, max = 0, hwm = 0, count = 0; };
    std::map<std::string, SI> st;
    std::map<u64, std::pair<std::string, u64>> owner;
    std::string cfgname;
    void op(const std::string& n, std::function<void()> f, std::function<bool()> e = [] { return true; }) { ops.push_back({ n, f }); en.push_back(e); }
    std::string path() { return cm::show(m.thr[0].region); }
    W(std::string cfg, std::vector<Track> t, bool regions) : tracks(t), cfgname(cfg)
    {
        auto has = [&](const char* s) { return (" " + cfg + " ").find(std::string(" ") + s + " ") != std::string::npos; };
        resolve = has("resolve"); active = has("active"); hwm = has("hwm"); trk = !has("notrack"); stats = has("stats");
        std::set<u64> addrs;
        for (auto& x : tracks) {
            op(x.name, [this, x] { track(x); }, [this, x] { return x.retrack || !live.count(x.addr); });
            addrs.insert(x.addr);
        }
        for (u64 a : addrs) op(vx::fmt("untrack(%#llx)", a), [this, a] { untrack(a); });
        if (!resolve || has("snap")) op("snapshot", [this] { snap({}); });
        if (regions) {
            for (const char* v : { "a", "b" }) op(std::string("begin ") + v, [this, v] { cp->begin(region_attr, Variant(v)); m.begin(areg, v); }, [this] { return m.thr[0].region.size() < 2; });
            op("end", [this] { cp->end(region_attr); m.end(areg); }, [this] { return m.can_end(areg); });
        }
        if (resolve && has("late")) op("new address attribute", [this] { addr[1] = mkaddr("addr.1"); aon = 2; }, [this] { return aon == 1; });
    }
    Attribute mkaddr(const char* n)
    {
        Attribute meta = class_memoryaddress_attr;
        Variant v(true);
        return cp->create_attribute(n, CALI_TYPE_ADDR, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, 1, &meta, &v);
    }
    static u64 sizeof_(const Track& x) { u64 s = x.elem; for (auto d : x.dims) s *= d; return s; }
    std::string A(u64 a) { return Variant(CALI_TYPE_ADDR, &a, 8).to_string(); }
    // a snapshot of the alloc channel with the given extra entries
    void snap(std::vector<std::string> extra, std::vector<std::pair<int, u64>> at = {})
    {
        Rec r = m.snapshot();
        for (auto& e : extra) r.insert(e);
        if (active && !stats) r.insert(vx::fmt("!mem.active=%llu", bytes));
        if (hwm) { r.insert(vx::fmt("!alloc.region.highwatermark=%llu", rhwm)); rhwm = bytes; }
        std::vector<Entry> e;
        for (auto& p : at) {
            r.insert("!" + addr[p.first].name() + "=" + A(p.second));
            e.push_back(Entry(addr[p.first], Variant(CALI_TYPE_ADDR, &p.second, 8)));
            if (resolve)
                for (auto& l : live)
                    if (p.second - l.second.addr < l.second.size) {
                        std::string n = addr[p.first].name();
                        r.insert(vx::fmt("!alloc.uid#%s=%llu", n.c_str(), l.second.uid));
                        r.insert(vx::fmt("!alloc.index#%s=%llu", n.c_str(), (p.second - l.second.addr) / l.second.elem));
                        if (l.second.attrs.count(p.first)) r.insert(l.second.extra + "/alloc.label#" + n + "=" + l.second.label);
                        break;
                    }
        }
        exp.push_back(r);
        if (extra.empty()) cp->push_snapshot(cp->get_channel(ch).body(), SnapshotView(e.size(), e.data()));
    }
    void track(const Track& x)
    {
        u64 sz = sizeof_(x);
        ++uid;
        if (trk && !stats) snap({ vx::fmt("!alloc.total_size=%llu", sz), vx::fmt("!alloc.uid=%llu", uid), "!alloc.address=" + A(x.addr), (x.api == 2 ? "/x.extra=7" : std::string()) + "/mem.alloc=" + x.label });
        if (x.api == 0) cali_datatracker_track((void*) x.addr, x.label.c_str(), sz);
        else if (x.api == 1) cali_datatracker_track_dimensional((void*) x.addr, x.label.c_str(), x.elem, x.dims.data(), x.dims.size());
        else {
            Attribute ex = cp->create_attribute("x.extra", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
            Variant v(7);
            cp->memory_region_begin((void*) x.addr, x.label.c_str(), x.elem, x.dims.size(), x.dims.data(), 1, &ex, &v);
        }
        if (stats && path().empty()) return; // memory outside of regions is not considered
        if (live.count(x.addr)) forget(x.addr); // replaces the region that started there
        Reg r { x.addr, x.elem, sz, uid, x.label, x.api == 2 ? "/x.extra=7" : "", {} };
        for (int i = 0; i < aon; ++i) r.attrs.insert(i);
        live[x.addr] = r;
        bytes += sz;
        rhwm = std::max(rhwm, bytes);
        if (stats) {
            SI& s = st[path()];
            s.cur += sz; s.total += sz; s.max = std::max(s.max, sz); s.hwm = std::max(s.hwm, s.cur); s.count++;
            owner[x.addr] = { path(), sz };
        }
        for (u64 p : { x.addr - 1, x.addr, x.addr + 1, x.addr + sz / 2, x.addr + sz - 1, x.addr + sz }) probes.insert(p);
    }
    void forget(u64 a)
    {
        bytes -= live[a].size;
        live.erase(a);
        if (stats) { st[owner[a].first].cur -= owner[a].second; owner.erase(a); }
    }
    void untrack(u64 a)
    {
        if (live.count(a)) {
            auto& r = live[a];
            if (trk && !stats) snap({ vx::fmt("!alloc.total_size=%lld", -(long long) r.size), vx::fmt("!alloc.uid=%llu", r.uid), "!alloc.address=" + A(a), r.extra + "/mem.free=" + r.label });
            cali_datatracker_untrack((void*) a);
            forget(a);
        } else cali_datatracker_untrack((void*) a);
    }
    void setup() override
    {
        cp = new Caliper();
        areg = AttrDef { region_attr.name(), region_attr.type(), region_attr.properties() };
        if (resolve) { addr[0] = mkaddr("addr.0"); aon = 1; }
        Cfg c { { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_SERVICES_ENABLE", stats ? "allocstats,trace" : "alloc,trace" } };
        if (resolve) c.push_back({ "CALI_ALLOC_RESOLVE_ADDRESSES", "true" });
        if (active) c.push_back({ "CALI_ALLOC_RECORD_ACTIVE_MEM", "true" });
        if (hwm) c.push_back({ stats ? "CALI_ALLOCSTATS_RECORD_HIGHWATERMARK" : "CALI_ALLOC_RECORD_HIGHWATERMARK", "true" });
        if (!trk) c.push_back({ "CALI_ALLOC_TRACK_ALLOCATIONS", "false" });
        ch = mkchannel(c, "ch");
        m.cur = 0;
        FixedSizeSnapshotRecord<120> rec;
        cp->pull_context(rec.builder());
        for (const Entry& e : rec.view())
            if (e.is_reference()) { Path p = decode_node(*cp, e.node()); m.proc.unaligned.insert(m.proc.unaligned.end(), p.begin(), p.end()); }
    }
    int nops() const override { return ops.size(); }
    std::string opname(int i) const override { return ops[i].first; }
    bool enabled(int i) const override { return const_cast<W*>(this)->en[i](); }
    void apply(int i) override { ops[i].second(); }
    bool has_final() const override { return true; }
    void final() override
    {
        if (resolve)
            for (int i = 0; i < aon; ++i)
                for (u64 p : probes) snap({}, { { i, p } });
        if (aon == 2) for (u64 p : probes) snap({}, { { 0, p }, { 1, p ^ 0x10 } });
        if (!stats) { snap({}); }
        Recs got = flush_records(*cp, ch);
        if (stats) {
            Recs reg;
            for (auto& s : st) {
                if (!s.second.count) continue;
                Rec r { s.first, vx::fmt("!alloc.tally=%llu", s.second.hwm), vx::fmt("!alloc.count=%llu", s.second.count), vx::fmt("!max#alloc.size=%llu", s.second.max), vx::fmt("!avg#alloc.size=%llu", s.second.total / s.second.count) };
                exp.push_back(r);
            }
            expect_set(cfgname.c_str(), got, exp);
        } else expect_seq(cfgname.c_str(), got, exp);
    }
    std::string state() const override
    {
        auto& w = const_cast<W&>(*this);
        std::string s = cfgname + w.m.str() + vx::fmt("%llu.%llu.%llu.%d", bytes, rhwm, uid, aon);
        for (auto& l : live) s += vx::fmt("|%llx.%llu.%llu", l.first, l.second.size, l.second.uid);
        for (auto& x : st) s += vx::fmt("%s.%llu.%llu.%llu", x.first.c_str(), x.second.cur, x.second.hwm, x.second.count);
        return s;
    }
};

// Every sequence of tracking toggles on a family of regions, then a lookup of every address around them.
// An address inside any live region must be attributed to a region that contains it, and no other address may be.
struct Fam { std::vector<std::pair<u64, u64>> r; u64 lo, hi, step; };
static const Fam DISJ { { { 0x1000, 16 }, { 0x1010, 8 }, { 0x1020, 32 }, { 0x1040, 1 }, { 0x1048, 8 }, { 0x1058, 16 } }, 0x0ff8, 0x1070, 4 };
static const Fam OVER { { { 0x1000, 64 }, { 0x1010, 16 }, { 0x1008, 8 }, { 0x1020, 64 }, { 0x0ff0, 256 }, { 0x1000, 8 }, { 0x1060, 16 }, { 0x1038, 16 } }, 0x0fe8, 0x10f8, 4 };
struct Probe {
    Caliper* cp = nullptr;
    Attribute a;
    void init()
    {
        if (cp) return;
        cp = new Caliper();
        Attribute meta = class_memoryaddress_attr;
        Variant v(true);
        a = cp->create_attribute("ov.addr", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS, 1, &meta, &v);
    }
};
static Probe pr;
static std::vector<int> toggles(const Fam& f, uint64_t i, int len) { std::vector<int> s; for (int k = 0; k < len; ++k) s.push_back(i % f.r.size()), i /= f.r.size(); return s; }
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
static void lookup_case(const Fam& f, uint64_t i, int len)
{
    pr.init();
    cali_id_t ch = mkchannel({ { "CALI_SERVICES_ENABLE", "alloc" }, { "CALI_ALLOC_RESOLVE_ADDRESSES", "true" }, { "CALI_ALLOC_TRACK_ALLOCATIONS", "false" } }, "ov");
    Channel chn = pr.cp->get_channel(ch);
    Attribute uida = pr.cp->get_attribute("alloc.uid#ov.addr"), idxa = pr.cp->get_attribute("alloc.index#ov.addr");
    std::map<u64, std::pair<u64, u64>> live; // addr -> size, uid
    u64 uid = 0;
    std::string bad;
    for (int k : toggles(f, i, len)) {
        u64 a = f.r[k].first;
        size_t sz = f.r[k].second;
        auto it = live.find(a);
        if (it != live.end() && it->second.first == sz) { pr.cp->memory_region_end((void*) a); live.erase(a); }
        else { pr.cp->memory_region_begin((void*) a, "l", 1, 1, &sz); live[a] = { sz, ++uid }; }
    }
    std::string st;
    for (auto& l : live) st += vx::fmt("%llx+%llu#%llu ", l.first, l.second.first, l.second.second);
    vx::seen(st);
    for (u64 p = f.lo; p < f.hi; p += f.step) {
        FixedSizeSnapshotRecord<80> rec;
        Entry e(pr.a, Variant(CALI_TYPE_ADDR, &p, 8));
        pr.cp->pull_snapshot(chn.body(), SnapshotView(1, &e), rec.builder());
        bool found = false, ok = false, any = false, shadowed = true;
        u64 u = 0, ix = 0;
        for (const Entry& x : rec.view()) {
            if (x.is_immediate() && x.attribute() == uida.id()) found = true, u = x.value().to_uint();
            if (x.is_immediate() && x.attribute() == idxa.id()) ix = x.value().to_uint();
        }
        for (auto& l : live) {
            if (p - l.first >= l.second.first) continue;
            any = true;
            if (found && u == l.second.second && ix == p - l.first) ok = true;
            bool sh = false; // a live region that starts after this one but ends before the address
            for (auto& q : live) if (q.first > l.first && q.first <= p && p - q.first >= q.second.first) sh = true;
            shadowed &= sh;
        }
        if (any && !found && shadowed) { bad = vx::fmt("address %#llx lies in a live tracked region but is not resolved because another region starts inside that region and ends before the address (live: %s)", p, st.c_str()); continue; }
        VX_CHECK(any == found, "address %#llx is %sinside a live tracked region but was %sresolved (live: %s)", p, any ? "" : "not ", found ? "" : "not ", st.c_str());
        VX_CHECK(!found || ok, "address %#llx resolved to region %llu index %llu, which is not a live region containing it (live: %s)", p, u, ix, st.c_str());
    }
    { svc::ErrCapture cap; pr.cp->delete_channel(chn); }
    if (!bad.empty()) vx::failsig("E06:overlap-miss", "%s", bad.c_str());
}

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        auto add = [&](const char* cfg, int depth, std::vector<Track> t, bool regions) { d.histories(cfg, depth + T, [=]() { return std::unique_ptr<vx::World>(new W(cfg, t, regions)); }); };
        std::vector<Track> plain {
            { "track A 16", 0x10000, "A", 1, { 16 }, 0, false }, { "track B 4x3x5", 0x20000, "B", 4, { 3, 5 }, 1, false }, { "track C big", 0x100000000ull, "C", 8, { 1u << 29, 3 }, 1, false },
        };
        std::vector<Track> odd {
            { "track A 3GiB", 0x100000000ull, "A", 1, { 3221225472u }, 0, false }, { "track A 2^40 (again)", 0x100000000ull, "A2", 8, { 1u << 20, 1u << 17 }, 1, true },
            { "track Z elem 0", 0x20000, "Z", 0, { 5 }, 1, true }, { "track Y dims 0", 0x20000, "Y", 8, { 4, 0 }, 1, true }, { "track X extra", 0x20000, "X", 2, { 2, 2, 2 }, 2, true }, { "track scalar", 0x30000, "S", 8, {}, 1, true },
        };
        std::vector<Track> adj {
            { "track P", 0x10000, "P", 4, { 4 }, 1, true }, { "track Q", 0x10010, "Q", 1, { 1 }, 0, true }, { "track R", 0x10011, "R", 3, { 5 }, 2, true }, { "track S", 0x10020, "S", 8, { 2, 2 }, 1, true }, { "track S'", 0x10020, "S2", 16, { 1 }, 1, true },
        };
        add("active hwm", 6, plain, false);
        add("active hwm notrack", 5, odd, false);
        add("active odd", 4, odd, false);
        add("resolve late", 5, adj, false);
        add("resolve active hwm notrack", 4, adj, false);
        add("stats hwm", 5, plain, true);
        add("stats again", 4, odd, true);
        add("stats hwm again", 4, adj, true);
        int L = vx::thorough() ? 8 : 7;
        for (int l : { L - 1, L }) d.enumerate(vx::fmt("lookup, disjoint regions, %d toggles", l), ipow(6, l), [l](uint64_t i) { lookup_case(DISJ, i, l); }, [l](uint64_t i) { std::string s; for (int k : toggles(DISJ, i, l)) s += std::to_string(k); return s; }, 256);
        int M = vx::thorough() ? 6 : 5;
        for (int l = 1; l <= M; ++l) d.enumerate(vx::fmt("lookup, overlapping regions, %d toggles", l), ipow(8, l), [l](uint64_t i) { lookup_case(OVER, i, l); }, [l](uint64_t i) { std::string s; for (int k : toggles(OVER, i, l)) s += std::to_string(k); return s; }, 256);
    };
    return d.main(argc, argv);
}
