// E01: the on-line profile equals aggregating the full trace of the same history.
#include "svc.hpp"
#include "fakeclock.hpp"
#include <cmath>
#include <pthread.h>
using namespace cali;
using namespace cm;
using namespace svc;

// independent aggregation of trace records (entries kept as values, not strings)
struct TV { std::string s; bool num = false, dbl = false; double d = 0; };
using TRec = std::vector<std::pair<std::string, TV>>; // "" name = reference entry (decoded path)
struct Group { Rec key; long count = 0; std::map<std::string, std::vector<TV>> v; };

struct W : vx::World {
    std::vector<std::string> keys; // CALI_AGGREGATE_KEY
    std::string keycfg;
    std::vector<AttrDef> attrs;
    std::map<std::string, Attribute> at;
    std::map<std::string, int> aggr; // aggregatable attribute -> type
    std::vector<std::pair<std::string, std::function<void()>>> ops;
    std::vector<std::function<bool()>> en;
    Caliper* cp = nullptr;
    cali_id_t ch = CALI_INV_ID;
    int nthr = 0;
    std::string st;
    std::map<std::string, int> open;
    std::vector<std::string> stk;
    bool late = false;
    int wide;
    void op(const std::string& n, std::function<void()> f, std::function<bool()> e = [] { return true; }) { ops.push_back({ n, f }); en.push_back(e); }
    Attribute mk(const char* n, cali_attr_type t, int p) { Attribute a = cp->create_attribute(n, t, p); at[n] = a; if (p & CALI_ATTR_AGGREGATABLE) aggr[n] = t; return a; }
    void push(std::vector<Entry> e) { cp->push_snapshot(cp->get_channel(ch).body(), SnapshotView(e.size(), e.data())); }
    W(const std::string& k, const std::string& mode) : keycfg(k), wide(0)
    {
        const int AV = CALI_ATTR_ASVALUE, AG = CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE;
        (void) AV;
        for (const char* v : { "a", "b" }) op(std::string("begin(") + v + ")", [this, v] { cp->begin(at["x.nest"], Variant(v)); stk.push_back(v); }, [this] { return stk.size() < 2; });
        op("end", [this] { cp->end(at["x.nest"]); stk.pop_back(); }, [this] { return !stk.empty(); });
        op("snapshot", [this] { push({}); });
        if (mode == "types") {
            op("int=5", [this] { push({ Entry(at["m.int"], Variant(5)) }); });
            op("int=-7", [this] { push({ Entry(at["m.int"], Variant(-7)) }); });
            op("int=big", [this] { push({ Entry(at["m.int"], Variant(cali_make_variant_from_int64(3000000000ll))) }); });
            op("uint=big", [this] { push({ Entry(at["m.uint"], Variant(cali_make_variant_from_uint(1ull << 62))) }); });
            op("uint=1", [this] { push({ Entry(at["m.uint"], Variant(cali_make_variant_from_uint(1))), Entry(at["m.int"], Variant(0)) }); });
            op("dbl=0.5", [this] { push({ Entry(at["m.dbl"], Variant(0.5)) }); });
            op("dbl=-2.25", [this] { push({ Entry(at["m.dbl"], Variant(-2.25)) }); });
        }
        if (mode == "keys") {
            for (int v : { 1, 2 }) op(vx::fmt("set(val=%d)", v), [this, v] { cp->set(at["x.val"], Variant(v)); open["x.val"] = v; });
            op("end(val)", [this] { cp->end(at["x.val"]); open.erase("x.val"); }, [this] { return open.count("x.val") > 0; });
            for (const char* v : { "s", "t" }) op(std::string("set(str=") + v + ")", [this, v] { cp->set(at["x.str"], Variant(v)); open["x.str"] = *v; });
            op("set(dbl=1.5)", [this] { cp->set(at["x.dbl"], Variant(1.5)); open["x.dbl"] = 1; });
            op("set(dbl=1.25)", [this] { cp->set(at["x.dbl"], Variant(1.25)); open["x.dbl"] = 2; });
            op("m=3", [this] { push({ Entry(at["m.int"], Variant(3)) }); });
        }
        if (mode == "late") {
            op("create(late metric)", [this] { late = true; mk("m.late", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS); mk("x.late", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS); }, [this] { return !late; });
            op("late=4", [this] { push({ Entry(at["m.late"], Variant(4)) }); }, [this] { return late; });
            op("late=9,int=1", [this] { push({ Entry(at["m.int"], Variant(1)), Entry(at["m.late"], Variant(9)) }); }, [this] { return late; });
            op("int=2", [this] { push({ Entry(at["m.int"], Variant(2)) }); });
            op("set(late key=1)", [this] { cp->set(at["x.late"], Variant(1)); open["x.late"] = 1; }, [this] { return late; });
        }
        if (mode == "refs") {
            for (const char* v : { "p", "q" }) op(std::string("begin(proc ") + v + ")", [this, v] { cp->begin(at["p.ref"], Variant(v)); open["p.ref"]++; st += v; }, [this] { return open["p.ref"] < 2; });
            op("end(proc)", [this] { cp->end(at["p.ref"]); open["p.ref"]--; }, [this] { return open["p.ref"] > 0; });
            for (const char* v : { "u", "w" }) op(std::string("begin(unaligned ") + v + ")", [this, v] { cp->begin(at["x.una"], Variant(v)); open["x.una"]++; st += v; }, [this] { return open["x.una"] < 2; });
            op("end(unaligned)", [this] { cp->end(at["x.una"]); open["x.una"]--; }, [this] { return open["x.una"] > 0; });
            op("thread", [this] { thread(); }, [this] { return nthr < 2; });
        }
        if (mode == "wide") { // many key attributes
            wide = 24;
            for (int k : { 0, 14, 16, 17, 23 }) op(vx::fmt("set(k%d=1)", k), [this, k] { cp->set(at["k" + std::to_string(k)], Variant(1)); open["k" + std::to_string(k)] = 1; });
            op("m=3", [this] { push({ Entry(at["m.int"], Variant(3)) }); });
        }
    }
    void thread()
    {
        ++nthr;
        pthread_t th;
        pthread_create(&th, nullptr, [](void* p) -> void* { W* w = (W*) p; Caliper c; c.begin(w->at["x.nest"], Variant("a")); Entry e(w->at["m.int"], Variant(11)); c.push_snapshot(c.get_channel(w->ch).body(), SnapshotView(e)); c.end(w->at["x.nest"]); return nullptr; }, this);
        pthread_join(th, nullptr);
    }
    void setup() override
    {
        cp = new Caliper();
        mk("x.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        mk("x.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
        mk("x.str", CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
        mk("x.dbl", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE);
        mk("p.ref", CALI_TYPE_STRING, CALI_ATTR_SCOPE_PROCESS);
        mk("x.una", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED);
        mk("m.int", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS);
        mk("m.uint", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS);
        mk("m.dbl", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS);
        for (int k = 0; k < wide; ++k) { mk(vx::fmt("k%d", k).c_str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE); keycfg += (k ? "," : "") + vx::fmt("k%d", k); cp->set(at["k" + std::to_string(k)], Variant(0)); }
        for (size_t i = 0; i < keycfg.size();) { size_t j = std::min(keycfg.find(',', i), keycfg.size()); keys.push_back(keycfg.substr(i, j - i)); i = j + 1; }
        ch = mkchannel({ { "CALI_SERVICES_ENABLE", "event,trace,aggregate" }, { "CALI_AGGREGATE_KEY", keycfg } }, "ch");
    }
    int nops() const override { return ops.size(); }
    std::string opname(int i) const override { return ops[i].first; }
    bool enabled(int i) const override { return const_cast<W*>(this)->en[i](); }
    void apply(int i) override { ops[i].second(); hist.push_back(i); }
    std::vector<int> hist;
    bool has_final() const override { return true; }
    static long double ld(const Variant& v) { return v.type() == CALI_TYPE_DOUBLE ? (long double) v.to_double() : v.type() == CALI_TYPE_UINT ? (long double) v.to_uint() : (long double) v.to_int64(); }
    void final() override
    {
        // split the flushed records: the trace's and the profile's ("count" attribute present)
        struct G { long count = 0; std::map<std::string, std::vector<Variant>> v; };
        std::map<Rec, std::map<int, G>> dummy;
        std::map<Rec, G> exp;
        std::map<Rec, int> seen_key;
        std::vector<std::pair<Rec, std::map<std::string, Variant>>> prof;
        Channel h = cp->get_channel(ch);
        cp->flush(h.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
            bool isprof = false;
            Rec key;
            std::map<std::string, Variant> imm;
            for (const Entry& e : rec) {
                if (e.is_immediate()) {
                    std::string n = cp->get_attribute(e.attribute()).name();
                    if (n == "count") isprof = true;
                    VX_CHECK(!imm.count(n), "record contains %s twice", n.c_str());
                    imm[n] = e.value();
                    if (std::find(keys.begin(), keys.end(), n) != keys.end()) key.insert("!" + n + "=" + e.value().to_string());
                } else key.insert(decode_entry(*cp, e));
            }
            if (isprof) prof.push_back({ key, imm });
            else {
                G& g = exp[key];
                ++g.count;
                for (auto& x : imm) if (aggr.count(x.first) || x.first == "region.count") g.v[x.first].push_back(x.second);
            }
        });
        // the profile of every thread is reported separately: merge by key
        std::map<Rec, G> got;
        std::map<Rec, std::map<std::string, long double>> mn, mx, sm, cnt;
        for (auto& p : prof) {
            seen_key[p.first]++;
            G& g = got[p.first];
            g.count += p.second["count"].to_int64();
            for (auto& x : p.second) {
                auto pre = [&](const char* s) { return x.first.rfind(s, 0) == 0; };
                if (pre("min#")) { auto& q = mn[p.first]; std::string n = x.first.substr(4); q[n] = q.count(n) ? std::min(q[n], ld(x.second)) : ld(x.second); }
                else if (pre("max#")) { auto& q = mx[p.first]; std::string n = x.first.substr(4); q[n] = q.count(n) ? std::max(q[n], ld(x.second)) : ld(x.second); }
                else if (pre("sum#")) sm[p.first][x.first.substr(4)] += ld(x.second);
                else if (pre("avg#")) cnt[p.first][x.first.substr(4)] = ld(x.second);
                else if (x.first != "count" && x.first != "aggregate.slot") VX_CHECK(std::find(keys.begin(), keys.end(), x.first) != keys.end(), "profile record contains %s", x.first.c_str());
            }
        }
        for (auto& s : seen_key) VX_CHECK(s.second <= nthr + 1, "key %s appears in %d profile records", cm::show(s.first).c_str(), s.second);
        for (auto& e : exp) VX_CHECK(got.count(e.first), "no profile record for key %s (%ld snapshots in the trace)", cm::show(e.first).c_str(), e.second.count);
        for (auto& g : got) {
            std::string ks = cm::show(g.first);
            VX_CHECK(exp.count(g.first), "profile record for key %s, which is not in the trace", ks.c_str());
            G& e = exp[g.first];
            VX_CHECK(g.second.count == e.count, "key %s: count %ld, but %ld snapshots in the trace", ks.c_str(), g.second.count, e.count);
            VX_CHECK(sm[g.first].size() == e.v.size(), "key %s: %zu aggregated values, expected %zu", ks.c_str(), sm[g.first].size(), e.v.size());
            for (auto& v : e.v) {
                const std::string& n = v.first;
                long double a = ld(v.second[0]), b = a, s = 0;
                for (auto& x : v.second) a = std::min(a, ld(x)), b = std::max(b, ld(x)), s += ld(x);
                VX_CHECK(sm[g.first].count(n), "key %s: %s has no result", ks.c_str(), n.c_str());
                VX_CHECK(mn[g.first][n] == a && mx[g.first][n] == b, "key %s: %s has min %Lg max %Lg, expected %Lg %Lg", ks.c_str(), n.c_str(), mn[g.first][n], mx[g.first][n], a, b);
                if (fabsl(s) < 1.8e19L) VX_CHECK(sm[g.first][n] == s, "key %s: %s has sum %Lg, expected %Lg", ks.c_str(), n.c_str(), sm[g.first][n], s);
                if (seen_key[g.first] == 1 && fabsl(s) < 1.8e19L) {
                    long double av = s / v.second.size(), q = cnt[g.first][n];
                    bool ok = v.second[0].type() == CALI_TYPE_DOUBLE ? fabsl(av - q) < 1e-9 : fabsl(av - q) < 1;
                    VX_CHECK(ok, "key %s: %s has average %Lg, expected %Lg", ks.c_str(), n.c_str(), q, av);
                }
            }
        }
    }
    std::string state() const override
    {
        std::string s;
        auto& x = const_cast<W&>(*this);
        std::vector<int> h = hist; // multiset of operations + open context
        std::sort(h.begin(), h.end());
        for (int i : h) s += vx::fmt("%d.", i);
        for (auto& a : stk) s += a;
        for (auto& o : x.open) s += vx::fmt("%s%d", o.first.c_str(), o.second);
        return s + keycfg;
    }
};

// very many distinct keys: the database grows, chains form
struct Many {
    int kind;
    void run(uint64_t i) const
    {
        vx::in_fork([&]() -> std::string {
            Caliper c;
            Attribute k = c.create_attribute("k", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS), m = c.create_attribute("m", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS), n = c.create_attribute("n", CALI_TYPE_INT, CALI_ATTR_NESTED | CALI_ATTR_SKIP_EVENTS);
            cali_id_t ch = mkchannel({ { "CALI_SERVICES_ENABLE", "aggregate" }, { "CALI_AGGREGATE_KEY", "k" } }, "ch");
            int nk = 1 << (i % 14), stride = i / 14 % 3 == 0 ? 1 : i / 14 % 3 == 1 ? 8192 : 4096, reps = i / 42 ? 3 : 2;
            auto body = c.get_channel(ch).body();
            for (int r = 0; r < reps; ++r)
                for (int j = 0; j < nk; ++j) {
                    Entry e[2] = { Entry(k, Variant(j * stride)), Entry(m, Variant(j + r)) };
                    bool nest = j % 3 == 0;
                    if (nest) c.begin(n, Variant(j % 7));
                    c.push_snapshot(body, SnapshotView(2, e));
                    if (nest) c.end(n);
                }
            std::set<int> got;
            c.flush(body, SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
                int kv = -1, cnt = 0, s = 0;
                for (const Entry& e : rec) if (e.is_immediate()) { auto nm = c.get_attribute(e.attribute()).name(); if (nm == "k") kv = e.value().to_int(); else if (nm == "count") cnt = e.value().to_int(); else if (nm == "sum#m") s = e.value().to_int(); }
                int j = kv / stride;
                VX_CHECK(got.insert(j).second, "key %d appears twice", kv);
                VX_CHECK(cnt == reps && s == reps * j + reps * (reps - 1) / 2, "key %d: count %d sum %d, expected %d %d", kv, cnt, s, reps, reps * j + reps * (reps - 1) / 2);
            });
            VX_CHECK((int) got.size() == nk, "%zu keys, expected %d", got.size(), nk);
            return "ok";
        });
        vx::seen(vx::fmt("many%lu", (unsigned long) i));
    }
};

// snapshots in signal context must not allocate: what does not fit is counted in the SKIPPED record, all else is exact
static void signal_keys(uint64_t i)
{
    vx::in_fork([&]() -> std::string {
        Caliper c;
        Attribute k = c.create_attribute("k", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS), m = c.create_attribute("m", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS), n = c.create_attribute("n", CALI_TYPE_INT, CALI_ATTR_NESTED | CALI_ATTR_SKIP_EVENTS);
        cali_id_t ch = mkchannel({ { "CALI_SERVICES_ENABLE", "aggregate" }, { "CALI_AGGREGATE_KEY", "k" } }, "ch");
        static const int NK[] = { 1, 100, 4000, 4095, 4096, 4097, 5000, 9000 };
        int nk = NK[i % 8], extra = i / 8 % 2 * 3000, late = i / 16 % 2;
        auto body = c.get_channel(ch).body();
        auto snap = [&](Caliper& cc, int j, int v) { Entry e[2] = { Entry(k, Variant(j)), Entry(m, Variant(v)) }; cc.push_snapshot(body, SnapshotView(2, e)); };
        for (int round = 0; round < 3; ++round) {
            std::map<int, std::vector<int>> exp;
            long total = 0;
            auto rec = [&](bool sig, int j, int v) { if (sig) { Caliper s = Caliper::sigsafe_instance(); VX_CHECK(bool(s), "no signal-safe instance"); snap(s, j, v); } else snap(c, j, v); exp[j].push_back(v); ++total; };
            rec(false, 0, 3);
            for (int j = 1; j <= extra; ++j) rec(false, j, j);
            if (late && round == 1) for (int a = 0; a < 5; ++a) c.create_attribute(vx::fmt("late%d", a).c_str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS);
            for (int j = 0; j < nk; ++j) rec(true, j, j % 11 - 5);
            for (int j = 0; j < 3; ++j) rec(false, 100000 + j, j);
            long got = 0, skipped = 0;
            std::set<int> seen;
            c.flush(body, SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) {
                int kv = -1; long cnt = 0, s = 0, mn = 0, mx = 0; bool skip = false;
                for (const Entry& e : r) if (e.is_immediate()) { auto nm = c.get_attribute(e.attribute()).name(); if (nm == "k") kv = e.value().to_int(); else if (nm == "count") cnt = e.value().to_int(); else if (nm == "sum#m") s = e.value().to_int(); else if (nm == "min#m") mn = e.value().to_int(); else if (nm == "max#m") mx = e.value().to_int(); } else if (c.get_attribute(e.node()->attribute()).name() == "skipped.records") skip = true;
                got += cnt;
                if (skip) { VX_CHECK(kv == -1, "the record of skipped snapshots has key %d", kv); skipped += cnt; return; }
                VX_CHECK(exp.count(kv), "record with key %d, which was never recorded", kv);
                VX_CHECK(seen.insert(kv).second, "key %d appears twice", kv);
                auto& v = exp[kv];
                VX_CHECK(cnt <= (long) v.size(), "key %d: count %ld, recorded %zu", kv, cnt, v.size());
                if (cnt == (long) v.size()) {
                    long es = 0; for (int x : v) es += x;
                    VX_CHECK(s == es && mn == *std::min_element(v.begin(), v.end()) && mx == *std::max_element(v.begin(), v.end()), "key %d: sum %ld min %ld max %ld, expected sum %ld", kv, s, mn, mx, es);
                }
            });
            VX_CHECK(got == total, "%ld snapshots in the profile (%ld skipped), but %ld were taken", got, skipped, total);
            VX_CHECK(nk + extra > 4000 || late || skipped == 0, "%ld snapshots skipped though the buffers have room", skipped);
            VX_CHECK((long) exp.size() - (long) seen.size() <= skipped, "%zu keys of %zu present, %ld skipped", seen.size(), exp.size(), skipped);
            { Channel hc = c.get_channel(ch); c.clear(&hc); }
        }
        return "ok";
    });
    vx::seen(vx::fmt("sig%lu", (unsigned long) i));
}

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        auto add = [&](const char* n, int depth, const char* key, const char* mode) { d.histories(n, depth, [=]() { return std::unique_ptr<vx::World>(new W(key, mode)); }); };
        add("types", 5 + T, "", "types");
        add("types,key=int", 4 + T, "m.int", "types");
        add("keys:none", 4 + T, "", "keys");
        add("keys:val", 4 + T, "x.val", "keys");
        add("keys:val,str", 4 + T, "x.val,x.str", "keys");
        add("keys:all", 5 + T, "x.dbl,x.str,x.val,m.int", "keys");
        add("late", 5 + T, "x.late,x.val", "late");
        add("refs", 5 + T, "", "refs");
        add("wide", 5 + T, "", "wide");
        d.enumerate("many keys", 84, [](uint64_t i) { Many().run(i); }, [](uint64_t i) { return vx::fmt("many %lu", (unsigned long) i); }, 1);
        d.enumerate("signal-context keys", 32, signal_keys, [](uint64_t i) { return vx::fmt("signal keys %lu", (unsigned long) i); }, 1);
    };
    return d.main(argc, argv);
}
