// D02: a flush reports exactly what was collected since the last clear.
#include "svc.hpp"
#include "fakeclock.hpp"
#include <pthread.h>
#include <sstream>
using namespace cali;
using namespace cm;
using namespace svc;

static Recs* g_written;

struct AllocModel { // allocstats: per region path
    struct R { uint64_t cur = 0, total = 0, max = 0, hwm = 0, count = 0; };
    std::map<std::string, R> reg;
    std::map<int, std::pair<std::string, uint64_t>> live;
    void track(int p, uint64_t sz, const std::string& path)
    {
        if (path.empty()) return;
        R& r = reg[path];
        live[p] = { path, sz };
        r.cur += sz; r.total += sz; r.max = std::max(r.max, sz); r.hwm = std::max(r.hwm, r.cur); ++r.count;
    }
    void untrack(int p)
    {
        auto it = live.find(p);
        if (it == live.end()) return;
        reg[it->second.first].cur -= it->second.second;
        live.erase(it);
    }
    void clear() { for (auto& r : reg) { r.second.hwm = r.second.cur; r.second.total = r.second.max = r.second.count = 0; } }
    Recs result() const
    {
        Recs out;
        for (auto& r : reg) {
            if (!r.second.count) continue;
            Rec x { r.first };
            x.insert("!alloc.tally=" + std::to_string(r.second.hwm));
            x.insert("!alloc.count=" + std::to_string(r.second.count));
            x.insert("!max#alloc.size=" + std::to_string(r.second.max));
            x.insert("!avg#alloc.size=" + std::to_string(r.second.total / r.second.count));
            out.push_back(x);
        }
        return out;
    }
};

struct W : vx::World {
    std::string services;
    bool trace, agg, timer, event, alloc, loops, threads;
    std::vector<AttrDef> attrs;
    std::vector<Attribute> at;
    Model m;
    Caliper* cp = nullptr;
    cali_id_t ch;
    Recs tr;
    std::map<int, Recs> thr_tr;
    std::map<int, AggModel> ag;
    AllocModel am;
    int nthread = 0, step = 0;
    std::map<int, int64_t> last_ns; // per thread: last snapshot
    int64_t tstart;
    std::vector<std::pair<std::string, std::function<void()>>> ops;
    std::vector<std::function<bool()>> en;
    int loop_iter = -1;     // open loop: iterations so far
    bool in_iter = false;
    int64_t iter_start = 0;
    Attribute metric, iter_attr;
    bool fl_pending = false;

    bool has(const char* s) const { return ("," + services + ",").find(std::string(",") + s + ",") != std::string::npos; }
    void op(const std::string& n, std::function<void()> f, std::function<bool()> e = [] { return true; }) { ops.push_back({ n, f }); en.push_back(e); }
    W(const std::string& sv, bool th) : services(sv), threads(th)
    {
        trace = has("trace"); agg = has("aggregate"); timer = has("timer"); event = has("event"); alloc = has("allocstats"); loops = has("loop_statistics");
        attrs = { { "x.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "x.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "loop", CALI_TYPE_STRING, CALI_ATTR_NESTED } };
        m.attrs = attrs;
        for (const char* v : { "a", "b" }) op(std::string("begin(") + v + ")", [this, v] { annot(0, true, v); }, [this] { return loop_iter < 0 && m.thr[0].region.size() < 3; });
        op("end", [this] { annot(0, false, ""); }, [this] { return m.can_end(attrs[0]); });
        if (loops) {
            op("begin(loop)", [this] { annot(2, true, "L"); loop_iter = 0; }, [this] { return loop_iter < 0; });
            op("iteration", [this] { iteration(); }, [this] { return loop_iter >= 0; });
            op("end(loop)", [this] { loop_end(); }, [this] { return loop_iter >= 0; });
        } else {
            op("snapshot", [this] { snap(0); });
            op("snapshot(metric=5)", [this] { snap(5); });
        }
        if (alloc) {
            for (int p : { 0, 1 }) op(vx::fmt("track(%d)", p), [this, p] { size_t n = p ? 7 : 100; cali_datatracker_track_dimensional_(p, n); am.track(p, n, path()); }, [this, p] { return !am.live.count(p) && !in_alloc.count(p); });
            for (int p : { 0, 1 }) op(vx::fmt("untrack(%d)", p), [this, p] { cp->memory_region_end((void*) (0x1000ul * (p + 1))); am.untrack(p); in_alloc.erase(p); }, [this, p] { return in_alloc.count(p) > 0; });
        }
        op("flush", [this] { check("flush"); });
        op("clear", [this] { Channel h = cp->get_channel(ch); cp->clear(&h); cleared(); check("flush right after clear"); });
        op("write", [this] { write(0); });
        op("write+clear", [this] { write(CALI_FLUSH_CLEAR_BUFFERS); cleared(); });
        if (threads) op("thread", [this] { thread(); });
    }
    std::set<int> in_alloc;
    void cali_datatracker_track_dimensional_(int p, size_t n) { in_alloc.insert(p); cp->memory_region_begin((void*) (0x1000ul * (p + 1)), "lbl", 1, 1, &n); }
    std::string path() { return show(m.thr[0].region); }
    void cleared() { tr.clear(); thr_tr.clear(); for (auto& a : ag) a.second.clear(); am.clear(); }
    void record(int t, Rec r)
    {
        if (timer) {
            r.insert("!time.offset.ns=" + std::to_string(fake_ns() - tstart));
            r.insert("!time.duration.ns=" + std::to_string(fake_ns() - last(t)));
            last_ns[t] = fake_ns();
        }
        if (trace) { if (t == 0) tr.push_back(r); else thr_tr[t].push_back(r); }
        if (agg) { auto& a = ag[t]; a.aggr = { "region.count", "metric", "time.duration.ns", "iter.duration.ns", "iter.count", "time.inclusive.duration.ns" }; a.add(r); }
    }
    int64_t last(int t) { auto it = last_ns.find(t); return it == last_ns.end() ? tstart : it->second; }
    void ev(int i, const char* k, const std::string& v) { if (event) record(0, EventModel::record(m, attrs[i], k, v)); }
    void annot(int i, bool begin, const std::string& v)
    {
        Attribute a = i == 2 ? cp->get_attribute("loop") : at[i];
        if (begin) { ev(i, "begin", v); cp->begin(a, mkval(attrs[i].type, v)); m.begin(attrs[i], v); }
        else { ev(i, "end", m.get(attrs[i])); cp->end(a); m.end(attrs[i]); }
    }
    void iteration()
    {
        AttrDef it { "iteration#L", CALI_TYPE_INT, CALI_ATTR_ASVALUE };
        std::string v = std::to_string(loop_iter);
        if (event) record(0, EventModel::record(m, it, "begin", v));
        cp->begin(iter_attr, Variant(loop_iter));
        m.begin(it, v);
        int64_t dt = 100 + 10 * step;
        fake_ns() += dt;
        if (event) record(0, EventModel::record(m, it, "end", v));
        Rec r = m.snapshot();
        r.insert("!iter.duration.ns=" + std::to_string(dt));
        record(0, r);
        cp->end(iter_attr);
        m.end(it);
        ++loop_iter;
    }
    void loop_end()
    {
        ev(2, "end", "L");
        Rec r = m.snapshot();
        r.insert("!iter.count=" + std::to_string(loop_iter));
        record(0, r);
        cp->end(cp->get_attribute("loop"));
        m.end(attrs[2]);
        loop_iter = -1;
    }
    void snap(int v)
    {
        Entry e(metric, Variant(v));
        Rec r = m.snapshot();
        if (v) r.insert("!metric=" + std::to_string(v));
        cp->push_snapshot(cp->get_channel(ch).body(), v ? SnapshotView(e) : SnapshotView());
        record(0, r);
    }
    void thread()
    {
        ++nthread;
        int t = nthread;
        pthread_t th;
        pthread_create(&th, nullptr, [](void* p) -> void* {
            W* w = (W*) p;
            Caliper c;
            c.begin(w->at[0], Variant("t"));
            c.push_snapshot(c.get_channel(w->ch).body(), SnapshotView());
            c.end(w->at[0]);
            return nullptr; }, this);
        pthread_join(th, nullptr);
        m.cur = t;
        m.thr[t];
        if (event) record(t, EventModel::record(m, attrs[0], "begin", "t"));
        m.begin(attrs[0], "t");
        record(t, m.snapshot());
        if (event) record(t, EventModel::record(m, attrs[0], "end", "t"));
        m.end(attrs[0]);
        m.cur = 0;
    }
    void setup() override
    {
        g_written = new Recs;
        cp = new Caliper();
        for (auto& a : attrs) at.push_back(cp->create_attribute(a.name, a.type, a.prop));
        metric = cp->create_attribute("metric", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS);
        iter_attr = cp->create_attribute("iteration#L", CALI_TYPE_INT, CALI_ATTR_ASVALUE, 1, &(const Attribute&) cp->get_attribute("class.iteration"), &(const Variant&) Variant(true));
        FixedSizeSnapshotRecord<120> rec;
        cp->pull_context(rec.builder());
        for (const Entry& e : rec.view())
            if (e.is_reference()) { Path p = decode_node(*cp, e.node()); m.proc.unaligned.insert(m.proc.unaligned.end(), p.begin(), p.end()); }
        m.cur = 0;
        m.thr[0];
        tstart = fake_ns();
        ch = mkchannel({ { "CALI_SERVICES_ENABLE", services } }, "ch");
        cp->get_channel(ch).events().write_output_evt.connect([](Caliper* c, ChannelBody* b, SnapshotView v) {
            c->flush(b, v, [c](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { Rec g; for (const Entry& e : r) g.insert(decode_entry(*c, e)); g_written->push_back(g); });
        });
    }
    Recs expected() const
    {
        Recs e;
        auto push = [&](const Recs& r) { e.insert(e.end(), r.begin(), r.end()); };
        push(tr);
        for (auto& t : thr_tr) push(t.second);
        for (auto& a : ag) push(a.second.result());
        if (alloc) push(am.result());
        return e;
    }
    void check(const char* what)
    {
        Recs got = flush_records(*cp, ch);
        expect_set(what, AggModel::strip_slot(got), expected());
        if (trace && !agg) { // order within the thread
            Recs mine;
            for (auto& r : got) { bool t = false; for (auto& e : r) t |= e.find("=t") != std::string::npos; if (!t) mine.push_back(r); }
            expect_seq(what, mine, tr);
        }
        expect_set("repeated flush", AggModel::strip_slot(flush_records(*cp, ch)), AggModel::strip_slot(got));
    }
    void write(int opt)
    {
        g_written->clear();
        cali_channel_flush(ch, opt);
        expect_set("written output", AggModel::strip_slot(*g_written), expected());
    }
    int nops() const override { return ops.size(); }
    std::string opname(int i) const override { return ops[i].first; }
    bool enabled(int i) const override { auto& w = const_cast<W&>(*this); w.m.cur = 0; return w.en[i](); }
    void apply(int i) override { fake_ns() += 7 + 3 * step * step; ++step; ops[i].second(); Caliper c; }
    bool has_final() const override { return true; }
    void final() override { check("final flush"); write(0); }
    std::string state() const override { auto& x = const_cast<W&>(*this); return x.m.str() + show(x.expected()); }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        auto add = [&](const char* s, int depth, bool th) { d.histories(s, depth, [=]() { return std::unique_ptr<vx::World>(new W(s, th)); }); };
        add("event,trace", 5 + T, true);
        add("event,aggregate", 5 + T, true);
        add("trace,aggregate,timer", 5 + T, true);
        add("event,aggregate,timer,trace", 5 + T, true);
        add("aggregate,allocstats", 5 + T, false);
        add("event,loop_statistics,trace,timer", 6 + T, false);
        add("loop_statistics,aggregate", 6 + T, false);
    };
    return d.main(argc, argv);
}
