// E02: traces are complete and in order for every buffer policy.
#include "svc.hpp"
#include "services/trace/TraceBufferChunk.h"
#include <caliper/SnapshotRecord.h>
#include <pthread.h>
using namespace cali;
using namespace svc;

struct R1 { int seq; int n; };
static bool operator==(const R1& a, const R1& b) { return a.seq == b.seq && a.n == b.n; }
struct Ctx {
    Caliper* c;
    Attribute seq, fill;
    static uint64_t val(int seq, int i) { return (uint64_t) (seq * 131 + i) << (i % 5 * 12); } // packed sizes 1..10
    std::vector<Entry> make(int s, int n) const
    {
        std::vector<Entry> v;
        v.push_back(Entry(seq, Variant(cali_make_variant_from_uint(s))));
        for (int i = 0; i < n; ++i) v.push_back(Entry(fill, Variant(cali_make_variant_from_uint(val(s, i)))));
        return v;
    }
    R1 decode(const std::vector<Entry>& rec) const
    {
        R1 r { -1, 0 };
        int i = 0;
        for (const Entry& e : rec) {
            if (e.is_reference()) continue;
            if (e.attribute() == seq.id()) r.seq = e.value().to_int();
            else if (e.attribute() == fill.id()) {
                VX_CHECK(e.value().to_uint() == val(r.seq, i), "record %d: entry %d is damaged: %llu", r.seq, i, (unsigned long long) e.value().to_uint());
                ++i;
            } else vx::fail("record %d contains an entry that was not recorded (attribute %llu)", r.seq, (unsigned long long) e.attribute());
        }
        r.n = i;
        return r;
    }
};
static std::string sh(const std::vector<R1>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) if (i < 3 || i + 12 > v.size()) s += vx::fmt("%d(%d) ", v[i].seq, v[i].n); else if (i == 3) s += "... ";
    return s;
}
static void same(const char* what, const std::vector<R1>& got, const std::vector<R1>& exp)
{
    for (size_t i = 0; i < std::min(got.size(), exp.size()); ++i)
        if (!(got[i] == exp[i])) vx::fail("%s: record at position %zu is #%d with %d values, expected #%d with %d values (got %s; expected %s)", what, i, got[i].seq, got[i].n, exp[i].seq, exp[i].n, sh(got).c_str(), sh(exp).c_str());
    VX_CHECK(got.size() == exp.size(), "%s: %zu records, expected %zu (got %s; expected %s)", what, got.size(), exp.size(), sh(got).c_str(), sh(exp).c_str());
}

static std::vector<R1>* g_written;
static Ctx* g_ctx;

struct W : vx::World {
    std::string policy, bsize;
    int prefill, pren; // prefill mode
    std::vector<int> sizes;
    bool threads;
    Ctx x;
    cali_id_t ch = CALI_INV_ID;
    int next = 0, base = 0;
    std::vector<R1> all; // snapshots since the last clear (grow/stop) or since start (flush)
    bool overflowed = false;
    size_t used = 0, dropped_total = 0; // stop policy: conservative accounting
    std::vector<R1> kept; int dropped = 0; bool stopped = false;
    std::vector<std::vector<R1>> other; // records of exited threads
    size_t limit;
    W(std::string p, std::string b, int pre, int pn, std::vector<int> s, bool th) : policy(p), bsize(b), prefill(pre), pren(pn), sizes(s), threads(th) { limit = std::max(0, atoi(b.c_str())) * 1048576ul; }
    void setup() override
    {
        setenv("CALI_LOG_VERBOSITY", "1", 1);
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        g_written = new std::vector<R1>;
        x.c = new Caliper();
        x.seq = x.c->create_attribute("t.seq", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
        x.fill = x.c->create_attribute("t.fill", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
        g_ctx = &x;
        ch = mkchannel({ { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_TRACE_BUFFER_SIZE", bsize }, { "CALI_TRACE_BUFFER_POLICY", policy } }, "trc");
        Channel h = x.c->get_channel(ch);
        h.events().write_output_evt.connect([](Caliper* c, ChannelBody* b, SnapshotView v) {
            c->flush(b, v, [](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { g_written->push_back(g_ctx->decode(r)); });
        });
        const size_t W98 = 10 + 101 * Entry::MAX_PACKED_SIZE, W0 = 10 + 3 * Entry::MAX_PACKED_SIZE;
        size_t total = (prefill / 10) * limit; // further chunks
        if (prefill % 10 >= 1) while (used + 2 * W98 < total + limit) snap(98);
        if (prefill % 10 >= 2) while (used + 3 * W0 < total + limit) snap(0);
        base = next;
    }
    void snap(int n)
    {
        int s = next++;
        auto v = x.make(s, n);
        FixedSizeSnapshotRecord<120> rec;
        x.c->pull_snapshot(x.c->get_channel(ch).body(), SnapshotView(v.size(), v.data()), rec.builder());
        size_t packed = 1, worst = 10 + rec.view().size() * Entry::MAX_PACKED_SIZE;
        unsigned char buf[64];
        for (const Entry& e : rec.view()) packed += e.pack(buf);
        x.c->push_snapshot(x.c->get_channel(ch).body(), SnapshotView(v.size(), v.data()));
        all.push_back({ s, n });
        if (policy == "stop") {
            // a record that certainly fits has to be kept; after the first drop nothing is kept
            sure.push_back(!any_doubt && used + worst < limit);
            if (!sure.back()) any_doubt = true;
        }
        used += packed;
    }
    std::vector<bool> sure; bool any_doubt = false;
    std::vector<R1> flush()
    {
        std::vector<R1> got;
        x.c->flush(x.c->get_channel(ch).body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { got.push_back(x.decode(r)); });
        return got;
    }
    int nops() const override { return sizes.size() + (policy == "flush" ? 0 : 2) + (threads ? 2 : 0); }
    std::string opname(int i) const override
    {
        if (i < (int) sizes.size()) return vx::fmt("snapshot(%d values)", sizes[i]);
        i -= sizes.size();
        if (policy != "flush") { if (i < 2) return i ? "clear" : "flush"; i -= 2; }
        return i ? "thread(2 large snapshots, exit)" : "thread(1 snapshot, exit)";
    }
    void apply(int i) override
    {
        if (i < (int) sizes.size()) { snap(sizes[i]); return; }
        i -= sizes.size();
        if (policy != "flush") {
            if (i == 0) { check(); return; }
            if (i == 1) {
                auto got = flush();
                { std::vector<R1> mine; std::vector<std::vector<R1>> oth; split(got, mine, oth); dropped_total += all.size() - mine.size(); }
                Channel h = x.c->get_channel(ch);
                x.c->clear(&h);
                all.clear(); other.clear(); used = 0; sure.clear(); any_doubt = false;
                VX_CHECK(flush().empty(), "records are emitted after clear");
                return;
            }
            i -= 2;
        }
        pthread_t t;
        struct A { W* w; int i; std::vector<R1> r; } a { this, i, {} };
        pthread_create(&t, nullptr, [](void* p) -> void* {
            A& a = *(A*) p;
            Caliper c;
            for (int k = 0; k < (a.i ? 2 : 1); ++k) {
                int n = a.i ? 90 : 1;
                int s = a.w->next++;
                auto v = a.w->x.make(s, n);
                c.push_snapshot(c.get_channel(a.w->ch).body(), SnapshotView(v.size(), v.data()));
                a.r.push_back({ s, n });
            }
            return nullptr; }, &a);
        pthread_join(t, nullptr);
        other.push_back(a.r);
    }
    void split(const std::vector<R1>& got, std::vector<R1>& mine, std::vector<std::vector<R1>>& oth)
    {
        oth.resize(other.size());
        for (auto& r : got) {
            bool f = false;
            for (size_t k = 0; k < other.size(); ++k)
                for (auto& o : other[k]) if (o.seq == r.seq) { oth[k].push_back(r); f = true; }
            if (!f) mine.push_back(r);
        }
    }
    std::vector<R1> check(bool twice = true)
    {
        auto got = flush();
        std::vector<R1> mine; std::vector<std::vector<R1>> oth;
        split(got, mine, oth);
        for (size_t k = 0; k < oth.size(); ++k) same("records of an exited thread", oth[k], other[k]);
        if (policy == "stop") {
            VX_CHECK(mine.size() <= all.size(), "more records than snapshots");
            same("kept prefix", mine, std::vector<R1>(all.begin(), all.begin() + mine.size()));
            VX_CHECK(mine.size() == all.size() || !sure[mine.size()], "snapshot #%d was dropped although it fits into the buffer", all[mine.size()].seq);
        } else same("trace", mine, all);
        if (twice) same("second flush", flush(), got);
        return got;
    }
    bool has_final() const override { return true; }
    void final() override
    {
        if (policy == "flush") {
            cali_channel_flush(ch, 0);
            std::vector<R1> mine; std::vector<std::vector<R1>> oth;
            split(*g_written, mine, oth);
            for (size_t k = 0; k < oth.size(); ++k) same("written records of an exited thread", oth[k], other[k]);
            same("records written by all flushes", mine, all);
            return;
        }
        auto got = check(false);
        if (policy == "stop") {
            int kept = 0; std::vector<R1> mine; std::vector<std::vector<R1>> oth;
            split(got, mine, oth);
            long dropped = dropped_total + all.size() - mine.size();
            (void) kept;
            Channel h = x.c->get_channel(ch);
            ErrCapture e;
            x.c->delete_channel(h);
            std::string s = e.stop();
            size_t q = s.find("Trace: dropped ");
            long rep = q == std::string::npos ? 0 : atol(s.c_str() + q + 15);
            VX_CHECK(rep == dropped, "%ld snapshots were dropped, but %ld are reported", dropped, rep);
        }
    }
    std::string state() const override { std::string s = policy; for (auto& r : all) if (r.seq >= base) s += vx::fmt(",%d", r.n); s += "|"; for (auto& o : other) s += vx::fmt("%zu.", o.size()); return s + vx::fmt("|%zu", all.size() < 20 ? all.size() : 20); }
};

// chunk level: every sequence of record sizes into a chunk of every small size
struct ChunkE {
    int maxsize, depth;
    std::vector<int> sizes { 0, 1, 2, 5 };
    uint64_t per() const { uint64_t n = 1; for (int i = 0; i < depth; ++i) n *= sizes.size(); return n; }
    uint64_t count() const { return maxsize * per(); }
    std::string describe(uint64_t i) const
    {
        std::string s = vx::fmt("chunk of %lu bytes, records with values: ", (unsigned long) (i / per() + 1));
        i %= per();
        for (int k = 0; k < depth; ++k, i /= sizes.size()) s += vx::fmt("%d ", sizes[i % sizes.size()] + 1);
        return s;
    }
    void run(uint64_t i) const
    {
        size_t cap = i / per() + 1;
        i %= per();
        trace::TraceBufferChunk ch(cap);
        std::vector<R1> exp;
        size_t used = 0;
        for (int k = 0; k < depth; ++k, i /= sizes.size()) {
            int n = sizes[i % sizes.size()];
            auto v = g_ctx->make(1000 + k, n);
            SnapshotView sv(v.size(), v.data());
            if (!ch.fits(sv)) {
                VX_CHECK(used + 10 + v.size() * Entry::MAX_PACKED_SIZE >= cap, "a record of %zu entries is said not to fit into %zu of %zu free bytes", v.size(), cap - used, cap);
                continue;
            }
            ch.save_snapshot(sv);
            unsigned char buf[64];
            used += 1;
            for (auto& e : v) used += e.pack(buf);
            exp.push_back({ 1000 + k, n });
            VX_CHECK(ch.info().used == used && ch.info().used <= cap && ch.info().reserved == cap && ch.info().nchunks == 1, "usage info is %zu bytes, expected %zu", ch.info().used, used);
        }
        std::vector<R1> got;
        size_t nw = ch.flush(g_ctx->c, [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { got.push_back(g_ctx->decode(r)); });
        same("chunk", got, exp);
        VX_CHECK(nw == exp.size(), "flush returns %zu, expected %zu", nw, exp.size());
        vx::seen(vx::fnv("c" + sh(exp) + std::to_string(cap / 16)));
        ch.reset();
        VX_CHECK(ch.info().used == 0, "reset leaves %zu bytes", ch.info().used);
    }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        auto add = [&](const char* n, int depth, const char* pol, const char* bs, int pre, int pn, std::vector<int> s, bool th) { d.histories(n, depth, [=]() { return std::unique_ptr<vx::World>(new W(pol, bs, pre, pn, s, th)); }); };
        // one MiB holds about 1150 records of 98 values
        for (const char* p : { "grow", "stop", "flush" }) {
            static char nm[64][40]; static int k = 0;
            for (auto pre : std::vector<std::pair<int, int>> { { 0, 0 }, { 1, 98 }, { 2, 60 } }) {
                snprintf(nm[k], 40, "%s-%d", p, pre.first);
                add(nm[k++], 4 + T, p, "1", pre.first, pre.second, { 0, 20, 98 }, true);
            }
        }
        add("grow-many", 3 + T, "grow", "1", 21, 98, { 0, 98 }, true);
        add("flush-many", 3 + T, "flush", "1", 21, 98, { 0, 98 }, true);
        add("grow-size0", 3, "grow", "0", 0, 0, { 0, 20, 98 }, false);
        add("stop-size0", 3, "stop", "0", 0, 0, { 0, 20, 98 }, false);
        add("flush-size0", 3, "flush", "0", 0, 0, { 0, 20, 98 }, false);
        auto ce = std::make_shared<ChunkE>();
        ce->maxsize = 400;
        ce->depth = 5 + T;
        d.enumerate("chunk", ce->count(), [ce](uint64_t i) { ce->run(i); }, [ce](uint64_t i) { return ce->describe(i); }, 4096,
                    [] { static Ctx x; x.c = new Caliper(); x.seq = x.c->create_attribute("t.seq", CALI_TYPE_UINT, CALI_ATTR_ASVALUE); x.fill = x.c->create_attribute("t.fill", CALI_TYPE_UINT, CALI_ATTR_ASVALUE); g_ctx = &x; });
    };
    return d.main(argc, argv);
}
