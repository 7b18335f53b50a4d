// A03: misnested / unmatched end calls are contained and reported; validator verdict.
#include "ctxmodel.hpp"
#include <caliper/cali.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace cali;
using namespace cm;

static int memfd() { return syscall(SYS_memfd_create, "err", 0); }
struct ErrCapture {
    int fd, saved;
    ErrCapture() { fflush(stderr); fd = memfd(); saved = dup(2); dup2(fd, 2); }
    std::string stop()
    {
        if (saved < 0) return "";
        fflush(stderr);
        dup2(saved, 2);
        close(saved);
        saved = -1;
        std::string s;
        struct stat st;
        fstat(fd, &st);
        s.resize(st.st_size);
        if (pread(fd, &s[0], s.size(), 0) < 0) s.clear();
        close(fd);
        return s;
    }
    ~ErrCapture() { stop(); }
};

static cali_id_t mkchannel(std::initializer_list<std::pair<const char*, const char*>> kv, const char* name)
{
    cali_configset_t cs = cali_create_configset(nullptr);
    for (auto& p : kv) cali_configset_set(cs, p.first, p.second);
    cali_id_t id = cali_create_channel(name, 0, cs);
    cali_delete_configset(cs);
    return id;
}

enum K { BEGIN, SET, END, SEND, BREG, EREG, CBEGIN, CEND, CSET };
struct Op { K k; int a; std::string v; };

struct Run {
    std::vector<AttrDef>   attrs;
    std::vector<Attribute> at;
    Model                  m, cm_; // context model; channel-scope model
    std::map<int, bool>    err;    // thread stopped
    cali_id_t              trc = CALI_INV_ID, oth = CALI_INV_ID, val = CALI_INV_ID;
    std::vector<std::multiset<std::string>> exp; // expected trace
    std::map<std::pair<int, std::string>, int> balance; // begins minus accepted ends

    void setup()
    {
        Caliper c;
        for (auto& a : attrs) at.push_back(c.create_attribute(a.name, a.type, a.prop));
        m.attrs = cm_.attrs = attrs;
        trc = mkchannel({ { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" } }, "trc");
        oth = mkchannel({ { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" } }, "oth");
        val = mkchannel({ { "CALI_SERVICES_ENABLE", "validator" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" } }, "val");
        FixedSizeSnapshotRecord<120> rec;
        c.pull_context(rec.builder());
        for (const Entry& e : rec.view())
            if (e.is_reference()) { Path p = decode_node(c, e.node()); m.proc.unaligned.insert(m.proc.unaligned.end(), p.begin(), p.end()); }
    }
    static AttrDef region() { return { "region", CALI_TYPE_STRING, CALI_ATTR_NESTED }; }

    // returns true if the operation is expected to be an error (reported, no effect)
    bool model(const Op& o, int t)
    {
        m.cur = t;
        if (o.k >= CBEGIN) {
            const AttrDef& a = attrs[o.a];
            AttrDef        ca = a;
            ca.prop = (ca.prop & ~CALI_ATTR_SCOPE_MASK); // channel scope: one store
            cm_.cur = 0;
            if (o.k == CBEGIN) cm_.begin(ca, o.v);
            else if (o.k == CSET) cm_.set(ca, o.v);
            else {
                if (!cm_.can_end(ca)) return true;
                cm_.end(ca);
            }
            return false;
        }
        if (err[t]) return false;
        AttrDef a = o.k == BREG || o.k == EREG ? region() : attrs[o.a];
        bool    bad = false;
        switch (o.k) {
        case BEGIN: case BREG: m.begin(a, o.v); break;
        case SET: m.set(a, o.v); break;
        case END: bad = !m.can_end(a); if (!bad) m.end(a); break;
        case SEND: case EREG:
            bad = !m.can_end(a) || m.get(a) != o.v;
            if (!bad) m.end(a);
            break;
        default: break;
        }
        if (bad) err[t] = true;
        else if (o.k == BEGIN || o.k == BREG) ++balance[{ is_process(a.prop) ? -1 : t, a.name }];
        else if (o.k == END || o.k == SEND || o.k == EREG) --balance[{ is_process(a.prop) ? -1 : t, a.name }];
        return bad;
    }
    void impl(const Op& o)
    {
        Caliper c;
        Channel ch = c.get_channel(trc);
        switch (o.k) {
        case BEGIN: c.begin(at[o.a], mkval(attrs[o.a].type, o.v)); break;
        case SET: c.set(at[o.a], mkval(attrs[o.a].type, o.v)); break;
        case END: c.end(at[o.a]); break;
        case SEND: c.end_with_value_check(at[o.a], mkval(attrs[o.a].type, o.v)); break;
        case BREG: cali_begin_region(o.v.c_str()); break;
        case EREG: cali_end_region(o.v.c_str()); break;
        case CBEGIN: c.begin(ch.body(), at[o.a], mkval(attrs[o.a].type, o.v)); break;
        case CSET: c.set(ch.body(), at[o.a], mkval(attrs[o.a].type, o.v)); break;
        case CEND: c.end(ch.body(), at[o.a]); break;
        }
        cali_push_snapshot_all(c);
    }
    void cali_push_snapshot_all(Caliper& c)
    {
        for (cali_id_t id : { trc, oth }) c.push_snapshot(c.get_channel(id).body(), SnapshotView());
    }
    std::string opname(const Op& o) const
    {
        static const char* n[] = { "begin", "set", "end", "end_checked", "begin_region", "end_region", "chn.begin", "chn.end", "chn.set" };
        return std::string(n[o.k]) + "(" + (o.k == BREG || o.k == EREG ? "" : attrs[o.a].name) + (o.v.empty() ? "" : "=" + o.v) + ")";
    }
    void check_chn()
    {
        Caliper c;
        Channel ch = c.get_channel(trc);
        for (size_t i = 0; i < attrs.size(); ++i) {
            AttrDef ca = attrs[i];
            ca.prop &= ~CALI_ATTR_SCOPE_MASK;
            cm_.cur = 0;
            Entry g = c.get(ch.body(), at[i]);
            std::string r = g.empty() ? "" : g.value().to_string();
            VX_CHECK(r == cm_.get(ca), "channel value of %s is \"%s\", expected \"%s\"", ca.name.c_str(), r.c_str(), cm_.get(ca).c_str());
        }
    }
    void check_flush()
    {
        Caliper c;
        for (cali_id_t id : { trc, oth }) {
            Channel ch = c.get_channel(id);
            std::vector<std::multiset<std::string>> got;
            c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
                std::multiset<std::string> g;
                for (const Entry& e : rec) g.insert(decode_entry(c, e));
                got.push_back(g);
            });
            VX_CHECK(got.size() == exp.size(), "%zu records recorded, expected %zu", got.size(), exp.size());
            for (size_t i = 0; i < got.size(); ++i) VX_CHECK(got[i] == exp[i], "record %zu is %s, expected %s", i, show(got[i]).c_str(), show(exp[i]).c_str());
        }
    }
    void check_validator()
    {
        bool open = false; // some begin has no matching end (value-only attributes cannot be nested)
        for (auto& b : balance) open |= b.second != 0;
        Caliper c;
        ErrCapture e;
        Channel ch = c.get_channel(val);
        c.delete_channel(ch);
        std::string s = e.stop();
        bool rep = s.find("Annotation nesting errors found") != std::string::npos && s.find("No annotation nesting") == std::string::npos;
        VX_CHECK(rep == open, "validator %s errors, but %s region is open at the end", rep ? "reports" : "does not report", open ? "a" : "no");
    }
};

struct W : vx::World {
    Run r;
    std::vector<Op> ops;
    W(std::vector<AttrDef> a, std::vector<Op> o) { r.attrs = a; ops = o; }
    void setup() override { r.setup(); }
    int nops() const override { return ops.size(); }
    std::string opname(int i) const override { return r.opname(ops[i]); }
    void apply(int i) override
    {
        ErrCapture e;
        bool bad = r.model(ops[i], 0);
        r.impl(ops[i]);
        std::string s = e.stop();
        r.m.cur = 0;
        r.exp.push_back(r.m.snapshot());
        VX_CHECK(bad == !s.empty(), bad ? "mismatched end is not reported" : "unexpected error message: %s", s.c_str());
        r.check_chn();
        Caliper c;
        for (size_t k = 0; k < r.at.size(); ++k) {
            Entry g = c.get(r.at[k]);
            std::string v = g.empty() ? "" : g.value().to_string();
            VX_CHECK(v == r.m.get(r.attrs[k]), "get(%s) = \"%s\", expected \"%s\"", r.attrs[k].name.c_str(), v.c_str(), r.m.get(r.attrs[k]).c_str());
        }
    }
    bool has_final() const override { return true; }
    void final() override { r.check_flush(); r.check_validator(); }
    std::string state() const override { auto& x = const_cast<Run&>(r); std::string s = x.m.str() + "#" + x.cm_.str(); for (auto& e : x.err) s += e.second ? "E" : "."; return s; }
};

// two threads; every interleaving of whole operations
struct TT {
    std::vector<AttrDef> attrs;
    std::vector<Op>      ops;
    int                  depth;
    uint64_t count() const { uint64_t n = 1; for (int i = 0; i < depth; ++i) n *= 2 * ops.size(); return n; }
    std::vector<std::pair<int, Op>> dec(uint64_t i) const { std::vector<std::pair<int, Op>> r; for (int k = 0; k < depth; ++k) { int x = i % (2 * ops.size()); i /= 2 * ops.size(); r.push_back({ x / (int) ops.size(), ops[x % ops.size()] }); } return r; }
    std::string describe(uint64_t i) const { Run r; r.attrs = attrs; std::string s; for (auto& p : dec(i)) s += "T" + std::to_string(p.first) + ":" + r.opname(p.second) + "; "; return s; }
    void run(uint64_t i) const
    {
        auto seq = dec(i);
        { // canonical: thread 0 acts first; skip histories without any mismatched end
            if (seq[0].first != 0) return;
            Run r; r.attrs = attrs; r.m.attrs = attrs; bool bad = false, t1 = false;
            for (auto& p : seq) { bad |= r.model(p.second, p.first); t1 |= p.first; }
            if (!bad || !t1) return;
            vx::seen(vx::fnv("tt" + r.m.str() + (r.err[0] ? "E" : ".") + (r.err[1] ? "E" : ".")));
            vx::S->leaves++;
        }
        vx::in_fork([&]() -> std::string {
            Run r; r.attrs = attrs; r.setup();
            struct Sh { sem_t req[2], done; int op = -1; } sh;
            sem_init(&sh.req[0], 0, 0); sem_init(&sh.req[1], 0, 0); sem_init(&sh.done, 0, 0);
            auto body = [&](int t) { for (;;) { sem_wait(&sh.req[t]); if (sh.op < 0) { sem_post(&sh.done); break; } r.impl(seq[sh.op].second); sem_post(&sh.done); } };
            struct Arg { decltype(body)* b; int t; } arg[2] = { { &body, 0 }, { &body, 1 } };
            pthread_t th[2];
            for (int t = 0; t < 2; ++t) pthread_create(&th[t], nullptr, [](void* p) -> void* { auto* a = (Arg*) p; (*a->b)(a->t); return nullptr; }, &arg[t]);
            std::map<int, std::vector<std::multiset<std::string>>> exp;
            for (size_t k = 0; k < seq.size(); ++k) {
                ErrCapture e;
                bool bad = r.model(seq[k].second, seq[k].first);
                sh.op = k; sem_post(&sh.req[seq[k].first]); sem_wait(&sh.done);
                std::string s = e.stop();
                r.m.cur = seq[k].first;
                exp[seq[k].first].push_back(r.m.snapshot());
                VX_CHECK(bad == !s.empty(), bad ? "step %zu: mismatched end is not reported" : "step %zu: unexpected error message %s", k, s.c_str());
            }
            // per-thread trace buffers: compare as a multiset of records
            std::multiset<std::multiset<std::string>> all, got;
            for (auto& e : exp) for (auto& x : e.second) all.insert(x);
            Caliper c;
            Channel ch = c.get_channel(r.trc);
            c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) { std::multiset<std::string> g; for (const Entry& e : rec) g.insert(decode_entry(c, e)); got.insert(g); });
            if (got != all) {
                std::string a, b;
                for (auto& x : got) a += show(x) + " ";
                for (auto& x : all) b += show(x) + " ";
                vx::fail("recorded %s, expected %s", a.c_str(), b.c_str());
            }
            r.check_validator();
            return "ok";
        });
    }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        int T = vx::thorough() ? 1 : 0;
        AttrDef n1 { "x.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED }, n2 { "x.nest2", CALI_TYPE_STRING, CALI_ATTR_NESTED }, r1 { "x.ref", CALI_TYPE_INT, CALI_ATTR_DEFAULT }, u1 { "x.una", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED },
            v1 { "x.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, pn { "p.nest", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS }, pv { "p.val", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS };
        auto add = [&](const char* n, int depth, std::vector<AttrDef> a, std::vector<Op> o) { d.histories(n, depth, [a, o]() { return std::unique_ptr<vx::World>(new W(a, o)); }); };
        add("two-nested", 6 + T, { n1, n2 }, { { BEGIN, 0, "a" }, { END, 0, "" }, { BEGIN, 1, "b" }, { END, 1, "" } });
        add("value-check", 5 + T, { n1, v1 }, { { BEGIN, 0, "a" }, { BEGIN, 0, "b" }, { SEND, 0, "a" }, { SEND, 0, "b" }, { BEGIN, 1, "1" }, { SEND, 1, "1" }, { SEND, 1, "2" } });
        add("regions", 5 + T, { n1 }, { { BREG, 0, "a" }, { BREG, 0, "b" }, { EREG, 0, "a" }, { EREG, 0, "b" }, { BEGIN, 0, "n" }, { END, 0, "" } });
        add("kinds", 4 + T, { n1, r1, u1, v1 }, { { BEGIN, 0, "a" }, { END, 0, "" }, { BEGIN, 1, "1" }, { END, 1, "" }, { BEGIN, 2, "u" }, { END, 2, "" }, { BEGIN, 3, "7" }, { END, 3, "" } });
        add("process", 5 + T, { n1, pn, pv }, { { BEGIN, 0, "a" }, { END, 0, "" }, { BEGIN, 1, "p" }, { END, 1, "" }, { BEGIN, 2, "3" }, { END, 2, "" } });
        add("channel", 5 + T, { n1, v1 }, { { BEGIN, 0, "a" }, { END, 0, "" }, { CBEGIN, 0, "c" }, { CEND, 0, "" }, { CEND, 1, "" }, { CSET, 1, "5" } });
        auto tt = std::make_shared<TT>();
        tt->attrs = { n1, n2, pv };
        tt->ops   = { { BEGIN, 0, "a" }, { END, 0, "" }, { BEGIN, 1, "b" }, { END, 1, "" }, { END, 2, "" } };
        tt->depth = 4 + T;
        d.enumerate("two-threads", tt->count(), [tt](uint64_t i) { tt->run(i); }, [tt](uint64_t i) { return tt->describe(i); }, 64);
    };
    return d.main(argc, argv);
}
