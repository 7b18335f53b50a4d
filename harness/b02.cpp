// B02: binary encodings decode to exactly what was encoded and stay inside their buffers.
#include "vx.hpp"
#include <caliper/Caliper.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/cali.h>
#include <caliper/common/Entry.h>
#include <caliper/common/Node.h>
#include <caliper/common/Variant.h>
#include <common/CompressedSnapshotRecord.h>
#include <common/NodeBuffer.h>
#include <common/SnapshotBuffer.h>
#include <common/util/vlenc.h>
#include <climits>
#include <list>
#include <map>
using namespace cali;

static std::vector<uint64_t> INTS;
static std::vector<Variant>  VALS;   // boundary values
static std::vector<std::string> VN;

static bool veq(const Variant& a, const Variant& b)
{
    if (a.type() != b.type() || a.size() != b.size()) return false;
    if (a.type() == CALI_TYPE_INV) return true;
    if (a.type() == CALI_TYPE_PTR) return a.get_ptr() == b.get_ptr();
    return a.size() == 0 || memcmp(a.data(), b.data(), a.size()) == 0;
}
static void build()
{
    INTS = { 0, ~0ull };
    for (int k = 0; k < 64; ++k)
        for (int d = -1; d <= 1; ++d) INTS.push_back((1ull << k) + d);
    std::sort(INTS.begin(), INTS.end());
    INTS.erase(std::unique(INTS.begin(), INTS.end()), INTS.end());
    auto add = [&](Variant v) { VALS.push_back(v); VN.push_back(std::string(cali_type2string(v.type())) + ":" + v.to_string().substr(0, 30)); };
    add(Variant());
    for (int64_t i : { (int64_t) 0, (int64_t) 1, (int64_t) -1, (int64_t) 127, (int64_t) 128, (int64_t) INT_MIN, (int64_t) LLONG_MIN, (int64_t) LLONG_MAX }) add(Variant(cali_make_variant_from_int64(i)));
    for (uint64_t i : { 0ull, 127ull, 128ull, 16383ull, 16384ull, 1ull << 63, ~0ull }) { add(Variant(cali_make_variant_from_uint(i))); add(Variant(CALI_TYPE_ADDR, &i, 8)); }
    for (double d : { 0.0, -0.0, 1.5, -1e308, 5e-324 }) add(Variant(d));
    add(Variant(true)); add(Variant(false));
    for (int t = 0; t <= CALI_MAXTYPE; ++t) add(Variant((cali_attr_type) t));
    static std::list<std::string> keep;
    for (std::string s : { std::string(), std::string("a"), std::string("ab"), std::string("\xff\xfe"), std::string("x\0y", 3), std::string(127, 'p'), std::string(128, 'q'), std::string(5000, 'r') }) {
        char* p = (char*) malloc(s.size()); if (s.size()) memcpy(p, s.data(), s.size());
        add(Variant(CALI_TYPE_STRING, p, s.size()));
        add(Variant(CALI_TYPE_USR, p, s.size()));
    }
}
struct Exact { // exact-size heap buffer: any overrun is a sanitizer report
    unsigned char* p; size_t n;
    Exact(size_t n) : p((unsigned char*) malloc(n)), n(n) {}
    Exact(const void* d, size_t n) : Exact(n) { if (n) memcpy(p, d, n); }
    ~Exact() { free(p); }
};

// --- node lists
static const uint64_t NIDS[] = { 0, 1, 63, 64, 127, 128, 16384, 1ull << 32, (1ull << 62) - 1 };
static const uint64_t AIDS[] = { 0, 8, 127, 128, 1ull << 40, ~0ull };
static const uint64_t PIDS[] = { ~0ull, 0, 5, 128, 1ull << 33 };
struct NI { uint64_t n, a, p; int v; };
static std::vector<int> NV; // value indices usable for nodes
static NI node_at(uint64_t i) { NI x; x.n = NIDS[i % 9]; i /= 9; x.a = AIDS[i % 6]; i /= 6; x.p = PIDS[i % 5]; i /= 5; x.v = NV[i % NV.size()]; return x; }
static uint64_t nnodes() { return 9ull * 6 * 5 * NV.size(); }
static std::string nstr(const NI& x) { return vx::fmt("node(%lu,%lu,%ld,%s)", x.n, x.a, (long) x.p, VN[x.v].c_str()); }
static void expect_nodes(const NodeBuffer& b, const std::vector<NI>& want)
{
    size_t k = 0;
    VX_CHECK(b.count() == want.size(), "count() is %zu, expected %zu", b.count(), want.size());
    b.for_each([&](const NodeBuffer::NodeInfo& i) {
        VX_CHECK(k < want.size(), "more nodes than appended");
        VX_CHECK(i.node_id == want[k].n && i.attr_id == want[k].a && i.parent_id == want[k].p, "node %zu decoded as (%lu,%lu,%lu)", k, i.node_id, i.attr_id, i.parent_id);
        VX_CHECK(veq(i.value, VALS[want[k].v]), "node %zu: value decoded as %s '%s'", k, cali_type2string(i.value.type()), i.value.to_string().c_str());
        ++k;
    });
    VX_CHECK(k == want.size(), "%zu nodes decoded, expected %zu", k, want.size());
}
static void nodes_case(const std::vector<NI>& l)
{
    NodeBuffer a;
    for (auto& x : l) a.append(NodeBuffer::NodeInfo { x.n, x.a, x.p, VALS[x.v] });
    expect_nodes(a, l);
    // every split: a buffer assembled from two parts has both parts' nodes in order
    for (size_t k = 0; k <= l.size(); ++k) {
        NodeBuffer p, q, r, small(1);
        for (size_t i = 0; i < l.size(); ++i) (i < k ? p : q).append(NodeBuffer::NodeInfo { l[i].n, l[i].a, l[i].p, VALS[l[i].v] });
        Exact cat(p.size() + q.size());
        if (p.size()) memcpy(cat.p, p.data(), p.size());
        if (q.size()) memcpy(cat.p + p.size(), q.data(), q.size());
        unsigned char* d = r.import(cat.n, l.size());
        if (cat.n) memcpy(d, cat.p, cat.n);
        expect_nodes(r, l);
        // appending after an import continues the buffer
        unsigned char* d2 = small.import(p.size(), k);
        if (p.size()) memcpy(d2, p.data(), p.size());
        for (size_t i = k; i < l.size(); ++i) small.append(NodeBuffer::NodeInfo { l[i].n, l[i].a, l[i].p, VALS[l[i].v] });
        expect_nodes(small, l);
    }
}

// --- snapshot records
struct Rec { std::vector<int> nodes; std::vector<std::pair<int, int>> imm; }; // node index, (attr index, value)
static const uint64_t RIDS[] = { 1, 127, 128, 16384, 1ull << 35, ~0ull - 1 };
static std::vector<Node*> RN;
static std::vector<int>   RV; // values used in records
static size_t vl(uint64_t v) { size_t n = 1; while (v > 127) { v >>= 7; ++n; } return n; }

static void fill(CompressedSnapshotRecord& r, const Rec& x, size_t& skipped)
{
    std::vector<const Node*> nv; std::vector<cali_id_t> av; std::vector<Variant> dv;
    for (int n : x.nodes) nv.push_back(RN[n]);
    for (auto& i : x.imm) { av.push_back(RIDS[i.first]); dv.push_back(VALS[i.second]); }
    skipped = r.append(nv.size(), nv.data());
    skipped += r.append(av.size(), av.data(), dv.data());
}
// all = true: nothing may be missing. Otherwise decoded content must be a sub-multiset and the rest counted as skipped.
static void expect_rec(const CompressedSnapshotRecordView& v, const Rec& x, size_t skipped)
{
    std::vector<cali_id_t> nid(v.num_nodes() + 1), aid(v.num_immediates() + 1); std::vector<Variant> dv(v.num_immediates() + 1);
    v.unpack_nodes(v.num_nodes(), nid.data());
    v.unpack_immediate(v.num_immediates(), aid.data(), dv.data());
    VX_CHECK(v.num_nodes() + v.num_immediates() + skipped == x.nodes.size() + x.imm.size(), "%zu nodes + %zu immediates + %zu skipped, appended %zu + %zu", v.num_nodes(), v.num_immediates(), skipped, x.nodes.size(), x.imm.size());
    std::map<uint64_t, int> cnt;
    for (int n : x.nodes) cnt[RIDS[n]]++;
    for (size_t i = 0; i < v.num_nodes(); ++i) VX_CHECK(cnt[nid[i]]-- > 0, "decoded node id %lu was not appended (that often)", nid[i]);
    size_t k = 0;
    for (size_t i = 0; i < v.num_immediates(); ++i) {
        while (k < x.imm.size() && !(RIDS[x.imm[k].first] == aid[i] && dv[i].c_variant().type_and_size == VALS[x.imm[k].second].c_variant().type_and_size && dv[i].c_variant().value.v_uint == VALS[x.imm[k].second].c_variant().value.v_uint)) ++k;
        VX_CHECK(k < x.imm.size(), "decoded immediate %zu (attr %lu, %s) was not appended at or after this position", i, aid[i], dv[i].to_string().substr(0, 40).c_str());
        ++k;
    }
}
static Rec rec_at(uint64_t i, int nn, int ni)
{
    Rec r;
    for (int k = 0; k < nn; ++k) { r.nodes.push_back(i % 6); i /= 6; }
    for (int k = 0; k < ni; ++k) { int a = i % 3 * 2 + 1; i /= 3; r.imm.push_back({ a, RV[i % RV.size()] }); i /= RV.size(); }
    return r;
}
static uint64_t nrec(int nn, int ni) { uint64_t n = 1; for (int k = 0; k < nn; ++k) n *= 6; for (int k = 0; k < ni; ++k) n *= 3 * RV.size(); return n; }
static std::string rstr(const Rec& r)
{
    std::string s = "record nodes:";
    for (int n : r.nodes) s += vx::fmt(" %lu", RIDS[n]);
    s += " immediates:";
    for (auto& i : r.imm) s += vx::fmt(" %lu=%s", RIDS[i.first], VN[i.second].c_str());
    return s;
}
static void rec_case(const Rec& x)
{
    size_t sk;
    CompressedSnapshotRecord full; // internal buffer
    fill(full, x, sk);
    VX_CHECK(sk == 0 && full.num_skipped() == 0, "entries of a small record were skipped");
    expect_rec(full.view(), x, 0);
    size_t need = full.needed_len();
    VX_CHECK(full.size() == need, "size %zu differs from needed length %zu", full.size(), need);
    { size_t inc = 3; Exact e(full.data(), full.size()); CompressedSnapshotRecordView v(e.p, &inc); VX_CHECK(inc == 3 + full.size(), "decoding consumed %zu of %zu bytes", inc - 3, full.size()); expect_rec(v, x, 0); }
    // every buffer length: never more than the buffer is written, needed_len is exact, complete iff large enough
    for (size_t len = 2; len <= need + 2; ++len) {
        Exact b(len);
        CompressedSnapshotRecord r(len, b.p);
        size_t s2;
        fill(r, x, s2);
        VX_CHECK(r.needed_len() == need, "needed length with buffer of %zu is %zu, expected %zu", len, r.needed_len(), need);
        VX_CHECK(r.size() <= len, "record of size %zu in a buffer of %zu", r.size(), len);
        VX_CHECK(s2 == r.num_skipped() && (s2 == 0) == (len >= need), "buffer of %zu (needs %zu): %zu skipped", len, need, s2);
        expect_rec(r.view(), x, s2);
        size_t inc = 0; CompressedSnapshotRecordView v(b.p, &inc); VX_CHECK(inc == r.size(), "decoding consumed %zu of %zu bytes", inc, r.size()); expect_rec(v, x, s2);
    }
}
static void snapbuf_case(const std::vector<Rec>& l)
{
    auto expect = [](const SnapshotBuffer& b, const std::vector<Rec>& w) {
        size_t k = 0;
        VX_CHECK(b.count() == w.size(), "count() is %zu, expected %zu", b.count(), w.size());
        b.for_each([&](const CompressedSnapshotRecordView& v) { VX_CHECK(k < w.size(), "more records than appended"); expect_rec(v, w[k++], 0); });
        VX_CHECK(k == w.size(), "%zu records decoded, expected %zu", k, w.size());
    };
    for (size_t split = 0; split <= l.size(); ++split) {
        SnapshotBuffer p, q(4), r, a;
        for (size_t i = 0; i < l.size(); ++i) { CompressedSnapshotRecord c; size_t s; fill(c, l[i], s); (i < split ? p : q).append(c); a.append(c); }
        expect(a, l);
        size_t n = p.size() + q.size();
        unsigned char* d = r.import(n, l.size());
        if (p.size()) memcpy(d, p.data(), p.size());
        if (q.size()) memcpy(d + p.size(), q.data(), q.size());
        expect(r, l);
    }
}

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        build();
        bool t = vx::thorough();
        static uint64_t n = INTS.size(), nv = VALS.size();
        for (size_t i = 0; i < nv; ++i) NV.push_back(i);
        static const int rvsel[] = { 0, 1, 3, 6, 8, 16 };
        for (int i : rvsel) RV.push_back(i);
        for (size_t i = 0; i < nv; ++i) if (VALS[i].type() == CALI_TYPE_STRING && (VALS[i].size() == 0 || VALS[i].size() == 2 || VALS[i].size() == 5000)) RV.push_back(i);
        for (uint64_t id : RIDS) RN.push_back(new Node(id, 1, Variant(1)));
        d.enumerate("integers", n * n, [](uint64_t i) {
            uint64_t a = INTS[i / n], b = INTS[i % n];
            unsigned char tmp[32];
            size_t la = vlenc_u64(a, tmp), lb = vlenc_u64(b, tmp + la);
            vx::seen(std::string((char*) tmp, la + lb));
            VX_CHECK(la == vl(a) && lb == vl(b) && la <= 10 && lb <= 10, "encoded length %zu", la);
            Exact e(tmp, la + lb);
            size_t p = 5 - 5;
            VX_CHECK(vldec_u64(e.p, &p) == a && p == la, "first integer");
            VX_CHECK(vldec_u64(e.p + p, &p) == b && p == la + lb, "second integer");
        }, [](uint64_t i) { return vx::fmt("%lu, %lu", INTS[i / n], INTS[i % n]); }, 256);
        d.enumerate("packed values", nv * nv, [](uint64_t i) {
            unsigned char tmp[64];
            size_t la = VALS[i / nv].pack(tmp), lb = VALS[i % nv].pack(tmp + la);
            vx::seen(VN[i / nv] + "|" + VN[i % nv]);
            VX_CHECK(la <= 20 && lb <= 20, "packed value takes %zu bytes", std::max(la, lb));
            Exact e(tmp, la + lb);
            size_t p = 0; bool ok = false, ok2 = false;
            Variant a = Variant::unpack(e.p, &p, &ok);
            VX_CHECK(ok && p == la && veq(a, VALS[i / nv]) && a == VALS[i / nv], "first value");
            Variant b = Variant::unpack(e.p + p, &p, &ok2);
            VX_CHECK(ok2 && p == la + lb && veq(b, VALS[i % nv]) && b == VALS[i % nv], "second value");
        }, [](uint64_t i) { return VN[i / nv] + " , " + VN[i % nv]; }, 64);
        d.enumerate("single nodes", nnodes(), [](uint64_t i) { NI x = node_at(i); vx::seen(nstr(x)); nodes_case({ x }); }, [](uint64_t i) { return nstr(node_at(i)); }, 64);
        static std::vector<NI> small;
        for (uint64_t i = 0; i < nnodes(); i += 97) small.push_back(node_at(i));
        if (!t) { std::vector<NI> s2; for (size_t i = 0; i < small.size(); i += 5) s2.push_back(small[i]); small = s2; }
        static uint64_t ns = small.size();
        d.enumerate("node lists", ns * ns * ns, [](uint64_t i) { vx::seen(vx::fmt("nl%lu", i)); nodes_case({ small[i % ns], small[i / ns % ns], small[i / ns / ns] }); },
                    [](uint64_t i) { return nstr(small[i % ns]) + nstr(small[i / ns % ns]) + nstr(small[i / ns / ns]); }, 64);
        for (int nn = 0; nn <= (t ? 6 : 5); ++nn)
            for (int ni = 0; ni <= 2; ++ni) {
                if (nn + 2 * ni > (t ? 7 : 5)) continue;
                d.enumerate(vx::fmt("records %d+%d", nn, ni), nrec(nn, ni), [nn, ni](uint64_t i) { Rec r = rec_at(i, nn, ni); vx::seen(rstr(r)); rec_case(r); }, [nn, ni](uint64_t i) { return rstr(rec_at(i, nn, ni)); }, 64);
            }
        // entry counts around the block size and the one-byte count limit
        d.enumerate("record sizes", 140 * 140, [](uint64_t i) {
            Rec r; // one-byte ids, tiny values, so that only the entry count matters
            for (uint64_t k = 0; k < i % 140; ++k) r.nodes.push_back(0);
            for (uint64_t k = 0; k < i / 140; ++k) r.imm.push_back({ 0, 2 });
            Exact b(2000);
            CompressedSnapshotRecord c(b.n, b.p);
            size_t sk; fill(c, r, sk);
            VX_CHECK(sk == c.num_skipped(), "skipped");
            if (r.nodes.size() < 125 && r.imm.size() < 125) VX_CHECK(sk == 0, "%zu entries skipped", sk);
            expect_rec(c.view(), r, sk);
            size_t inc = 0; CompressedSnapshotRecordView v(b.p, &inc); VX_CHECK(inc == c.size(), "decoding consumed %zu of %zu bytes", inc, c.size()); expect_rec(v, r, sk);
            vx::seen(vx::fmt("rs%lu", i));
        }, [](uint64_t i) { return vx::fmt("%lu nodes, %lu immediates", i % 140, i / 140); }, 64);
        static std::vector<Rec> recs;
        recs.push_back({});
        for (int k = 0; k < 12; ++k) recs.push_back(rec_at(k * 7919ull % nrec(k % 4, k % 3), k % 4, k % 3));
        static uint64_t nr = recs.size();
        d.enumerate("record buffers", nr * nr * nr, [](uint64_t i) { vx::seen(vx::fmt("rb%lu", i)); snapbuf_case({ recs[i % nr], recs[i / nr % nr], recs[i / nr / nr] }); },
                    [](uint64_t i) { return rstr(recs[i % nr]) + "; " + rstr(recs[i / nr % nr]) + "; " + rstr(recs[i / nr / nr]); }, 32);
        // Entry pack/unpack and the C snapshot interface on a live context: all contexts x all buffer lengths
        d.enumerate("C snapshots", 5 * 4 * 3 * 4, [](uint64_t i) {
            std::string r = vx::in_fork([&]() -> std::string {
                Caliper c;
                int nreg = i % 5, nim = i / 5 % 4, nst = i / 20 % 3, deep = i / 60;
                cali_configset_t cs = cali_create_configset(nullptr);
                cali_id_t chn = cali_create_channel("b02", 0, cs);
                cali_delete_configset(cs);
                for (int k = 0; k < deep * 70; ++k) c.make_tree_entry(c.get_attribute("region"), Variant(("fill" + std::to_string(k)).c_str()), nullptr); // larger node ids
                std::vector<std::pair<std::string, std::string>> want;
                std::string v[4] = { "alpha", "b", "", "gamma" };
                for (int k = 0; k < nreg; ++k) { cali_begin_region(v[k % 4].c_str()); want.push_back({ "region", v[k % 4] }); }
                for (int k = 0; k < nst; ++k) { cali_set_string_byname(("st" + std::to_string(k)).c_str(), v[k].c_str()); want.push_back({ "st" + std::to_string(k), v[k] }); }
                for (int k = 0; k < nim; ++k) { cali_id_t a = cali_create_attribute(("im" + std::to_string(k)).c_str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE); cali_set_int(a, k == 2 ? -1 : k * 1000); want.push_back({ "im" + std::to_string(k), std::to_string(k == 2 ? -1 : k * 1000) }); }
                unsigned char big[4096];
                size_t need = cali_channel_pull_snapshot(chn, 0, sizeof big, big);
                typedef std::vector<std::pair<std::string, std::string>> L;
                auto collect = [](void* arg, cali_id_t a, cali_variant_t v) -> int { if (a == CALI_INV_ID) return 1; std::string n = Caliper::instance().get_attribute(a).name(); if (n.compare(0, 5, "cali.") && n.compare(0, 9, "starttime")) ((L*) arg)->push_back({ n, Variant(v).to_string() }); return 1; };
                L got; size_t rd = 7;
                cali_unpack_snapshot(big, &rd, collect, &got);
                if (rd != 7 + need) return vx::fmt("unpack read %zu of %zu bytes", rd - 7, need);
                L g = got, w = want; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
                if (g != w) { std::string s; for (auto& x : got) s += x.first + "=" + x.second + " "; return "snapshot contains " + s; }
                for (auto& x : want) {
                    cali_id_t a = cali_find_attribute(x.first.c_str());
                    size_t r1 = 0, r2 = 0; L all;
                    Variant f(cali_find_first_in_snapshot(big, a, &r1));
                    cali_find_all_in_snapshot(big, a, &r2, collect, &all);
                    if (r1 != need || r2 != need) return "find read a wrong number of bytes";
                    L wa; for (auto it = want.rbegin(); it != want.rend(); ++it) if (it->first == x.first) wa.push_back(*it);
                    if (all != wa) return "find_all(" + x.first + ") returned other values";
                    if (f.to_string() != wa.front().second) return "find_first(" + x.first + ") returned " + f.to_string();
                }
                if (cali_variant_is_empty(cali_find_first_in_snapshot(big, cali_find_attribute("loop"), nullptr)) == 0) return "find_first of an absent attribute";
                for (size_t len = 2; len < need + 3; ++len) {
                    Exact b(len);
                    size_t n2 = cali_channel_pull_snapshot(chn, 0, len, b.p);
                    if (n2 != need) return vx::fmt("buffer of %zu: needed length %zu, expected %zu", len, n2, need);
                    L part; size_t r3 = 0;
                    cali_unpack_snapshot(b.p, &r3, collect, &part);
                    if (r3 > len) return "unpack read beyond the buffer";
                    std::sort(part.begin(), part.end());
                    if (!std::includes(w.begin(), w.end(), part.begin(), part.end())) return vx::fmt("buffer of %zu: snapshot has wrong content", len);
                    if (len >= need && part != w) return "large enough buffer but incomplete snapshot";
                }
                // single packed entries
                FixedSizeSnapshotRecord<80> rec;
                c.pull_snapshot(c.get_channel(chn).body(), SnapshotView(), rec.builder());
                unsigned char tmp[80 * Entry::MAX_PACKED_SIZE]; size_t pos = 0; std::vector<size_t> ends;
                for (const Entry& e : rec.view()) { size_t l = e.pack(tmp + pos); if (l > Entry::MAX_PACKED_SIZE) return "packed entry too large"; pos += l; ends.push_back(pos); }
                Exact ex(tmp, pos); size_t q = 0, k = 0;
                for (const Entry& e : rec.view()) { Entry u = Entry::unpack(c, ex.p + q, &q); if (!(u == e) || u.value() != e.value() || q != ends[k++]) return "packed entry decodes differently"; }
                return "";
            });
            vx::seen(vx::fmt("cs%lu", i));
            VX_CHECK(r.empty(), "%s", r.c_str());
        }, [](uint64_t i) { return vx::fmt("%lu regions, %lu value attributes, %lu set attributes, id offset %lu", i % 5, i / 5 % 4, i / 20 % 3, i / 60 * 70); }, 2);
    };
    return d.main(argc, argv);
}
