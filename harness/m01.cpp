// M01: cross-process aggregation. The real aggregate_over_mpi() runs on P simulated ranks with separate
// metadata databases; the result on rank 0 must be the aggregation of all records together, for every
// distribution of the records over the ranks, with buffered and with synchronous sends.
#include "mpisim.hpp"
#include "aggmodel.hpp"
#include "caliper/cali-mpi.h"
static void aggregate_all(const char* what, const std::vector<const MRec*>& rs, const std::vector<int>& rank, int P, const QuerySpec& spec, const G& g, const Table& exp)
{
    std::vector<std::unique_ptr<Part>> ps(P);
    auto body = [&](int k) {
        ps[k].reset(new Part(spec));
        Part& p = *ps[k];
        // nodes and attributes have different ids in every process
        for (int n = 0; n < k; ++n) { Attribute a = p.db.create_attribute(vx::fmt("other.%d", n), CALI_TYPE_INT, CALI_ATTR_DEFAULT); Variant v(k); p.db.make_tree_entry(1, &a, &v, nullptr); }
        for (size_t n = 0; n < rs.size(); ++n) if (rank[n] == k) p.add(*rs[n]);
        aggregate_over_mpi(p.db, p.agg, MPI_COMM_WORLD);
    };
    mpi::explore(P, body, [&] { expect(what, *ps[0], exp, g); });
}
// every distribution of a sequence of records over P processes
static void distributions(const std::vector<int>& seq, int P, const QuerySpec& spec, const G& g, const std::vector<Op>& ops)
{
    std::vector<const MRec*> rs;
    for (int k : seq) rs.push_back(&RECS()[k]);
    Table exp = model(rs, g, ops);
    uint64_t n = 1;
    for (size_t k = 0; k < rs.size(); ++k) n *= P;
    for (uint64_t d = 0; d < n; ++d) {
        std::vector<int> rank;
        std::string s;
        uint64_t x = d;
        for (size_t k = 0; k < rs.size(); ++k) { rank.push_back(x % P); s += vx::fmt(" %d", (int) (x % P)); x /= P; }
        try { aggregate_all("aggregated over processes", rs, rank, P, spec, g, exp); }
        catch (vx::Fail& f) { f.msg = vx::fmt("%d processes, records on ranks%s: %s", P, s.c_str(), f.msg.c_str()); throw; }
    }
}
// many records, long strings, deep paths: messages of all sizes
static void sizes(int n, int len, int depth, int P)
{
    static const G g = { " group by path,s", { aS }, true, false };
    std::vector<Op> ops = { { "count", -1, -1, 0 }, { "sum", aX, -1, 0 }, { "inclusive_sum", aX, -1, 0 } };
    QuerySpec spec = parse(query(g, ops));
    std::vector<MRec> recs;
    for (int k = 0; k < n; ++k) {
        std::vector<std::pair<int, Val>> path = { { aS, Val::S(std::string(len, 'a' + k % 26)) } };
        for (int j = 0; j < depth; ++j) path.push_back({ aFN, Val::S(vx::fmt("f%d.%d", k % 7, j)) });
        recs.push_back({ X(k), R(path) });
    }
    std::vector<const MRec*> rs;
    std::vector<int> rank;
    for (int k = 0; k < n; ++k) { rs.push_back(&recs[k]); rank.push_back((k / 3) % P); }
    aggregate_all("messages of all sizes", rs, rank, P, spec, g, model(rs, g, ops));
}
// the same with every rank in a process of its own: text values, paths and strings of all lengths must travel in the messages
static void own_process(int P, const std::vector<int>& lens, int gi)
{
    static const G gs[] = { { " group by t", { aT }, false, false }, { " group by path,t", { aT }, true, false }, { " group by s", { aS }, false, false }, { " group by path", {}, true, false } };
    const G& g = gs[gi];
    std::vector<Op> ops = { { "count", -1, -1, 0 }, { "sum", aX, -1, 0 }, { "min", aD, -1, 0 } };
    if (gi > 1) ops.push_back({ "any", aT, -1, 0 });
    QuerySpec spec = parse(query(g, ops));
    auto rec = [&](size_t k) {
        std::string t(lens[k % lens.size()], 'a' + (k * 5) % 23);
        return MRec({ { false, { { aT, Val::S(t) } } }, X(k), D(k * 0.5), R({ { aS, Val::S(t + "s") }, { aFN, Val::S("f" + t) }, { aFN, Val::S(vx::fmt("g%d", (int) (k % 2))) } }) });
    };
    mpi::processes(P, [&](int k) {
        Part p(spec);
        std::vector<MRec> own;
        for (size_t n = 0; n < lens.size(); ++n) own.push_back(rec(k * lens.size() + n));
        for (auto& r : own) p.add(r);
        aggregate_over_mpi(p.db, p.agg, MPI_COMM_WORLD);
        if (k) return;
        std::vector<MRec> recs;
        for (size_t n = 0; n < lens.size() * P; ++n) recs.push_back(rec(n));
        std::vector<const MRec*> rs;
        for (auto& r : recs) rs.push_back(&r);
        expect("aggregated over processes", p, model(rs, g, ops), g);
    });
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
    static const auto sets = SETS();
    int NG = GS.size();
    auto add = [&](const char* name, int len, std::vector<int> procs, int s0, int s1, int g1) {
        int ns = s1 - s0, np = procs.size();
        d.enumerate(name, seqs(len) * ns * np, [=](uint64_t i) {
            static std::map<std::pair<int, int>, QuerySpec> cache;
            int si = s0 + i % ns, P = procs[i / ns % np];
            std::vector<int> s = seq_of(i / ns / np);
            for (int gi = 0; gi < g1; ++gi) {
                auto k = std::make_pair(gi, si);
                if (!cache.count(k)) cache.emplace(k, parse(query(GS[gi], sets[si])));
                try { distributions(s, P, cache.at(k), GS[gi], sets[si]); }
                catch (vx::Fail& f) { f.msg = vx::fmt("`%s': %s", query(GS[gi], sets[si]).substr(0, 300).c_str(), f.msg.c_str()); throw; }
            }
            vx::seen(i);
        }, [=](uint64_t i) { return vx::fmt("%d processes: ", procs[i / ns % np]) + show_seq(seq_of(i / ns / np)); }, 16);
    };
    if (vx::thorough()) {
        add("distributions", 2, { 1, 2, 3, 4, 5, 6, 7, 8, 9 }, 0, 3, NG);
        add("three records", 3, { 2, 3, 4 }, 0, 3, NG);
    } else
        add("distributions", 2, { 1, 2, 3, 5 }, 0, 3, NG);
    add("alone", 1, { 2, 3 }, 3, sets.size(), NG);
    static const int N[] = { 1, 2, 5, 50, 400 }, L[] = { 1, 10, 500, 3000, 4096, 5000, 20000 }, D[] = { 0, 1, 20 }, Q[] = { 2, 3, 4, 5, 6, 7, 8, 9, 13 };
    auto sz = [=](uint64_t i, int w) { return w == 0 ? N[i % 5] : w == 1 ? L[i / 5 % 7] : w == 2 ? D[i / 35 % 3] : Q[i / 105]; };
    d.enumerate("sizes", 5 * 7 * 3 * 9, [=](uint64_t i) { if (sz(i, 0) * sz(i, 1) < 2000000) sizes(sz(i, 0), sz(i, 1), sz(i, 2), sz(i, 3)); vx::seen(i); }, [=](uint64_t i) { return vx::fmt("%d records with strings of %d bytes and %d regions on %d processes", sz(i, 0), sz(i, 1), sz(i, 2), sz(i, 3)); }, 4);
    static const std::vector<std::vector<int>> LN = { { 1 }, { 8 }, { 3, 8 }, { 9, 40, 300 }, { 5000, 1, 20 } };
    d.enumerate("processes", 5 * 4 * LN.size(), [=](uint64_t i) { own_process(1 + i % 5, LN[i / 20], i / 5 % 4); vx::seen(i); }, [=](uint64_t i) { return vx::fmt("%d processes, text of %d bytes, grouping %d", (int) (1 + i % 5), LN[i / 20][0], (int) (i / 5 % 4)); }, 1);
    };
    return d.main(argc, argv);
}
