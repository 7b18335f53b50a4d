// Q04: aggregation queries compute the exact result per group -- all sequences of up to three (thorough: four)
// records of a 17-record alphabet, for every grouping and operator, evaluated directly and through partial
// aggregations merged in every arrangement (into an unrelated database, into each other, through files),
// against an independent evaluation over plain data.
#include "aggmodel.hpp"
// for a fixed sequence of records: every arrangement
static void arrangements(const std::vector<int>& seq, const G& g, const std::vector<Op>& ops, const QuerySpec& spec, bool partial)
{
    std::vector<const MRec*> rs;
    for (int k : seq) rs.push_back(&RECS()[k]);
    Table exp = model(rs, g, ops);
    size_t n = rs.size();
    { Part p(spec); for (auto* r : rs) p.add(*r); expect("all records at once", p, exp, g); if (n < 2) expect("flushed again", p, exp, g); }
    if (!partial) return;
    { // every record in its own database, merged into an empty one
        Part root(spec);
        for (auto* r : rs) { Part p(spec); p.add(*r); root.merge(p); }
        expect("merged into an empty result", root, exp, g);
    }
    if (n >= 2) {
        Part root(spec);
        root.add(*rs[0]);
        for (size_t k = 1; k < n; ++k) { Part p(spec); p.add(*rs[k]); root.merge(p); }
        expect("merged into the first result", root, exp, g);
        Part last(spec); // the partial results of all but one, then its own
        for (size_t k = 0; k + 1 < n; ++k) { Part p(spec); p.add(*rs[k]); last.merge(p); }
        last.add(*rs[n - 1]);
        expect("own records after the merge", last, exp, g);
    }
    if (n >= 3) { // a chain: each partial result is merged into the previous one
        std::vector<std::unique_ptr<Part>> ps;
        for (auto* r : rs) { ps.emplace_back(new Part(spec)); ps.back()->add(*r); }
        for (size_t k = n - 1; k > 0; --k) ps[k - 1]->merge(*ps[k]);
        expect("merged in a chain", *ps[0], exp, g);
        Part a(spec), b(spec);
        a.add(*rs[0]);
        for (size_t k = 1; k < n; ++k) b.add(*rs[k]);
        Part root(spec);
        root.merge(b);
        root.merge(a);
        expect("merged two parts", root, exp, g);
    }
    { // through files
        std::vector<std::string> fs;
        for (size_t k = 0; k < n; k += 2) { Part p(spec); p.add(*rs[k]); if (k + 1 < n) p.add(*rs[k + 1]); fs.push_back(p.file()); }
        Part root(spec);
        for (auto& f : fs) root.read(f);
        expect("merged from files", root, exp, g);
    }
}
// many groups: keys that share hash buckets stay separate
static void many(int n, int gi)
{
    const G& g = GS[gi];
    std::vector<Op> ops = { { "count", -1, -1, 0 }, { "sum", aX, -1, 0 }, { "max", aX, -1, 0 } };
    QuerySpec spec = parse(query(g, ops));
    std::vector<MRec> recs;
    for (int rep = 0; rep < 2; ++rep)
        for (int k = 0; k < n; ++k) recs.push_back({ X(k), K(k), R({ { aS, Val::S(vx::fmt("s%d", k / 7)) }, { aP, Val::I(k % 7) }, { aFN, Val::S(vx::fmt("f%d", k / 100)) }, { aLP, Val::S(vx::fmt("l%d", k % 100)) } }) });
    std::vector<const MRec*> rs;
    for (auto& r : recs) rs.push_back(&r);
    Table exp = model(rs, g, ops);
    Part p(spec), q(spec), root(spec);
    for (size_t k = 0; k < rs.size(); ++k) { p.add(*rs[k]); (k & 1 ? q : root).add(*rs[k]); }
    expect("many groups", p, exp, g);
    root.merge(q);
    expect("many groups, merged", root, exp, g);
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
    static const auto sets = SETS();
    uint64_t NG = GS.size(), NS = sets.size();
    int deep = vx::thorough() ? 4 : 3;
    auto desc = [](int gi, int si, const std::vector<int>& s) { return "`" + query(GS[gi], sets[si]) + "' on " + show_seq(s); };
    // one case = one sequence under all groupings
    auto add = [&](const char* name, int len, int s0, int s1, int g1, bool partial) {
        int ns = s1 - s0;
        d.enumerate(name, seqs(len) * ns, [=](uint64_t i) {
            static std::map<std::pair<int, int>, QuerySpec> cache;
            int si = s0 + i % ns;
            std::vector<int> s = seq_of(i / ns);
            for (int gi = 0; gi < g1; ++gi) {
                auto k = std::make_pair(gi, si);
                if (!cache.count(k)) cache.emplace(k, parse(query(GS[gi], sets[si])));
                try { arrangements(s, GS[gi], sets[si], cache.at(k), partial); }
                catch (vx::Fail& f) { f.msg = vx::fmt("`%s': %s", query(GS[gi], sets[si]).substr(0, 300).c_str(), f.msg.c_str()); throw; }
            }
            uint64_t h = 1469598103934665603ull; std::vector<int> so = s; std::sort(so.begin(), so.end());
            for (int x : so) h = (h ^ (x + 1)) * 1099511628211ull;
            vx::seen(h * 64 + si);
        }, [=](uint64_t i) { return desc(0, s0 + i % ns, seq_of(i / ns)) + " (all groupings)"; }, 16);
    };
    add("together", deep, 0, 3, NG, true);
    add("alone", vx::thorough() ? 3 : 2, 3, NS, NG, true);
    static const int N[] = { 500, 5000 };
    d.enumerate("many", 2 * NG, [=](uint64_t i) { many(N[i % 2], i / 2); }, [=](uint64_t i) { return vx::fmt("%d groups,%s", N[i % 2], GS[i / 2].text); }, 1);
    };
    return d.main(argc, argv);
}
