// aggmodel.hpp -- the record alphabet, groupings and operators of the aggregation checks, an independent
// evaluation over plain data, and the comparison with what an Aggregator returns.
#pragma once
#include "qm.hpp"
#include "caliper/reader/Aggregator.h"
#include <cmath>
using namespace qm;
static const std::vector<A> AS = { { "x", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "y", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE }, { "u", CALI_TYPE_UINT, CALI_ATTR_ASVALUE }, { "k", CALI_TYPE_INT, CALI_ATTR_ASVALUE },
    { "count", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_AGGREGATABLE }, { "fn", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "l p", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "s", CALI_TYPE_STRING, CALI_ATTR_DEFAULT }, { "p", CALI_TYPE_INT, CALI_ATTR_DEFAULT }, { "j", CALI_TYPE_UINT, CALI_ATTR_ASVALUE }, { "t", CALI_TYPE_STRING, CALI_ATTR_ASVALUE } };
enum { aX, aY, aD, aU, aK, aCount, aFN, aLP, aS, aP, aJ, aT, NA };
static Ent X(long long v) { return { false, { { aX, Val::I(v) } } }; }
static Ent Y(long long v) { return { false, { { aY, Val::I(v) } } }; }
static Ent D(double v) { return { false, { { aD, Val::D(v) } } }; }
static Ent K(long long v) { return { false, { { aK, Val::I(v) } } }; }
static Ent R(std::vector<std::pair<int, Val>> v) { return { true, v }; }
static const std::vector<MRec>& RECS()
{
    auto S = Val::S; auto I = Val::I;
    static const std::vector<MRec> r = { {}, { X(3), D(0.5) }, { X(-2), R({ { aFN, S("a") } }) }, { X(5), Y(2), R({ { aFN, S("a") }, { aFN, S("b") } }) },
        { D(2.25), R({ { aFN, S("c") } }), K(2) }, { R({ { aFN, S("a") }, { aFN, S("b") }, { aFN, S("a") } }) }, { Y(4), X(7), R({ { aS, S("q") } }) },
        { X(1), D(-1), R({ { aFN, S("a") }, { aS, S("q") } }) }, { R({ { aS, S("q") }, { aFN, S("a") } }), X(1ll << 40) }, { K(1), X(10), { false, { { aJ, Val::U(1) } } } }, { { false, { { aJ, Val::U(1) } } }, K(2), X(11), R({ { aFN, S("a") } }) },
        { { false, { { aCount, Val::U(4) } } }, X(2), R({ { aFN, S("a") } }) }, { R({ { aLP, S("l") }, { aFN, S("a") } }), X(6), Y(-3) }, { R({ { aP, I(1) }, { aP, I(2) }, { aS, S("q") } }), Y(4), D(0.75) },
        { R({ { aS, S("q") }, { aP, I(1) }, { aP, I(2) } }), X(8) }, { R({ { aFN, S("a") }, { aLP, S("l") }, { aFN, S("b") }, { aFN, S("c") } }), X(20), D(4), { false, { { aU, Val::U(9) } } } }, { R({ { aFN, S("a") }, { aFN, S("b") } }), R({ { aS, S("r") } }), { false, { { aU, Val::U(1ull << 33) } } }, X(0) } };
    return r;
}
// --- groupings
struct G { const char* text; std::vector<int> attrs; bool path, all; };
static const std::vector<G> GS = { { "", {}, false, true }, { " group by fn", { aFN }, false, false }, { " group by s", { aS }, false, false }, { " group by path", {}, true, false }, { " group by path,s", { aS }, true, false },
    { " group by k", { aK }, false, false }, { " group by k,path", { aK }, true, false }, { " group by \"l p\"", { aLP }, false, false }, { " group by p,s", { aS, aP }, false, false }, { " group by j,k,s,fn", { aJ, aK, aS, aFN }, false, false }, { " group by unknown", {}, false, false } };
// --- operators
struct Op { std::string name; int a, b; double scale; };
static std::string num(double d) { return vx::fmt("%g", d); }
static std::string an(int a) { return AS[a].name; }
static std::string text(const Op& o)
{
    std::string s = o.name + "(";
    if (o.a >= 0) s += an(o.a);
    if (o.b >= 0) s += "," + an(o.b);
    if (o.scale != 0) s += (o.a >= 0 ? "," : "") + num(o.scale);
    return s + ")";
}
static const std::vector<Op>& OPS()
{
    static std::vector<Op> o;
    if (o.empty()) {
        o.push_back({ "count", -1, -1, 0 });
        o.push_back({ "scale_count", -1, -1, 2.5 });
        for (int a : { aX, aD, aU }) {
            for (const char* n : { "sum", "min", "max", "avg", "any", "variance", "percent_total", "inclusive_sum", "inclusive_min", "inclusive_max", "inclusive_percent_total" }) o.push_back({ n, a, -1, 0 });
            o.push_back({ "scale", a, -1, 2.5 });
            o.push_back({ "inclusive_scale", a, -1, 0.5 });
        }
        o.push_back({ "ratio", aX, aY, 0 });
        o.push_back({ "ratio", aX, aD, 10 });
        o.push_back({ "inclusive_ratio", aX, aY, 0 });
        o.push_back({ "inclusive_ratio", aX, aD, 4 });
        o.push_back({ "sum", aX, -1, 0 });
    }
    return o;
}
static bool incl(const Op& o) { return o.name.compare(0, 9, "inclusive") == 0; }
static std::vector<std::vector<Op>> SETS()
{
    std::vector<std::vector<Op>> s = { OPS() };
    std::vector<Op> non, par;
    for (auto& o : OPS()) if (!incl(o)) non.push_back(o);
    s.push_back(non);
    par = { { "count", -1, -1, 0 }, { "inclusive_sum", aD, -1, 0 }, { "scale_count", -1, -1, 0.5 }, { "avg", aX, -1, 0 } };
    s.push_back(par);
    for (auto& o : OPS()) s.push_back({ o });
    return s;
}
// --- independent evaluation
typedef std::map<std::string, std::set<std::string>> Row; // result name -> permitted values ("*": anything)
typedef std::map<std::string, Row> Table;                 // group key -> results
static std::string nodestr(const std::vector<std::pair<std::string, std::string>>& v) { std::string s; for (auto& p : v) s += "/" + p.first + "=" + p.second; return s; }
struct Key {
    std::vector<std::pair<std::string, std::string>> imm, non, path;
    std::string str(bool all, size_t n = ~0ul) const
    {
        auto i = imm, m = non, p = path;
        std::stable_sort(i.begin(), i.end());
        auto byname = [](const std::pair<std::string, std::string>& a, const std::pair<std::string, std::string>& b) { return a.first < b.first; };
        if (!all) std::stable_sort(m.begin(), m.end(), byname);
        if (p.size() > n) p.resize(n);
        return nodestr(i) + " " + nodestr(m) + " " + nodestr(p);
    }
};
static Key key_of(const MRec& r, const G& g)
{
    Key k;
    for (auto& e : r)
        for (auto& p : e.v) {
            bool sel = std::count(g.attrs.begin(), g.attrs.end(), p.first), nested = AS[p.first].prop & CALI_ATTR_NESTED;
            auto v = std::make_pair(an(p.first), p.second.str());
            if (!e.ref) { if (sel) k.imm.push_back(v); }
            else if (g.all || sel || (g.path && nested)) (nested ? k.path : k.non).push_back(v);
        }
    return k;
}
struct Acc { long long i = 0; unsigned long long u = 0; double d = 0, sq = 0; unsigned long long n = 0; Val mn, mx; std::set<std::string> any; int t = 0;
    void add(const Val& v) { t = v.t; i += v.i; u += v.u; d += v.num(); sq += v.num() * v.num(); if (!n || v < mn) mn = v; if (!n || mx < v) mx = v; any.insert(v.str()); ++n; }
    Val sum() const { return t == CALI_TYPE_INT ? Val::I(i) : t == CALI_TYPE_UINT ? Val::U(u) : Val::D(d); } };
static Table model(const std::vector<const MRec*>& recs, const G& g, const std::vector<Op>& ops)
{
    struct Grp { std::map<int, Acc> own, in; unsigned long long cnt = 0, n = 0; };
    std::map<std::string, Grp> gs;
    std::map<int, Acc> tot;
    for (auto* r : recs) {
        Key k = key_of(*r, g);
        Grp& o = gs[k.str(g.all)];
        const Val* c = first(*r, aCount);
        o.cnt += c ? c->u : 1;
        o.n += 1;
        std::set<std::string> targets;
        for (auto& e : *r) if (!e.ref) {
            int a = e.v[0].first;
            o.own[a].add(e.v[0].second);
            o.in[a].add(e.v[0].second);
            tot[a].add(e.v[0].second);
            // the enclosing paths exist in the result if an inclusive operator has a value there
            bool used = false;
            for (auto& op : ops) used |= incl(op) && (op.a == a || op.b == a);
            if (used) for (size_t n = 1; n < k.path.size(); ++n) gs[k.str(g.all, n)].in[a].add(e.v[0].second);
        }
    }
    Table t;
    for (auto& p : gs) {
        Row& row = t[p.first];
        for (auto& op : ops) {
            auto put = [&](const std::string& name, const Val& v) { row[name].insert(v.str()); };
            if (op.name == "count") { if (p.second.cnt) put("count", Val::U(p.second.cnt)); continue; }
            if (op.name == "scale_count") { if (p.second.n) { put("scount#" + num(op.scale), Val::U(p.second.n)); put("scount", Val::D(op.scale * p.second.n)); } continue; }
            std::map<int, Acc>& m = incl(op) ? p.second.in : p.second.own;
            std::string base = incl(op) ? op.name.substr(10) : op.name, i = incl(op) ? "i" : "", n = an(op.a);
            if (!m.count(op.a)) continue;
            Acc& a = m[op.a];
            if (base == "sum") put((incl(op) ? "inclusive#" : "sum#") + n, a.sum());
            else if (base == "min") put(i + "min#" + n, a.mn);
            else if (base == "max") put(i + "max#" + n, a.mx);
            else if (base == "avg") put("avg#" + n, a.t == CALI_TYPE_INT ? Val::I(a.i / (long long) a.n) : a.t == CALI_TYPE_UINT ? Val::U(a.u / a.n) : Val::D(a.d / a.n));
            else if (base == "any") row["any#" + n] = a.any;
            else if (base == "variance") { double av = a.d / a.n; put("variance#" + n, Val::D(a.sq / a.n - av * av)); }
            else if (base == "percent_total") { double T = tot[op.a].sum().num(); if (T > 0) put(i + "percent_total#" + n, Val::D(100.0 * a.sum().num() / T)); }
            else if (base == "scale") put(i + "scale#" + n, Val::D(op.scale * a.sum().num()));
            else if (base == "ratio") {
                if (!m.count(op.b)) continue;
                double s = op.scale != 0 ? op.scale : 1.0, den = m[op.b].sum().num();
                if (den == 0) row[i + "ratio#" + n + "/" + an(op.b)] = { "*" };
                else put(i + "ratio#" + n + "/" + an(op.b), Val::D(s * a.sum().num() / den));
            }
        }
    }
    return t;
}
// --- the implementation
struct Part { // one process: a database in which attributes exist only once used, and an aggregator
    CaliperMetadataDB db;
    Aggregator        agg;
    Attribute         at[NA];
    explicit Part(const QuerySpec& s) : agg(s) {}
    Attribute attr(int a) { if (!at[a]) at[a] = db.create_attribute(AS[a].name, AS[a].type, AS[a].prop); return at[a]; }
    void add(const MRec& r)
    {
        EntryList l;
        for (auto& e : r) {
            if (!e.ref) { l.push_back(Entry(attr(e.v[0].first), e.v[0].second.variant())); continue; }
            Node* n = nullptr;
            for (auto& p : e.v) { Attribute a = attr(p.first); Variant v = p.second.variant(); n = db.make_tree_entry(1, &a, &v, n); }
            l.push_back(Entry(n));
        }
        agg.add(db, l);
    }
    void merge(Part& o) { o.agg.flush(o.db, [this](CaliperMetadataAccessInterface& odb, const EntryList& l) { agg.add(db, db.merge_snapshot(odb, l)); }); }
    std::string file()
    {
        cdb::Writer w;
        agg.flush(db, [&w](CaliperMetadataAccessInterface& d, const EntryList& l) { w.write_one(d, l); });
        return w.text();
    }
    void read(const std::string& text)
    {
        CaliReader r;
        std::istringstream is(text);
        r.read(is, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [this](CaliperMetadataAccessInterface& in, const EntryList& e) { agg.add(in, e); });
        VX_CHECK(!r.error(), "reading a partial result: %s", r.error_msg().c_str());
    }
};
static std::string row_str(const std::map<std::string, std::string>& r) { std::string s; for (auto& p : r) s += " " + p.first + "=" + p.second; return s; }
static void expect(const char* what, Part& p, const Table& exp, const G& g)
{
    std::map<std::string, std::map<std::string, std::string>> got;
    p.agg.flush(p.db, [&](CaliperMetadataAccessInterface& db, const EntryList& l) {
        Key k;
        std::map<std::string, std::string> row;
        for (const Entry& e : l) {
            if (e.is_reference()) {
                std::vector<std::pair<std::string, std::string>> non, path;
                for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) { Attribute a = db.get_attribute(n->attribute()); (a.is_nested() ? path : non).push_back({ a.name(), cdb::val(n->data()) }); }
                k.non.insert(k.non.end(), non.rbegin(), non.rend());
                k.path.insert(k.path.end(), path.rbegin(), path.rend());
                continue;
            }
            Attribute a = db.get_attribute(e.attribute());
            std::string n = a.name();
            bool iskey = false;
            for (int x : g.attrs) iskey |= n == AS[x].name;
            if (iskey) k.imm.push_back({ n, cdb::val(e.value()) });
            else if (!a.is_hidden()) {
                VX_CHECK(!row.count(n) || row[n] == cdb::val(e.value()), "%s: the result record has %s=%s and %s=%s", what, n.c_str(), row[n].c_str(), n.c_str(), cdb::val(e.value()).c_str());
                row[n] = cdb::val(e.value());
            }
        }
        std::string ks = k.str(g.all);
        VX_CHECK(!got.count(ks), "%s: two result records for the group [%s]", what, ks.c_str());
        got[ks] = row;
    });
    for (auto& t : exp) {
        VX_CHECK(got.count(t.first), "%s: no result record for the group [%s] (%zu groups)", what, t.first.c_str(), got.size());
        auto& row = got[t.first];
        for (auto& v : t.second) {
            VX_CHECK(row.count(v.first), "%s: group [%s] has no %s, expected %s (it has%s)", what, t.first.c_str(), v.first.c_str(), v.second.begin()->c_str(), row_str(row).c_str());
            VX_CHECK(v.second.count(row[v.first]) || v.second.count("*"), "%s: group [%s] has %s=%s, expected %s", what, t.first.c_str(), v.first.c_str(), row[v.first].c_str(), v.second.begin()->c_str());
        }
        for (auto& v : row) VX_CHECK(t.second.count(v.first), "%s: group [%s] has the unexpected result %s=%s", what, t.first.c_str(), v.first.c_str(), v.second.c_str());
    }
    for (auto& x : got) VX_CHECK(exp.count(x.first), "%s: unexpected result record for [%s]:%s", what, x.first.c_str(), row_str(x.second).c_str());
}
static std::string query(const G& g, const std::vector<Op>& ops)
{
    std::string q = "aggregate ";
    for (size_t k = 0; k < ops.size(); ++k) q += (k ? "," : "") + text(ops[k]);
    return q + g.text;
}
static std::vector<int> seq_of(uint64_t n) // 0 = empty, then all sequences of 1, 2, ...
{
    uint64_t B = RECS().size(), len = 0, cnt = 1;
    while (n >= cnt) { n -= cnt; cnt *= B; ++len; }
    std::vector<int> s;
    for (uint64_t k = 0; k < len; ++k) { s.push_back(n % B); n /= B; }
    return s;
}
static uint64_t seqs(int len) { uint64_t B = RECS().size(), n = 1, c = 1; for (int k = 0; k < len; ++k) { c *= B; n += c; } return n; }
static std::string show_seq(const std::vector<int>& s) { std::string o; for (int k : s) o += show(AS, RECS()[k]) + " "; return o; }
