// qm.hpp -- model records for the query checks: typed values and entries (hierarchy paths or single
// values) as plain data, their construction in a real metadata database, and helpers to run queries.
#pragma once
#include "calidb.hpp"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/Preprocessor.h"
#include "caliper/reader/QueryProcessor.h"
#include "caliper/reader/RecordSelector.h"
#include <sstream>
namespace qm {
using namespace cali;
struct Val {
    cali_attr_type t = CALI_TYPE_INV;
    long long i = 0; unsigned long long u = 0; double d = 0; std::string s;
    static Val I(long long x) { Val v; v.t = CALI_TYPE_INT; v.i = x; return v; }
    static Val U(unsigned long long x) { Val v; v.t = CALI_TYPE_UINT; v.u = x; return v; }
    static Val D(double x) { Val v; v.t = CALI_TYPE_DOUBLE; v.d = x; return v; }
    static Val S(const std::string& x) { Val v; v.t = CALI_TYPE_STRING; v.s = x; return v; }
    static Val B(bool x) { Val v; v.t = CALI_TYPE_BOOL; v.u = x; return v; }
    int cmp(const Val& o) const
    {
        switch (t) {
        case CALI_TYPE_INT: return i < o.i ? -1 : i > o.i;
        case CALI_TYPE_DOUBLE: return d < o.d ? -1 : d > o.d;
        case CALI_TYPE_STRING: { int c = s.compare(o.s); return c < 0 ? -1 : c > 0; }
        default: return u < o.u ? -1 : u > o.u;
        }
    }
    bool operator==(const Val& o) const { return t == o.t && cmp(o) == 0; }
    bool operator<(const Val& o) const { return t != o.t ? t < o.t : cmp(o) < 0; }
    double num() const { return t == CALI_TYPE_INT ? (double) i : t == CALI_TYPE_DOUBLE ? d : (double) u; }
    bool numeric() const { return t == CALI_TYPE_INT || t == CALI_TYPE_UINT || t == CALI_TYPE_DOUBLE; }
    Variant variant() const
    {
        switch (t) {
        case CALI_TYPE_INT: return Variant(cali_make_variant_from_int64(i));
        case CALI_TYPE_UINT: return Variant(cali_make_variant_from_uint(u));
        case CALI_TYPE_DOUBLE: return Variant(d);
        case CALI_TYPE_BOOL: return Variant((bool) u);
        case CALI_TYPE_STRING: return Variant(CALI_TYPE_STRING, s.data(), s.size());
        default: return Variant();
        }
    }
    std::string str() const // in the same form as cdb::val
    {
        switch (t) {
        case CALI_TYPE_INT: return vx::fmt("int:%lld", i);
        case CALI_TYPE_UINT: return vx::fmt("uint:%llu", u);
        case CALI_TYPE_DOUBLE: return std::isnan(d) ? "double:nan" : vx::fmt("double:%a", d);
        case CALI_TYPE_BOOL: return u ? "bool:true" : "bool:false";
        case CALI_TYPE_STRING: return "string:\"" + cdb::esc(s) + "\"";
        default: return "inv";
        }
    }
    std::string text() const // as written in a query
    {
        switch (t) {
        case CALI_TYPE_INT: return vx::fmt("%lld", i);
        case CALI_TYPE_UINT: return vx::fmt("%llu", u);
        case CALI_TYPE_DOUBLE: return vx::fmt("%.17g", d);
        case CALI_TYPE_BOOL: return u ? "true" : "false";
        default: return s;
        }
    }
};
struct A { const char* name; cali_attr_type type; int prop; };
struct Ent { bool ref; std::vector<std::pair<int, Val>> v; }; // ref: outermost first
typedef std::vector<Ent> MRec;
inline std::string show(const std::vector<A>& as, const MRec& r)
{
    std::string s;
    for (auto& e : r) {
        s += s.empty() ? "{ " : ", ";
        for (size_t k = 0; k < e.v.size(); ++k) s += std::string(k ? "/" : "") + as[e.v[k].first].name + "=" + e.v[k].second.str();
    }
    return s.empty() ? "{ }" : s + " }";
}
// a real database with the attributes
struct Base {
    const std::vector<A>* as;
    CaliperMetadataDB     db;
    std::vector<Attribute> at;
    explicit Base(const std::vector<A>& a) : as(&a)
    {
        for (auto& x : a) at.push_back(db.create_attribute(x.name, x.type, x.prop));
    }
    Entry entry(const Ent& e)
    {
        if (!e.ref) {
            // the database keeps the characters of string values
            Variant v = e.v[0].second.variant();
            if (v.type() == CALI_TYPE_STRING) {
                static std::set<std::string> keep;
                const std::string& k = *keep.insert(e.v[0].second.s).first;
                v = Variant(CALI_TYPE_STRING, k.data(), k.size());
            }
            return Entry(at[e.v[0].first], v);
        }
        Node* n = nullptr;
        for (auto& p : e.v) {
            Attribute a = at[p.first];
            Variant v = p.second.variant();
            n = db.make_tree_entry(1, &a, &v, n);
        }
        return Entry(n);
    }
    EntryList rec(const MRec& r) { EntryList l; for (auto& e : r) l.push_back(entry(e)); return l; }
};
// the first value of an attribute in a record (innermost first within a path)
inline const Val* first(const MRec& r, int a)
{
    for (auto& e : r)
        for (size_t k = e.v.size(); k-- > 0;)
            if (e.v[k].first == a) return &e.v[k].second;
    return nullptr;
}
// all multisets of up to n entries of an alphabet
inline std::vector<MRec> all_recs(const std::vector<Ent>& alpha, int n)
{
    std::vector<MRec> out { {} };
    std::vector<std::pair<MRec, size_t>> cur { { {}, 0 } };
    for (int k = 0; k < n; ++k) {
        std::vector<std::pair<MRec, size_t>> next;
        for (auto& c : cur)
            for (size_t x = c.second; x < alpha.size(); ++x) { MRec r = c.first; r.push_back(alpha[x]); out.push_back(r); next.push_back({ r, x }); }
        cur.swap(next);
    }
    return out;
}
inline QuerySpec parse(const std::string& q)
{
    CalQLParser p(q.c_str());
    VX_CHECK(!p.error(), "query `%s' rejected: %s", q.c_str(), p.error_msg().c_str());
    return p.spec();
}
// run a query on records, in the process, and return its output
inline std::string run(CaliperMetadataDB& db, const std::string& q, const std::vector<EntryList>& recs)
{
    std::ostringstream os;
    OutputStream o;
    o.set_stream(&os);
    QueryProcessor p(parse(q), o);
    for (auto& r : recs) p.process_record(db, r);
    p.flush(db);
    return os.str();
}
} // namespace qm
