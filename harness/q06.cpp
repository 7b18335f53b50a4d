// Q06: JSON output is valid and faithful -- every combination of JSON options and select lists on all sequences
// of up to two (thorough: three) records of an alphabet with every value type and nesting, and all strings of
// up to two characters of the whole character set in every place where text is written; the output is read
// with a strict JSON reader and the decoded content compared with the plain records.
#include "qm.hpp"
#include "json.hpp"
#include <cmath>
using namespace qm;
static const std::vector<A> AS = { { "x", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE }, { "u", CALI_TYPE_UINT, CALI_ATTR_ASVALUE }, { "sv", CALI_TYPE_STRING, CALI_ATTR_ASVALUE }, { "hid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN }, { "b", CALI_TYPE_BOOL, CALI_ATTR_ASVALUE },
    { "fn", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "l \"q\"", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "s", CALI_TYPE_STRING, CALI_ATTR_DEFAULT }, { "p\\", CALI_TYPE_INT, CALI_ATTR_DEFAULT }, { "gl", CALI_TYPE_STRING, CALI_ATTR_GLOBAL }, { "ad", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE }, { "ty", CALI_TYPE_TYPE, CALI_ATTR_ASVALUE }, { "pd", CALI_TYPE_DOUBLE, CALI_ATTR_DEFAULT } };
enum { aX, aD, aU, aSV, aH, aB, aFN, aLQ, aS, aP, aG, aAD, aTY, aPD, NA };
static Ent V(int a, Val v) { return { false, { { a, v } } }; }
static Ent R(std::vector<std::pair<int, Val>> v) { return { true, v }; }
static const std::vector<MRec>& RECS()
{
    auto S = Val::S; auto I = Val::I; auto D = Val::D; auto U = Val::U; auto B = Val::B;
    auto T = [](cali_attr_type t, unsigned long long u) { Val v; v.t = t; v.u = u; return v; };
    static const std::vector<MRec> r = {
        {}, { V(aX, I(-3)), V(aD, D(0.5)), V(aH, I(77)) }, { V(aX, I(-9223372036854775807ll)), R({ { aFN, S("a") } }), V(aB, B(true)) }, { V(aD, D(1.25e-7)), V(aU, U(~0ull)), R({ { aFN, S("a") }, { aFN, S("b\"\\") } }) },
        { V(aD, D(1e300)), V(aB, B(false)), R({ { aLQ, S("a") }, { aFN, S("a") } }) }, { V(aD, D(INFINITY)), V(aX, I(0)) }, { V(aD, D(NAN)), R({ { aS, S("a") } }) }, { V(aD, D(-0.1)), V(aSV, S("line\nbreak\ttab")) },
        { V(aSV, S("")), R({ { aS, S("x") }, { aP, I(5) }, { aP, I(-6) }, { aFN, S("c") } }) }, { R({ { aFN, S("a") }, { aS, S("a") } }), R({ { aP, I(5) } }), V(aU, U(0)) }, { V(aAD, T(CALI_TYPE_ADDR, 0xdeadbeefull)), V(aD, D(3)), V(aTY, T(CALI_TYPE_TYPE, CALI_TYPE_INT)) },
        { R({ { aG, S("no") }, { aFN, S("\xc3\xa9\xe2\x82\xac") } }), V(aSV, S("\x01/\x1f\x7f")) }, { R({ { aPD, D(2.5e-9) }, { aS, S("q") } }), V(aD, D(-INFINITY)) } };
    return r;
}
static Variant variant(const Val& v)
{
    if (v.t == CALI_TYPE_ADDR) { uint64_t a = v.u; return Variant(CALI_TYPE_ADDR, &a, sizeof a); }
    if (v.t == CALI_TYPE_TYPE) return Variant((cali_attr_type) v.u);
    return v.variant();
}
struct B { // a database with the attributes, one of which has metadata
    CaliperMetadataDB db;
    std::vector<Attribute> at;
    explicit B(const std::vector<A>& as, const std::string& meta = "ms \"1\"")
    {
        Attribute m = db.create_attribute("attribute.unit", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
        for (auto& a : as) {
            std::string k = meta;
            Variant v(CALI_TYPE_STRING, k.data(), k.size());
            at.push_back(&a == &as[aX] ? db.create_attribute(a.name, a.type, a.prop, 1, &m, &v) : db.create_attribute(a.name, a.type, a.prop));
        }
    }
    std::set<std::string> keep;
    EntryList rec(const MRec& r)
    {
        EntryList l;
        for (auto& e : r) {
            Node* n = nullptr;
            for (auto& p : e.v) {
                Attribute a = at[p.first];
                Variant v = variant(p.second);
                if (v.type() == CALI_TYPE_STRING) { const std::string& k = *keep.insert(p.second.s).first; v = Variant(CALI_TYPE_STRING, k.data(), k.size()); }
                if (!e.ref) { l.push_back(Entry(a, v)); continue; }
                n = db.make_tree_entry(1, &a, &v, n);
            }
            if (e.ref) l.push_back(Entry(n));
        }
        return l;
    }
};
static std::string vtext(const Val& v)
{
    if (v.t == CALI_TYPE_ADDR) return vx::fmt("%llx", v.u);
    if (v.t == CALI_TYPE_TYPE) return "int";
    return v.text();
}
static bool isnum(const Val& v) { return v.numeric() && (v.t != CALI_TYPE_DOUBLE || std::isfinite(v.d)); }
// does a decoded value stand for exactly this one? (form: 'n' as such, 's' as text)
static bool same(const json::V& j, const Val& v, bool text)
{
    if (v.t == CALI_TYPE_BOOL) return (!text && j.t == json::V::Bool && j.b == (bool) v.u) || (j.t == json::V::Str && j.s == (v.u ? "true" : "false"));
    if (!v.numeric()) return j.t == json::V::Str && j.s == vtext(v);
    if (!isnum(v)) return j.t == json::V::Str && (std::isnan(v.d) ? j.s == "nan" || j.s == "-nan" : j.s == (v.d < 0 ? "-inf" : "inf"));
    if (j.t != (text ? json::V::Str : json::V::Num)) return false;
    if (v.t == CALI_TYPE_DOUBLE) { char* e; double d = strtod(j.s.c_str(), &e); return *e == 0 && d == v.d; }
    return j.s == v.text();
}
struct Q { bool pretty = false, quote = false, sep = false; int layout = 0; bool all = true, path = false; std::vector<int> sel; std::map<int, std::string> as; };
static const char* LAY[] = { "", "records", "split", "object" };
static std::string text(const Q& q)
{
    std::string s;
    auto nm = [](int a) { std::string n = a < 0 ? "unknown" : AS[a].name, o; for (char c : n) { if (c == '"' || c == '\\') o += '\\'; o += c; } return "\"" + o + "\""; };
    if (!q.all) {
        s = "select ";
        if (q.path) s += "path";
        for (size_t k = 0; k < q.sel.size(); ++k) { s += (k || q.path ? "," : "") + nm(q.sel[k]); if (q.as.count(q.sel[k])) s += " as \"" + q.as.at(q.sel[k]) + "\""; }
        s += " ";
    }
    s += "format json(";
    bool f = true;
    for (const char* o : { LAY[q.layout], q.pretty ? "pretty" : "", q.quote ? "quote-all" : "", q.sep ? "separate-nested" : "" }) if (*o) { s += (f ? "" : ",") + std::string(o); f = false; }
    return s + ")";
}
static bool selected(const Q& q, int a)
{
    bool nested = AS[a].prop & CALI_ATTR_NESTED;
    return q.all ? !(AS[a].prop & (CALI_ATTR_HIDDEN | CALI_ATTR_GLOBAL)) : std::count(q.sel.begin(), q.sel.end(), a) || (q.path && nested);
}
struct Exp { bool path; bool single; Val v; std::string s; };
static std::map<std::string, Exp> expected(const MRec& r, const Q& q)
{
    std::map<std::string, Exp> m;
    for (auto& e : r)
        for (size_t k = e.v.size(); k-- > 0;) {
            int a = e.v[k].first;
            if (!selected(q, a)) continue;
            bool nested = AS[a].prop & CALI_ATTR_NESTED;
            std::string key = nested && !q.sep ? "path" : q.as.count(a) ? q.as.at(a) : AS[a].name;
            const Val& v = e.v[k].second;
            if (!e.ref) m[key] = { false, true, v, "" };
            else if (!m.count(key)) m[key] = { true, true, v, vtext(v) };
            else m[key] = { true, false, v, vtext(v) + "/" + m[key].s };
        }
    return m;
}
static std::string output(CaliperMetadataDB& db, const QuerySpec& s, const std::vector<EntryList>& recs)
{
    std::ostringstream os;
    OutputStream o;
    o.set_stream(&os);
    QueryProcessor p(s, o);
    for (auto& r : recs) p.process_record(db, r);
    p.flush(db);
    return os.str();
}
static void check_attr(const json::V& atts, const A& a, const std::string& unit)
{
    const json::V* x = atts.get(a.name);
    VX_CHECK(x && x->t == json::V::Obj, "attribute %s is not described", a.name);
    for (int g = 0; g < 2; ++g) { const json::V* y = x->get(g ? "is_global" : "is_nested"); VX_CHECK(y && y->t == json::V::Bool && y->b == (bool) (a.prop & (g ? CALI_ATTR_GLOBAL : CALI_ATTR_NESTED)), "attribute %s: %s is wrong", a.name, g ? "is_global" : "is_nested"); }
    const json::V* y = x->get("attribute.unit");
    VX_CHECK((y && y->t == json::V::Str ? y->s : std::string()) == unit, "attribute %s: attribute.unit is `%s', expected `%s'", a.name, y ? y->s.c_str() : "missing", unit.c_str());
}
static void check_json(const std::string& out, const std::vector<const MRec*>& rs, const Q& q, const std::map<std::string, std::string>& globals, const std::string& unit = "ms \"1\"")
{
    json::V doc = json::parse(q.layout == 2 ? "[" + out + "]" : out);
    const json::V* recs = &doc;
    if (q.layout == 3) {
        VX_CHECK(doc.t == json::V::Obj, "not an object");
        recs = doc.get("records");
        const json::V *g = doc.get("globals"), *a = doc.get("attributes");
        VX_CHECK(recs && g && g->t == json::V::Obj && a && a->t == json::V::Obj, "a section is missing");
        VX_CHECK(g->o.size() == globals.size(), "%zu globals, expected %zu", g->o.size(), globals.size());
        for (auto& x : globals) { const json::V* y = g->get(x.first); VX_CHECK(y && y->t == json::V::Str && y->s == x.second, "global %s is %s, expected %s", x.first.c_str(), y ? y->s.c_str() : "missing", x.second.c_str()); }
        for (int k = 0; k < NA; ++k) {
            bool want = q.all ? !(AS[k].prop & CALI_ATTR_HIDDEN) : std::count(q.sel.begin(), q.sel.end(), k) && !(AS[k].prop & CALI_ATTR_HIDDEN);
            if ((AS[k].prop & CALI_ATTR_NESTED) && !q.sep) want = false;
            if (want) check_attr(*a, AS[k], k == aX ? unit : "");
        }
        for (auto& x : a->o) VX_CHECK(!x.first.empty() && x.second.t == json::V::Obj, "attribute `%s' is described as %s", x.first.c_str(), json::show(x.second).c_str());
    }
    VX_CHECK(recs->t == json::V::Arr, "no array of records");
    size_t n = 0;
    for (auto* r : rs) {
        auto e = expected(*r, q);
        if (e.empty()) continue;
        VX_CHECK(n < recs->a.size(), "%zu records, expected more", recs->a.size());
        const json::V& j = recs->a[n++];
        VX_CHECK(j.t == json::V::Obj, "record %zu is not an object", n - 1);
        for (auto& x : e) {
            const json::V* v = j.get(x.first);
            VX_CHECK(v, "record %zu has no %s", n - 1, x.first.c_str());
            bool ok = x.second.single ? same(*v, x.second.v, q.quote || x.second.path) : v->t == json::V::Str && v->s == x.second.s;
            VX_CHECK(ok, "record %zu has %s=%s, expected %s", n - 1, x.first.c_str(), json::show(*v).c_str(), x.second.single ? vtext(x.second.v).c_str() : x.second.s.c_str());
        }
        for (auto& x : j.o) VX_CHECK(e.count(x.first), "record %zu has an unexpected %s=%s", n - 1, x.first.c_str(), json::show(x.second).c_str());
    }
    VX_CHECK(n == recs->a.size(), "%zu records, expected %zu", recs->a.size(), n);
}
// --- json-split
static void check_split(const std::string& out, const std::vector<const MRec*>& rs, const Q& q, const std::map<std::string, std::string>& globals, const std::string& unit = "ms \"1\"")
{
    json::V doc = json::parse(out);
    const json::V *data = doc.get("data"), *cols = doc.get("columns"), *meta = doc.get("column_metadata"), *nodes = doc.get("nodes");
    VX_CHECK(data && cols && meta && nodes && data->t == json::V::Arr && cols->t == json::V::Arr && meta->t == json::V::Arr && nodes->t == json::V::Arr, "a section is missing");
    VX_CHECK(meta->a.size() == cols->a.size(), "%zu columns, %zu descriptions", cols->a.size(), meta->a.size());
    VX_CHECK(data->a.size() == rs.size(), "%zu rows, expected %zu", data->a.size(), rs.size());
    for (auto& x : globals) { const json::V* y = doc.get(x.first); VX_CHECK(y && y->t == json::V::Str && y->s == x.second, "global %s is %s, expected %s", x.first.c_str(), y ? y->s.c_str() : "missing", x.second.c_str()); }
    for (size_t k = 0; k < nodes->a.size(); ++k) {
        const json::V &n = nodes->a[k], *l = n.get("label"), *c = n.get("column"), *p = n.get("parent");
        VX_CHECK(l && l->t == json::V::Str && c && c->t == json::V::Str, "node %zu is not described", k);
        if (p) VX_CHECK(p->t == json::V::Num && (size_t) atoi(p->s.c_str()) < k && *nodes->a[atoi(p->s.c_str())].get("column")->s.c_str() == *c->s.c_str(), "node %zu has the parent %s", k, json::show(*p).c_str());
    }
    std::map<std::string, int> byname; // title -> attribute, or -2 for the path
    if (true) byname["path"] = -2;
    for (int a = 0; a < NA; ++a) if (!(AS[a].prop & CALI_ATTR_NESTED) && (q.all ? selected(q, a) : selected(q, a))) byname[q.as.count(a) ? q.as.at(a) : AS[a].name] = a;
    std::set<std::string> seen;
    for (size_t c = 0; c < cols->a.size(); ++c) {
        const json::V &t = cols->a[c], *isv = meta->a[c].get("is_value");
        VX_CHECK(t.t == json::V::Str && seen.insert(t.s).second, "column title %s", json::show(t).c_str());
        VX_CHECK(isv && isv->t == json::V::Bool, "column %s: is_value is missing", t.s.c_str());
        int a = byname.count(t.s) ? byname[t.s] : -1;
        VX_CHECK(a != -1 || q.all, "column %s was not selected", t.s.c_str());
        if (a >= 0) VX_CHECK(isv->b == (bool) (AS[a].prop & CALI_ATTR_ASVALUE), "column %s: is_value is wrong", t.s.c_str());
        if (a == aX) { const json::V* y = meta->a[c].get("attribute.unit"); VX_CHECK(y && y->s == unit, "column %s: attribute.unit is `%s', expected `%s'", t.s.c_str(), y ? y->s.c_str() : "missing", unit.c_str()); }
        for (size_t r = 0; r < rs.size(); ++r) {
            VX_CHECK(data->a[r].t == json::V::Arr && data->a[r].a.size() == cols->a.size(), "row %zu does not have %zu columns", r, cols->a.size());
            const json::V& j = data->a[r].a[c];
            std::vector<Val> vs; // innermost first
            for (auto& e : *rs[r]) for (size_t k = e.v.size(); k-- > 0;) { int x = e.v[k].first; if (x == a || (a == -2 && (AS[x].prop & CALI_ATTR_NESTED) && selected(q, x))) vs.push_back(e.v[k].second); }
            if (vs.empty()) { VX_CHECK(j.t == json::V::Null, "row %zu, column %s is %s, expected null", r, t.s.c_str(), json::show(j).c_str()); continue; }
            if (isv->b) { VX_CHECK(same(j, vs[0], false), "row %zu, column %s is %s, expected %s", r, t.s.c_str(), json::show(j).c_str(), vtext(vs[0]).c_str()); continue; }
            VX_CHECK(j.t == json::V::Num, "row %zu, column %s is %s, expected a node", r, t.s.c_str(), json::show(j).c_str());
            size_t k = 0, id = atoi(j.s.c_str());
            for (;; ++k) {
                VX_CHECK(id < nodes->a.size(), "row %zu, column %s: no node %zu", r, t.s.c_str(), id);
                const json::V& n = nodes->a[id];
                VX_CHECK(k < vs.size() && same(*n.get("label"), vs[k], true), "row %zu, column %s: level %zu from the end is `%s', expected `%s'", r, t.s.c_str(), k, n.get("label")->s.c_str(), k < vs.size() ? vtext(vs[k]).c_str() : "no more");
                VX_CHECK(n.get("column")->s == t.s, "row %zu, column %s: its node is labelled as %s", r, t.s.c_str(), n.get("column")->s.c_str());
                if (!n.get("parent")) { ++k; break; }
                id = atoi(n.get("parent")->s.c_str());
            }
            VX_CHECK(k == vs.size(), "row %zu, column %s: the hierarchy has %zu levels, expected %zu", r, t.s.c_str(), k, vs.size());
        }
    }
    for (auto* r : rs) for (auto& e : *r) for (auto& p : e.v) if (selected(q, p.first)) {
        std::string t = (AS[p.first].prop & CALI_ATTR_NESTED) ? "path" : q.as.count(p.first) ? q.as.at(p.first) : AS[p.first].name;
        VX_CHECK(seen.count(t), "no column %s", t.c_str());
    }
}
static std::vector<Q> selects()
{
    std::vector<Q> o(1);
    auto S = [&](bool path, std::vector<int> sel, std::map<int, std::string> as = {}) { Q q; q.all = false; q.path = path; q.sel = sel; q.as = as; o.push_back(q); };
    S(false, { aX, aD });
    S(true, {});
    S(true, { aX, aS, aD });
    S(false, { aFN, aS, aH, aSV }, { { aS, "S as" } });
    S(false, { -1, aLQ, aP, aU, aB }, { { aU, "U'" }, { aB, "path of b" } });
    S(true, { aG, aFN, aAD, aTY, aPD });
    return o;
}
static std::vector<int> seq_of(uint64_t n)
{
    uint64_t B = RECS().size(), len = 0, cnt = 1;
    while (n >= cnt) { n -= cnt; cnt *= B; ++len; }
    std::vector<int> s;
    for (uint64_t k = 0; k < len; ++k) { s.push_back(n % B); n /= B; }
    return s;
}
static uint64_t seqs(int len) { uint64_t B = RECS().size(), n = 1, c = 1; for (int k = 0; k < len; ++k) { c *= B; n += c; } return n; }
static std::string show_seq(const std::vector<int>& s) { std::string o; for (int k : s) { std::string r; for (auto& e : RECS()[k]) for (size_t i = 0; i < e.v.size(); ++i) r += (i ? "/" : " ") + std::string(AS[e.v[i].first].name) + "=" + cdb::esc(vtext(e.v[i].second)); o += "{" + r + " } "; } return o; }
static void records(const std::vector<int>& seq, const std::vector<Q>& qs, const std::vector<QuerySpec>& specs, const std::vector<Q>& sq, const std::vector<QuerySpec>& sspecs)
{
    B b(AS);
    std::vector<const MRec*> rs;
    std::vector<EntryList> recs;
    for (int k : seq) { rs.push_back(&RECS()[k]); recs.push_back(b.rec(RECS()[k])); }
    std::map<std::string, std::string> globals;
    if (seq.size() % 2) { // with globals
        b.db.set_global(b.at[aG], Variant("outer"));
        Attribute g2 = b.db.create_attribute("g\"2\"", CALI_TYPE_INT, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE);
        b.db.set_global(g2, Variant(-42));
        globals["gl"] = "outer";
        globals["g\"2\""] = "-42";
    }
    for (size_t k = 0; k < qs.size(); ++k) {
        try { check_json(output(b.db, specs[k], recs), rs, qs[k], globals); }
        catch (vx::Fail& f) { f.msg = vx::fmt("`%s': %s", text(qs[k]).c_str(), f.msg.c_str()); throw; }
    }
    for (size_t k = 0; k < sq.size(); ++k) {
        try { check_split(output(b.db, sspecs[k], recs), rs, sq[k], globals); }
        catch (vx::Fail& f) { f.msg = vx::fmt("json-split, selection %zu: %s", k, f.msg.c_str()); throw; }
    }
    uint64_t h = 7;
    for (int x : seq) h = h * 31 + x + 1;
    vx::seen(h);
}
// --- strings in every place
static std::vector<std::string> chars()
{
    std::vector<std::string> o;
    for (int c = 1; c < 128; ++c) o.push_back(std::string(1, (char) c));
    for (const char* s : { "\xc2\x80", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }) o.push_back(s);
    return o;
}
static void string_case(const std::string& s, bool first)
{
    std::string nm = "n" + s, gn = "g" + s;
    std::vector<A> as = AS;
    as[aSV].name = nm.c_str();
    B b(as, "unit" + s);
    MRec r = { V(aSV, Val::S(s)), V(aX, Val::I(1)), R({ { aFN, Val::S(s) }, { aS, Val::S(s) } }) };
    Attribute g = b.db.create_attribute(gn, CALI_TYPE_STRING, CALI_ATTR_GLOBAL);
    b.db.set_global(g, Variant(CALI_TYPE_STRING, s.data(), s.size()));
    std::vector<EntryList> recs { b.rec(r) };
    for (int k = 0; k < 8; ++k) {
        Q q; q.layout = k & 1 ? 3 : 0; q.pretty = k & 2; q.quote = k & 4;
        QuerySpec spec = parse(text(q));
        spec.aliases["s"] = "al" + s;
        json::V doc = json::parse(output(b.db, spec, recs));
        const json::V* list = q.layout ? doc.get("records") : &doc;
        VX_CHECK(list && list->a.size() == 1, "records");
        for (const std::string& key : { nm, std::string("path"), "al" + s }) { const json::V* v = list->a[0].get(key); VX_CHECK(v && v->t == json::V::Str && v->s == s, "`%s': %s is `%s', expected `%s'", text(q).c_str(), cdb::esc(key).c_str(), v ? cdb::esc(v->s).c_str() : "missing", cdb::esc(s).c_str()); }
        if (q.layout) {
            const json::V *gs = doc.get("globals"), *at = doc.get("attributes"), *y = gs ? gs->get(gn) : nullptr, *x = at ? at->get("x") : nullptr, *n = at ? at->get(nm) : nullptr, *u = x ? x->get("attribute.unit") : nullptr;
            VX_CHECK(y && y->s == s, "global %s is `%s'", cdb::esc(gn).c_str(), y ? cdb::esc(y->s).c_str() : "missing");
            VX_CHECK(u && u->s == "unit" + s, "attribute.unit is `%s'", u ? cdb::esc(u->s).c_str() : "missing");
            VX_CHECK(n, "attribute %s is not described", cdb::esc(nm).c_str());
        }
    }
    QuerySpec spec = parse("format json-split");
    spec.aliases["s"] = "al" + s;
    json::V doc = json::parse(output(b.db, spec, recs));
    const json::V *cols = doc.get("columns"), *data = doc.get("data"), *nodes = doc.get("nodes"), *g1 = doc.get(gn);
    VX_CHECK(cols && data && nodes && data->a.size() == 1 && data->a[0].a.size() == cols->a.size(), "json-split: sections");
    VX_CHECK(g1 && g1->s == s, "json-split: global %s", cdb::esc(gn).c_str());
    int found = 0;
    for (size_t c = 0; c < cols->a.size(); ++c) {
        const json::V& j = data->a[0].a[c];
        const std::string& t = cols->a[c].s;
        if (t == nm) { VX_CHECK(j.s == s, "json-split: value is `%s'", cdb::esc(j.s).c_str()); ++found; }
        if (t == "path" || t == "al" + s) { VX_CHECK(j.t == json::V::Num && nodes->a.at(atoi(j.s.c_str())).get("label")->s == s, "json-split: column %s has the wrong node", cdb::esc(t).c_str()); ++found; }
    }
    VX_CHECK(found == 3, "json-split: %d of 3 columns", found);
    if (first) vx::seen(std::hash<std::string>()(s));
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        static std::vector<Q> qs, sq = selects();
        static std::vector<QuerySpec> specs, ss;
        for (auto q : selects())
            for (int k = 0; k < 32; ++k) { q.pretty = k & 1; q.quote = k & 2; q.sep = k & 4; q.layout = k >> 3; qs.push_back(q); specs.push_back(parse(text(q))); }
        for (auto& q : sq) { std::string t = text(q); ss.push_back(parse(t.substr(0, t.find("format")) + "format json-split")); }
        d.enumerate("records", seqs(vx::thorough() ? 3 : 2), [](uint64_t i) { records(seq_of(i), qs, specs, sq, ss); }, [](uint64_t i) { return show_seq(seq_of(i)); }, 4);
        static std::vector<std::string> ch = chars();
        size_t n = ch.size();
        static std::vector<int> sub; // characters that are special somewhere, for the second place
        for (size_t k = 0; k < n; ++k) if (vx::thorough() || ch[k].size() > 1 || strchr("\n\t\x01\x1f \"\\/,=ux{}[]:\x7f", ch[k][0])) sub.push_back(k);
        d.enumerate("strings", 1 + n + 2 * n * sub.size(), [n](uint64_t i) {
            if (i == 0) return string_case("", true);
            if (--i < n) return string_case(ch[i], true);
            i -= n;
            const std::string &a = ch[i / 2 % n], &b = ch[sub[i / 2 / n]];
            string_case(i & 1 ? b + a : a + b, true);
        }, [n](uint64_t i) { if (i == 0) return std::string("\"\""); if (--i < n) return cdb::esc(ch[i]); i -= n; const std::string &a = ch[i / 2 % n], &b = ch[sub[i / 2 / n]]; return cdb::esc(i & 1 ? b + a : a + b); }, 16);
    };
    return d.main(argc, argv);
}
