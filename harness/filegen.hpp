// filegen.hpp -- families of data files (values x positions, attribute definitions, record sequences)
// built in a metadata database and written with the real writer.
#pragma once
#include "calidb.hpp"
#include <limits>
namespace gen {
using namespace cdb;
static const char* ALPHA[] = { "a", "n", ",", "=", "\\", "\"", "\n", " ", "\xc3", "\xa9" };
static const int   NA = 10;
static std::vector<std::string> strings(int maxlen)
{
    std::vector<std::string> out { "" };
    size_t b = 0;
    for (int l = 1; l <= maxlen; ++l) {
        size_t e = out.size();
        for (size_t i = b; i < e; ++i) for (int k = 0; k < NA; ++k) out.push_back(out[i] + ALPHA[k]);
        b = e;
    }
    return out;
}
static Variant sv(const std::string& s) { return Variant(CALI_TYPE_STRING, s.data(), s.size()); }

struct Src {
    CaliperMetadataDB db;
    Writer            w;
    Recs              exp;
    std::set<std::string> glob;
    std::map<std::string, std::string> attrs;
    Attribute mk(const std::string& n, cali_attr_type t, int prop, std::vector<std::pair<Attribute, Variant>> meta = {})
    {
        std::vector<Attribute> a; std::vector<Variant> v;
        for (auto& p : meta) a.push_back(p.first), v.push_back(p.second);
        return db.create_attribute(n, t, prop, (int) meta.size(), a.data(), v.data());
    }
    Node* node(const Attribute& a, const Variant& v, Node* parent = nullptr) { return db.make_tree_entry(1, &a, &v, parent); }
    void  snap(const std::vector<Entry>& r) { w.write_one(db, r); exp.push_back(rec(db, r)); note(r); }
    void  globals(const std::vector<Entry>& g) { w.w.write_globals(db, g); glob = globals_of(db, g); note(g); }
    void  note(const std::vector<Entry>& r)
    {
        for (auto& e : r)
            if (e.is_immediate()) note_attr(db.get_attribute(e.attribute()));
            else for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) note_attr(db.get_attribute(n->attribute()));
    }
    void note_attr(const Attribute& a)
    {
        attrs[esc(a.name())] = attr(db, a);
        for (const Node* n = a.node()->parent(); n && n->attribute() != CALI_INV_ID; n = n->parent())
            if (n->attribute() > 10) note_attr(db.get_attribute(n->attribute()));
    }
};
// one value in one position of a file
static const char* ROLE[] = { "immediate value alone", "two immediate values", "tree value alone", "parent and child tree value", "value between other entries", "attribute metadata", "globals", "same value twice", "attribute name" };
enum { NROLE = 9 };
static bool role_build(Src& s, int role, cali_attr_type type, const Variant& v)
{
    Attribute n = s.mk("n", type, CALI_ATTR_DEFAULT), r = s.mk("r", CALI_TYPE_STRING, CALI_ATTR_NESTED), i = s.mk("i", type, CALI_ATTR_ASVALUE), j = s.mk("j", type, CALI_ATTR_ASVALUE), k = s.mk("k", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    switch (role) {
    case 0: s.snap({ Entry(i, v) }); break;
    case 1: s.snap({ Entry(i, v), Entry(j, v) }); break;
    case 2: s.snap({ Entry(s.node(n, v)) }); break;
    case 3: { Node* p = s.node(n, v); Node* c = s.node(n, v, p); Node* d = s.node(r, Variant("x"), c); s.snap({ Entry(d) }); s.snap({ Entry(p) }); s.snap({ Entry(c) }); break; }
    case 4: s.snap({ Entry(s.node(n, v)), Entry(k, Variant(1)), Entry(i, v), Entry(k, Variant(2)) }); break;
    case 5: { Attribute a = s.mk("with.meta", CALI_TYPE_INT, CALI_ATTR_ASVALUE, { { n, v }, { r, Variant("m") } }); s.snap({ Entry(a, Variant(3)) }); break; }
    case 6: { Attribute gi = s.mk("gi", type, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE), gn = s.mk("gn", type, CALI_ATTR_GLOBAL); s.snap({ Entry(k, Variant(1)) }); s.globals({ Entry(s.node(gn, v)), Entry(gi, v) }); break; }
    case 7: s.snap({ Entry(i, v) }); s.snap({ Entry(s.node(n, v)), Entry(i, v) }); s.snap({ Entry(i, v) }); break;
    case 8: {
        if (type != CALI_TYPE_STRING) return false;
        std::string nm((const char*) v.data(), v.size());
        if (nm.empty() || nm == "n" || nm == "i" || nm == "j" || nm == "k" || nm == "r" || nm == "path") return false; // the names above; the empty name is not a usable attribute
        Attribute a = s.mk(nm, CALI_TYPE_INT, CALI_ATTR_ASVALUE), b = s.mk(nm + "2", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        s.snap({ Entry(a, Variant(7)), Entry(s.node(b, Variant("y"))) });
        break; }
    }
    return true;
}
struct NV { cali_attr_type t; Variant v; std::string name; };
static std::vector<NV> numbers()
{
    std::vector<NV> o;
    auto add = [&](cali_attr_type t, Variant v) { o.push_back({ t, v, val(v) }); };
    for (int64_t x : { 0ll, 1ll, -1ll, 9ll, 10ll, -10ll, 99ll, 100ll, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1 }) add(CALI_TYPE_INT, Variant(cali_make_variant_from_int64(x)));
    for (int b = 0; b < 64; ++b) for (int d = -1; d <= 1; ++d) {
        uint64_t x = (1ull << b) + d;
        add(CALI_TYPE_UINT, Variant(cali_make_variant_from_uint(x)));
        Variant ad(CALI_TYPE_ADDR, &x, sizeof x);
        add(CALI_TYPE_ADDR, ad);
    }
    uint64_t p10 = 1;
    for (int i = 0; i < 20; ++i, p10 *= 10) add(CALI_TYPE_UINT, Variant(cali_make_variant_from_uint(p10))), add(CALI_TYPE_UINT, Variant(cali_make_variant_from_uint(p10 - 1)));
    add(CALI_TYPE_UINT, Variant(cali_make_variant_from_uint(~0ull)));
    double ds[] = { 0, -0.0, 1, -1, 0.1, 1.0 / 3, 2.0 / 3, 1e-300, 1e300, 1e15, 1e16, 1e17, 123456.789, 1234567.0, 12345678.5, 999999.5, 1000000.5, 3.141592653589793, 0.000123456789, 4.35, 2.675, 1e-5, 100, 1e6, 1e7, 4503599627370497.5, 9007199254740992.0, 5e-324, 2.2250738585072014e-308, std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nextafter(1.0, 2), std::nextafter(0.1, 1), std::numeric_limits<double>::quiet_NaN() };
    for (double d : ds) add(CALI_TYPE_DOUBLE, Variant(d));
    for (int e = -1074; e < 1024; e += vx::thorough() ? 1 : 7) for (double m : { 1.0, 1.1, 1.9999999 }) add(CALI_TYPE_DOUBLE, Variant(std::ldexp(m, e)));
    add(CALI_TYPE_BOOL, Variant(true)); add(CALI_TYPE_BOOL, Variant(false));
    for (int t = 1; t <= CALI_MAXTYPE; ++t) add(CALI_TYPE_TYPE, Variant((cali_attr_type) t));
    return o;
}
// record shapes over a fixed set of attributes
struct Shapes {
    Src s;
    Attribute r, q, i, d, t, g, gi, u;
    Node *A, *AB, *ABC, *AD, *E, *Q, *L;
    Shapes()
    {
        u = s.mk("unit", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        r = s.mk("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        q = s.mk("q,=\\", CALI_TYPE_INT, CALI_ATTR_DEFAULT, { { u, Variant("s=1") } });
        i = s.mk("i", CALI_TYPE_INT, CALI_ATTR_ASVALUE, { { u, Variant("sec") } });
        d = s.mk("d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
        t = s.mk("t", CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
        g = s.mk("g", CALI_TYPE_STRING, CALI_ATTR_GLOBAL);
        gi = s.mk("gi", CALI_TYPE_INT, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE);
        A = s.node(r, Variant("A")), AB = s.node(r, Variant("B"), A), AD = s.node(r, Variant("D"), A), ABC = s.node(q, Variant(5), AB), E = s.node(r, Variant("B")), Q = s.node(q, Variant(5));
        L = A;
        for (int k = 0; k < 300; ++k) L = s.node(r, sv("deep" + std::to_string(k % 3)), L);
    }
    static int count() { return 16; }
    std::vector<Entry> at(int k)
    {
        switch (k) {
        case 0: return { Entry(A) };
        case 1: return { Entry(AB) };
        case 2: return { Entry(ABC), Entry(i, Variant(1)) };
        case 3: return { Entry(AD), Entry(i, Variant(-2)), Entry(d, Variant(0.1)) };
        case 4: return { Entry(E), Entry(Q) };
        case 5: return { Entry(i, Variant(1)) };
        case 6: return { Entry(t, Variant("")) };
        case 7: return { Entry(t, Variant("")), Entry(i, Variant(3)) };
        case 8: return { Entry(i, Variant(3)), Entry(t, Variant("x,y=z")) };
        case 9: return { Entry(Q), Entry(E), Entry(A) };
        case 10: return { Entry(i, Variant(1)), Entry(A), Entry(i, Variant(2)), Entry(i, Variant(1)) };
        case 11: { std::vector<Entry> v; for (int k = 0; k < 200; ++k) v.push_back(Entry(k % 2 ? d : i, k % 2 ? Variant(0.5 * k) : Variant(k))); return v; }
        case 12: return { Entry(L) };
        case 13: return {};
        case 14: return { Entry(t, Variant("\\")), Entry(t, Variant("")) };
        default: return { Entry(s.node(g, Variant("in record"))), Entry(gi, Variant(4)) };
        }
    }
};
static void seq_build(Shapes& sh, std::vector<int> ks, int gl)
{
    std::vector<Entry> G;
    if (gl & 1) G.push_back(Entry(sh.s.node(sh.g, Variant("g1"))));
    if (gl & 2) G.push_back(Entry(sh.gi, Variant(9)));
    if (gl == 4) G.push_back(Entry(sh.s.node(sh.g, Variant("g2"), sh.s.node(sh.g, Variant("g1")))));
    if (gl == 3) sh.s.globals(G); // before the records as well as after
    for (int k : ks) sh.s.snap(sh.at(k));
    if (!G.empty()) sh.s.globals(G);
}
// attribute definitions: flags x type x metadata chain
// returns the type of the attribute under test
static cali_attr_type attr_build(Src& s, uint64_t c)
{
    static const int F[] = { CALI_ATTR_ASVALUE, CALI_ATTR_NOMERGE, CALI_ATTR_SKIP_EVENTS, CALI_ATTR_NESTED, CALI_ATTR_GLOBAL, CALI_ATTR_UNALIGNED, CALI_ATTR_AGGREGATABLE }, SC[] = { CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_SCOPE_THREAD, CALI_ATTR_SCOPE_TASK, 0 };
    int p = SC[c % 4]; c /= 4;
    cali_attr_type t = (cali_attr_type) (1 + c % CALI_MAXTYPE); c /= CALI_MAXTYPE;
    int meta = c % 8; c /= 8;
    for (int k = 0; k < 7; ++k) if (c >> k & 1) p |= F[k];
    Attribute m1 = s.mk("m1", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS), m2 = s.mk("m2", CALI_TYPE_INT, CALI_ATTR_DEFAULT, { { m1, Variant("of m2") } }), m3 = s.mk("m3", CALI_TYPE_DOUBLE, CALI_ATTR_DEFAULT);
    std::vector<std::pair<Attribute, Variant>> mv;
    if (meta & 1) mv.push_back({ m1, Variant("a=b") });
    if (meta & 2) mv.push_back({ m2, Variant(-4) });
    if (meta & 4) mv.push_back({ m3, Variant(0.3) }), mv.push_back({ m1, Variant("") });
    Attribute a = s.mk("the attribute", t, p, mv), b = s.mk("other", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
    if (t == CALI_TYPE_USR || t == CALI_TYPE_PTR) s.snap({ Entry(s.node(b, Variant(1), nullptr)) }), s.note_attr(a), s.w.w.write_snapshot(s.db, { Entry(a, Variant(1)) });
    else {
        uint64_t x = 1;
        Variant v = t == CALI_TYPE_INT ? Variant(1) : t == CALI_TYPE_UINT ? Variant(cali_make_variant_from_uint(1)) : t == CALI_TYPE_STRING ? Variant("s") : t == CALI_TYPE_ADDR ? Variant(CALI_TYPE_ADDR, &x, 8) : t == CALI_TYPE_DOUBLE ? Variant(1.5) : t == CALI_TYPE_BOOL ? Variant(true) : Variant(CALI_TYPE_INT);
        s.snap({ (p & CALI_ATTR_ASVALUE) ? Entry(a, v) : Entry(s.node(a, v)) });
    }
    return t;
}
} // namespace gen
