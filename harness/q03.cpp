// Q03: derived query attributes compute exactly their definition -- every LET operator over all argument and
// scale combinations, with and without conditions and chained, on all records of up to three entries of a
// boundary alphabet, against an independent evaluation on the model record.
#include "qm.hpp"
#include <cmath>
using namespace qm;
static const std::vector<A> AS = { { "i", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "j", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "u", CALI_TYPE_UINT, CALI_ATTR_ASVALUE }, { "d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE }, { "p", CALI_TYPE_INT, CALI_ATTR_DEFAULT },
    { "fn", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "lp", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "s", CALI_TYPE_STRING, CALI_ATTR_DEFAULT }, { "sv", CALI_TYPE_STRING, CALI_ATTR_ASVALUE }, { "v", CALI_TYPE_UINT, CALI_ATTR_ASVALUE }, { "e", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE } };
enum { aI, aJ, aU, aD, aP, aFN, aLP, aS, aSV, aV, aE, NA };
static const long long P62 = 1ll << 62;
static std::vector<Ent> alphabet()
{
    auto I = Val::I; auto U = Val::U; auto D = Val::D; auto S = Val::S;
    std::vector<Ent> o;
    for (long long x : { -7ll, 0ll, 1099511627781ll, P62 + 7 }) o.push_back({ false, { { aI, I(x) } } });
    for (long long x : { 2ll, -3ll }) o.push_back({ false, { { aJ, I(x) } } });
    for (unsigned long long x : { 0ull, 5ull, (1ull << 63) + 5 }) o.push_back({ false, { { aU, U(x) } } });
    for (double x : { -2.5, 0.0, 0.1, 1e300 }) o.push_back({ false, { { aD, D(x) } } });
    o.push_back({ false, { { aV, U(3) } } });
    o.push_back({ false, { { aE, D(4.25) } } });
    o.push_back({ false, { { aSV, S("x y") } } });
    o.push_back({ true, { { aP, I(4) } } });
    o.push_back({ true, { { aP, I(4) }, { aP, I(-9) } } });
    o.push_back({ true, { { aFN, S("a") } } });
    o.push_back({ true, { { aFN, S("a") }, { aLP, S("") }, { aS, S("q") } } });
    o.push_back({ true, { { aLP, S("b") }, { aP, I(5) }, { aFN, S("c") }, { aFN, S("d") } } });
    o.push_back({ true, { { aS, S("t") } } });
    return o;
}
struct Def { std::string op; std::vector<int> args; std::string scale; int cond = 0; }; // args: -1 unknown, 100 = first derived attribute
static const char* COND[] = { "", " if i", " if not d", " if u<6", " if fn=a", " if not j>0" };
static const int   NCOND = 6;
static std::string nm(int a) { return a == 100 ? "l" : a < 0 ? "unknown" : AS[a].name; }
static std::string text(const char* t, const Def& d)
{
    std::string s = std::string(t) + "=" + d.op + "(";
    for (size_t k = 0; k < d.args.size(); ++k) s += (k ? "," : "") + nm(d.args[k]);
    if (!d.scale.empty()) s += "," + d.scale;
    return s + ")" + COND[d.cond];
}
static bool cond(int c, const MRec& r)
{
    auto has = [&](int a, std::function<bool(const Val&)> f) { for (auto& e : r) for (auto& p : e.v) if (p.first == a && f(p.second)) return true; return false; };
    switch (c) {
    case 1: return has(aI, [](const Val&) { return true; });
    case 2: return !has(aD, [](const Val&) { return true; });
    case 3: return has(aU, [](const Val& v) { return v.u < 6; });
    case 4: return has(aFN, [](const Val& v) { return v.s == "a"; });
    case 5: return has(aJ, [](const Val& v) { return v.i <= 0; });
    default: return true;
    }
}
// the value to add, or type INV if none; unknown = the result is not specified
static Val eval(const Def& d, const MRec& r, const Val& l, bool& unknown)
{
    unknown = false;
    Val none;
    if (!cond(d.cond, r)) return none;
    auto get = [&](int a) -> const Val* { if (a == 100) return l.t == CALI_TYPE_INV ? nullptr : &l; return a < 0 ? nullptr : first(r, a); };
    double S = d.scale.empty() ? 1.0 : atof(d.scale.c_str());
    if (d.op == "ratio") {
        const Val *a = get(d.args[0]), *b = get(d.args[1]);
        if (!a || !b || b->num() == 0 || std::isnan(b->num())) return none;
        return Val::D(S * (a->num() / b->num()));
    }
    if (d.op == "scale") {
        const Val* a = get(d.args[0]);
        return a ? Val::D(S * a->num()) : none;
    }
    if (d.op == "truncate") {
        const Val* a = get(d.args[0]);
        if (!a || S == 0) return none;
        if (a->t == CALI_TYPE_DOUBLE) return Val::D(a->d - fmod(a->d, S));
        if (S != floor(S)) {
            if (std::fabs(a->num()) > 9e15) unknown = true;
            double x = a->num() - fmod(a->num(), S);
            return a->t == CALI_TYPE_INT ? Val::I((long long) x) : Val::U((unsigned long long) x);
        }
        long long m = (long long) std::fabs(S);
        if (a->t == CALI_TYPE_INT) return Val::I(a->i / m * m);
        return Val::U(a->u / m * m);
    }
    if (d.op == "first" || (d.op == "leaf" && !d.args.empty())) {
        for (int a : d.args) if (const Val* v = get(a)) return *v;
        return none;
    }
    if (d.op == "sum") {
        Val s;
        for (int a : d.args)
            if (const Val* v = get(a)) {
                if (s.t == CALI_TYPE_INV) s = *v;
                else s.i += v->i, s.u += v->u, s.d += v->d;
            }
        return s;
    }
    // leaf(): innermost region of the first entry with a region
    for (auto& e : r) for (size_t k = e.v.size(); k-- > 0;) if (e.v[k].first == aFN || e.v[k].first == aLP) return e.v[k].second;
    return none;
}
static std::vector<Def> defs(bool full)
{
    std::vector<Def> o;
    std::vector<int> num = { aI, aJ, aU, aD, aP, -1 };
    for (int x : num) for (int y : num) for (const char* s : { "", "2", "1e-3", "-1.5" }) o.push_back({ "ratio", { x, y }, s });
    for (int x : num) for (const char* s : { "2", "1e-3", "-1", "0", "1e9" }) o.push_back({ "scale", { x }, s });
    for (int x : num) for (const char* s : { "", "1", "2", "10", "0", "0.5", "-4", "1e3", "2147483648" }) o.push_back({ "truncate", { x }, s });
    for (const char* op : { "first", "sum" }) {
        std::vector<std::vector<int>> fam = { { aI, aJ, aP, -1 }, { aU, aV, -1 }, { aD, aE, -1 } };
        if (op[0] == 'f') fam.push_back({ aS, aSV, aFN, -1 });
        for (auto& f : fam) {
            for (int x : f) o.push_back({ op, { x }, "" });
            for (int x : f) for (int y : f) o.push_back({ op, { x, y }, "" });
            for (int x : f) for (int y : f) for (int z : f) if (x != y && y != z && x != z) o.push_back({ op, { x, y, z }, "" });
        }
        o.push_back({ op, { -1, -1, -1, -1, -1, -1, -1, aI }, "" });
        o.push_back({ op, { aI, aI, aI, aI, aI, aI, aJ, aJ }, "" });
    }
    o.push_back({ "leaf", {}, "" });
    for (int x : std::vector<int> { aFN, aLP, aS, aP, aI, aSV, -1 }) o.push_back({ "leaf", { x }, "" });
    size_t n = o.size();
    if (full) for (int c = 1; c < NCOND; ++c) for (size_t k = 0; k < n; ++k) { o.push_back(o[k]); o.back().cond = c; }
    return o;
}
static std::vector<Def> second() // on the first result (and others)
{
    std::vector<Def> o = { { "scale", { 100 }, "2" }, { "truncate", { 100 }, "2" }, { "ratio", { 100, aI }, "" }, { "ratio", { aI, 100 }, "" }, { "first", { 100, 100 }, "" }, { "sum", { 100, 100 }, "" }, { "leaf", { 100 }, "" }, { "scale", { aI }, "3" } };
    size_t n = o.size();
    for (size_t k = 0; k < n; ++k) { o.push_back(o[k]); o.back().cond = 1 + k % (NCOND - 1); }
    return o;
}
static bool equal(const Entry& a, const Entry& b) { return a.node() == b.node() && a.attribute() == b.attribute() && a.value() == b.value(); }
static const std::vector<MRec>& MR(int n)
{
    static std::map<int, std::vector<MRec>> m;
    if (!m.count(n)) m[n] = all_recs(alphabet(), n);
    return m[n];
}
static void let_case(const std::vector<Def>& ds, int nrec, bool query)
{
    static const char* T[] = { "l", "m" };
    std::string q = "let ";
    for (size_t k = 0; k < ds.size(); ++k) q += (k ? ", " : "") + text(T[k], ds[k]);
    const std::vector<MRec>& M = MR(nrec);
    Base b(AS);
    Preprocessor pre(parse(q));
    std::vector<EntryList> R;
    std::string expw;
    int added = 0;
    Attribute num;
    if (query) num = b.db.create_attribute("num", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
    std::vector<std::string> distinct;
    std::set<std::string> groups;
    for (size_t k = 0; k < M.size(); ++k) {
        EntryList rec = b.rec(M[k]);
        Val l, m;
        bool unk = false, unk2 = false;
        l = eval(ds[0], M[k], Val(), unk);
        if (ds.size() > 1) m = eval(ds[1], M[k], l, unk2);
        if (unk || unk2 || (l.t == CALI_TYPE_STRING && ds.size() > 1 && ds[1].op != "first" && ds[1].op != "leaf")) continue; // arithmetic on text
        if (ds.size() > 1 && ds[1].op == "sum" && l.t == CALI_TYPE_INT && std::llabs(l.i) >= P62) continue; // overflow
        if (ds.size() > 1 && ds[1].op == "truncate" && l.t == CALI_TYPE_DOUBLE && !std::isfinite(l.d)) continue;
        if (query) {
            if (l.t != CALI_TYPE_INV) expw += vx::fmt("num=%zu\n", k), groups.insert(l.str());
            R.push_back(rec);
            R.back().push_back(Entry(num, Variant(cali_make_variant_from_uint(k))));
            continue;
        }
        EntryList got = pre.process(b.db, rec);
        std::vector<std::pair<std::string, Val>> add;
        if (l.t != CALI_TYPE_INV) add.push_back({ "l", l });
        if (m.t != CALI_TYPE_INV) add.push_back({ "m", m });
        std::string g;
        for (size_t x = rec.size(); x < got.size(); ++x) g += " " + b.db.get_attribute(got[x].attribute()).name() + "=" + cdb::val(got[x].value());
        std::string w;
        for (auto& p : add) w += " " + p.first + "=" + p.second.str();
        VX_CHECK(got.size() >= rec.size() && g == w, "`%s' on %s adds%s instead of%s", q.c_str(), show(AS, M[k]).c_str(), g.c_str(), w.c_str());
        for (size_t x = 0; x < rec.size(); ++x) VX_CHECK(equal(rec[x], got[x]), "`%s' changes entry %zu of %s", q.c_str(), x, show(AS, M[k]).c_str());
        added += (int) add.size();
        if (!w.empty() && k % 7 == 0) vx::seen(w);
    }
    if (query) {
        std::string got = qm::run(b.db, q + " select num where l format expand", R);
        VX_CHECK(got == expw, "`%s where l' returns records %s instead of %s", q.c_str(), got.substr(0, 300).c_str(), expw.substr(0, 300).c_str());
        if (!groups.empty()) {
            got = qm::run(b.db, q + " select l,count() where l group by l format expand", R);
            size_t n = std::count(got.begin(), got.end(), '\n');
            VX_CHECK(n == groups.size(), "`%s group by l' returns %zu groups instead of %zu", q.c_str(), n, groups.size());
        }
    }
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        bool th = vx::thorough();
        static std::vector<Def> d1 = defs(true), d0 = defs(false), d2 = second();
        int n1 = th ? 5 : 4, n2 = th ? 4 : 3;
        d.enumerate(vx::fmt("single definitions, records of up to %d entries", n1), d1.size(), [n1](uint64_t i) { let_case({ d1[i] }, n1, false); }, [](uint64_t i) { return text("l", d1[i]); }, 4);
        uint64_t n = d2.size();
        d.enumerate(vx::fmt("chained definitions, records of up to %d entries", n2), d1.size() * n, [n, n2](uint64_t i) { let_case({ d1[i / n], d2[i % n] }, n2, false); }, [n](uint64_t i) { return text("l", d1[i / n]) + ", " + text("m", d2[i % n]); }, 32);
        d.enumerate("complete queries", d1.size(), [](uint64_t i) { let_case({ d1[i] }, 2, true); }, [](uint64_t i) { return text("l", d1[i]); }, 8);
    };
    return d.main(argc, argv);
}
