// Q02: query filters select exactly the matching records -- every condition and pair of conditions over all
// operators and boundary values, on all records of up to three entries, against an evaluation of the
// condition on the model record; also through a complete query and through the --select filter syntax.
#include "qm.hpp"
using namespace qm;
static const std::vector<A> AS = { { "i", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "u", CALI_TYPE_UINT, CALI_ATTR_ASVALUE }, { "d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE }, { "s", CALI_TYPE_STRING, CALI_ATTR_DEFAULT },
    { "fn", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "l p", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "p", CALI_TYPE_INT, CALI_ATTR_DEFAULT }, { "b", CALI_TYPE_BOOL, CALI_ATTR_ASVALUE }, { "sv", CALI_TYPE_STRING, CALI_ATTR_ASVALUE } };
static const long long IMAX = 9223372036854775807ll;
static std::vector<Ent> alphabet()
{
    auto I = Val::I; auto U = Val::U; auto D = Val::D; auto S = Val::S; auto B = Val::B;
    return { { false, { { 0, I(-1) } } }, { false, { { 0, I(0) } } }, { false, { { 0, I(7) } } }, { false, { { 0, I(-IMAX) } } },
        { false, { { 1, U(0) } } }, { false, { { 1, U(7) } } }, { false, { { 1, U(~0ull) } } },
        { false, { { 2, D(-0.5) } } }, { false, { { 2, D(0) } } }, { false, { { 2, D(7) } } }, { false, { { 2, D(1e300) } } },
        { false, { { 7, B(true) } } }, { false, { { 7, B(false) } } }, { false, { { 8, S("") } } }, { false, { { 8, S("a") } } }, { false, { { 8, S("ab") } } },
        { true, { { 4, S("a") } } }, { true, { { 4, S("a") }, { 4, S("b") } } }, { true, { { 4, S("b") }, { 5, S("a") }, { 4, S("ab") } } }, { true, { { 4, S("a") }, { 3, S("q") } } },
        { true, { { 3, S("q") } } }, { true, { { 3, S("a") }, { 6, I(7) } } }, { true, { { 6, I(0) }, { 6, I(-1) } } }, { true, { { 5, S("a") }, { 6, I(-1) }, { 4, S("b") } } }, { true, { { 3, S("") } } } };
}
struct C { int op; int a; Val v; }; // 0 exist 1 = 2 < 3 >; +4 negated
static std::string quote(const std::string& s) { return s.find_first_of(" ,\"") == std::string::npos && !s.empty() ? s : "\"" + s + "\""; }
static std::string name(int a) { return a < 0 ? "unknown" : AS[a].name; }
static std::string text(const C& c)
{
    std::string s = (c.op & 4 ? "not " : "") + quote(name(c.a));
    if (c.op & 3) s += std::string(1, " =<>"[c.op & 3]) + quote(c.v.text());
    return s;
}
static bool holds(const MRec& r, const C& c)
{
    // a condition holds if it holds for any value of the attribute; negated existence and equality: for none;
    // negated order comparisons are the opposite comparison
    bool any = false, opp = false;
    for (auto& e : r)
        for (auto& p : e.v)
            if (p.first == c.a) {
                int k = (c.op & 3) ? p.second.cmp(c.v) : 0;
                bool m = (c.op & 3) == 0 ? true : (c.op & 3) == 1 ? k == 0 : (c.op & 3) == 2 ? k < 0 : k > 0;
                any |= m; opp |= !m;
            }
    if (!(c.op & 4)) return any;
    return (c.op & 3) < 2 ? !any : opp;
}
static std::vector<C> conditions(int nval)
{
    std::vector<C> o;
    for (int a = -1; a < (int) AS.size(); ++a) {
        o.push_back({ 0, a, {} }); o.push_back({ 4, a, {} });
        std::vector<Val> vs;
        switch (a < 0 ? CALI_TYPE_STRING : AS[a].type) {
        case CALI_TYPE_INT: vs = { Val::I(0), Val::I(7), Val::I(-1), Val::I(-IMAX), Val::I(IMAX), Val::I(6) }; break;
        case CALI_TYPE_UINT: vs = { Val::U(7), Val::U(0), Val::U(~0ull), Val::U(8), Val::U(1ull << 63), Val::U(1) }; break;
        case CALI_TYPE_DOUBLE: vs = { Val::D(0), Val::D(7), Val::D(-0.5), Val::D(1e300), Val::D(0.1), Val::D(-1e300) }; break;
        case CALI_TYPE_BOOL: vs = { Val::B(true), Val::B(false) }; break;
        default: vs = { Val::S("a"), Val::S("b"), Val::S("ab"), Val::S("q"), Val::S("aa"), Val::S("Z") }; break;
        }
        for (size_t k = 0; k < vs.size() && (int) k < nval; ++k)
            for (int op : { 1, 2, 3, 5, 6, 7 }) {
                if (AS[a < 0 ? 0 : a].type == CALI_TYPE_BOOL && (op & 3) > 1) continue; // truth values are not ordered
                o.push_back({ op, a, vs[k] });
            }
    }
    return o;
}
struct Recs { Base b { AS }; std::vector<MRec> m; std::vector<EntryList> r; };
static Recs& recs(int n)
{
    static std::map<int, Recs*> all;
    Recs*& p = all[n];
    if (!p) { p = new Recs; p->m = all_recs(alphabet(), n); for (auto& x : p->m) p->r.push_back(p->b.rec(x)); }
    return *p;
}
static void check(RecordSelector& sel, const std::vector<C>& cs, int nrec, const std::string& q)
{
    Recs& R = recs(nrec);
    std::string bits;
    for (size_t k = 0; k < R.m.size(); ++k) {
        bool want = true;
        for (auto& c : cs) want = want && holds(R.m[k], c);
        bool got = sel.pass(R.b.db, R.r[k]);
        VX_CHECK(got == want, "filter `%s' %s record %s", q.c_str(), got ? "keeps" : "drops", show(AS, R.m[k]).c_str());
        bits += want ? '1' : '0';
    }
    vx::seen(bits);
}
static void where_case(const std::vector<C>& cs, int nrec)
{
    std::string q = "where ";
    for (size_t i = 0; i < cs.size(); ++i) q += (i ? "," : "") + text(cs[i]);
    RecordSelector sel(parse(q));
    check(sel, cs, nrec, q);
}
static void select_case(const C& c) // --select syntax
{
    std::string q = (c.op & 4 ? "-" : "") + name(c.a) + ((c.op & 3) ? std::string(1, " =<>"[c.op & 3]) + c.v.text() : "");
    if ((c.op & 3) && c.v.text().empty()) return;
    QuerySpec s;
    s.filter.selection = QuerySpec::FilterSelection::List;
    s.filter.list = RecordSelector::parse(q);
    VX_CHECK(s.filter.list.size() == 1, "--select filter `%s' gives %zu conditions", q.c_str(), s.filter.list.size());
    RecordSelector sel(s);
    check(sel, { c }, 2, "--select " + q);
}
static void query_case(const std::vector<C>& cs) // through a complete query, record numbers come out
{
    Recs& R = recs(2);
    static Attribute num;
    static std::vector<EntryList> rs;
    if (!num) { num = R.b.db.create_attribute("num", CALI_TYPE_UINT, CALI_ATTR_ASVALUE); for (size_t k = 0; k < R.r.size(); ++k) { rs.push_back(R.r[k]); rs.back().push_back(Entry(num, Variant(cali_make_variant_from_uint(k)))); } }
    std::string q = "select num where ", exp;
    for (size_t i = 0; i < cs.size(); ++i) q += (i ? "," : "") + text(cs[i]);
    q += " format expand";
    for (size_t k = 0; k < R.m.size(); ++k) {
        bool want = true;
        for (auto& c : cs) want = want && holds(R.m[k], c);
        if (want) exp += vx::fmt("num=%zu\n", k);
    }
    std::string got = qm::run(R.b.db, q, rs);
    VX_CHECK(got == exp, "query `%s' returns records %s instead of %s", q.c_str(), got.substr(0, 300).c_str(), exp.substr(0, 300).c_str());
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        bool th = vx::thorough();
        static std::vector<C> c1 = conditions(6), c2 = conditions(th ? 6 : 4);
        int n1 = th ? 5 : 4, n2 = th ? 4 : 3;
        d.enumerate(vx::fmt("single conditions, records of up to %d entries", n1), c1.size(), [n1](uint64_t i) { where_case({ c1[i] }, n1); }, [](uint64_t i) { return text(c1[i]); }, 2);
        d.enumerate("--select filters", c1.size(), [](uint64_t i) { select_case(c1[i]); }, [](uint64_t i) { return text(c1[i]); }, 8);
        d.enumerate("complete queries", c1.size(), [](uint64_t i) { query_case({ c1[i] }); }, [](uint64_t i) { return text(c1[i]); }, 8);
        uint64_t n = c2.size();
        d.enumerate(vx::fmt("pairs of conditions, records of up to %d entries", n2), n * n, [n, n2](uint64_t i) { where_case({ c2[i % n], c2[i / n] }, n2); }, [n](uint64_t i) { return text(c2[i % n]) + "," + text(c2[i / n]); }, 64);
        d.enumerate("complete queries with two conditions", th ? n * n : n * 8, [n](uint64_t i) { query_case({ c2[i % n], c2[i / n * 13 % n] }); }, [n](uint64_t i) { return text(c2[i % n]) + "," + text(c2[i / n * 13 % n]); }, 16);
    };
    return d.main(argc, argv);
}
