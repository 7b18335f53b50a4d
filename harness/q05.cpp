// Q05: table and tree output shows every result exactly once, in order -- every combination of select list,
// sort order and width option on all sequences of up to three (thorough: four) records of a small alphabet;
// the output must be exactly the layout computed from the model records.
#include "qm.hpp"
#include <cmath>
using namespace qm;
static const std::vector<A> AS = { { "x", CALI_TYPE_INT, CALI_ATTR_ASVALUE }, { "d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE }, { "u", CALI_TYPE_UINT, CALI_ATTR_ASVALUE }, { "sv", CALI_TYPE_STRING, CALI_ATTR_ASVALUE }, { "hid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN }, { "al", CALI_TYPE_INT, CALI_ATTR_ASVALUE },
    { "fn", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "l q", CALI_TYPE_STRING, CALI_ATTR_NESTED }, { "s", CALI_TYPE_STRING, CALI_ATTR_DEFAULT }, { "p", CALI_TYPE_INT, CALI_ATTR_DEFAULT }, { "gl", CALI_TYPE_STRING, CALI_ATTR_GLOBAL } };
enum { aX, aD, aU, aSV, aH, aAL, aFN, aLP, aS, aP, aG, NA };
static const char* ALIAS = "Ali_s";
static Ent V(int a, Val v) { return { false, { { a, v } } }; }
static Ent R(std::vector<std::pair<int, Val>> v) { return { true, v }; }
static const std::vector<MRec>& RECS()
{
    auto S = Val::S; auto I = Val::I; auto D = Val::D; auto U = Val::U;
    static const std::vector<MRec> r = {
        {}, { V(aX, I(3)), V(aD, D(0.5)), V(aH, I(77)) }, { V(aX, I(-12)), R({ { aFN, S("a") } }) }, { V(aX, I(3)), V(aU, U(5)), R({ { aFN, S("a") }, { aFN, S("bb") } }) },
        { V(aD, D(2.25e-7)), R({ { aFN, S("c") } }) }, { V(aD, D(1e-7)), R({ { aFN, S("a") } }), V(aAL, I(1)) }, { R({ { aFN, S("a") }, { aFN, S("bb") }, { aFN, S("a") } }) },
        { R({ { aS, S("q") }, { aFN, S("a") } }), V(aX, I(100000)) }, { R({ { aFN, S("a") }, { aS, S("zebra crossing, long") }, { aLP, S("loop one") } }), V(aSV, S("value text")), V(aD, D(-1.5)) }, { R({ { aLP, S("loop one") }, { aFN, S("bb") } }), R({ { aP, I(7) } }), V(aX, I(4)) },
        { R({ { aP, I(70) }, { aS, S("q") } }), V(aSV, S("V")), V(aU, U(12345678901234567ull)) }, { V(aX, I(20)), R({ { aFN, S("c") }, { aFN, S("a very long function name<int, double>") } }), V(aAL, I(5)) }, { V(aH, I(1)), R({ { aG, S("no") }, { aFN, S("c") } }), V(aX, I(9)) } };
    return r;
}
static std::string cell(const Val& v) { return v.t == CALI_TYPE_DOUBLE ? std::to_string(v.d) : v.text(); }
struct Q {
    std::vector<int>         sel; bool all = false, star = false; // attributes in the select list; -1: unknown attribute
    std::map<int, std::string> as;
    std::vector<std::pair<int, int>> sort; // attribute, 1 ascending 2 descending
    int                      width = 0;
    std::vector<int>         path; // tree: path attributes (empty: hierarchy)
};
static std::string nm(int a) { return a == -2 ? "path" : a < 0 ? "unknown" : AS[a].name; } // -2: the hierarchy of all nested attributes
static std::string q(const std::string& s) { return s.find(' ') == std::string::npos ? s : "\"" + s + "\""; }
static std::string text(const Q& y, bool tree)
{
    std::string s;
    if (!y.all || y.star) {
        s = "select ";
        bool first = true;
        if (y.star) s += "*", first = false;
        for (int a : y.sel) { s += (first ? "" : ",") + q(nm(a)); first = false; if (y.as.count(a)) s += " as " + q(y.as.at(a)); }
    }
    s += tree ? " format tree" : " format table";
    std::vector<std::string> args;
    if (!y.path.empty()) { std::string p; for (int a : y.path) p += (p.empty() ? "" : ",") + nm(a); args.push_back("path-attributes=\"" + p + "\""); }
    if (y.width) args.push_back(vx::fmt("column-width=%d", y.width));
    for (size_t k = 0; k < args.size(); ++k) s += (k ? "," : "(") + args[k];
    if (!args.empty()) s += ")";
    for (size_t k = 0; k < y.sort.size(); ++k) s += (k ? "," : " order by ") + q(nm(y.sort[k].first)) + (y.sort[k].second == 2 ? " desc" : k % 2 ? " asc" : "");
    return s;
}
static std::string alias(const Q& y, int a) { return y.as.count(a) ? y.as.at(a) : (y.all && a == aAL) ? std::string(ALIAS) : nm(a); }
static bool right(int a) { return a >= 0 && (AS[a].type == CALI_TYPE_INT || AS[a].type == CALI_TYPE_UINT || AS[a].type == CALI_TYPE_DOUBLE); }
static size_t colw(size_t w, int max) { return std::max<size_t>(max > 0 ? std::min<size_t>(w, max) : w, 4); }
// text longer than its column is shortened in the middle
static std::string clamp(const std::string& s, size_t w) { return s.size() <= w ? s : w < 4 ? s.substr(0, w) : s.substr(0, w / 2 - 1) + "~~" + s.substr(s.size() - (w / 2 - 1)); }
static std::string pad(const std::string& s0, size_t w, bool r) { std::string s = clamp(s0, w); return (r ? std::string(w - s.size(), ' ') + s : s + std::string(w - s.size(), ' ')) + " "; }
static std::string rtrim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> o; std::istringstream is(t); for (std::string l; std::getline(is, l);) o.push_back(rtrim(l)); return o; }
static void compare(const std::vector<std::string>& got, const std::vector<std::string>& exp)
{
    for (size_t k = 0; k < std::min(got.size(), exp.size()); ++k) VX_CHECK(got[k] == rtrim(exp[k]), "line %zu is `%s', expected `%s'", k, got[k].c_str(), rtrim(exp[k]).c_str());
    VX_CHECK(got.size() == exp.size(), "%zu lines, expected %zu (next: `%s')", got.size(), exp.size(), got.size() > exp.size() ? got[exp.size()].c_str() : rtrim(exp[got.size()]).c_str());
}
// order the columns found in the header of automatic columns
static bool header_order(const std::string& head, const Q& y, std::vector<int>& cols)
{
    std::map<std::string, int> by;
    std::vector<size_t> pos;
    std::vector<std::pair<size_t, int>> o;
    for (int a : cols) {
        std::string n = alias(y, a);
        size_t p = std::string::npos;
        for (size_t f = head.find(n); f != std::string::npos; f = head.find(n, f + 1))
            if ((f == 0 || head[f - 1] == ' ') && (f + n.size() == head.size() || head[f + n.size()] == ' ')) p = f;
        if (p == std::string::npos) vx::fail("the header `%s' has no column %s", head.c_str(), n.c_str());
        o.push_back({ p, a });
    }
    std::sort(o.begin(), o.end());
    cols.clear();
    for (auto& p : o) cols.push_back(p.second);
    return true;
}
// value of a column in a table row: the first entry which has the attribute, hierarchies as a path
static std::string tcell(const MRec& r, int a)
{
    for (auto& e : r) {
        std::string s;
        for (auto& p : e.v) if (p.first == a || (a == -2 && e.ref && (AS[p.first].prop & CALI_ATTR_NESTED))) s += (s.empty() ? "" : "/") + cell(p.second);
        if (!s.empty()) return s;
    }
    return "";
}
struct KeyLess { // values of one attribute: missing ones first
    static int cmp(const MRec& l, const MRec& r, int a)
    {
        const Val *x = first(l, a), *y = first(r, a);
        if (!x || !y) return (x ? 1 : 0) - (y ? 1 : 0);
        if (x->t == CALI_TYPE_STRING) { int c = tcell(l, a).compare(tcell(r, a)); return c < 0 ? -1 : c > 0; }
        return x->cmp(*y);
    }
};
static std::vector<std::string> table(const std::vector<const MRec*>& recs, const Q& y, const std::string& head)
{
    std::vector<int> cols = y.sel;
    if (y.all) {
        std::set<int> u;
        for (auto* r : recs) for (auto& e : *r) for (auto& p : e.v) if (p.first != aH && p.first != aG) u.insert(p.first);
        cols.assign(u.begin(), u.end());
        header_order(head, y, cols);
    }
    std::vector<const MRec*> rows;
    for (auto* r : recs) {
        bool any = false, key = false;
        for (int a : cols) any |= !tcell(*r, a).empty();
        for (auto& s : y.sort) key |= !tcell(*r, s.first).empty();
        if (any || key) rows.push_back(r);
    }
    for (auto& s : y.sort) // the last criterion is the most significant one
        std::stable_sort(rows.begin(), rows.end(), [&](const MRec* l, const MRec* r) { int c = s.first < 0 ? 0 : KeyLess::cmp(*l, *r, s.first); return s.second == 2 ? c > 0 : c < 0; });
    std::vector<std::string> out(1);
    std::vector<size_t> w;
    for (int a : cols) {
        size_t m = alias(y, a).size();
        for (auto* r : rows) m = std::max(m, tcell(*r, a).size());
        w.push_back(colw(m, y.width ? y.width : 60));
    }
    for (size_t c = 0; c < cols.size(); ++c) out[0] += pad(alias(y, cols[c]), w[c], false);
    for (auto* r : rows) {
        out.push_back("");
        for (size_t c = 0; c < cols.size(); ++c) out.back() += pad(tcell(*r, cols[c]), w[c], right(cols[c]));
    }
    return out;
}
// --- tree
struct TN {
    int a = -1; Val v;
    std::vector<std::unique_ptr<TN>> ch;
    std::vector<const MRec*> recs;
    const Val* best(int key, bool max, const std::function<const Val*(const MRec&, int)>& get) const
    {
        const Val* b = nullptr;
        auto take = [&](const Val* x) { if (x && (!b || (max ? b->cmp(*x) < 0 : x->cmp(*b) < 0))) b = x; };
        for (auto* r : recs) take(get(*r, key));
        for (auto& c : ch) take(c->best(key, max, get));
        return b;
    }
};
static std::vector<std::string> tree(const std::vector<const MRec*>& recs, const Q& y, const std::string& head, bool& skip)
{
    auto is_path = [&](int a) { return y.path.empty() ? (AS[a].prop & CALI_ATTR_NESTED) != 0 : std::count(y.path.begin(), y.path.end(), a) > 0; };
    auto data = [&](const MRec& r, int a) -> const Val* { return is_path(a) ? nullptr : first(r, a); };
    std::set<int> known;
    TN root;
    for (auto* r : recs) {
        std::vector<std::pair<int, Val>> path;
        for (auto& e : *r) for (size_t k = e.v.size(); k-- > 0;) if (is_path(e.v[k].first)) path.push_back(e.v[k]);
        if (path.empty()) continue;
        std::reverse(path.begin(), path.end());
        TN* n = &root;
        for (auto& p : path) {
            TN* c = nullptr;
            for (auto& x : n->ch) if (x->a == p.first && x->v == p.second) c = x.get();
            if (!c) { n->ch.emplace_back(new TN); c = n->ch.back().get(); c->a = p.first; c->v = p.second; }
            n = c;
        }
        n->recs.push_back(r);
        for (auto& e : *r) for (auto& p : e.v) if (!is_path(p.first)) known.insert(p.first);
    }
    std::vector<int> cols = y.sel;
    for (int a : cols) if (a >= 0 && !known.count(a)) skip = true; // a selected attribute without any value
    cols.erase(std::remove(cols.begin(), cols.end(), -1), cols.end());
    if (y.all && !y.star) { cols.clear(); for (int a : known) if (a != aH && a != aG) cols.push_back(a); }
    if (y.star) cols.assign(known.begin(), known.end());
    if (skip) return {};
    if (y.all) header_order(head, y, cols);
    std::vector<size_t> w;
    std::function<void(const TN&, std::function<void(const TN&, int)>, int)> walk = [&](const TN& n, std::function<void(const TN&, int)> f, int l) { for (auto& c : n.ch) { f(*c, l); walk(*c, f, l + 1); } };
    int max = y.width ? y.width : 48;
    for (int a : cols) {
        std::string al = y.as.count(a) ? y.as.at(a) : a == aAL ? std::string(ALIAS) : nm(a);
        size_t m = al.size();
        walk(root, [&](const TN& n, int) { for (auto* r : n.recs) if (auto* v = data(*r, a)) m = std::max(m, cell(*v).size()); }, 0);
        w.push_back(colw(m, max));
    }
    size_t pw = 4;
    walk(root, [&](const TN& n, int l) { pw = std::max(pw, 2 * l + cell(n.v).size()); }, 0);
    pw = colw(pw, max);
    std::vector<std::string> out(1);
    out[0] = pad("Path", pw, false);
    for (size_t c = 0; c < cols.size(); ++c) { int a = cols[c]; out[0] += pad(y.as.count(a) ? y.as.at(a) : a == aAL ? std::string(ALIAS) : nm(a), w[c], false); }
    auto label = [&](const std::string& s, size_t l) {
        std::string t(std::min(2 * l, pw - 2), ' ');
        t += 2 * l >= pw ? std::string("..") : s == " |-" ? s : clamp(s, pw - 2 * l).substr(0, pw);
        return t + std::string(t.size() < pw ? pw - t.size() : 0, ' ') + " ";
    };
    std::function<void(TN&, size_t)> print = [&](TN& parent, size_t l) {
        std::vector<TN*> ch;
        for (auto& c : parent.ch) ch.push_back(c.get());
        std::reverse(ch.begin(), ch.end()); // without a sort order, the latest child comes first
        for (auto& s : y.sort) {
            if (s.first < 0) continue;
            bool desc = s.second == 2;
            for (auto* n : ch) // records of one node: those with the value in order, others behind
                std::stable_sort(n->recs.begin(), n->recs.end(), [&](const MRec* a, const MRec* b) {
                    const Val *x = data(*a, s.first), *z = data(*b, s.first);
                    if (!x || !z) return x && !z;
                    return desc ? z->cmp(*x) < 0 : x->cmp(*z) < 0;
                });
            std::stable_sort(ch.begin(), ch.end(), [&](TN* a, TN* b) { // nodes: by the least or greatest value below them, without one is least
                const Val *x = a->best(s.first, desc, data), *z = b->best(s.first, desc, data);
                int c = !x || !z ? (x ? 1 : 0) - (z ? 1 : 0) : x->cmp(*z);
                return desc ? c > 0 : c < 0;
            });
        }
        for (auto* n : ch) {
            out.push_back(label(cell(n->v), l));
            bool multi = n->recs.size() > 1;
            for (auto* r : n->recs) {
                if (multi) out.push_back(label(" |-", l));
                for (size_t c = 0; c < cols.size(); ++c) { auto* v = data(*r, cols[c]); out.back() += pad(v ? cell(*v) : "", w[c], right(cols[c])); }
            }
            print(*n, l + 1);
        }
    };
    print(root, 0);
    return out;
}
static std::vector<A> base_as() { std::vector<A> a = AS; a[aAL].name = "al.plain"; return a; }
static const std::vector<A> BAS = base_as();
struct B : Base {
    B() : Base(BAS)
    {
        Attribute al = db.create_attribute("attribute.alias", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
        Variant v(ALIAS);
        at[aAL] = db.create_attribute("al", CALI_TYPE_INT, CALI_ATTR_ASVALUE, 1, &al, &v);
    }
};
static std::vector<Q> queries(bool tree)
{
    std::vector<Q> sel, o;
    auto S = [&](std::vector<int> s, std::map<int, std::string> as = {}) { Q y; y.sel = s; y.as = as; sel.push_back(y); };
    { Q y; y.all = true; sel.push_back(y); y.star = true; sel.push_back(y); y.sel = { aX }; y.as = { { aX, "X2" } }; sel.push_back(y); }
    S({ aX });
    if (!tree) { S({ aFN, aX }); S({ aX, aLP, aFN }, { { aLP, "The Loop" } }); S({ aP, aS, aFN, aD }); S({ -2 }); S({ -2, aX, aFN }); S({ -2, aS }, { { -2, "The path" } }); }
    S({ aD, aX }, { { aX, "A longer name" }, { aD, "D" } });
    S({ aSV, aS, aU });
    S({ -1, aAL, aX });
    S({ aS, aP }, { { aS, "a column title longer than the column" } });
    std::vector<std::vector<std::pair<int, int>>> sorts = { {}, { { aX, 1 } }, { { aX, 2 } }, { { aD, 1 } }, { { aS, 2 }, { aX, 1 } }, { { aX, 1 }, { aU, 2 } }, { { -1, 1 }, { aD, 2 } } };
    if (!tree) { sorts.push_back({ { aFN, 1 } }); sorts.push_back({ { aFN, 2 }, { aX, 2 } }); }
    for (auto y : sel)
        for (auto& s : sorts)
            for (int w : { 0, 10, 5, 100 }) { y.sort = s; y.width = w; o.push_back(y); if (tree && (w == 0 || w == 10)) { y.path = { aFN }; o.push_back(y); y.path = { aS, aLP }; o.push_back(y); y.path.clear(); } }
    return o;
}
static std::vector<int> seq_of(uint64_t n)
{
    uint64_t B = RECS().size(), len = 0, cnt = 1;
    while (n >= cnt) { n -= cnt; cnt *= B; ++len; }
    std::vector<int> s;
    for (uint64_t k = 0; k < len; ++k) { s.push_back(n % B); n /= B; }
    return s;
}
static uint64_t seqs(int len) { uint64_t B = RECS().size(), n = 1, c = 1; for (int k = 0; k < len; ++k) { c *= B; n += c; } return n; }
static std::string show_seq(const std::vector<int>& s) { std::string o; for (int k : s) o += show(AS, RECS()[k]) + " "; return o; }
static void one(const std::vector<int>& seq, bool tr, const std::vector<Q>& qs, const std::vector<QuerySpec>& specs)
{
    B b;
    std::vector<const MRec*> rs;
    std::vector<EntryList> recs;
    for (int k : seq) { rs.push_back(&RECS()[k]); recs.push_back(b.rec(RECS()[k])); }
    for (size_t k = 0; k < qs.size(); ++k) {
        std::ostringstream os;
        OutputStream o;
        o.set_stream(&os);
        { QueryProcessor p(specs[k], o); for (auto& r : recs) p.process_record(b.db, r); p.flush(b.db); }
        std::vector<std::string> got = lines(os.str());
        try {
            VX_CHECK(!got.empty(), "no output");
            bool skip = false;
            std::vector<std::string> exp = tr ? tree(rs, qs[k], got[0], skip) : table(rs, qs[k], got[0]);
            if (!skip) compare(got, exp);
        } catch (vx::Fail& f) { f.msg = vx::fmt("`%s': %s", text(qs[k], tr).c_str(), f.msg.c_str()); throw; }
    }
    uint64_t h = 7; for (int x : seq) h = h * 31 + x + 1;
    vx::seen(h * 2 + tr);
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        static std::vector<Q> qs[2];
        static std::vector<QuerySpec> specs[2];
        for (int t = 0; t < 2; ++t) {
            qs[t] = queries(t);
            for (auto& y : qs[t]) specs[t].push_back(parse(text(y, t)));
            d.enumerate(t ? "tree" : "table", seqs(vx::thorough() ? 4 : 3), [t](uint64_t i) { one(seq_of(i), t, qs[t], specs[t]); }, [t](uint64_t i) { return show_seq(seq_of(i)); }, 16);
        }
    };
    return d.main(argc, argv);
}
