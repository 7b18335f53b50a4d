// Q01: query text is parsed exactly or rejected.
//
//  1. every ordered combination of up to three clauses (each from an alphabet of clause forms), in every
//     letter case, spacing and quoting style, is parsed and compared with the query it was generated from;
//  2. every string up to a length over the special characters, quoted in two ways, as a name or value at
//     every position of a query;
//  3. every token sequence up to a length is parsed and compared with an independent recognizer of the language
//     (accepted with the same meaning, or rejected with a message);
//  every accepted query is printed and parsed again.
#include "vx.hpp"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/QuerySpec.h"
#include <sstream>
using namespace cali;
typedef std::vector<std::string> SV;

static std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
        if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c;
    return "`" + r + "`";
}
// ---- the meaning of a query
struct Cond {
    int op = 0; // 1 exist 2 notexist 3 eq 4 ne 5 lt 6 gt 7 le 8 ge
    std::string a, v;
};
struct Let { std::string t, f; SV args; Cond c; };
struct M {
    std::vector<Let> let;
    std::vector<std::pair<std::string, SV>> agg;
    int gb = 0, sel = 0; // 0 default, 1 list, 2 all
    bool gbpath = false, selpath = false;
    SV gbl, sell;
    std::vector<Cond> where;
    std::vector<std::pair<std::string, char>> sort;
    std::string fmt;
    std::map<std::string, std::string> kw, alias, unit;
};
static void q(std::string& o, const std::string& s) { o += '{'; o += s; o += '}'; }
static std::string dump(const M& m)
{
    std::string o;
    auto cond = [&](const Cond& c) { o += char('0' + c.op); if (c.op) q(o, c.a); if (c.op > 2) q(o, c.v); };
    for (auto& l : m.let) { o += " let"; q(o, l.t); o += l.f; for (auto& a : l.args) q(o, a); cond(l.c); }
    for (auto& a : m.agg) { o += " agg " + a.first; for (auto& s : a.second) q(o, s); }
    o += " gb" + std::to_string(m.gb); if (m.gb == 1) { o += m.gbpath ? "P" : ""; for (auto& s : m.gbl) q(o, s); }
    o += " sel" + std::to_string(m.sel); if (m.sel == 1) { o += m.selpath ? "P" : ""; for (auto& s : m.sell) q(o, s); }
    for (auto& c : m.where) { o += " where"; cond(c); }
    for (auto& s : m.sort) { o += " sort"; q(o, s.first); o += s.second; }
    o += " fmt " + m.fmt;
    for (auto& p : m.kw) { q(o, p.first); q(o, p.second); }
    for (auto& p : m.alias) if (!p.first.empty()) { o += " as"; q(o, p.first); q(o, p.second); }
    for (auto& p : m.unit) if (!p.first.empty()) { o += " unit"; q(o, p.first); q(o, p.second); }
    return o;
}
static M model(const QuerySpec& s)
{
    M m;
    auto cond = [](const QuerySpec::Condition& c) {
        Cond r;
        typedef QuerySpec::Condition C;
        r.op = c.op == C::Exist ? 1 : c.op == C::NotExist ? 2 : c.op == C::Equal ? 3 : c.op == C::NotEqual ? 4 : c.op == C::LessThan ? 5 : c.op == C::GreaterThan ? 6 : c.op == C::LessOrEqual ? 7 : c.op == C::GreaterOrEqual ? 8 : 0;
        r.a = c.attr_name; r.v = c.value;
        return r;
    };
    for (auto& p : s.preprocess_ops) m.let.push_back({ p.target, p.op.op.name ? p.op.op.name : "(null)", p.op.args, cond(p.cond) });
    if (s.aggregate.selection == QuerySpec::AggregationSelection::List)
        for (auto& a : s.aggregate.list) m.agg.push_back({ a.op.name, a.args });
    auto sel = [](int x) { return x == QuerySpec::AttributeSelection::List ? 1 : x == QuerySpec::AttributeSelection::All ? 2 : x == QuerySpec::AttributeSelection::None ? 3 : 0; };
    m.gb = sel(s.groupby.selection); m.gbl = s.groupby.list; m.gbpath = s.groupby.use_path;
    m.sel = sel(s.select.selection); m.sell = s.select.list; m.selpath = s.select.use_path;
    if (s.filter.selection == QuerySpec::FilterSelection::List) for (auto& c : s.filter.list) m.where.push_back(cond(c));
    if (s.sort.selection == QuerySpec::SortSelection::List) for (auto& x : s.sort.list) m.sort.push_back({ x.attribute, x.order == QuerySpec::SortSpec::Ascending ? 'A' : x.order == QuerySpec::SortSpec::Descending ? 'D' : '?' });
    if (s.format.opt == QuerySpec::FormatSpec::User) { m.fmt = s.format.formatter.name ? s.format.formatter.name : "(null)"; m.kw = s.format.kwargs; }
    m.alias = s.aliases; m.unit = s.units;
    return m;
}
static std::string print(const QuerySpec& s) { std::ostringstream o; o << s; return o.str(); }
// the parsed text must mean m
static void expect(const std::string& text, const M& m, bool roundtrip = true)
{
    CalQLParser p(text.c_str());
    VX_CHECK(!p.error(), "query %s rejected: %s", esc(text).c_str(), p.error_msg().c_str());
    std::string want = dump(m), got = dump(model(p.spec()));
    VX_CHECK(want == got, "query %s is read as\n%s\ninstead of\n%s", esc(text).c_str(), got.c_str(), want.c_str());
    if (!roundtrip) return;
    std::string t2 = print(p.spec());
    CalQLParser p2(t2.c_str());
    VX_CHECK(!p2.error(), "query %s is printed as %s which is rejected: %s", esc(text).c_str(), esc(t2).c_str(), p2.error_msg().c_str());
    std::string got2 = dump(model(p2.spec()));
    VX_CHECK(want == got2, "query %s is printed as %s, which means\n%s\ninstead of\n%s", esc(text).c_str(), esc(t2).c_str(), got2.c_str(), want.c_str());
}
// ---- the functions of the language
static const std::map<std::string, std::pair<int, int>> AGG = { { "count", { 0, 0 } }, { "sum", { 1, 1 } }, { "ratio", { 2, 3 } }, { "percent_total", { 1, 1 } }, { "inclusive_sum", { 1, 1 } },
    { "min", { 1, 1 } }, { "max", { 1, 1 } }, { "avg", { 1, 1 } }, { "scale", { 2, 2 } }, { "inclusive_scale", { 2, 2 } }, { "inclusive_percent_total", { 1, 1 } }, { "any", { 1, 1 } },
    { "scale_count", { 1, 1 } }, { "inclusive_ratio", { 2, 3 } }, { "inclusive_min", { 1, 1 } }, { "inclusive_max", { 1, 1 } }, { "variance", { 1, 1 } } };
static std::string aggname(const std::string& f, const SV& a)
{
    static const std::map<std::string, std::string> pre = { { "inclusive_sum", "inclusive" }, { "inclusive_scale", "iscale" }, { "inclusive_percent_total", "ipercent_total" },
        { "inclusive_ratio", "iratio" }, { "inclusive_min", "imin" }, { "inclusive_max", "imax" } };
    if (f == "count") return "count";
    if (f == "scale_count") return "scount";
    std::string p = pre.count(f) ? pre.at(f) : f;
    return p + "#" + a[0] + (f == "ratio" || f == "inclusive_ratio" ? "/" + a[1] : "");
}
static const std::map<std::string, std::pair<int, int>> LETS = { { "ratio", { 2, 3 } }, { "scale", { 2, 2 } }, { "truncate", { 1, 2 } }, { "first", { 1, 8 } }, { "sum", { 1, 8 } }, { "leaf", { 0, 1 } } };
static const std::map<std::string, SV> FMT = { { "cali", {} }, { "json", { "object", "pretty", "quote-all", "separate-nested", "records", "split" } }, { "expand", {} }, { "format", { "format", "title" } },
    { "table", { "column-width", "print-globals" } }, { "tree", { "path-attributes", "column-width", "print-globals" } }, { "json-split", {} } };
static std::string lower(std::string s) { for (char& c : s) c = tolower((unsigned char) c); return s; }

// ---- part 1: clause forms; K keyword/function (any case), W name or value (may be quoted), P punctuation, A raw argument prefix
struct Tok { char k; std::string s; };
typedef std::vector<Tok> Toks;
struct Form { int clause; Toks t; std::function<void(M&)> apply; };
static Toks T(const char* s) // words separated by blanks: k:.. keyword, others by first character; ~ stands for a blank in a name
{
    Toks r;
    std::istringstream is(s);
    std::string w;
    while (is >> w) {
        for (char& c : w) if (c == '~') c = ' ';
        if (w.size() == 1 && strchr("(),=<>*", w[0])) r.push_back({ 'P', w });
        else if (w[0] == '!') r.push_back({ 'W', w.substr(1) });
        else if (w[0] == '^') { auto p = w.find('='); r.push_back({ 'A', w.substr(1, p) }); r.push_back({ 'W', w.substr(p + 1) }); }
        else if (w[0] == '@') r.push_back({ 'R', w.substr(1) });
        else r.push_back({ 'K', w });
    }
    return r;
}
static std::vector<Form> forms()
{
    std::vector<Form> f;
    auto add = [&](int c, const char* t, std::function<void(M&)> a) { f.push_back({ c, T(t), a }); };
    add(0, "let !l = ratio ( !a , !b )", [](M& m) { m.let.push_back({ "l", "ratio", { "a", "b" }, {} }); });
    add(0, "let !l = first ( !a , !b#c , !x~y ) , !m = scale ( !a , !2 )", [](M& m) { m.let.push_back({ "l", "first", { "a", "b#c", "x y" }, {} }); m.let.push_back({ "m", "scale", { "a", "2" }, {} }); });
    add(0, "let !l = truncate ( !a ) if not !b = !3", [](M& m) { m.let.push_back({ "l", "truncate", { "a" }, { 4, "b", "3" } }); });
    add(0, "let !l = leaf ( ) if !a , !x~y = sum ( !a , !b ) if !a < !2", [](M& m) { m.let.push_back({ "l", "leaf", {}, { 1, "a", "" } }); m.let.push_back({ "x y", "sum", { "a", "b" }, { 5, "a", "2" } }); });
    add(1, "select *", [](M& m) { m.sel = 2; });
    add(1, "select !a", [](M& m) { m.sel = 1; m.sell = { "a" }; });
    add(1, "select !a as !A~1 unit !U", [](M& m) { m.sel = 1; m.sell = { "a" }; m.alias["a"] = "A 1"; m.unit["a"] = "U"; });
    add(1, "select !b , sum ( !b#c ) as !x~y , !path", [](M& m) { m.sel = 1; m.sell = { "b", "sum#b#c" }; m.selpath = true; m.agg.push_back({ "sum", { "b#c" } }); m.alias["sum#b#c"] = "x y"; });
    add(1, "select count ( ) , *", [](M& m) { m.sel = 2; m.agg.push_back({ "count", {} }); });
    add(1, "select * , !a as !A , scale ( !t , !1e-9 ) as !T unit !s", [](M& m) { m.sel = 2; m.agg.push_back({ "scale", { "t", "1e-9" } }); m.alias["a"] = "A"; m.alias["scale#t"] = "T"; m.unit["scale#t"] = "s"; });
    add(1, "select ratio ( !a , !b , !2 ) unit !~ , inclusive_percent_total ( !a )", [](M& m) { m.sel = 1; m.sell = { "ratio#a/b", "ipercent_total#a" }; m.agg.push_back({ "ratio", { "a", "b", "2" } }); m.agg.push_back({ "inclusive_percent_total", { "a" } }); m.unit["ratio#a/b"] = " "; });
    add(2, "aggregate count ( )", [](M& m) { m.agg.push_back({ "count", {} }); });
    add(2, "aggregate count , sum ( !a ) , inclusive_ratio ( !a , !b )", [](M& m) { m.agg.push_back({ "count", {} }); m.agg.push_back({ "sum", { "a" } }); m.agg.push_back({ "inclusive_ratio", { "a", "b" } }); });
    add(3, "group by !a", [](M& m) { m.gb = 1; m.gbl = { "a" }; });
    add(3, "group by !path", [](M& m) { m.gb = 1; m.gbpath = true; });
    add(3, "group by !a , !path , !x~y , !b#c", [](M& m) { m.gb = 1; m.gbl = { "a", "x y", "b#c" }; m.gbpath = true; });
    add(3, "group by !prop:nested , !a", [](M& m) { m.gb = 1; m.gbl = { "a" }; m.gbpath = true; });
    add(4, "where !a", [](M& m) { m.where = { { 1, "a", "" } }; });
    add(4, "where not !a , !b = !x~y", [](M& m) { m.where = { { 2, "a", "" }, { 3, "b", "x y" } }; });
    add(4, "where !a = !1 , not !b = !2", [](M& m) { m.where = { { 3, "a", "1" }, { 4, "b", "2" } }; });
    add(4, "where !a < !1 , not !b < !2.5 , !c", [](M& m) { m.where = { { 5, "a", "1" }, { 8, "b", "2.5" }, { 1, "c", "" } }; });
    add(4, "where !x~y > !-1 , not !b > !z", [](M& m) { m.where = { { 6, "x y", "-1" }, { 7, "b", "z" } }; });
    add(5, "order by !a", [](M& m) { m.sort = { { "a", 'A' } }; });
    add(5, "order by !a desc , !b#c", [](M& m) { m.sort = { { "a", 'D' }, { "b#c", 'A' } }; });
    add(5, "order by !a asc , !x~y desc", [](M& m) { m.sort = { { "a", 'A' }, { "x y", 'D' } }; });
    add(6, "format table", [](M& m) { m.fmt = "table"; });
    add(6, "format json ( !object , !pretty )", [](M& m) { m.fmt = "json"; m.kw = { { "object", "true" }, { "pretty", "true" } }; });
    add(6, "format tree ( ^column-width=42 , ^path-attributes=a,b )", [](M& m) { m.fmt = "tree"; m.kw = { { "column-width", "42" }, { "path-attributes", "a,b" } }; });
    add(6, "format tree ( !a,b , !10 )", [](M& m) { m.fmt = "tree"; m.kw = { { "column-width", "10" }, { "path-attributes", "a,b" } }; });
    add(6, "format format ( !%[4]a%~=~(%b%) , !t~i )", [](M& m) { m.fmt = "format"; m.kw = { { "format", "%[4]a% = (%b%)" }, { "title", "t i" } }; });
    add(6, "format json-split", [](M& m) { m.fmt = "json-split"; });
    return f;
}
static const std::vector<Form> FORMS = forms();
static std::string quoted(const std::string& w, int style)
{
    bool need = w.empty() || w.find_first_of(" ,;=<>()\"\\\n\t*") != std::string::npos;
    if (style == 0 && !need) return w;
    std::string r;
    if (style == 2) { for (char c : w) { if ((unsigned char) c < 0x80) r += '\\'; r += c; } return r; }
    r = "\"";
    for (char c : w) { if (c == '"' || c == '\\') r += '\\'; r += c; }
    return r + "\"";
}
static std::string text(const Toks& t, int style)
{
    int cs = style % 3, sp = style / 3 % 3, qs = style / 9;
    std::string o;
    char prev = 'P';
    for (auto& k : t) {
        std::string s = k.s;
        if (k.k == 'K') for (size_t i = 0; i < s.size(); ++i) s[i] = cs == 1 || (cs == 2 && i % 2 == 0) ? toupper(s[i]) : tolower(s[i]);
        if (k.k == 'W') s = quoted(s, qs);
        bool word = k.k != 'P', glue = prev == 'A';
        if (!o.empty() && !glue) {
            if (sp == 0 && word && prev != 'P') o += ' ';
            // a closing parenthesis or an asterisk ends a word by itself; "* as" needs a blank
            else if (sp == 0 && word && prev == 'P' && o.back() == '*') o += ' ';
            if (sp == 0 && !word && s == "*" && prev != 'P') o += ' ';
            if (sp == 1) o += ' ';
            if (sp == 2) o += "\n \t";
        }
        o += s;
        prev = k.k;
    }
    if (sp == 2) o = " \n" + o + "\n";
    return o;
}
static const int NSTYLE = 27;
static std::vector<int> pick(uint64_t i, int n) // n clauses of different kinds
{
    std::vector<int> v;
    for (int k = 0; k < n; ++k) v.push_back(i % FORMS.size()), i /= FORMS.size();
    return v;
}
static bool distinct_clauses(const std::vector<int>& v) { for (size_t a = 0; a < v.size(); ++a) for (size_t b = 0; b < a; ++b) if (FORMS[v[a]].clause == FORMS[v[b]].clause) return false; return true; }
static void form_case(const std::vector<int>& v, int style)
{
    if (!distinct_clauses(v)) return;
    M m;
    Toks t;
    for (int x : v) { FORMS[x].apply(m); t.insert(t.end(), FORMS[x].t.begin(), FORMS[x].t.end()); }
    expect(text(t, style), m, style < 2);
    if (style == 0) vx::seen(dump(m));
}
static std::string form_desc(const std::vector<int>& v, int style)
{
    Toks t;
    for (int x : v) t.insert(t.end(), FORMS[x].t.begin(), FORMS[x].t.end());
    return esc(text(t, style));
}
// ---- part 2: strings at every position
static const SV CH = { "a", " ", ",", "=", "(", ")", "\"", "\\", "<", ">", ";", "\n", "*", "\xc3\xa4", "#", "." };
static const int NPOS = 16;
static std::string str(uint64_t i, int len) { std::string s; for (int k = 0; k < len; ++k) s += CH[i % CH.size()], i /= CH.size(); return s; }
static void str_case(const std::string& s, int style, int pos)
{
    std::string w = quoted(s, style), t;
    M m;
    switch (pos) {
    case 0: t = "select " + w; m.sel = 1; m.sell = { s }; break;
    case 1: t = "select b," + w + " as x,c"; m.sel = 1; m.sell = { "b", s, "c" }; m.alias[s] = "x"; break;
    case 2: t = "select b as " + w + " where b"; m.sel = 1; m.sell = { "b" }; m.alias["b"] = s; m.where = { { 1, "b", "" } }; break;
    case 3: t = "select b unit " + w + ",c"; m.sel = 1; m.sell = { "b", "c" }; m.unit["b"] = s; break;
    case 4: t = "select sum(" + w + ") as x"; m.sel = 1; m.sell = { "sum#" + s }; m.alias["sum#" + s] = "x"; m.agg = { { "sum", { s } } }; break;
    case 5: t = "select ratio(b," + w + ",2)"; m.sel = 1; m.sell = { "ratio#b/" + s }; m.agg = { { "ratio", { "b", s, "2" } } }; break;
    case 6: t = "aggregate count(),max(" + w + ") group by b"; m.agg = { { "count", {} }, { "max", { s } } }; m.gb = 1; m.gbl = { "b" }; break;
    case 7: t = "group by b," + w + " format table"; m.gb = 1; m.gbl = { "b", s }; m.fmt = "table"; break;
    case 8: t = "where " + w + "=1,not " + w; m.where = { { 3, s, "1" }, { 2, s, "" } }; break;
    case 9: t = "where b=" + w + ",not b<" + w + ",b>" + w; m.where = { { 3, "b", s }, { 8, "b", s }, { 6, "b", s } }; break;
    case 10: t = "order by " + w + " desc," + w; m.sort = { { s, 'D' }, { s, 'A' } }; break;
    case 11: t = "let " + w + "=first(b," + w + ") if " + w + "=" + w; m.let = { { s, "first", { "b", s }, { 3, s, s } } }; break;
    case 12: t = "format format(" + w + ")"; m.fmt = "format"; m.kw = { { "format", s } }; break;
    case 13: t = "format format(\"%a%\"," + w + ") select b"; m.fmt = "format"; m.kw = { { "format", "%a%" }, { "title", s } }; m.sel = 1; m.sell = { "b" }; break;
    case 14: t = "format tree(path-attributes=" + w + ")"; m.fmt = "tree"; m.kw = { { "path-attributes", s } }; break;
    case 15: t = "select *," + w + " as x unit y"; m.sel = 2; m.alias[s] = "x"; m.unit[s] = "y"; break;
    }
    // quoting protects no keyword and an unquoted argument with '=' is a named one
    if ((pos == 12 || pos == 13) && w[0] != '"' && w[0] != '\\' && s.find('=') != std::string::npos) return;
    expect(t, m);
    if (style == 1 && pos == 0) vx::seen(s);
}
// ---- part 3: token sequences against an independent recognizer
struct Reject {};
struct Rec {
    const SV& t;
    size_t p = 0;
    M m;
    bool punct(size_t i) const { return t[i].size() == 1 && strchr("(),=<>;", t[i][0]); }
    std::string word() { return p < t.size() && !punct(p) ? unq(t[p++]) : std::string(); }
    static std::string unq(const std::string& s) { return s[0] == '"' ? s.substr(1, s.size() - 2) : s; }
    bool accept(char c) { if (p < t.size() && t[p].size() == 1 && t[p][0] == c) { ++p; return true; } return false; }
    bool at(char c) const { return p < t.size() && t[p].size() == 1 && t[p][0] == c; }
    // arguments contain every character up to a comma or parenthesis
    std::vector<std::pair<std::string, bool>> args()
    {
        std::vector<std::pair<std::string, bool>> r;
        if (!accept('(')) return r;
        for (;;) {
            std::string s;
            bool quo = false;
            if (p < t.size() && !strchr("(),;", t[p][0])) { quo = t[p][0] == '"'; s = unq(t[p++]); }
            if (!at(',') && !at(')')) throw Reject();
            if (!s.empty()) r.push_back({ s, quo });
            if (accept(')')) return r;
            ++p;
        }
    }
    static SV plain(const std::vector<std::pair<std::string, bool>>& a) { SV r; for (auto& x : a) r.push_back(x.first); return r; }
    SV fargs(const std::map<std::string, std::pair<int, int>>& defs, const std::string& f)
    {
        SV a = plain(args());
        auto it = defs.find(f);
        if (it == defs.end() || (int) a.size() < it->second.first || (int) a.size() > it->second.second) throw Reject();
        return a;
    }
    Cond cond()
    {
        Cond c;
        std::string w = word();
        bool neg = lower(w) == "not";
        if (neg) w = word();
        if (w.empty()) throw Reject();
        c.a = w; c.op = neg ? 2 : 1;
        const char* ops = "=<>";
        for (int k = 0; k < 3; ++k)
            if (accept(ops[k])) {
                c.v = word();
                if (c.v.empty()) throw Reject();
                static const int POS[] = { 3, 5, 6 }, NEG[] = { 4, 8, 7 };
                c.op = neg ? NEG[k] : POS[k];
                break;
            }
        return c;
    }
    void clause(std::string w)
    {
        for (;;) { // a clause may end in the keyword of the next one
            w = lower(w);
            if (w == "group" || w == "order") { if (lower(word()) != "by") throw Reject(); }
            std::string next;
            if (w == "aggregate") {
                do { std::string f = lower(word()); SV a = fargs(AGG, f); m.agg.push_back({ f, a }); } while (accept(','));
            } else if (w == "group") {
                do { std::string s = word(); if (!s.empty()) { m.gb = 1; if (s == "path") m.gbpath = true; else m.gbl.push_back(s); } } while (accept(','));
            } else if (w == "where") {
                do { m.where.push_back(cond()); } while (accept(','));
            } else if (w == "order") {
                do {
                    std::string s = word();
                    if (s.empty()) throw Reject();
                    next = lower(word());
                    m.sort.push_back({ s, next == "desc" ? 'D' : 'A' });
                    if (next == "asc" || next == "desc") next.clear();
                    if (!next.empty()) break;
                } while (accept(','));
            } else if (w == "format") {
                std::string f = lower(word());
                auto it = FMT.find(f);
                if (it == FMT.end()) throw Reject();
                auto a = args();
                if (a.size() > it->second.size() || (f == "format" && a.empty())) throw Reject();
                m.fmt = f;
                m.kw.clear();
                auto known = [&](const std::string& s) { for (auto& k : it->second) if (k == s) return true; return false; };
                for (size_t i = 0; i < a.size(); ++i) {
                    auto e = a[i].first.find('=');
                    if (known(a[i].first)) m.kw[a[i].first] = "true";
                    else if (e != std::string::npos && e > 0 && known(a[i].first.substr(0, e))) m.kw[a[i].first.substr(0, e)] = a[i].first.substr(e + 1);
                    else if (e != std::string::npos && e > 0 && !a[i].second) throw Reject();
                    else m.kw[it->second[i]] = a[i].first;
                }
            } else if (w == "let") {
                do {
                    Let l;
                    l.t = word();
                    if (l.t.empty() || !accept('=')) throw Reject();
                    l.f = lower(word());
                    l.args = fargs(LETS, l.f);
                    for (auto& o : m.let) if (o.t == l.t) throw Reject();
                    next = lower(word());
                    if (next == "if") { l.c = cond(); next.clear(); }
                    m.let.push_back(l);
                    if (!next.empty()) break;
                } while (accept(','));
            } else if (w == "select") {
                do {
                    std::string name;
                    if (at('*')) { ++p; m.sel = 2; }
                    else {
                        std::string s = word();
                        bool fn = at('(');
                        if (fn) {
                            std::string f = lower(s);
                            SV a = fargs(AGG, f);
                            m.agg.push_back({ f, a });
                            s = aggname(f, a);
                        }
                        if (s.empty()) throw Reject();
                        name = s;
                        if (m.sel != 2) { m.sel = 1; if (s == "path" && !fn) m.selpath = true; else m.sell.push_back(s); }
                    }
                    next = lower(word());
                    if (next == "as") { std::string a = word(); if (a.empty()) throw Reject(); m.alias[name] = a; next = lower(word()); }
                    if (next == "unit") {
                        std::string a = at('<') || at('>') ? t[p++] : word();
                        if (a.empty()) throw Reject();
                        m.unit[name] = a;
                        next = lower(word());
                    }
                    if (!next.empty()) break;
                } while (accept(','));
            } else throw Reject();
            if (next.empty()) return;
            w = next;
        }
    }
    void run() { while (p < t.size()) { std::string w = word(); if (w.empty()) throw Reject(); clause(w); } }
};
static const SV TOK = { "select", "group", "by", "where", "let", "order", "format", "aggregate", "as", "unit", "not", "if", "desc", "a", "sum", "tree", "(", ")", ",", "=", "<", "*", "\"x y\"", ";" };
static void tok_case(const SV& t)
{
    std::string text;
    for (size_t i = 0; i < t.size(); ++i) { if (i) text += ' '; text += t[i]; }
    Rec r { t };
    bool ok = true;
    try { r.run(); } catch (Reject&) { ok = false; }
    if (ok) {
        bool kw = r.m.alias.count("") || r.m.unit.count("");
        expect(text, r.m, !kw && t.size() < 6 && text.find('*') == std::string::npos);
        static thread_local int n;
        if (++n % 16 == 0) vx::seen(dump(r.m));
    } else {
        CalQLParser p(text.c_str());
        VX_CHECK(p.error(), "%s is not a query but is read as %s", esc(text).c_str(), dump(model(p.spec())).c_str());
        VX_CHECK(!p.error_msg().empty(), "%s is rejected without a message", esc(text).c_str());
    }
}
static SV toks(const SV& pre, uint64_t i, int len) { SV t = pre; for (int k = 0; k < len; ++k) t.push_back(TOK[i % TOK.size()]), i /= TOK.size(); return t; }
static std::string join(const SV& t) { std::string s; for (auto& x : t) s += (s.empty() ? "" : " ") + x; return esc(s); }
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }

int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        bool th = vx::thorough();
        uint64_t nf = FORMS.size();
        for (int n = 1; n <= (th ? 4 : 3); ++n) {
            int ns = n <= 2 || (th && n == 3) ? NSTYLE : th ? 3 : 4;
            auto st = [ns](uint64_t i) { return ns == NSTYLE ? (int) (i % ns) : (int) (i % ns) * 13 % NSTYLE; };
            d.enumerate(vx::fmt("%d clauses x %d spellings", n, ns), ipow(nf, n) * ns, [n, ns, st](uint64_t i) { form_case(pick(i / ns, n), st(i)); }, [n, ns, st](uint64_t i) { return form_desc(pick(i / ns, n), st(i)); }, 1024);
        }
        for (int len = 1; len <= (th ? 4 : 3); ++len)
            d.enumerate(vx::fmt("strings of %d characters at every position", len), ipow(CH.size(), len) * NPOS * 2, [len](uint64_t i) { str_case(str(i / (NPOS * 2), len), 1 + i % 2, i / 2 % NPOS); },
                [len](uint64_t i) { return vx::fmt("position %d style %d string %s", (int) (i / 2 % NPOS), (int) (1 + i % 2), esc(str(i / (NPOS * 2), len)).c_str()); }, 1024);
        int L = th ? 6 : 5;
        for (int len = 1; len <= L; ++len)
            d.enumerate(vx::fmt("all sequences of %d tokens", len), ipow(TOK.size(), len), [len](uint64_t i) { tok_case(toks({}, i, len)); }, [len](uint64_t i) { return join(toks({}, i, len)); }, 4096);
        static const std::vector<SV> PRE = { { "select", "sum", "(", "a", ")" }, { "let", "=" }, { "let", "a", "=", "sum", "(", "a", ")" }, { "let", "a", "=", "sum", "(", "a", ")", "if" }, { "where", "a", "=", "a", "," }, { "order", "by" }, { "group", "by", "a" }, { "format", "tree", "(" }, { "format", "tree", "(", "a", "," }, { "select", "a", "as" }, { "select", "*", "," }, { "aggregate", "sum", "(" } };
        int S = th ? 5 : 4;
        for (auto& pre : PRE)
            d.enumerate(join(pre) + vx::fmt(" followed by all sequences of %d tokens", S), ipow(TOK.size(), S), [&pre, S](uint64_t i) { tok_case(toks(pre, i, S)); }, [&pre, S](uint64_t i) { return join(toks(pre, i, S)); }, 4096);
    };
    return d.main(argc, argv);
}
