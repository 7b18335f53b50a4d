// F03 -- damaged data files: every cut, every byte replaced/removed/inserted, every record removed,
// doubled or moved, every id changed; the real reader and the query machinery run on the result
// under address sanitizer, and records before the damage must be unchanged.
#include "filegen.hpp"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/QueryProcessor.h"
#include <functional>
using namespace gen;

static std::vector<std::string> TEXT;
static void family()
{
    {
        Src s;
        Attribute u = s.mk("unit", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS), r = s.mk("region", CALI_TYPE_STRING, CALI_ATTR_NESTED), i = s.mk("i", CALI_TYPE_UINT, CALI_ATTR_ASVALUE, { { u, Variant("a,b") } }), z = s.mk("z", CALI_TYPE_INT, CALI_ATTR_ASVALUE), t = s.mk("t", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE);
        Node* a = s.node(r, Variant("A\n=")); Node* b = s.node(r, Variant("B"), a);
        s.snap({ Entry(a), Entry(i, Variant(cali_make_variant_from_uint(12))) }); s.snap({ Entry(b), Entry(z, Variant(-3)), Entry(t, Variant(0.25)) }); s.snap({ Entry(i, Variant(cali_make_variant_from_uint(7))) });
        Attribute g = s.mk("g", CALI_TYPE_STRING, CALI_ATTR_GLOBAL), gi = s.mk("gi", CALI_TYPE_INT, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE);
        s.w.w.write_globals(s.db, { Entry(s.node(g, Variant("v"))), Entry(gi, Variant(5)) });
        s.snap({ Entry(b), Entry(t, Variant(1.5)) });
        TEXT.push_back(s.w.text());
    }
    { // all value types, values in the tree
        Src s;
        uint64_t x = 0xbeef;
        Attribute b = s.mk("b", CALI_TYPE_BOOL, CALI_ATTR_DEFAULT), u = s.mk("u", CALI_TYPE_UINT, CALI_ATTR_ASVALUE), d = s.mk("d", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE), y = s.mk("y", CALI_TYPE_TYPE, CALI_ATTR_DEFAULT), h = s.mk("h", CALI_TYPE_STRING, CALI_ATTR_HIDDEN);
        Node* n = s.node(b, Variant(true)); Node* m = s.node(y, Variant(CALI_TYPE_DOUBLE), n); Node* k = s.node(h, Variant("hid"), m);
        s.snap({ Entry(n), Entry(u, Variant(cali_make_variant_from_uint(77))) }); s.snap({ Entry(m), Entry(n), Entry(d, Variant(CALI_TYPE_ADDR, &x, 8)) }); s.snap({ Entry(k) });
        TEXT.push_back(s.w.text());
    }
    TEXT.push_back("__rec=node,id=40,attr=10,data=256,parent=3\n__rec=node,id=39,attr=8,data=region,parent=40\n__rec=node,id=38,attr=39,data=A\n__rec=ctx,ref=38\n__rec=node,id=37,attr=39,data=B,parent=38\n__rec=node,id=36,attr=8,data=n,parent=5\n__rec=ctx,ref=37=38,attr=36=36,data=1.5=2\n__rec=globals,ref=37,attr=36,data=3\n");
}
// reading plus queries on what was read
static const char* QUERY[] = { "select * format table", "select *,sum(i),max(t),count() group by region format tree", "aggregate sum(i),percent_total(i),inclusive_sum(t),variance(u),any(region) group by path,b format json(object)", "select * where region=B,not i=12,t>1 format json-split", "let q=ratio(i,t),w=scale(i,2),f=first(i,u) select *,q,w,f order by i,region format expand", "format cali", "select region,i,t order by t desc format json(records)" };
static Data damaged(const std::string& text)
{
    CaliperMetadataDB db;
    Data d;
    std::vector<QuerySpec> qs;
    std::ostringstream out[8];
    std::vector<std::unique_ptr<OutputStream>> os;
    std::vector<std::unique_ptr<QueryProcessor>> qp;
    static std::vector<QuerySpec> specs = [] { std::vector<QuerySpec> v; for (auto q : QUERY) { CalQLParser p(q); if (p.error()) vx::fail("query %s: %s", q, std::string(p.error_msg()).c_str()); v.push_back(p.spec()); } return v; }();
    for (size_t k = 0; k < specs.size(); ++k) {
        os.emplace_back(new OutputStream);
        os.back()->set_stream(&out[k]);
        qp.emplace_back(new QueryProcessor(specs[k], *os.back()));
    }
    std::vector<std::vector<Entry>> keep;
    CaliReader r;
    std::istringstream is(text);
    r.read(is, db, [&](CaliperMetadataAccessInterface& in, const Node* n) { (void) path(in, n); },
        [&](CaliperMetadataAccessInterface& in, const std::vector<Entry>& e) {
            d.recs.push_back(rec(in, e));
            for (auto& q : qp) q->process_record(in, e);
            keep.push_back(e);
        });
    for (auto& q : qp) q->flush(db);
    // merge what was read into another database (as the tools do)
    CaliperMetadataDB other;
    for (auto& e : keep) (void) rec(other, other.merge_snapshot(db, e));
    other.import_globals(db);
    d.error = r.error();
    d.globals = globals_of(db, db.get_globals());
    vx::seen(show(d.recs) + (d.error ? "E" : ""));
    return d;
}
static std::vector<std::string> lines(const std::string& t)
{
    std::vector<std::string> v;
    std::istringstream is(t);
    for (std::string l; std::getline(is, l);) v.push_back(l);
    return v;
}
static std::string join(const std::vector<std::string>& l) { std::string s; for (auto& x : l) s += x + "\n"; return s; }
static bool isctx(const std::string& l) { return l.compare(0, 9, "__rec=ctx") == 0; }
// the damage touches line `first` and possibly everything after it; if only_line, just that one line
static void check(int f, const std::string& text, size_t first, bool only_line)
{
    static std::map<std::pair<int, size_t>, Recs> prefix;
    auto ls = lines(TEXT[f]);
    auto key = std::make_pair(f, first);
    if (!prefix.count(key)) prefix[key] = read_text(join(std::vector<std::string>(ls.begin(), ls.begin() + std::min(first, ls.size())))).recs;
    const Recs& pre = prefix[key];
    Data d = damaged(text);
    std::string c = " -- file: " + esc(text).substr(0, 900);
    { // read after another, intact file: nothing of that file may show up in the records
        CaliperMetadataDB db;
        read_into(db, TEXT[(f + 1) % TEXT.size()]);
        Data e = read_into(db, text);
        VX_CHECK(e.recs.size() == d.recs.size() && e.error == d.error, "%zu records (error %d) read after another file, %zu (error %d) alone%s", e.recs.size(), e.error, d.recs.size(), d.error, c.c_str());
        for (size_t i = 0; i < d.recs.size(); ++i) VX_CHECK(e.recs[i] == d.recs[i], "record %zu is %s when read after another file, %s alone%s", i, show(e.recs[i]).c_str(), show(d.recs[i]).c_str(), c.c_str());
    }
    VX_CHECK(d.recs.size() >= pre.size(), "only %zu of the %zu records before the damage are delivered%s", d.recs.size(), pre.size(), c.c_str());
    for (size_t i = 0; i < pre.size(); ++i) VX_CHECK(d.recs[i] == pre[i], "record %zu, before the damage, is %s instead of %s%s", i, show(d.recs[i]).c_str(), show(pre[i]).c_str(), c.c_str());
    if (only_line && first < ls.size() && isctx(ls[first])) { // records do not define anything: all later records are unaffected, too
        static std::map<int, Recs> whole;
        if (!whole.count(f)) whole[f] = read_text(TEXT[f]).recs;
        size_t after = whole[f].size() - pre.size() - 1;
        VX_CHECK(d.recs.size() >= pre.size() + after, "%zu records delivered, at least %zu are intact%s", d.recs.size(), pre.size() + after, c.c_str());
        for (size_t i = 0; i < after; ++i) {
            auto& g = d.recs[d.recs.size() - after + i]; auto& e = whole[f][pre.size() + 1 + i];
            VX_CHECK(g == e, "a record after a damaged one is %s instead of %s%s", show(g).c_str(), show(e).c_str(), c.c_str());
        }
    }
}
static size_t line_of(const std::string& t, size_t pos) { return std::count(t.begin(), t.begin() + pos, '\n'); }
static std::vector<std::pair<size_t, size_t>> numbers(const std::string& t) // [begin,end) of each number
{
    std::vector<std::pair<size_t, size_t>> v;
    for (size_t i = 0; i < t.size(); ++i)
        if (isdigit(t[i]) && i && t[i - 1] == '=') { size_t e = i; while (e < t.size() && isdigit(t[e])) ++e; v.push_back({ i, e }); i = e; }
    return v;
}
static const unsigned char BYTES[] = { 0, '\n', '\r', ',', '=', '\\', '0', '1', '3', '8', '9', 'a', '-', '.', ' ', '_', '"', 'e', 0x7f, 0x80, 0xff };
static std::vector<std::string> NUMS() 
{
    std::vector<std::string> v;
    for (int i = 0; i <= 48; ++i) v.push_back(std::to_string(i));
    for (const char* x : { "100000", "4294967295", "4294967296", "9223372036854775807", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "", "=", "1=1=1=1=1=1" }) v.push_back(x);
    return v;
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    static std::vector<std::string> NUM;
    d.define = [&]() {
        family();
        NUM = NUMS();
        for (int f = 0; f < (int) TEXT.size(); ++f) {
            const std::string& t = TEXT[f];
            d.enumerate(vx::fmt("file %d: every cut", f), t.size() + 1, [f](uint64_t i) { check(f, TEXT[f].substr(0, i), line_of(TEXT[f], i), false); }, [f](uint64_t i) { return vx::fmt("file %d cut at byte %lu", f, i); }, 8);
            d.enumerate(vx::fmt("file %d: every start", f), t.size() + 1, [f](uint64_t i) { check(f, TEXT[f].substr(i), 0, false); }, [f](uint64_t i) { return vx::fmt("file %d without its first %lu bytes", f, i); }, 8);
            const uint64_t NB = vx::thorough() ? 256 : sizeof BYTES;
            auto byte = [NB](uint64_t k) { return (char) (NB == 256 ? k : BYTES[k]); };
            d.enumerate(vx::fmt("file %d: every byte replaced", f), t.size() * NB, [f, NB, byte](uint64_t i) { std::string x = TEXT[f]; bool nl = x[i / NB] == '\n'; x[i / NB] = byte(i % NB); check(f, x, line_of(TEXT[f], i / NB), !nl); }, [f, NB](uint64_t i) { return vx::fmt("file %d byte %lu replaced by %lu", f, i / NB, i % NB); }, 64);
            d.enumerate(vx::fmt("file %d: a byte inserted", f), t.size() * NB, [f, NB, byte](uint64_t i) { std::string x = TEXT[f]; x.insert(i / NB, 1, byte(i % NB)); check(f, x, line_of(TEXT[f], i / NB), true); }, [f, NB](uint64_t i) { return vx::fmt("file %d byte %lu inserted at %lu", f, i % NB, i / NB); }, 64);
            d.enumerate(vx::fmt("file %d: byte ranges removed", f), t.size() * 24, [f](uint64_t i) { std::string x = TEXT[f]; size_t p = i / 24, n = 1 + i % 24; bool nl = x.substr(p, n).find('\n') != std::string::npos; x.erase(p, n); check(f, x, line_of(TEXT[f], p), !nl); }, [f](uint64_t i) { return vx::fmt("file %d %lu bytes removed at %lu", f, 1 + i % 24, i / 24); }, 64);
            uint64_t nl = lines(t).size();
            d.enumerate(vx::fmt("file %d: records removed, doubled, moved", f), nl * nl * 3, [f, nl](uint64_t i) {
                auto l = lines(TEXT[f]);
                size_t a = i / 3 % nl, b = i / 3 / nl;
                size_t first = std::min(a, b);
                if (i % 3 == 0) { if (b > a) l.erase(l.begin() + b); l.erase(l.begin() + a); if (b < a) l.erase(l.begin() + b); }   // one or two removed
                else if (i % 3 == 1) l.insert(l.begin() + b, l[a]), first = b;                                                      // copied elsewhere
                else std::swap(l[a], l[b]);
                check(f, join(l), first, false);
            }, [f, nl](uint64_t i) { return vx::fmt("file %d records %lu/%lu op %lu", f, i / 3 % nl, i / 3 / nl, i % 3); }, 8);
            auto ns = numbers(t);
            d.enumerate(vx::fmt("file %d: every number changed", f), ns.size() * NUM.size(), [f](uint64_t i) { std::string x = TEXT[f]; auto n = numbers(x)[i / NUM.size()]; size_t ln = line_of(x, n.first); x.replace(n.first, n.second - n.first, NUM[i % NUM.size()]); check(f, x, ln, true); }, [f](uint64_t i) { return vx::fmt("file %d number %lu set to '%s'", f, i / NUM.size(), NUM[i % NUM.size()].c_str()); }, 32);
            if (vx::thorough())
                d.enumerate(vx::fmt("file %d: every pair of numbers changed", f), ns.size() * ns.size() * NUM.size(), [f](uint64_t i) {
                    std::string x = TEXT[f]; auto ns = numbers(x); size_t a = i / NUM.size() % ns.size(), b = i / NUM.size() / ns.size();
                    if (a >= b) return;
                    size_t ln = line_of(x, ns[a].first);
                    std::string v = NUM[i % NUM.size()];
                    x.replace(ns[b].first, ns[b].second - ns[b].first, v); x.replace(ns[a].first, ns[a].second - ns[a].first, v);
                    check(f, x, ln, false);
                }, [f](uint64_t i) { return vx::fmt("file %d number pair case %lu", f, i); }, 256);
        }
    };
    return d.main(argc, argv);
}
