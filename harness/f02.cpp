// F02 -- reading several files into one database gives the union of their records, whatever ids,
// orders and names they use. Every ordered selection of a family of conflicting files, and every
// numbering of the nodes of a file against a database that already has data, is read for real.
#include "filegen.hpp"
using namespace gen;

static std::vector<std::pair<std::string, std::string>> FILES; // name, text
static std::vector<Data> ALONE;
static void family()
{
    auto add = [](const char* n, const std::string& t) { FILES.push_back({ n, t }); };
    const int NEST = CALI_ATTR_NESTED, VAL = CALI_ATTR_ASVALUE, DEF = CALI_ATTR_DEFAULT, GL = CALI_ATTR_GLOBAL;
    { // the reference file
        Src s;
        Attribute r = s.mk("region", CALI_TYPE_STRING, NEST), i = s.mk("i", CALI_TYPE_INT, VAL), p = s.mk("phase", CALI_TYPE_STRING, DEF), g = s.mk("g", CALI_TYPE_STRING, GL);
        Node* a = s.node(r, Variant("A")); Node* ab = s.node(r, Variant("B"), a); Node* ap = s.node(p, Variant("x"), a);
        s.snap({ Entry(a), Entry(i, Variant(1)) }); s.snap({ Entry(ab), Entry(i, Variant(2)) }); s.snap({ Entry(ap) }); s.snap({ Entry(i, Variant(3)) });
        s.w.w.write_globals(s.db, { Entry(s.node(g, Variant("one"))) });
        add("base", s.w.text());
    }
    { // the same things, defined in another order (other ids), children in another order
        Src s;
        Attribute g = s.mk("g", CALI_TYPE_STRING, GL), p = s.mk("phase", CALI_TYPE_STRING, DEF), i = s.mk("i", CALI_TYPE_INT, VAL), r = s.mk("region", CALI_TYPE_STRING, NEST);
        Node* b = s.node(r, Variant("B")); Node* a = s.node(r, Variant("A")); Node* ap = s.node(p, Variant("x"), a); Node* ab = s.node(r, Variant("B"), a);
        s.snap({ Entry(ap) }); s.snap({ Entry(ab), Entry(i, Variant(2)) }); s.snap({ Entry(b), Entry(i, Variant(5)) }); s.snap({ Entry(a) });
        s.w.w.write_globals(s.db, { Entry(s.node(g, Variant("two"))) });
        add("shifted ids", s.w.text());
    }
    { // same names, other types
        Src s;
        Attribute i = s.mk("i", CALI_TYPE_DOUBLE, VAL), r = s.mk("region", CALI_TYPE_INT, NEST), p = s.mk("phase", CALI_TYPE_DOUBLE, DEF), g = s.mk("g", CALI_TYPE_INT, GL);
        Node* a = s.node(r, Variant(65)); Node* ab = s.node(r, Variant(66), a); Node* ap = s.node(p, Variant(0.5), a);
        s.snap({ Entry(a), Entry(i, Variant(1.5)) }); s.snap({ Entry(ab), Entry(i, Variant(2.0)) }); s.snap({ Entry(ap) });
        s.w.w.write_globals(s.db, { Entry(s.node(g, Variant(4))) });
        add("same names, other types", s.w.text());
    }
    { // same names and types, other properties and metadata, roles exchanged
        Src s;
        Attribute u = s.mk("unit", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
        Attribute i = s.mk("i", CALI_TYPE_INT, DEF, { { u, Variant("sec") } }), r = s.mk("region", CALI_TYPE_STRING, VAL), p = s.mk("phase", CALI_TYPE_STRING, NEST, { { u, Variant("A") } });
        Node* a = s.node(i, Variant(1)); Node* ab = s.node(p, Variant("x"), a);
        s.snap({ Entry(a), Entry(r, Variant("A")) }); s.snap({ Entry(ab), Entry(r, Variant("B")) });
        add("same names, other properties", s.w.text());
    }
    { // metadata variants of one attribute name, values equal to attribute names, number-like strings
        Src s;
        Attribute u = s.mk("unit", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS), q = s.mk("A", CALI_TYPE_STRING, DEF), i = s.mk("i", CALI_TYPE_INT, VAL, { { u, Variant("sec") } }), r = s.mk("region", CALI_TYPE_STRING, NEST, { { q, Variant("region") } });
        Node* a = s.node(q, Variant("region")); Node* b = s.node(r, Variant("A"), a); Node* c = s.node(q, Variant("65"), b);
        s.snap({ Entry(a) }); s.snap({ Entry(c), Entry(i, Variant(1)) }); s.snap({ Entry(b), Entry(i, Variant(-1)) });
        add("names as values", s.w.text());
    }
    // hand-numbered files: gaps, large and descending ids
    add("large ids", "__rec=node,id=900,attr=10,data=256,parent=3\n__rec=node,id=901,attr=8,data=region,parent=900\n__rec=node,id=4000000000,attr=901,data=A\n__rec=node,id=18446744073709551614,attr=901,data=B,parent=4000000000\n"
                     "__rec=ctx,ref=18446744073709551614\n__rec=ctx,ref=4000000000\n");
    add("descending ids", "__rec=node,id=30,attr=10,data=256,parent=3\n__rec=node,id=29,attr=8,data=region,parent=30\n__rec=node,id=28,attr=29,data=A\n__rec=node,id=27,attr=29,data=B,parent=28\n__rec=node,id=26,attr=10,data=1,parent=1\n__rec=node,id=25,attr=8,data=i,parent=26\n"
                          "__rec=ctx,ref=27,attr=25,data=1\n__rec=node,id=24,attr=29,data=C,parent=27\n__rec=ctx,ref=24=28,attr=25=25,data=1=2\n__rec=ctx,ref=28\n");
    { // interleaved definitions and records, many nodes (ids beyond those of the other files)
        Src s;
        Attribute r = s.mk("region", CALI_TYPE_STRING, NEST), i = s.mk("i", CALI_TYPE_INT, VAL);
        Node* a = nullptr;
        for (int k = 0; k < 12; ++k) { a = s.node(r, Variant(k % 2 ? "A" : "B"), a); s.snap({ Entry(a), Entry(i, Variant(k)) }); }
        add("deep", s.w.text());
    }
    for (auto& f : FILES) ALONE.push_back(read_text(f.second));
}
static std::string ctx(const std::vector<int>& sel)
{
    std::string s;
    for (int k : sel) s += (s.empty() ? "" : ", ") + FILES[k].first;
    return s;
}
static void sel_case(const std::vector<int>& sel, bool via_db)
{
    CaliperMetadataDB db;
    Recs all;
    std::set<std::string> refglob;
    for (size_t x = 0; x < sel.size(); ++x) {
        const Data& a = ALONE[sel[x]];
        VX_CHECK(!a.error, "reader error %s", a.msg.c_str());
        Recs got;
        if (via_db) { // from a database of its own into the common one
            CaliperMetadataDB own;
            CaliReader r;
            std::istringstream is(FILES[sel[x]].second);
            r.read(is, own, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& in, const std::vector<Entry>& e) { got.push_back(rec(db, db.merge_snapshot(in, e))); });
        } else {
            Data d = read_into(db, FILES[sel[x]].second);
            VX_CHECK(!d.error, "reader error %s", d.msg.c_str());
            got = d.recs;
            for (auto& g : a.globals) refglob.insert(g);
            for (auto& g : refglob) VX_CHECK(d.globals.count(g), "global %s is missing after reading", g.c_str());
            for (auto& g : d.globals) VX_CHECK(refglob.count(g), "global %s is in none of the files", g.c_str());
        }
        expect_recs(vx::fmt("file %zu (%s) of the selection", x, FILES[sel[x]].first.c_str()).c_str(), got, a.recs);
    }
    vx::seen(ctx(sel) + (via_db ? "db" : ""));
}
// every numbering of a small file's nodes, read after another file
static const char* TMPL[] = { // nodes @0.. in definition order
    "__rec=node,id=@0,attr=10,data=256,parent=3\n__rec=node,id=@1,attr=8,data=region,parent=@0\n__rec=node,id=@2,attr=@1,data=A\n__rec=node,id=@3,attr=@1,data=C,parent=@2\n__rec=node,id=@4,attr=8,data=z,parent=1\n__rec=ctx,ref=@3,attr=@4,data=4\n__rec=ctx,ref=@2\n__rec=globals,ref=@3,attr=@4,data=4\n",
    "__rec=node,id=@0,attr=8,data=z,parent=1\n__rec=node,id=@1,attr=10,data=1,parent=5\n__rec=node,id=@2,attr=8,data=i,parent=@1\n__rec=node,id=@3,attr=@0,data=3\n__rec=node,id=@4,attr=@0,data=-3,parent=@3\n__rec=ctx,ref=@4=@3,attr=@2=@0,data=0.5=2\n__rec=ctx,ref=@3\n",
};
static std::string number(int t, const std::vector<int>& ids)
{
    std::string s, m = TMPL[t];
    for (size_t i = 0; i < m.size(); ++i)
        if (m[i] == '@') s += std::to_string(ids[m[++i] - '0']);
        else s += m[i];
    return s;
}
static int LO = 12, NI = 12; // ids 12..23
static std::vector<int> ids_at(uint64_t i)
{
    std::vector<int> pool, out;
    for (int k = 0; k < NI; ++k) pool.push_back(LO + k);
    for (int k = 0; k < 5; ++k) { out.push_back(pool[i % pool.size()]); pool.erase(pool.begin() + i % (NI - k)); i /= NI - k; }
    return out;
}
static void num_case(int t, int first, const std::vector<int>& ids)
{
    std::string text = number(t, ids);
    static Data alone[2];
    static bool have[2];
    if (!have[t]) alone[t] = read_text(number(t, { 100, 101, 102, 103, 104 })), have[t] = true; // ids far from everything
    CaliperMetadataDB db;
    if (first >= 0) read_into(db, FILES[first].second);
    Data d = read_into(db, text);
    std::string c = " -- file: " + esc(text);
    VX_CHECK(!d.error, "reader error %s%s", d.msg.c_str(), c.c_str());
    try {
        expect_recs("numbered file", d.recs, alone[t].recs);
        if (first < 0) expect_globals("numbered file", d.globals, alone[t].globals);
        Data e = read_into(db, FILES[1].second);
        expect_recs("file read afterwards", e.recs, ALONE[1].recs);
    } catch (vx::Fail& f) { throw vx::Fail { f.msg + c, f.sig }; }
    vx::seen(text);
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        family();
        uint64_t n = FILES.size();
        for (int len = 1; len <= (vx::thorough() ? 5 : 4); ++len) {
            uint64_t m = 2;
            for (int k = 0; k < len; ++k) m *= n;
            auto dec = [n, len](uint64_t i) { std::vector<int> v; i /= 2; for (int k = 0; k < len; ++k) v.push_back(i % n), i /= n; return v; };
            d.enumerate(vx::fmt("selections of %d files", len), m, [dec](uint64_t i) { sel_case(dec(i), i & 1); }, [dec](uint64_t i) { return ctx(dec(i)) + (i & 1 ? " (database merge)" : ""); }, 32);
        }
        uint64_t p = 1;
        for (int k = 0; k < 5; ++k) p *= NI - k;
        for (int t = 0; t < 2; ++t)
            for (int first : { -1, 0, 1, 3 }) {
                if (!vx::thorough() && first == 3 - 2 * t) continue;
                d.enumerate(vx::fmt("all numberings of file %d after %s", t, first < 0 ? "nothing" : FILES[first].first.c_str()), p, [t, first](uint64_t i) { num_case(t, first, ids_at(i)); }, [t](uint64_t i) { return esc(number(t, ids_at(i))); }, 512);
            }
    };
    return d.main(argc, argv);
}
