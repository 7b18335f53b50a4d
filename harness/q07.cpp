// Q07: all ways to run a query give the same answer -- every history of up to three (thorough: four) annotation
// operations, traced and aggregated, and every query of a grid of LET, WHERE, SELECT/GROUP BY and FORMAT clauses:
// evaluated inside the annotated program (report service, write_report_for_query), through the reader
// library on the written file, with the query tool, and with a chain of two query tools.
#include "qm.hpp"
#include "json.hpp"
#include "caliper/cali.h"
#include "caliper/reader/CaliReader.h"
#include <fstream>
#include <sys/wait.h>
using namespace qm;
struct Qr { std::string let, where, sel, fmt; std::string text() const { return let + where + sel + "format " + fmt; } };
static const std::vector<Qr>& QS()
{
    static std::vector<Qr> o;
    if (o.empty())
        for (const char* l : { "", "let z=scale(x,0.3),lf=leaf() ", "let z=first(d,x) if fn " })
            for (const char* w : { "", "where x ", "where fn=a ", "where not x>2 " })
                for (const char* s : { "", "select *,x as \"X of\" ", "select fn,s,x as xx,d,z,lf ", "select fn,count(),sum(x),avg(d) as \"Avg D\" unit \"s\\\"1\" group by fn ", "select path,count() as n,inclusive_sum(x),any(sv) group by path ", "aggregate sum(z),max(d),variance(x) group by s,x ", "aggregate percent_total(x),ratio(d,x) " })
                    for (const char* f : { "json(object)", "json-split", "table", "tree", "expand", "cali", "json(records,separate-nested,quote-all)" }) o.push_back({ l, w, s, f });
    return o;
}
static std::string read_file(const std::string& f) { std::ifstream is(f, std::ios::binary); std::stringstream ss; ss << is.rdbuf(); return ss.str(); }
static std::string pipe_out(const std::vector<std::string>& argv, const std::string& in = "", int* rc = nullptr)
{
    std::string c;
    for (auto& a : argv) { c += "'"; for (char x : a) { if (x == '\'') c += "'\\''"; else c += x; } c += "' "; }
    if (!in.empty()) c += " < " + in;
    FILE* f = popen((c + " 2>/dev/null").c_str(), "r");
    std::string s;
    char b[4096];
    for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) s.append(b, n);
    int st = pclose(f);
    if (rc) *rc = st; else VX_CHECK(st == 0, "the query tool ends with status %x", st);
    return s;
}
static const std::string& tool() { static std::string t = std::string(getenv("VX_BUILD")) + "/src/tools/cali-query/cali-query"; return t; }
static std::string dump(const json::V& v)
{
    std::string s;
    switch (v.t) {
    case json::V::Null: return "null";
    case json::V::Bool: return v.b ? "true" : "false";
    case json::V::Num: return v.s;
    case json::V::Str: return "\"" + cdb::esc(v.s) + "\"";
    case json::V::Arr: for (auto& x : v.a) s += (s.empty() ? "" : ",") + dump(x); return "[" + s + "]";
    default: { std::map<std::string, std::string> m; for (auto& p : v.o) m[p.first] = dump(p.second); for (auto& p : m) s += (s.empty() ? "" : ",") + cdb::esc(p.first) + ":" + p.second; return "{" + s + "}"; }
    }
}
// metadata that differs from channel to channel
static bool own(const std::string& n) { return n == "cali.channel" || n.find("starttime") != std::string::npos; }
// the answer in a comparable form: records in any order, without the name of the channel and the query's own metadata
static std::string norm(const std::string& out, const Qr& q)
{
    const std::string& fmt = q.fmt;
    bool autocol = q.sel.empty() || q.sel.find('*') != std::string::npos || q.sel.substr(0, 9) == "aggregate";
    std::vector<std::string> l;
    if (fmt.substr(0, 4) == "json") {
        json::V v = json::parse(out);
        if (fmt == "json-split") { // rows with the values of their columns, hierarchies resolved
            const json::V *data = v.get("data"), *cols = v.get("columns"), *nodes = v.get("nodes"), *meta = v.get("column_metadata");
            VX_CHECK(data && cols && nodes && meta && meta->a.size() == cols->a.size(), "a section is missing");
            for (auto& r : data->a) {
                std::map<std::string, std::string> m;
                VX_CHECK(r.a.size() == cols->a.size(), "a row does not have %zu columns", cols->a.size());
                for (size_t c = 0; c < r.a.size(); ++c) {
                    if (r.a[c].t == json::V::Null) continue;
                    std::string t = dump(meta->a[c]) + " ";
                    if (meta->a[c].get("is_value")->b) t += dump(r.a[c]);
                    else for (const json::V* id = &r.a[c]; id;) { const json::V& n = nodes->a.at(atoi(id->s.c_str())); t = dump(*n.get("label")) + "/" + t; id = n.get("parent"); }
                    m[cols->a[c].s] = t;
                }
                std::string t;
                for (auto& p : m) t += cdb::esc(p.first) + "=" + p.second + " ";
                l.push_back(t);
            }
            for (auto& p : v.o) if (p.second.t == json::V::Str && !own(p.first)) l.push_back("global " + p.first + "=" + dump(p.second));
        } else {
            const json::V *rec = v.t == json::V::Arr ? &v : v.get("records"), *g = v.get("globals");
            VX_CHECK(rec, "no records");
            for (auto& r : rec->a) l.push_back(dump(r));
            if (g) for (auto& p : g->o) if (!own(p.first)) l.push_back("global " + p.first + "=" + dump(p.second));
        }
    } else if (fmt == "cali") {
        cdb::Data c = cdb::read_text(out);
        for (auto& r : c.recs) l.push_back(cdb::show(r));
        for (auto& g : c.globals) if (g.find("cali.channel") == std::string::npos && g.find("starttime") == std::string::npos) l.push_back("global " + g);
    } else {
        std::istringstream is(out);
        for (std::string x; std::getline(is, x);) {
            if (fmt == "expand") { // entries in any order
                std::vector<std::string> w;
                std::istringstream ls(x);
                for (std::string t; std::getline(ls, t, ',');) w.push_back(t);
                std::sort(w.begin(), w.end());
                x = "";
                for (auto& t : w) x += (x.empty() ? "" : ",") + t;
            } else { // the order of automatic columns and the width of columns without values may differ
                std::vector<std::string> w;
                std::istringstream ls(x);
                for (std::string t; ls >> t;) w.push_back(t);
                if (autocol) std::sort(w.begin(), w.end());
                x = "";
                for (auto& t : w) x += (x.empty() ? "" : " ") + t;
            }
            l.push_back(x);
        }
    }
    std::sort(l.begin(), l.end());
    std::string s;
    for (auto& x : l) s += x + "\n";
    return s;
}
static void same(const std::string& what, const std::string& a, const std::string& b, const Qr& q)
{
    if (a == b) return;
    std::string x = norm(a, q), y = norm(b, q);
    if (x == y) return;
    vx::fail("`%s': %s gives\n%s\ninstead of\n%s", q.text().c_str(), what.c_str(), x.c_str(), y.c_str());
}
// --- histories
static const std::vector<const char*> OPS = { "begin fn a", "begin fn b", "end fn", "x=1", "x=3", "d=0.1", "s=p/q", "sv", "global" };
enum { oA, oB, oE, oX1, oX3, oD, oS, oSV, oG, NO };
static std::vector<std::vector<int>> histories(int depth)
{
    std::vector<std::vector<int>> o { {} };
    for (size_t b = 0, len = 0; (int) len < depth; ++len) {
        size_t e = o.size();
        for (; b < e; ++b)
            for (int k = 0; k < NO; ++k) {
                int open = 0;
                for (int x : o[b]) open += x == oA || x == oB ? 1 : x == oE ? -1 : 0;
                if (k == oE && open == 0) continue;
                std::vector<int> h = o[b];
                h.push_back(k);
                o.push_back(h);
            }
    }
    return o;
}
static void play(const std::vector<int>& h)
{
    cali_id_t fn = cali_create_attribute("fn", CALI_TYPE_STRING, CALI_ATTR_NESTED), x = cali_create_attribute("x", CALI_TYPE_INT, CALI_ATTR_ASVALUE), d = cali_create_attribute("d", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE),
              s = cali_create_attribute("s", CALI_TYPE_STRING, CALI_ATTR_DEFAULT), sv = cali_create_attribute("sv", CALI_TYPE_STRING, CALI_ATTR_ASVALUE), g = cali_create_attribute("gl", CALI_TYPE_INT, CALI_ATTR_GLOBAL);
    for (int k : h) switch (k) {
        case oA: cali_begin_string(fn, "a"); break;
        case oB: cali_begin_string(fn, "b"); break;
        case oE: cali_end(fn); break;
        case oX1: cali_set_int(x, 1); break;
        case oX3: cali_set_int(x, 3); break;
        case oD: cali_set_double(d, 0.1); break;
        case oS: cali_begin_string(s, "p"); cali_begin_string(s, "q"); break;
        case oSV: cali_set_string(sv, "a \"v\",=\\x"); break;
        case oG: cali_set_int(g, 42); break;
        }
}
static void put(std::string& o, const std::string& s) { o += std::to_string(s.size()) + ":" + s; }
static std::string get(const std::string& o, size_t& p) { size_t c = o.find(':', p), n = strtoul(o.c_str() + p, nullptr, 10); p = c + 1 + n; return o.substr(c + 1, n); }
static std::vector<std::vector<int>> HS;
static std::string describe(uint64_t i) { std::string s = i & 1 ? "aggregate:" : "trace:"; for (int k : HS[i / 2]) s += std::string(" ") + OPS[k] + ";"; return s; }
static void one(uint64_t i)
{
    const auto& qs = QS();
    size_t N = qs.size(), R = vx::thorough() ? 28 : 7, base = i * R % N; // queries of this case for the ways that need a channel or a process each
    if (base + R > N) base = N - R;
    std::string dir = vx::opt.scratch + "/" + std::to_string(getpid()), file = dir + ".cali", svc = i & 1 ? "event,aggregate" : "event,trace";
    std::string out = vx::in_fork([&] {
        cali_id_t ch = cali::create_channel("data", 0, { { "CALI_SERVICES_ENABLE", svc + ",recorder" }, { "CALI_RECORDER_FILENAME", file }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } });
        std::vector<cali_id_t> rep;
        for (size_t k = 0; k < R; ++k) rep.push_back(cali::create_channel("data", 0, { { "CALI_SERVICES_ENABLE", svc + ",report" }, { "CALI_REPORT_FILENAME", dir + ".r" + std::to_string(k) }, { "CALI_REPORT_CONFIG", qs[base + k].text() }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }));
        play(HS[i / 2]);
        std::string o;
        cali_channel_flush(ch, 0);
        for (size_t k = 0; k < R; ++k) cali_channel_flush(rep[k], 0);
        auto rq = [&](const std::string& q, int opt) { std::ostringstream os; cali::write_report_for_query(ch, q.c_str(), opt, os); return os.str(); };
        for (auto& q : qs) put(o, rq(q.text(), 0));
        put(o, rq("aggregate count() format expand", 0)); // the data is still there
        put(o, rq("select fn,x,d,s,sv format expand", CALI_FLUSH_CLEAR_BUFFERS));
        put(o, rq("select fn,x,d,s,sv format expand", 0)); // and now it is gone
        return o;
    });
    size_t pos = 0;
    std::vector<std::string> inproc;
    for (size_t k = 0; k < N; ++k) inproc.push_back(get(out, pos));
    std::vector<std::string> lib;
    for (auto& q : qs) {
        static std::map<std::string, QuerySpec> specs;
        if (!specs.count(q.text())) specs[q.text()] = parse(q.text());
        const QuerySpec& spec = specs[q.text()];
        std::ostringstream os;
        OutputStream st;
        st.set_stream(&os);
        CaliperMetadataDB db;
        db.add_attribute_aliases(spec.aliases);
        db.add_attribute_units(spec.units);
        QueryProcessor p(spec, st);
        CaliReader r;
        r.read(file, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&p](CaliperMetadataAccessInterface& d, const EntryList& l) { p.process_record(d, l); });
        VX_CHECK(!r.error(), "cannot read the written file: %s", r.error_msg().c_str());
        p.flush(db);
        lib.push_back(os.str());
    }
    for (size_t k = 0; k < N; ++k) same("write_report_for_query", inproc[k], lib[k], qs[k]);
    std::string cnt = get(out, pos), gone0 = get(out, pos), gone = get(out, pos);
    VX_CHECK(gone.empty(), "the data is still there after a report with the option to clear it: %s", gone.c_str());
    for (size_t k = 0; k < R; ++k) {
        const Qr& q = qs[base + k];
        std::string f = dir + ".r" + std::to_string(k);
        same("the report service", read_file(f), lib[base + k], q);
        unlink(f.c_str());
        same("cali-query", pipe_out({ tool(), "-q", q.text(), file }), lib[base + k], q);
        if (k % 3 == 0) { // through a query file, standard input, and an output file
            std::string qf = dir + ".q", of = dir + ".o";
            std::ofstream(qf) << q.text();
            same("cali-query -Q", pipe_out({ tool(), "-Q", qf }, file), lib[base + k], q);
            pipe_out({ tool(), "-q", q.text(), "-o", of, file });
            same("cali-query -o", read_file(of), lib[base + k], q);
            unlink(qf.c_str());
            unlink(of.c_str());
        }
        if (!q.let.empty() || !q.where.empty()) { // preprocess and filter first
            std::string t = dir + ".t";
            std::ofstream(t, std::ios::binary) << pipe_out({ tool(), "-q", q.let + q.where + "format cali", file });
            same("a chain of two queries", pipe_out({ tool(), "-q", q.sel + "format " + q.fmt, t }), lib[base + k], q);
            unlink(t.c_str());
        }
    }
    static const std::vector<std::pair<std::vector<std::string>, Qr>> opts = { // command line options and the query they stand for
        { { "-s", "fn=a", "-t" }, { "", "where fn=a ", "", "table" } }, { { "--select", "x>1,fn", "-e" }, { "", "where x>1,fn ", "", "expand" } }, { { "--aggregate", "count(),sum(x)", "--aggregate-key", "fn", "-j" }, { "", "", "aggregate count(),sum(x) group by fn ", "json" } },
        { { "--aggregate", "sum(x)", "--aggregate-key", "path,s", "-j" }, { "", "", "aggregate sum(x) group by path,s ", "json" } }, { { "--aggregate", "count()", "-j" }, { "", "", "aggregate count() ", "json" } }, { { "--print-attributes", "fn,x,s", "-t", "-S", "x" }, { "", "", "select fn,x,s order by x ", "table" } },
        { { "-T", "--path-attributes", "fn", "--print-attributes", "x" }, { "", "", "select x ", "tree(path-attributes=fn)" } }, { { "-q", "let z=scale(x,2) where fn", "-j" }, { "let z=scale(x,2) ", "where fn ", "", "json" } }, { { "-q", "select fn,sum(x) group by fn", "-s", "x", "-t" }, { "", "where x ", "select fn,sum(x) group by fn ", "table" } } };
    for (int t = 0; t < 3; ++t) {
        auto& o = opts[(i + t * 3) % opts.size()];
        std::vector<std::string> a = o.first;
        a.insert(a.begin(), tool());
        a.push_back(file);
        std::string opt;
        for (auto& x : o.first) opt += " " + x;
        same("cali-query" + opt, pipe_out(a), pipe_out({ tool(), "-q", o.second.text(), file }), o.second);
    }
    unlink(file.c_str());
    vx::seen(i);
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        HS = histories(vx::thorough() ? 4 : 3);
        d.enumerate("ways", 2 * HS.size(), one, describe, 4);
    };
    return d.main(argc, argv);
}
