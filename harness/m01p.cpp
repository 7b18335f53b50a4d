// M01: everything that aggregates over processes, with every rank in a process of its own that runs the real
// runtime: collective_flush(), the mpireport service, CollectiveOutputChannel, MpiChannelManager, the
// runtime-report and spot controllers, and the parallel query tool, for all combinations of rank programs.
#include "mpisim.hpp"
#include "aggmodel.hpp"
#include "json.hpp"
#include "fakeclock.hpp"
#include "caliper/Caliper.h"
#include "caliper/ChannelController.h"
#include "caliper/CollectiveOutputChannel.h"
#include "caliper/ConfigManager.h"
#include "caliper/MpiChannelManager.h"
#include "caliper/cali-mpi.h"
#include "caliper/cali.h"
#include "caliper/MpiEvents.h"
#include "services/Services.h"
#include <fstream>
#include <sys/stat.h>
namespace cali { extern CaliperService mpireport_service; MpiEvents* mpiwrap_get_events(Channel*) { return nullptr; } }
extern "C" void cali_mpi_init() {}
extern "C" int mpi_caliquery_main(int, char**);
static std::string read_file(const std::string& f) { std::ifstream is(f, std::ios::binary); std::stringstream ss; ss << is.rdbuf(); return ss.str(); }
static std::string dump(const json::V& v)
{
    std::string s;
    switch (v.t) {
    case json::V::Null: return "null";
    case json::V::Bool: return v.b ? "true" : "false";
    case json::V::Num: return v.s;
    case json::V::Str: return "\"" + cdb::esc(v.s) + "\"";
    case json::V::Arr: for (auto& x : v.a) s += (s.empty() ? "" : ",") + dump(x); return "[" + s + "]";
    default: { std::map<std::string, std::string> m; for (auto& p : v.o) m[p.first] = dump(p.second); for (auto& p : m) s += (s.empty() ? "" : ",") + cdb::esc(p.first) + ":" + p.second; return "{" + s + "}"; }
    }
}
static std::string norm(const std::string& out) // the records of a json(records) document in any order
{
    json::V v = json::parse(out);
    std::vector<std::string> l;
    for (auto& r : v.a) l.push_back(dump(r));
    std::sort(l.begin(), l.end());
    std::string s;
    for (auto& x : l) s += x + "\n";
    return s;
}
static void same(const char* what, const std::string& a, const std::string& b)
{
    std::string x = norm(a), y = norm(b);
    VX_CHECK(x == y, "%s gives\n%s\ninstead of\n%s", what, x.c_str(), y.c_str());
}
// --- rank programs: B/E = begin/end region, L/M = begin loop, i = iteration end with next begin, e = end
struct Ev { char t; const char* name; int n; };
static const std::vector<std::vector<Ev>> PROGS = {
    {}, { { 'B', "a", 0 }, { 'E', "a", 0 } }, { { 'B', "a", 0 }, { 'B', "b", 0 }, { 'E', "b", 0 }, { 'B', "b", 0 }, { 'E', "b", 0 }, { 'E', "a", 0 }, { 'B', "a", 0 }, { 'E', "a", 0 } },
    { { 'L', "L", 3 } }, { { 'B', "a", 0 }, { 'L', "L", 5 }, { 'E', "a", 0 } }, { { 'L', "M", 2 }, { 'L', "L", 2 }, { 'B', "c", 0 }, { 'E', "c", 0 } }, { { 'L', "L", 4 }, { 'B', "b", 0 }, { 'E', "b", 0 }, { 'L', "L", 1 } }, { { 'L', "M", 30 } } };
static std::string prog_str(int p) { std::string s = "("; for (auto& e : PROGS[p]) s += vx::fmt(" %c%s%s", e.t, e.name, e.n ? vx::fmt("*%d", e.n).c_str() : ""); return s + " )"; }
// path, time since the last event; called by the real run (tick = advance the clock) and by the model
struct Model {
    std::map<std::string, long long> excl; // path -> ms
    std::vector<std::string> stk;
    struct It { std::string loop; int start; long long ms; };
    std::vector<It> its;
    std::map<std::string, int> iterations, records; // per loop
    std::string path() const { std::string s; for (auto& x : stk) s += (s.empty() ? "" : "/") + x; return s; }
    long long step = 0;
    void tick(long long ms) { excl[path()] += ms; step += ms; }
    void run(int prog, int rank)
    {
        long long t = 3 + rank;
        for (auto& e : PROGS[prog]) {
            tick(t += 2);
            if (e.t == 'B') stk.push_back(e.name);
            else if (e.t == 'E') stk.pop_back();
            else {
                stk.push_back(e.name);
                step = 0;
                for (int i = 0; i < e.n; ++i) { tick(t); its.push_back({ e.name, i, step }); step = 0; ++t; }
                tick(t += 2);
                iterations[e.name] += e.n;
                records[e.name] += e.n + 1;
                stk.pop_back();
            }
        }
    }
};
static void tick(long long ms) { fake_ns() += ms * 1000000; }
static void play(int prog, int rank)
{
    cali_init();
    long long t = 3 + rank;
    for (auto& e : PROGS[prog]) {
        tick(t += 2);
        if (e.t == 'B') cali_begin_region(e.name);
        else if (e.t == 'E') cali_end_region(e.name);
        else {
            cali_begin_string(cali_loop_attr_id, e.name);
            cali_id_t it = cali_make_loop_iteration_attribute(e.name);
            for (int i = 0; i < e.n; ++i) { cali_begin_int(it, i); tick(t); cali_end(it); ++t; }
            tick(t += 2);
            cali_end(cali_loop_attr_id);
        }
    }
}
static std::string dir() { static std::string d; d = vx::opt.scratch + "/" + std::to_string(getpid()); return d; }
static std::vector<int> split(uint64_t x, int P) { std::vector<int> v; for (int k = 0; k < P; ++k) { v.push_back(x % PROGS.size()); x /= PROGS.size(); } return v; }
static std::string progs_str(const std::vector<int>& v) { std::string s; for (int x : v) s += prog_str(x) + " "; return s; }
// --- queries over processes in every way
static const std::vector<std::pair<const char*, const char*>> QS = {
    { "select *,count() group by region,loop", "select *,sum(count) as \"All\",max(count),min(count) group by region,loop format json(records)" },
    { "select count(),sum(time.duration.ns) group by path", "aggregate sum(count),avg(sum#time.duration.ns),max(sum#time.duration.ns),inclusive_sum(sum#time.duration.ns) group by path format json(records)" },
    { "let t=scale(time.duration.ns,1e-6),l=leaf() where l aggregate sum(t) group by path", "let u=scale(sum#t,2) select sum(u),percent_total(u) group by path where u>9 format json(records)" },
    { "let l=leaf() select l,count() group by l", "select l,sum(count) group by l format json(records)" } };
static const char* WAYS[] = { "collective_flush", "CollectiveOutputChannel", "the mpireport service", "MpiChannelManager" };
static void reports(int P, uint64_t x, int way, int q, bool sync)
{
    std::vector<int> pr = split(x, P);
    std::string d = dir();
    mpi::processes(P, [&](int k) {
        if (!freopen("/dev/null", "w", stderr)) return;   // (a note on a service that is not part of this build)
        static const CaliperService svc[] = { mpireport_service, { nullptr, nullptr } };
        services::add_service_specs(svc);
        services::add_default_service_specs();
        std::string out = d + ".out", own = d + "." + std::to_string(k);
        std::map<std::string, std::string> cfg = { { "CALI_SERVICES_ENABLE", "event,timer,trace" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, rep = cfg;
        rep["CALI_SERVICES_ENABLE"] += ",mpireport";
        rep["CALI_MPIREPORT_FILENAME"] = out;
        rep["CALI_MPIREPORT_CONFIG"] = QS[q].second;
        rep["CALI_MPIREPORT_LOCAL_CONFIG"] = QS[q].first;
        rep["CALI_MPIREPORT_WRITE_ON_FINALIZE"] = "false";
        cali_id_t base = create_channel("base", 0, cfg);
        std::shared_ptr<CollectiveOutputChannel> coc;
        std::unique_ptr<MpiChannelManager> mcm;
        cali_id_t svch = 0;
        auto ctl = std::make_shared<ChannelController>("rep", 0, rep);
        if (way == 1) { coc = CollectiveOutputChannel::from(ctl); VX_CHECK(coc, "no output channel"); coc->start(); }
        if (way == 2) svch = create_channel("svc", 0, rep);
        if (way == 3) { mcm.reset(new MpiChannelManager(MPI_COMM_WORLD)); mcm->add(ctl); mcm->start(); }
        play(pr[k], k);
        Caliper c;
        { // this rank's data
            cdb::Writer w;
            c.flush(c.get_channel(base).body(), SnapshotView(), [&w](CaliperMetadataAccessInterface& db, const std::vector<Entry>& r) { w.write_one(db, r); });
            std::ofstream(own, std::ios::binary) << w.text();
        }
        std::ostringstream os;
        if (way == 0) {
            OutputStream st;
            st.set_stream(&os);
            collective_flush(st, c, c.get_channel(base).body(), SnapshotView(), parse(QS[q].first), parse(QS[q].second), MPI_COMM_WORLD);
        } else if (way == 1) coc->collective_flush(os, MPI_COMM_WORLD);
        else if (way == 2) cali_channel_flush(svch, 0);
        else mcm->collective_flush();
        if (way < 2) { if (k == 0) std::ofstream(out, std::ios::binary) << os.str(); else VX_CHECK(os.str().empty(), "output: %s", os.str().c_str()); }
    }, sync);
    // the same in one process
    std::ostringstream os;
    {
        QuerySpec ls = parse(QS[q].first), cs = parse(QS[q].second);
        OutputStream st;
        st.set_stream(&os);
        CaliperMetadataDB db;
        db.add_attribute_aliases(cs.aliases);
        db.add_attribute_units(cs.units);
        QueryProcessor cross(cs, st);
        for (int k = 0; k < P; ++k) {
            Aggregator agg(ls);
            Preprocessor pre(ls);
            RecordSelector sel(ls);
            CaliperMetadataDB ldb;
            CaliReader r;
            std::string f = d + "." + std::to_string(k);
            r.read(f, ldb, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& in, const EntryList& e) { EntryList x = pre.process(in, e); if (sel.pass(in, x)) agg.add(in, x); });
            VX_CHECK(!r.error(), "cannot read the data of rank %d: %s", k, r.error_msg().c_str());
            agg.flush(ldb, [&](CaliperMetadataAccessInterface& in, const EntryList& e) { cross.process_record(db, db.merge_snapshot(in, e)); });
            unlink(f.c_str());
        }
        cross.flush(db);
    }
    std::string o = read_file(d + ".out");
    unlink((d + ".out").c_str());
    same(WAYS[way], o, os.str());
}
// --- the controllers: times per region and rank are known
struct Stat { double mn = 1e300, mx = -1e300, sum = 0; int n = 0; void add(double v) { mn = std::min(mn, v); mx = std::max(mx, v); sum += v; ++n; } double avg() const { return sum / n; } };
static void model(int P, const std::vector<int>& pr, std::map<std::string, Stat>& in, std::map<std::string, Stat>& ex, std::vector<Model>& ms)
{
    for (int k = 0; k < P; ++k) {
        Model m;
        m.run(pr[k], k);
        std::map<std::string, long long> inc;
        for (auto& p : m.excl) for (size_t n = 0; n != std::string::npos;) { n = p.first.find('/', n + 1); inc[p.first.substr(0, n)] += p.second; }
        for (auto& p : inc) if (!p.first.empty()) in[p.first].add(p.second * 1e-3);
        for (auto& p : m.excl) if (!p.first.empty()) ex[p.first].add(p.second * 1e-3);
        ms.push_back(m);
    }
}
typedef std::map<std::string, std::string> MRow;
static bool num(const MRow& r, const std::string& n, double& v) { auto it = r.find(n); if (it == r.end()) return false; size_t c = it->second.find(':'); v = it->second.substr(0, c) == "double" ? strtod(it->second.c_str() + c + 1, nullptr) : atof(it->second.c_str() + c + 1); return true; }
static void near(const std::string& what, const MRow& r, const std::string& n, double exp)
{
    double v = 0;
    VX_CHECK(num(r, n, v), "%s: no %s", what.c_str(), n.c_str());
    VX_CHECK(fabs(v - exp) <= 1e-9 * std::max(1.0, fabs(exp)), "%s: %s is %.12g, expected %.12g", what.c_str(), n.c_str(), v, exp);
}
static std::vector<MRow> rows(const std::string& text)
{
    std::vector<MRow> o;
    CaliperMetadataDB db;
    CaliReader r;
    std::istringstream is(text);
    r.read(is, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& in, const EntryList& l) {
        MRow m;
        for (auto& e : l) {
            if (e.is_immediate()) { m[in.get_attribute(e.attribute()).name()] = cdb::val(e.value()); continue; }
            for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) {
                Attribute a = in.get_attribute(n->attribute());
                std::string v = n->data().to_string();
                if (a.is_nested()) m["path"] = m.count("path") ? v + "/" + m["path"] : v; else m[a.name()] = v;
            }
        }
        o.push_back(m);
    });
    VX_CHECK(!r.error(), "cannot read the output: %s", r.error_msg().c_str());
    return o;
}
static void spot(int P, uint64_t x, int variant, bool sync)
{
    std::vector<int> pr = split(x, P);
    std::string f = dir() + ".spot";
    int maxrows = variant == 2 ? 4 : variant == 3 ? 0 : 20;
    mpi::processes(P, [&](int k) {
        ConfigManager mgr;
        mgr.add((std::string("spot(") + (variant ? "timeseries,timeseries.iteration_interval=1" : "") + (maxrows != 20 ? vx::fmt(",timeseries.maxrows=%d", maxrows) : "") + ")").c_str());
        VX_CHECK(!mgr.error(), "%s", mgr.error_msg().c_str());
        mgr.start();
        play(pr[k], k);
        std::ostringstream os;
        auto coc = CollectiveOutputChannel::from(mgr.get_channel("spot"));
        VX_CHECK(coc, "no output channel");
        coc->collective_flush(os, MPI_COMM_WORLD);
        if (k == 0) std::ofstream(f, std::ios::binary) << os.str(); else VX_CHECK(os.str().empty(), "output: %s", os.str().substr(0, 200).c_str());
    }, sync);
    std::vector<MRow> out = rows(read_file(f));
    unlink(f.c_str());
    std::map<std::string, Stat> in, ex;
    std::vector<Model> ms;
    model(P, pr, in, ex, ms);
    std::map<std::string, int> seen;
    struct Row { double it = 0, ms = 0, ips = 0; int n = 0; };
    std::map<std::pair<std::string, int>, Row> ts;
    std::map<std::string, int> blk;
    for (auto& m : ms) for (auto& i : m.iterations) blk[i.first] = 0;
    for (auto& b : blk) {
        int it = 0, rec = 0;
        for (auto& m : ms) { it = std::max(it, m.iterations[b.first]); rec = std::max(rec, m.records[b.first]); }
        int nb = maxrows > 0 ? maxrows : rec;
        b.second = std::max(1, rec > nb ? it / nb : 1);
        for (auto& m : ms) {
            std::map<int, std::pair<int, long long>> own;
            for (auto& i : m.its) if (i.loop == b.first) { auto& o = own[i.start / b.second * b.second]; ++o.first; o.second += i.ms; }
            for (auto& o : own) { Row& r = ts[{ b.first, o.first }]; r.it = std::max(r.it, (double) o.second.first); r.ms = std::max(r.ms, (double) o.second.second); r.ips += o.second.first * 1e3 / o.second.second; ++r.n; }
        }
    }
    size_t nts = 0;
    for (auto& r : out) {
        std::string ch = r.count("spot.channel") ? r.at("spot.channel") : "";
        if (ch == "regionprofile") {
            std::string p = r.count("path") ? r.at("path") : "";
            if (p.empty()) continue;
            VX_CHECK(!seen[p]++, "two rows for %s", p.c_str());
            VX_CHECK(in.count(p), "a row for %s", p.c_str());
            Stat i = in[p], e = ex[p];
            near(p, r, "min#inclusive#sum#time.duration", i.mn);
            near(p, r, "max#inclusive#sum#time.duration", i.mx);
            near(p, r, "avg#inclusive#sum#time.duration", i.avg());
            near(p, r, "sum#inclusive#sum#time.duration", i.sum);
            if (e.n) { near(p, r, "min#scale#sum#time.duration.ns", e.mn); near(p, r, "max#scale#sum#time.duration.ns", e.mx); near(p, r, "avg#scale#sum#time.duration.ns", e.avg()); near(p, r, "sum#scale#sum#time.duration.ns", e.sum); }
        } else {
            VX_CHECK(ch == "timeseries" && variant, "a row of channel `%s'", ch.c_str());
            double b = 0;
            std::string loop = r.count("loop") ? r.at("loop") : r.count("path") ? r.at("path").substr(r.at("path").rfind('/') + 1) : "";
            VX_CHECK(num(r, "block", b) && ts.count({ loop, (int) b }), "a row for loop `%s', block %g", loop.c_str(), b);
            Row& e = ts[{ loop, (int) b }];
            std::string w = vx::fmt("loop %s, block %g", loop.c_str(), b);
            near(w, r, "max#sum#loop.iterations", e.it);
            near(w, r, "max#scale#time.duration.ns", e.ms * 1e-3);
            near(w, r, "avg#ratio#loop.iterations/time.duration.ns", e.ips / e.n);
            ++nts;
        }
    }
    for (auto& p : in) VX_CHECK(seen.count(p.first), "no row for %s", p.first.c_str());
    if (variant) VX_CHECK(nts == ts.size(), "%zu rows of time series data, expected %zu", nts, ts.size());
}
static void runtime_report(int P, uint64_t x, int way, bool sync)
{
    std::vector<int> pr = split(x, P);
    std::string f = dir() + ".rr";
    mpi::processes(P, [&](int k) {
        if (!freopen("/dev/null", "w", stderr)) return;   // (a note on a service that is not part of this build)
        static const CaliperService svc[] = { mpireport_service, { nullptr, nullptr } };
        services::add_service_specs(svc);
        services::add_default_service_specs();
        ConfigManager mgr;
        mgr.add(("runtime-report(max_column_width=60,aggregate_across_ranks=true,time.exclusive,output=" + f + ")").c_str());
        VX_CHECK(!mgr.error(), "%s", mgr.error_msg().c_str());
        std::shared_ptr<CollectiveOutputChannel> coc;
        if (way) { coc = CollectiveOutputChannel::from(mgr.get_channel("runtime-report")); VX_CHECK(coc, "no output channel"); coc->start(); }
        else mgr.start();
        play(pr[k], k);
        if (!way) { mgr.flush(); return; }
        std::ostringstream os;
        coc->collective_flush(os, MPI_COMM_WORLD);
        if (k == 0) std::ofstream(f, std::ios::binary) << os.str(); else VX_CHECK(os.str().empty(), "output: %s", os.str().substr(0, 200).c_str());
    }, sync);
    std::string o = read_file(f);
    unlink(f.c_str());
    std::map<std::string, Stat> in, ex;
    std::vector<Model> ms;
    model(P, pr, in, ex, ms);
    double tot = 0;
    for (auto& p : ex) tot += p.second.sum;
    std::istringstream is(o);
    std::string head, line;
    std::getline(is, head);
    std::vector<std::string> stk;
    std::map<std::string, int> seen;
    static const char* COL[] = { "Min time/rank", "Avg time/rank", "Max time/rank", "Time %", "Min time/rank (E)", "Avg time/rank (E)", "Max time/rank (E)", "Time % (E)" };
    if (!in.empty()) { size_t at = 0; for (int c = 0; c < 8; ++c) { size_t n = head.find(COL[c], at); VX_CHECK(n != std::string::npos, "no column `%s' in `%s'", COL[c], head.c_str()); at = n + strlen(COL[c]); } }
    while (std::getline(is, line)) {
        size_t ind = line.find_first_not_of(' ');
        if (ind == std::string::npos) continue;
        std::istringstream ls(line);
        std::string name;
        ls >> name;
        stk.resize(ind / 2);
        stk.push_back(name);
        std::string p;
        for (auto& s : stk) p += (p.empty() ? "" : "/") + s;
        VX_CHECK(in.count(p) && !seen[p]++, "unexpected row for %s in\n%s", p.c_str(), o.c_str());
        Stat i = in[p], e = ex[p];
        std::vector<double> exp = { i.mn, i.avg(), i.mx, 100 * i.sum / tot };
        if (e.n) { exp.push_back(e.mn); exp.push_back(e.avg()); exp.push_back(e.mx); exp.push_back(100 * e.sum / tot); }
        for (size_t c = 0; c < exp.size(); ++c) {
            double v = -1;
            VX_CHECK(ls >> v, "no value for column %s in row %s", COL[c], line.c_str());
            VX_CHECK(fabs(v - exp[c]) < 2e-6, "%s of %s is %.9g, expected %.9g in\n%s\n%s", COL[c], p.c_str(), v, exp[c], head.c_str(), line.c_str());
        }
    }
    for (auto& p : in) VX_CHECK(seen.count(p.first), "no row for %s in\n%s", p.first.c_str(), o.c_str());
}
// --- the parallel query tool on per-rank files, against the query tool on all the files
static const std::vector<const char*> TQ = {
    "select *,count() group by fn,s format json(records)", "aggregate sum(x),max(d),any(u),inclusive_sum(x) group by path format json(records)", "let z=scale(x,2) aggregate sum(z) where z>5 group by fn format json(records)",
    "let l=leaf() select l,count(),sum(x) as \"X sum\" unit \"u\" group by l where l format json(records)", "select fn,sum(x) as \"X\",avg(d) where fn group by fn format json(object)", "aggregate count() where x>2,not s format json(records)", "select sum(x) as \"The sum\",percent_total(x) group by k,path order by sum#x format table",
    "let f=first(y,x) if fn aggregate sum(f) group by s where f format json(records)", "aggregate sum(x) group by path format tree" };
static void tool(int P, const std::vector<int>& seq, uint64_t assign, int q, bool sync)
{
    std::string d = dir() + ".d";
    mkdir(d.c_str(), 0700);
    std::vector<std::vector<int>> own(P);
    for (int x : seq) { own[assign % P].push_back(x); assign /= P; }
    std::string cmd = std::string(getenv("VX_BUILD")) + "/src/tools/cali-query/cali-query -q '" + TQ[q] + "'";
    QuerySpec none = parse("aggregate count()");
    for (int k = 0; k < P; ++k) {
        Part p(none);
        cdb::Writer w;
        for (int n = 0; n < k; ++n) p.db.create_attribute(vx::fmt("other.%d", n), CALI_TYPE_INT, CALI_ATTR_DEFAULT);
        for (int x : own[k]) {
            EntryList l;
            for (auto& e : RECS()[x]) {
                if (!e.ref) { l.push_back(Entry(p.attr(e.v[0].first), e.v[0].second.variant())); continue; }
                Node* n = nullptr;
                for (auto& v : e.v) { Attribute a = p.attr(v.first); Variant y = v.second.variant(); n = p.db.make_tree_entry(1, &a, &y, n); }
                l.push_back(Entry(n));
            }
            w.write_one(p.db, l);
        }
        std::string f = d + "/" + std::to_string(k) + ".cali";
        std::ofstream(f, std::ios::binary) << w.text();
        cmd += " " + f;
    }
    std::string out = d + "/out";
    mpi::processes(P, [&](int) {
        std::vector<std::string> a = { "mpi-caliquery", "-q", TQ[q], "-o", out, d };
        std::vector<char*> v;
        for (auto& s : a) v.push_back(&s[0]);
        v.push_back(nullptr);
        int rc = mpi_caliquery_main(a.size(), v.data());
        VX_CHECK(rc == 0, "mpi-caliquery returns %d", rc);
    }, sync);
    std::string o = read_file(out), ser;
    FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r");
    char b[4096];
    for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;) ser.append(b, n);
    VX_CHECK(pclose(f) == 0, "the query tool fails");
    for (int k = 0; k < P; ++k) unlink((d + "/" + std::to_string(k) + ".cali").c_str());
    unlink(out.c_str());
    rmdir(d.c_str());
    std::string t = TQ[q];
    if (t.find("json(records)") != std::string::npos) same(TQ[q], o, ser);
    else {
        auto lines = [](const std::string& s) { std::vector<std::string> l; std::istringstream is(s); for (std::string x; std::getline(is, x);) { std::string y; std::istringstream ls(x); for (std::string w; ls >> w;) y += w + " "; l.push_back(y); } std::sort(l.begin(), l.end()); std::string r; for (auto& x : l) r += x + "\n"; return r; };
        if (t.find("json") != std::string::npos) { json::V a = json::parse(o), s = json::parse(ser); const json::V *x = a.get("records"), *y = s.get("records"); VX_CHECK(x && y, "`%s': no records in %s", TQ[q], o.c_str()); std::vector<std::string> l, m; for (auto& r : x->a) l.push_back(dump(r)); for (auto& r : y->a) m.push_back(dump(r)); std::sort(l.begin(), l.end()); std::sort(m.begin(), m.end()); VX_CHECK(l == m, "`%s' gives\n%s\ninstead of\n%s", TQ[q], o.c_str(), ser.c_str()); }
        else VX_CHECK(lines(o) == lines(ser), "`%s' gives\n%s\ninstead of\n%s", TQ[q], o.c_str(), ser.c_str());
    }
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
    uint64_t NP = PROGS.size();
    auto cases = [=](int maxp) { uint64_t n = 0, c = 1; for (int p = 1; p <= maxp; ++p) n += c *= NP; return n; };
    auto pick = [=](uint64_t i, int& P, uint64_t& x) { uint64_t c = NP; P = 1; while (i >= c) { i -= c; c *= NP; ++P; } x = i; };
    int mp = vx::thorough() ? 4 : 3;
    uint64_t n3 = cases(mp), n2 = cases(2);
    auto desc = [=](uint64_t i) { int P; uint64_t x; pick(i, P, x); return vx::fmt("%d ranks: ", P) + progs_str(split(x, P)); };
    // every way, query and send mode for two ranks; for three ranks they rotate
    d.enumerate("reports", n2 * 32 + (n3 - n2) * 4, [=](uint64_t i) {
        int P, way, q; uint64_t x; bool sync;
        if (i < n2 * 32) { pick(i / 32, P, x); way = i % 4; q = i / 4 % 4; sync = i / 16 % 2; }
        else { uint64_t j = i - n2 * 32; pick(n2 + j / 4, P, x); way = j % 4; q = (j / 4 + j / 4 / NP + way) % 4; sync = j / 4 / NP / NP % 2; }
        reports(P, x, way, q, sync);
        vx::seen(i);
    }, [=](uint64_t i) { return desc(i < n2 * 32 ? i / 32 : n2 + (i - n2 * 32) / 4); }, 8);
    d.enumerate("spot", n3 * 2 + n2 * 6, [=](uint64_t i) {
        int P; uint64_t x;
        if (i < n3 * 2) { pick(i / 2, P, x); spot(P, x, 1, i % 2); } else { uint64_t j = i - n3 * 2; static const int V[] = { 0, 2, 3 }; pick(j / 6, P, x); spot(P, x, V[j % 3], j / 3 % 2); }
        vx::seen(i);
    }, [=](uint64_t i) { return desc(i < n3 * 2 ? i / 2 : (i - n3 * 2) / 6); }, 8);
    d.enumerate("runtime-report", n3 * 2, [=](uint64_t i) { int P; uint64_t x; pick(i / 2, P, x); runtime_report(P, x, i % 2, (i / 2 + i / 2 / NP) % 2); vx::seen(i); }, [=](uint64_t i) { return desc(i / 2); }, 8);
    uint64_t NQ = TQ.size(), S = seqs(vx::thorough() ? 3 : 2);
    d.enumerate("query tool", S * NQ, [=](uint64_t i) { auto s = seq_of(i / NQ); int P = 1 + (i / NQ) % 3; for (uint64_t a = vx::thorough() ? 0 : i / NQ / 3 % 2; a < (uint64_t) pow(P, s.size()); a += vx::thorough() ? 1 : 2) tool(P, s, a, i % NQ, a % 2); vx::seen(i); }, [=](uint64_t i) { return vx::fmt("%d ranks, `%s' on ", (int) (1 + (i / NQ) % 3), TQ[i % NQ]) + show_seq(seq_of(i / NQ)); }, 4);
    };
    return d.main(argc, argv);
}
