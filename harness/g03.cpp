// G03: output goes exactly to the configured destination -- file name patterns, sequences of operations on output
// streams, and complete flushes of pairs of channels with different destinations, against a model of the file system.
#include "svc.hpp"
#include "common/SnapshotTextFormatter.h"
#include <caliper/common/OutputStream.h>
#include <caliper/reader/CaliReader.h>
#include <caliper/reader/CaliperMetadataDB.h>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace cali;
namespace {
std::string base() { static std::string d = vx::opt.scratch + vx::fmt("/g03.%d", (int) getpid()); static pid_t made; if (made != getpid()) { made = getpid(); d = vx::opt.scratch + vx::fmt("/g03.%d", (int) getpid()); mkdir(d.c_str(), 0755); } return d; }
std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// all files below d, and removes them
std::map<std::string, std::string> sweep(const std::string& d, const std::string& rel = "", bool keep = false)
{
    std::map<std::string, std::string> r;
    DIR* h = opendir(d.c_str());
    if (!h) return r;
    std::vector<std::string> n;
    while (dirent* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
    closedir(h);
    for (auto& x : n) {
        std::string p = d + "/" + x, q = rel.empty() ? x : rel + "/" + x;
        struct stat st;
        if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { auto s = sweep(p, q, keep); r.insert(s.begin(), s.end()); if (!keep) rmdir(p.c_str()); }
        else { r[q] = slurp(p); if (!keep) unlink(p.c_str()); }
    }
    return r;
}
struct Capture {    // of stdout or stderr
    int fd, saved, which;
    Capture(int w) : which(w) { flush(); fd = syscall(SYS_memfd_create, "cap", 0); saved = dup(w); dup2(fd, w); }
    void flush() { fflush(which == 1 ? stdout : stderr); (which == 1 ? std::cout : std::cerr).flush(); }
    std::string stop()
    {
        if (saved < 0) return "";
        flush();
        dup2(saved, which); close(saved); saved = -1;
        std::string s;
        struct stat st;
        fstat(fd, &st);
        s.resize(st.st_size);
        if (pread(fd, &s[0], s.size(), 0) < 0) s.clear();
        close(fd);
        return s;
    }
    ~Capture() { stop(); }
};

// ---------------------------------------------------------------- (1) patterns
Attribute aR, aI, aU, aD, aS, aP, aM, aRun;
void attrs(Caliper& c)
{
    aR = c.create_attribute("region.path", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    aI = c.create_attribute("i", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    aU = c.create_attribute("u", CALI_TYPE_UINT, CALI_ATTR_DEFAULT);
    aD = c.create_attribute("d.x", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE);
    aS = c.create_attribute("s s", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    aP = c.create_attribute("p", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    aM = c.create_attribute("marker", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    aRun = c.create_attribute("run", CALI_TYPE_STRING, CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS);
}
struct Tok { std::string text; bool field; std::string attr; int width; };
const std::vector<Tok>& TOKS()
{
    static std::vector<Tok> t;
    if (t.empty()) {
        for (auto* s : { "a", "/b.", " -[1]", "x y" }) t.push_back({ s, false, "", 0 });
        for (auto* a : { "region.path", "i", "u", "d.x", "s s", "none", "p" })
            for (int w : { 0, 4, 12 }) if (w == 0 || strcmp(a, "p")) t.push_back({ w ? vx::fmt("%%[%d]%s%%", w, a) : vx::fmt("%%%s%%", a), true, a, w });
        t.push_back({ "%[100]i%", true, "i", 100 });
    }
    return t;
}
struct Snap { std::vector<Entry> e; std::map<std::string, std::string> v; };
std::vector<Snap> snaps;
void make_snaps()
{
    Caliper c;
    attrs(c);
    auto node = [&](std::vector<std::pair<Attribute, Variant>> l) { Node* n = nullptr; for (auto& p : l) n = c.make_tree_entry(p.first, p.second, n); return Entry(n); };
    snaps.push_back({ {}, {} });
    snaps.push_back({ { node({ { aR, Variant("main") }, { aR, Variant("foo") }, { aS, Variant("t") }, { aR, Variant("bar") } }), Entry(aI, Variant(-7)), Entry(aD, Variant(0.5)) }, { { "region.path", "main/foo/bar" }, { "i", "-7" }, { "d.x", "0.500000" }, { "s s", "t" } } });
    snaps.push_back({ { Entry(aI, Variant(123456)), Entry(aI, Variant(2)), node({ { aU, Variant(cali_make_variant_from_uint(42)) } }), node({ { aS, Variant("") } }), node({ { aR, Variant("one") } }), node({ { aR, Variant("two") } }) }, { { "i", "123456" }, { "u", "42" }, { "s s", "" }, { "region.path", "one" } } });
}
std::string pattern(uint64_t i, int n, std::vector<int>* t = nullptr) { std::string s; for (int k = 0; k < n; ++k) { int x = i % TOKS().size(); i /= TOKS().size(); s += TOKS()[x].text; if (t) t->push_back(x); } return s; }
void patterns(uint64_t i, int n)
{
    std::vector<int> t;
    std::string p = pattern(i, n, &t);
    Caliper c;
    SnapshotTextFormatter fmt(p);
    for (auto& sn : snaps) {
        std::string want;
        for (int x : t) {
            const Tok& k = TOKS()[x];
            if (!k.field) { want += k.text; continue; }
            auto it = sn.v.find(k.attr);
            std::string v = it == sn.v.end() ? "" : it->second;
            std::string pad((size_t) std::min(80, std::max<int>(0, k.width - (int) v.size())), ' ');
            bool right = k.attr == "i" || k.attr == "u" || k.attr == "d.x";
            want += right ? pad + v : v + pad;
        }
        std::ostringstream os;
        fmt.print(os, c, sn.e);
        VX_CHECK(os.str() == want, "`%s' gives `%s' instead of `%s'", p.c_str(), os.str().c_str(), want.c_str());
        vx::seen(vx::fnv(want));
    }
}
// any text: terminates, text before the first % is kept
void junk(uint64_t i, int n)
{
    static const char L[] = "a%[]1i-";
    std::string p;
    for (int k = 0; k < n; ++k) { p += L[i % 7]; i /= 7; }
    Caliper c;
    SnapshotTextFormatter fmt(p);
    for (auto& sn : snaps) {
        std::ostringstream os;
        fmt.print(os, c, sn.e);
        std::string lit = p.substr(0, p.find('%'));
        VX_CHECK(os.str().substr(0, lit.size()) == lit, "`%s' gives `%s'", p.c_str(), os.str().c_str());
        VX_CHECK(p.find('%') != std::string::npos || os.str() == p, "`%s' gives `%s'", p.c_str(), os.str().c_str());
    }
}

// ---------------------------------------------------------------- (2) operations on streams
enum { FILE_A, FILE_B, FILE_DIR, FILE_BAD, PAT1, PAT2, PAT_OUT, S_OUT, S_ERR, S_USER, TRUNC, APPEND, WRITE, COPY, NOPS };
const char* OPN[] = { "file a", "file b", "file in new directories", "file below a file", "pattern (record 1)", "pattern (record 2)", "pattern stderr", "stdout", "stderr", "user stream", "truncate", "append", "write", "new object" };
std::string opseq(uint64_t i, int n) { std::string s; for (int k = 0; k < n; ++k) { s += std::string(k ? ", " : "") + OPN[i % NOPS]; i /= NOPS; } return s; }
void streams(uint64_t i, int n)
{
    // model
    std::map<std::string, std::string> fs;
    std::string out, err, usr, file;
    enum { NONE, OUT, ERR, USR, FIL } type = NONE;
    bool init = false, app = false, bad = false;
    std::string d = base();
    std::vector<std::unique_ptr<OutputStream>> os;
    os.emplace_back(new OutputStream);
    std::ostringstream user;
    { std::ofstream f(d + "/plain"); f << "p"; }
    { std::ofstream f(d + "/a"); f << "old\n"; }
    fs["plain"] = "p"; fs["a"] = "old\n";
    Caliper c;
    Capture co(1), ce(2);
    bool complained = false;
    for (int k = 0; k < n; ++k) {
        int op = i % NOPS; i /= NOPS;
        OutputStream& o = *os.back();
        auto to_file = [&](const std::string& f) { type = FIL; file = f; init = false; bad = false; };
        switch (op) {
        case FILE_A: o.set_filename((d + "/a").c_str()); to_file("a"); break;
        case FILE_B: o.set_filename((d + "/b").c_str()); to_file("b"); break;
        case FILE_DIR: o.set_filename((d + "/n1/n2/c").c_str()); to_file("n1/n2/c"); break;
        case FILE_BAD: o.set_filename((d + "/plain/x").c_str()); to_file(""); bad = true; break;
        case PAT1: o.set_filename((d + "/%[2]i%-%none%.t").c_str(), c, snaps[1].e); to_file("-7-.t"); break;
        case PAT2: o.set_filename((d + "/%region.path%.t").c_str(), c, snaps[1].e); to_file("main/foo/bar.t"); break;
        case PAT_OUT: o.set_filename("stderr", c, snaps[1].e); type = ERR; init = false; break;
        case S_OUT: o.set_stream(OutputStream::StdOut); type = OUT; init = false; break;
        case S_ERR: o.set_stream(OutputStream::StdErr); type = ERR; init = false; break;
        case S_USER: o.set_stream(&user); type = USR; init = false; break;
        case TRUNC: o.set_mode(OutputStream::Truncate); app = false; break;
        case APPEND: o.set_mode(OutputStream::Append); app = true; break;
        case COPY: os.emplace_back(new OutputStream); type = NONE; init = false; app = false; break;
        case WRITE: {
            std::string t = vx::fmt("%d\n", k);
            std::ostream* s = o.stream();
            VX_CHECK(s, "no stream");
            *s << t << std::flush;
            if (type == FIL && !init) { if (bad) { type = NONE; complained = true; } else if (!app) fs[file] = ""; else fs[file]; }
            init = true;
            if (type == OUT) out += t; else if (type == ERR) err += t; else if (type == USR) usr += t; else if (type == FIL) fs[file] += t;
            VX_CHECK(o, "a stream in use is not initialized");
            break; }
        }
    }
    OutputStream::StreamType ty = os.back()->type();
    os.clear();
    std::string go = co.stop(), ge = ce.stop();
    // the same file may be open more than once: later truncation and writing is up to the system
    auto got = sweep(d);
    static const OutputStream::StreamType TY[] = { OutputStream::None, OutputStream::StdOut, OutputStream::StdErr, OutputStream::User, OutputStream::File };
    VX_CHECK(ty == TY[type], "type %d instead of %d", ty, TY[type]);
    VX_CHECK(go == out, "stdout is `%s' instead of `%s'", go.c_str(), out.c_str());
    size_t p;
    bool msg = false;
    for (const char* m : { "OutputStream: ", "Could not open output stream" })
        while ((p = ge.find(m)) != std::string::npos) { size_t b = ge.rfind('\n', p), e = ge.find('\n', p); b = b == std::string::npos ? 0 : b + 1; ge.erase(b, e == std::string::npos ? std::string::npos : e + 1 - b); msg = true; }
    VX_CHECK(ge == err, "stderr is `%s' instead of `%s'", ge.c_str(), err.c_str());
    VX_CHECK(msg == complained, "%s", msg ? "a message about an output stream" : "no message about a file that cannot be opened");
    VX_CHECK(user.str() == usr, "the user's stream has `%s' instead of `%s'", user.str().c_str(), usr.c_str());
    for (auto& f : fs) VX_CHECK(got.count(f.first), "there is no file %s", f.first.c_str());
    for (auto& f : got) VX_CHECK(fs.count(f.first) && fs[f.first] == f.second, "file %s has `%s' instead of `%s'", f.first.c_str(), f.second.c_str(), fs.count(f.first) ? fs[f.first].c_str() : "(no such file)");
    std::string all = go + "|" + ge + "|" + usr;
    for (auto& f : got) all += "|" + f.first + ":" + f.second;
    vx::seen(vx::fnv(all));
}

// ---------------------------------------------------------------- (3) channels
struct Dest { const char* name; bool report; const char *file, *dir; bool append; };
const std::vector<Dest> DESTS = {
    { "recorder file", false, "x.cali", nullptr, false }, { "recorder with directory", false, "y%run%.cali", "dd", false }, { "recorder pattern", false, "e/%run%/z-%none%%region.path%.cali", nullptr, false }, { "recorder stdout", false, "stdout", nullptr, false },
    { "report file", true, "r.txt", nullptr, false }, { "report append", true, "s-%run%.txt", nullptr, true }, { "report stdout", true, "stdout", nullptr, false }, { "report stderr", true, "stderr", nullptr, false }, { "report default", true, nullptr, nullptr, false }, { "report of the channel", true, "%cali.channel%.txt", nullptr, false }, { "recorder generated name", false, "", nullptr, false } };
enum { W0, W1, F0, F1, GLOB, BEGIN, END, NCH };
const char* CHN[] = { "record 0", "record 1", "flush 0", "flush 1", "set run", "begin", "end" };
std::string chcase(uint64_t i, int n) { const Dest &a = DESTS[i % DESTS.size()], &b = DESTS[i / DESTS.size() % DESTS.size()]; i /= DESTS.size() * DESTS.size(); std::string s = std::string(a.name) + " and " + b.name + ":"; for (int k = 0; k < n; ++k) { s += std::string(" ") + CHN[i % NCH]; i /= NCH; } return s; }
// what is in a .cali file: the channel, the records' markers
std::string cali_text(const std::string& f)
{
    CaliperMetadataDB db;
    CaliReader r;
    std::string o;
    std::istringstream is(f);
    r.read(is, db, [&](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& in, const std::vector<Entry>& rec) {
        Attribute m = in.get_attribute("marker");
        for (auto& e : rec) if (e.is_immediate() && m && e.attribute() == m.id()) o += "marker=" + e.value().to_string() + "\n";
    });
    std::string ch = "?";
    Attribute a = db.get_attribute("cali.channel");
    for (const Entry& e : db.get_globals()) if (a && e.count(a)) { for (const Node* n = e.node(); n; n = n->parent()) if (n->attribute() == a.id()) ch = n->data().to_string(); if (e.is_immediate()) ch = e.value().to_string(); }
    if (r.error()) o += "error " + r.error_msg();
    return "channel " + ch + "\n" + o;
}
void channels(uint64_t i, int n)
{
    const Dest* ds[2] = { &DESTS[i % DESTS.size()], &DESTS[i / DESTS.size() % DESTS.size()] };
    i /= DESTS.size() * DESTS.size();
    // the same file twice is the user's problem
    if (ds[0] == ds[1] && ds[0]->file && strstr(ds[0]->file, "std") != ds[0]->file && *ds[0]->file && !strstr(ds[0]->file, "channel")) return;
    std::string r = vx::in_fork([=]() -> std::string {
        uint64_t s = i;
        std::string d = base();
        if (chdir(d.c_str())) return "chdir";
        std::map<std::string, std::string> fs;
        std::string out, err;
        int autof = 0;
        std::multiset<std::string> gen;         // contents of files with generated names
        std::string go, ge;
        {
            Capture co(1), ce(2);
            Caliper c;
            attrs(c);
            cali_id_t id[2];
            std::string data[2], name[2] = { "ch.one", "two" }, run, last[2];
            for (int k = 0; k < 2; ++k) {
                svc::Cfg kv = { { "CALI_SERVICES_ENABLE", ds[k]->report ? "trace,report" : "trace,recorder" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
                std::string p = ds[k]->report ? "CALI_REPORT_" : "CALI_RECORDER_";
                if (ds[k]->file) kv.push_back({ p + "FILENAME", ds[k]->file });
                if (ds[k]->dir) kv.push_back({ p + "DIRECTORY", ds[k]->dir });
                if (ds[k]->append) kv.push_back({ p + "APPEND", "true" });
                if (ds[k]->report) kv.push_back({ p + "CONFIG", "select marker where marker format expand" });
                id[k] = svc::mkchannel(kv, name[k].c_str());
            }
            int marker = 0, runs = 0, depth = 0;
            auto record = [&](int k) { Entry e(aM, Variant(++marker)); c.push_snapshot(c.get_channel(id[k]).body(), SnapshotView(1, &e)); data[k] += vx::fmt("marker=%d\n", marker); };
            auto flush = [&](int k) {
                c.flush_and_write(c.get_channel(id[k]).body(), SnapshotView());
                std::string t = (ds[k]->report ? "" : "channel " + name[k] + "\n") + data[k];
                std::string f = ds[k]->file ? ds[k]->file : "stdout";
                if (f == "stdout") { out += t; return; }
                if (f == "stderr") { err += t; return; }
                if (f.empty()) { gen.insert(t); ++autof; return; }
                auto sub = [&](const std::string& a, const std::string& v) { size_t p = f.find(a); if (p != std::string::npos) f = f.substr(0, p) + v + f.substr(p + a.size()); };
                std::string path;
                for (int x = 0; x < depth; ++x) path += (x ? "/r" : "r") + std::to_string(x);
                sub("%run%", run); sub("%none%", ""); sub("%region.path%", path); sub("%cali.channel%", name[k]);
                if (ds[k]->dir) f = std::string(ds[k]->dir) + "/" + f;
                for (size_t p; (p = f.find("//")) != std::string::npos;) f.erase(p, 1);
                if (ds[k]->append) fs[f] += t; else fs[f] = t;
            };
            auto step = [&](int op) {
                switch (op) {
                case W0: record(0); break;
                case W1: record(1); break;
                case F0: flush(0); break;
                case F1: flush(1); break;
                case GLOB: run = vx::fmt("run%d", ++runs); c.set(aRun, Variant(run.c_str())); break;
                case BEGIN: c.begin(aR, Variant(("r" + std::to_string(depth)).c_str())); ++depth; break;
                case END: if (depth) { c.end(aR); --depth; } break;
                }
            };
            for (int k = 0; k < n; ++k) { step(s % NCH); s /= NCH; }
            for (int op : { W0, W1, F1, F0 }) step(op);
            go = co.stop(); ge = ce.stop();
        }
        auto got = sweep(d);
        // recorded streams one after the other in stdout
        auto norm = [](const std::string& t) {
            if (t.find("__rec=") == std::string::npos && t.find("__rec=") == std::string::npos) return t;
            return t;
        };
        if (!ds[0]->report || !ds[1]->report) {
            // replace each .cali stream in stdout by its contents
            std::string o;
            size_t p = 0;
            while (p < go.size()) {
                if (go.compare(p, 6, "__rec=") != 0) { size_t e = go.find('\n', p); o += go.substr(p, e + 1 - p); p = e + 1; continue; }
                // (ends with its globals)
                size_t e = go.find("__rec=globals", p);
                e = e == std::string::npos ? go.size() : go.find('\n', e) + 1;
                o += cali_text(go.substr(p, e - p));
                p = e;
            }
            go = o;
        }
        (void) norm;
        VX_CHECK(go == out, "stdout is\n%s\ninstead of\n%s", go.c_str(), out.c_str());
        VX_CHECK(ge == err, "stderr is\n%s\ninstead of\n%s", ge.c_str(), err.c_str());
        std::multiset<std::string> ggen;
        for (auto& f : got) {
            std::string t = f.first.size() > 5 && f.first.substr(f.first.size() - 5) == ".cali" ? cali_text(f.second) : f.second;
            if (!fs.count(f.first) && autof) { ggen.insert(t); continue; }
            VX_CHECK(fs.count(f.first), "there is a file %s", f.first.c_str());
            VX_CHECK(fs[f.first] == t, "file %s has\n%s\ninstead of\n%s", f.first.c_str(), t.c_str(), fs[f.first].c_str());
        }
        for (auto& f : fs) VX_CHECK(got.count(f.first), "there is no file %s", f.first.c_str());
        VX_CHECK(ggen == gen, "%zu files with generated names instead of %zu, or with other contents", ggen.size(), gen.size());
        if (chdir("/")) return "chdir";
        rmdir(d.c_str());
        std::string all = out + "|" + err;
        for (auto& f : fs) all += "|" + f.first + ":" + f.second;
        return all;
    });
    vx::seen(vx::fnv(r));
}
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        bool th = vx::thorough();
        for (int k = 1; k <= (th ? 4 : 3); ++k) { uint64_t m = 1; for (int j = 0; j < k; ++j) m *= TOKS().size(); d.enumerate(vx::fmt("patterns of %d tokens", k).c_str(), m, [k](uint64_t i) { patterns(i, k); }, [k](uint64_t i) { return pattern(i, k); }, 64, make_snaps); }
        for (int k = 1; k <= (th ? 8 : 6); ++k) { uint64_t m = 1; for (int j = 0; j < k; ++j) m *= 7; d.enumerate(vx::fmt("any text of length %d", k).c_str(), m, [k](uint64_t i) { junk(i, k); }, [k](uint64_t i) { std::string p; for (int j = 0; j < k; ++j) { p += "a%[]1i-"[i % 7]; i /= 7; } return p; }, 256, make_snaps); }
        for (int k = 1; k <= (th ? 6 : 5); ++k) { uint64_t m = 1; for (int j = 0; j < k; ++j) m *= NOPS; d.enumerate(vx::fmt("%d operations on streams", k).c_str(), m, [k](uint64_t i) { streams(i, k); }, [k](uint64_t i) { return opseq(i, k); }, 128, make_snaps); }
        for (int k = 0; k <= (th ? 5 : 4); ++k) { uint64_t m = DESTS.size() * DESTS.size(); for (int j = 0; j < k; ++j) m *= NCH; d.enumerate(vx::fmt("pairs of channels, %d steps", k).c_str(), m, [k](uint64_t i) { channels(i, k); }, [k](uint64_t i) { return chcase(i, k); }, 16); }
    };
    return d.main(argc, argv);
}
