// F04 -- the pure-Python reader against the library's reader, on every file of the families of F01
// and more; each worker drives one Python process that runs the reader of the tree under test.
#include "filegen.hpp"
#include <fstream>
using namespace gen;

static std::string js(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c < 0x20) o += vx::fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}
static std::string txt(const Variant& v)
{
    if (v.type() == CALI_TYPE_DOUBLE) { double d = v.to_double(); return std::isnan(d) ? "nan" : vx::fmt("%a", d); }
    if (v.type() == CALI_TYPE_ADDR) return vx::fmt("%llx", (unsigned long long) v.to_uint());
    return v.to_string();
}
static std::string tv(const Attribute& a, const Variant& v) { return std::string("[\"") + cali_type2string(a.type()) + "\"," + js(txt(v)) + "]"; }
static std::string jrec(const DB& db, const std::vector<Entry>& r)
{
    std::map<std::string, std::string> m;
    auto add = [&](const std::string& k, const std::string& v) { auto& x = m[k]; x += (x.empty() ? "" : ",") + v; };
    for (auto& e : r) {
        if (!e.is_reference()) continue;
        std::vector<const Node*> p;
        for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) p.push_back(n);
        for (size_t i = p.size(); i-- > 0;) {
            Attribute a = db.get_attribute(p[i]->attribute());
            if (a.is_hidden()) continue;
            add(a.name(), tv(a, p[i]->data()));
            if (a.is_nested()) add("path", tv(a, p[i]->data()));
        }
    }
    for (auto& e : r)
        if (e.is_immediate()) {
            Attribute a = db.get_attribute(e.attribute());
            if (!a.is_hidden()) m[a.name()] = tv(a, e.value());
        }
    std::string s;
    for (auto& x : m) s += (s.empty() ? "" : ",") + js(x.first) + ":[" + x.second + "]";
    return "{" + s + "}";
}
static std::string jattr(const DB& db, const Attribute& a)
{
    int p = a.properties(), sc = p & CALI_ATTR_SCOPE_MASK;
    auto b = [](bool x) { return x ? "true" : "false"; };
    std::string m;
    std::set<std::string> seen;
    for (const Node* n = a.node()->parent(); n && n->attribute() != CALI_INV_ID; n = n->parent()) {
        if (n->attribute() <= 10) continue;
        Attribute x = db.get_attribute(n->attribute());
        if (!seen.insert(x.name()).second) continue;
        m += (m.empty() ? "" : ",") + js(x.name()) + ":" + tv(x, n->data());
    }
    return vx::fmt("{\"type\":\"%s\",\"nested\":%s,\"value\":%s,\"global\":%s,\"hidden\":%s,\"aggregatable\":%s,\"scope\":\"%s\",\"meta\":{", cali_type2string(a.type()), b(p & CALI_ATTR_NESTED), b(p & CALI_ATTR_ASVALUE), b(p & CALI_ATTR_GLOBAL), b(p & CALI_ATTR_HIDDEN), b(p & CALI_ATTR_AGGREGATABLE),
                   sc == CALI_ATTR_SCOPE_THREAD ? "thread" : sc == CALI_ATTR_SCOPE_PROCESS ? "process" : sc == CALI_ATTR_SCOPE_TASK ? "task" : "UNKNOWN") + m + "}}";
}
// the Python process of this worker
static FILE *pin, *pout;
static void start()
{
    if (pin) return;
    signal(SIGPIPE, SIG_IGN);
    int a[2], b[2];
    if (pipe(a) || pipe(b)) vx::fail("pipe");
    if (fork() == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(a[0], 0); dup2(b[1], 1);
        for (int i = 3; i < 64; ++i) close(i);
        setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("LC_ALL", "C.UTF-8", 1);
        std::string s = std::string(getenv("VX_ROOT")) + "/harness/f04_child.py";
        execlp("/usr/bin/python3", "python3", s.c_str(), nullptr);
        _exit(127);
    }
    close(a[0]); close(b[1]);
    pin = fdopen(a[1], "w"); pout = fdopen(b[0], "r");
}
static bool utf8(const std::string& s)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
        if (n < 0) return false;
        if (c == 0xe0 && i + 1 < s.size() && (unsigned char) s[i + 1] < 0xa0) return false;
        for (int k = 1; k <= n; ++k) if (i + k >= s.size() || (s[i + k] & 0xc0) != 0x80) return false;
        i += n + 1;
    }
    return true;
}
static void compare(const std::string& text, size_t nrec_written)
{
    if (!utf8(text)) return;
    start();
    // what the library's reader returns
    CaliperMetadataDB db;
    CaliReader r;
    std::istringstream is(text);
    std::string recs, attrs;
    size_t n = 0;
    r.read(is, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& in, const std::vector<Entry>& e) { recs += (n++ ? "," : "") + jrec(in, e); });
    VX_CHECK(!r.error() && n == nrec_written, "library reader: error %d, %zu of %zu records", r.error(), n, nrec_written);
    for (auto& a : db.get_all_attributes()) {
        std::string nm = a.name();
        if (nm == "attribute.alias" || nm == "attribute.unit" || nm.compare(0, 5, "cali.") == 0) continue;
        attrs += (attrs.empty() ? "" : ",") + js(nm) + ":" + jattr(db, a);
    }
    std::string fn = vx::fmt("%s/f04.%d.cali", vx::opt.scratch.c_str(), getpid());
    { std::ofstream o(fn); o << text; }
    std::string req = "{\"file\":" + js(fn) + ",\"records\":[" + recs + "],\"globals\":" + jrec(db, db.get_globals()) + ",\"attributes\":{" + attrs + "}}";
    std::string h = vx::fmt("%08zu", req.size());
    VX_CHECK(h.size() == 8, "request too large");
    fwrite(h.data(), 1, 8, pin); fwrite(req.data(), 1, req.size(), pin); fflush(pin);
    char b[9] = { 0 };
    VX_CHECK(fread(b, 1, 8, pout) == 8, "the Python reader process ended");
    std::string ans(atoi(b), 0);
    VX_CHECK(fread(&ans[0], 1, ans.size(), pout) == ans.size(), "the Python reader process ended");
    VX_CHECK(ans == "ok", "Python reader: %s -- file: %s", ans.c_str(), esc(text).substr(0, 900).c_str());
    vx::seen(recs + attrs);
}
static const char* UA[] = { "a", "n", ",", "=", "\\", "\"", "\n", " ", "\xc3\xa9", "\xe2\x80\xa8" };
static std::vector<std::string> US, SPECIAL;
static void role_case(int role, cali_attr_type t, const Variant& v)
{
    Src s;
    if (role == 4) { // without the repeated attribute of the general family (a dict holds one value)
        Attribute n = s.mk("n", t, CALI_ATTR_DEFAULT), i = s.mk("i", t, CALI_ATTR_ASVALUE), k = s.mk("k", CALI_TYPE_INT, CALI_ATTR_ASVALUE), l = s.mk("l", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
        s.snap({ Entry(s.node(n, v)), Entry(k, Variant(1)), Entry(i, v), Entry(l, Variant(2)) });
    } else if (!role_build(s, role, t, v)) return;
    compare(s.w.text(), s.exp.size());
}
// hierarchies: all record shapes over a tree of nested, plain, hidden and process-scope attributes
static void tree_case(uint64_t c)
{
    Src s;
    Attribute A[] = { s.mk("fn", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_THREAD), s.mk("lp", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_PROCESS), s.mk("ph", CALI_TYPE_INT, CALI_ATTR_DEFAULT), s.mk("hd", CALI_TYPE_STRING, CALI_ATTR_HIDDEN), s.mk("", CALI_TYPE_STRING, CALI_ATTR_DEFAULT) };
    // two paths of up to three nodes each from four attributes
    auto mk = [&](uint64_t& c) { Node* n = nullptr; for (int k = 0; k < 3; ++k) { int a = c % 5; c /= 5; if (a == 4) continue; n = s.node(A[a], a == 2 ? Variant((int) k) : Variant(k ? "y" : "x"), n); } return n; };
    Node *p = mk(c), *q = mk(c);
    std::vector<Entry> r;
    if (p) r.push_back(Entry(p));
    if (q && (c & 1)) r.push_back(Entry(q));
    s.snap(r);
    if (q) s.snap({ Entry(q) });
    if (p && q) s.snap({ Entry(q), Entry(p) });
    compare(s.w.text(), s.exp.size());
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    static std::vector<NV> N;
    d.define = [&]() {
        US = { "" };
        size_t b = 0;
        for (int l = 1; l <= (vx::thorough() ? 4 : 3); ++l) {
            size_t e = US.size();
            for (size_t i = b; i < e; ++i) for (int k = 0; k < 10; ++k) US.push_back(US[i] + UA[k]);
            b = e;
        }
        d.enumerate("strings x positions", (uint64_t) NROLE * US.size(), [](uint64_t i) { role_case(i % NROLE, CALI_TYPE_STRING, sv(US[i / NROLE])); }, [](uint64_t i) { return vx::fmt("%s: \"%s\"", ROLE[i % NROLE], esc(US[i / NROLE]).c_str()); }, 64);
        d.enumerate("every code point below U+0250", (0x250 - 31) * NROLE * 2ull, [](uint64_t i) {
            int c = 31 + (int) (i / NROLE / 2);
            std::string s;
            if (c == 31) s = "\n"; else if (c < 0x80) s = (char) c; else s += (char) (0xc0 | c >> 6), s += (char) (0x80 | (c & 63));
            role_case(i % NROLE, CALI_TYPE_STRING, sv(i / NROLE % 2 ? "x" + s : s));
        }, [](uint64_t i) { return vx::fmt("%s: code point %lu", ROLE[i % NROLE], 31 + i / NROLE / 2); }, 64);
        N = numbers();
        d.enumerate("numbers x positions", (uint64_t) (NROLE - 1) * N.size(), [](uint64_t i) { auto& n = N[i / (NROLE - 1)]; role_case(i % (NROLE - 1), n.t, n.v); }, [](uint64_t i) { return vx::fmt("%s: %s", ROLE[i % (NROLE - 1)], N[i / (NROLE - 1)].name.c_str()); }, 64);
        d.enumerate("attribute definitions", 4 * CALI_MAXTYPE * 8 * 128, [](uint64_t i) { Src s; auto t = attr_build(s, i); if ((i / 4 / CALI_MAXTYPE & 5) == 5) return; if (t != CALI_TYPE_USR && t != CALI_TYPE_PTR) compare(s.w.text(), s.exp.size()); else { auto txt = s.w.text(); compare(txt.substr(0, txt.rfind("__rec=ctx")), 1); } }, [](uint64_t i) { return vx::fmt("attribute case %lu", i); }, 64);
        d.enumerate("hierarchies", 15625ull * 2, tree_case, [](uint64_t i) { return vx::fmt("hierarchy case %lu", i); }, 64);
        uint64_t n = Shapes::count();
        for (int len = 0; len <= (vx::thorough() ? 3 : 2); ++len) {
            uint64_t m = 5;
            for (int k = 0; k < len; ++k) m *= n;
            auto dec = [n, len](uint64_t i) { std::vector<int> v; i /= 5; for (int k = 0; k < len; ++k) v.push_back(i % n), i /= n; return v; };
            auto ok = [](const std::vector<int>& v) { for (int k : v) if (k == 10 || k == 11 || k == 14) return false; return true; }; // repeated immediate attributes
            d.enumerate(vx::fmt("record sequences of length %d", len), m, [dec, ok](uint64_t i) { auto v = dec(i); if (!ok(v)) return; Shapes sh; seq_build(sh, v, i % 5 == 3 ? 2 : i % 5); compare(sh.s.w.text(), sh.s.exp.size()); }, [dec](uint64_t i) { std::string s = vx::fmt("globals %lu, records", i % 5); for (int k : dec(i)) s += vx::fmt(" %d", k); return s; }, 16);
        }
    };
    return d.main(argc, argv);
}
