// G02: runtime settings.  Where a setting comes from, configuration files and profiles, lists and typed values --
// every combination within bounds against an evaluation of the documented rules.
#include "svc.hpp"
#include "common/RuntimeConfig.h"
#include <climits>
#include <cmath>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace cali;
namespace {
typedef std::map<std::string, std::string> Prof;
typedef std::map<std::string, Prof> Profs;
std::string dir() { static std::string d = vx::opt.scratch + vx::fmt("/g02.%d", (int) getpid()); static int made = mkdir(d.c_str(), 0755); (void) made; return d; }
void put(const std::string& name, const std::string& text) { std::ofstream f(name, std::ios::binary | std::ios::trunc); f << text; }
bool sp(char c) { return isspace((unsigned char) c); }

// ---------------------------------------------------------------- model
// a value in a file: up to the first unquoted blank; quotes group, backslashes escape
std::string word(const std::string& s)
{
    size_t i = 0;
    while (i < s.size() && sp(s[i])) ++i;
    std::string r;
    for (bool q = false; i < s.size(); ++i) {
        if (s[i] == '\\') { if (++i < s.size()) r += s[i]; }
        else if (s[i] == '"') q = !q;
        else if (!q && sp(s[i])) break;
        else r += s[i];
    }
    return r;
}
void model_file(const std::vector<std::string>& lines, Profs& ps)
{
    std::string cur = "default";
    for (const std::string& l : lines) {
        if (!l.empty() && l[0] == '#') {
            size_t b = l.find('['), e = l.find(']');
            if (b != std::string::npos && e != std::string::npos && b + 1 < e) cur = l.substr(b + 1, e - b - 1);
            continue;
        }
        size_t q = l.find('=');
        if (q == std::string::npos || q == 0) continue;
        ps[cur][l.substr(0, q)] = word(l.substr(q + 1));
    }
}
struct Sources {
    Profs files;            // all files together
    Prof preset, env, set;
    bool allow_env = true;
    std::map<std::string, std::string> builtin;
    std::string lookup(const std::string& var, const Prof& comb) const
    {
        auto f = [&](const Prof& p, std::string& v) { auto i = p.find(var); if (i == p.end()) return false; v = i->second; return true; };
        std::string v;
        if (f(set, v) || (allow_env && f(env, v)) || f(comb, v) || f(builtin, v)) return v;
        return "";
    }
    std::map<std::string, std::string> eval(const std::vector<std::string>& vars) const
    {
        Prof comb = preset;
        auto merge = [&](const std::string& n) { auto i = files.find(n); if (i != files.end()) for (auto& p : i->second) comb[p.first] = p.second; };
        merge("default");
        std::string sel = lookup("CALI_CONFIG_PROFILE", comb);
        if (sel.empty()) sel = "default";
        std::istringstream is(sel);
        for (std::string n; std::getline(is, n, ',');) merge(n);
        std::map<std::string, std::string> r;
        for (auto& v : vars) r[v] = lookup(v, comb);
        return r;
    }
};
const RuntimeConfig::config_entry_list_t ENTRIES = { { "a", "dflt" }, { "b", "" }, { "Cc", "0" } };
const std::vector<std::string> VARS = { "CALI_TEST_A", "CALI_TEST_B", "CALI_TEST_CC" };
const std::vector<std::string> KEYS = { "a", "b", "Cc" };
const std::map<std::string, std::string> BUILTIN = { { "CALI_TEST_A", "dflt" }, { "CALI_TEST_B", "" }, { "CALI_TEST_CC", "0" } };
void compare(RuntimeConfig& cfg, const Sources& s, const std::string& what)
{
    ConfigSet cs = cfg.init("test", ENTRIES);
    auto e = s.eval(VARS);
    for (int k = 0; k < 3; ++k) {
        std::string v = cs.get(KEYS[k].c_str()).to_string();
        VX_CHECK(v == e[VARS[k]], "%s is `%s' instead of `%s'\n%s", VARS[k].c_str(), v.c_str(), e[VARS[k]].c_str(), what.c_str());
        VX_CHECK(cfg.get("test", KEYS[k].c_str()).to_string() == v, "get() and init() disagree on %s\n%s", KEYS[k].c_str(), what.c_str());
    }
    VX_CHECK(cs.get("none").to_string().empty(), "an undefined setting has a value");
    vx::seen(vx::fnv(e[VARS[0]] + "|" + e[VARS[1]] + "|" + e[VARS[2]]));
}
struct Mute { svc::ErrCapture e; };

// ---------------------------------------------------------------- (1) all combinations of sources
enum { PRESET = 1, FILE1 = 2, FILE2 = 4, PROF_P = 8, PROF_Q = 16, ENV = 32, SET = 64, NSRC = 128 };
// how the profile is selected: not, by each source, and lists
struct Sel { const char* name; int src; const char* val; };
const std::vector<Sel> SELS = { { "no profile", 0, "" }, { "preset p", PRESET, "p" }, { "file p", FILE1, "p" }, { "second file q", FILE2, "q" }, { "env p", ENV, "p" }, { "set q", SET, "q" }, { "env p,q", ENV, "p,q" }, { "set q,p", SET, "q,p" }, { "env p,none", ENV, "p,none" }, { "file p, env q", FILE1 | ENV, nullptr }, { "env p, set q", ENV | SET, nullptr }, { "env p,default", ENV, "p,default" }, { "file p, second file q", FILE1 | FILE2, nullptr } };
std::string srcname(uint64_t i)
{
    int m = i % NSRC; i /= NSRC;
    const Sel& s = SELS[i % SELS.size()]; i /= SELS.size();
    std::string r = "setting in:";
    const char* n[] = { " preset", " file", " second-file", " profile-p", " profile-q", " environment", " set" };
    for (int k = 0; k < 7; ++k) if (m >> k & 1) r += n[k];
    return r + "; profile: " + s.name + (i % 2 ? "; environment not allowed" : "") + (i / 2 % 3 == 0 ? "; file list set" : i / 2 % 3 == 1 ? "; file list in the environment" : "; file list preset");
}
void sources(uint64_t i)
{
    std::string what = srcname(i);
    int m = i % NSRC; i /= NSRC;
    const Sel& sel = SELS[i % SELS.size()]; i /= SELS.size();
    bool noenv = i % 2;
    int filesrc = i / 2 % 3;
    Sources s;
    s.builtin = BUILTIN;
    s.allow_env = !noenv;
    std::string A = dir() + "/f1", B = dir() + "/f2", flist = A + "," + B;
    std::vector<std::string> fa, fb;
    auto selval = [&](int src) -> std::string { return sel.val ? sel.val : src == FILE1 || (src == ENV && (sel.src & SET)) ? "p" : "q"; };
    RuntimeConfig cfg;
    cfg.allow_read_env(!noenv);
    for (auto* v : { "CALI_TEST_A", "CALI_TEST_B", "CALI_TEST_CC", "CALI_CONFIG_PROFILE", "CALI_CONFIG_FILE" }) unsetenv(v);
    auto def = [&](int src, const std::string& var, const std::string& v) {
        switch (src) {
        case PRESET: cfg.preset(var.c_str(), v); s.preset[var] = v; break;
        case ENV: setenv(var.c_str(), v.c_str(), 1); s.env[var] = v; break;
        case SET: cfg.set(var.c_str(), v); s.set[var] = v; break;
        case FILE1: fa.insert(fa.begin(), var + "=" + v); break;
        case FILE2: fb.push_back(var + "=" + v); break;
        case PROF_P: fa.push_back("# [p]"); fa.push_back(var + "=" + v); break;
        case PROF_Q: fa.push_back("# [q]"); fa.push_back(var + "=" + v); break;
        }
    };
    const char* vals[] = { "preset", "file", "second", "p", "q", "env", "set" };
    for (int k = 0; k < 7; ++k) if (m >> k & 1) def(1 << k, "CALI_TEST_A", vals[k]);
    for (int k : { PRESET, FILE1, FILE2, ENV, SET }) if (sel.src & k) def(k, "CALI_CONFIG_PROFILE", selval(k));
    put(A, [&] { std::string t; for (auto& l : fa) t += l + "\n"; return t; }());
    put(B, [&] { std::string t; for (auto& l : fb) t += l + "\n"; return t; }());
    def(filesrc == 0 ? SET : filesrc == 1 ? ENV : PRESET, "CALI_CONFIG_FILE", flist);
    if (filesrc != 1 || !noenv) { model_file(fa, s.files); model_file(fb, s.files); }
    { Mute mu; compare(cfg, s, what); }
    for (auto* v : { "CALI_TEST_A", "CALI_CONFIG_PROFILE", "CALI_CONFIG_FILE" }) unsetenv(v);
}

// ---------------------------------------------------------------- (2) configuration files
const std::vector<std::string> LINES = { "CALI_TEST_A=1", "CALI_TEST_A=2", "CALI_TEST_B=x y", "CALI_TEST_B=\"x  y\"z", "CALI_TEST_CC= \"a=b\\\"\" c", "# [p]", "# [q]", "#[default] text", "# comment", "", "CALI_CONFIG_PROFILE=p", "# ] [CALI_TEST_A=3", "#CALI_TEST_A=4", "no value", "=5", "CALI_TEST_A=", "CALI_CONFIG_PROFILE=\"q,p\"", "# [serial-trace]" };
void files(uint64_t i, int depth)
{
    // lines, the place where the second file starts (0: one file), final newline
    uint64_t n = LINES.size();
    std::vector<std::string> l;
    for (int k = 0; k < depth; ++k) { l.push_back(LINES[i % n]); i /= n; }
    int cut = i % depth; i /= depth;
    const char* prof[] = { "", "p", "q,p" };
    const char* pr = prof[i % 3];
    Sources s;
    s.builtin = BUILTIN;
    std::vector<std::vector<std::string>> fs;
    if (cut == 0) fs = { l };
    else fs = { { l.begin(), l.begin() + cut }, { l.begin() + cut, l.end() } };
    std::string list, what;
    int k = 0;
    for (auto& f : fs) {
        std::string fn = dir() + vx::fmt("/c%d", k++), t;
        for (size_t j = 0; j < f.size(); ++j) t += (j ? "\n" : "") + f[j];
        what += "--- file\n" + t + "\n";
        put(fn, t);
        list += (list.empty() ? "" : " , ") + fn;
        model_file(f, s.files);
    }
    RuntimeConfig cfg;
    cfg.allow_read_env(false);
    s.allow_env = false;
    cfg.set("CALI_CONFIG_FILE", list);
    if (*pr) { cfg.set("CALI_CONFIG_PROFILE", pr); s.set["CALI_CONFIG_PROFILE"] = pr; }
    Mute mu;
    compare(cfg, s, what + "profile " + pr);
}

// ---------------------------------------------------------------- (3) lists and nested values
const std::vector<std::string> WORDS = { "a", "bc", "a b", "a,b", "x\"y", "b\\", ":", "{", "]", "a:b,c", " lead", "trail ", "{a: [b]}", "'" };
std::string quoted(const std::string& w, int style, const std::string& special)
{
    // style 0: quotes, 1: backslashes, 2: bare if possible
    bool bare = w.find_first_of(" \t\"\\" + special) == std::string::npos;
    if (style == 2 && bare) return w;
    std::string r;
    if (style == 1) { for (char c : w) { if (strchr((" \"\\" + special).c_str(), c)) r += '\\'; r += c; } return r; }
    for (char c : w) { if (c == '"' || c == '\\') r += '\\'; r += c; }
    return "\"" + r + "\"";
}
std::string list_case(uint64_t i, std::vector<std::string>* exp, std::string* seps)
{
    static const std::vector<std::string> SEP = { ",", ",:", ";" }, GAP = { "", " ", "\t ", "\n" };
    std::string sp = SEP[i % 3]; i /= 3;
    if (seps) *seps = sp;
    int n = 1 + i % 3; i /= 3;
    std::string t;
    for (int k = 0; k < n; ++k) {
        std::string w = WORDS[i % WORDS.size()]; i /= WORDS.size();
        int style = i % 3; i /= 3;
        if (k) { t += sp[k % sp.size()]; if (k == 2 && i % 2) t += sp[0]; }      // empty elements are dropped
        t += GAP[(k + style + w.size()) % 4] + quoted(w, style, ",:;") + GAP[(k + 2 * w.size()) % 4];
        if (exp) exp->push_back(w);
    }
    return t;
}
void lists(uint64_t i)
{
    std::vector<std::string> exp;
    std::string seps, t = list_case(i, &exp, &seps);
    bool ok = false;
    auto got = StringConverter(t).to_stringlist(seps.c_str(), &ok);
    VX_CHECK(ok && got == exp, "the list `%s' with separators `%s' has %zu elements; first: `%s'", t.c_str(), seps.c_str(), got.size(), got.empty() ? "" : got[0].c_str());
    vx::seen(vx::fnv(t));
}
// nested values: L = list, D = dictionary, words
struct V { int kind = 0; std::string w; std::vector<V> l; std::vector<std::pair<std::string, V>> d; };
std::string render(const V& v, int style, int gap)
{
    static const char* G[] = { "", " ", "\n  " };
    std::string g = G[gap % 3];
    if (v.kind == 0) return quoted(v.w, style, ",:;{}[]");
    std::string s;
    if (v.kind == 1) { for (size_t i = 0; i < v.l.size(); ++i) s += (i ? "," + g : g) + render(v.l[i], style, gap) + g; return "[" + s + "]"; }
    for (size_t i = 0; i < v.d.size(); ++i) s += (i ? "," + g : g) + quoted(v.d[i].first, style, ",:;{}[]") + g + ":" + g + render(v.d[i].second, style, gap) + g;
    return "{" + s + "}";
}
void check_value(const V& v, const StringConverter& s, const std::string& what)
{
    bool ok = false;
    if (v.kind == 0) { VX_CHECK(s.to_string() == v.w, "`%s' instead of `%s' in %s", s.to_string().c_str(), v.w.c_str(), what.c_str()); return; }
    if (v.kind == 1) {
        auto l = s.rec_list(&ok);
        VX_CHECK(ok && l.size() == v.l.size(), "%zu elements instead of %zu (%s) of %s in %s", l.size(), v.l.size(), ok ? "ok" : "error", s.to_string().c_str(), what.c_str());
        for (size_t i = 0; i < l.size(); ++i) check_value(v.l[i], l[i], what);
        return;
    }
    auto d = s.rec_dict(&ok);
    VX_CHECK(ok && d.size() == v.d.size(), "%zu entries instead of %zu (%s) of %s in %s", d.size(), v.d.size(), ok ? "ok" : "error", s.to_string().c_str(), what.c_str());
    for (auto& p : v.d) { auto it = d.find(p.first); VX_CHECK(it != d.end(), "no entry %s in %s", p.first.c_str(), what.c_str()); check_value(p.second, it->second, what); }
}
std::vector<V> vals(int depth)
{
    std::vector<V> r;
    for (auto& w : depth == 0 ? WORDS : std::vector<std::string> { "a", "b c", "x]\"" }) { V v; v.w = w; r.push_back(v); }
    if (depth == 2) return r;
    std::vector<V> sub = vals(depth + 1);
    // lists and dictionaries of up to two members (also of up to three on the inner level: words only)
    V e; e.kind = 1; r.push_back(e);
    for (auto& a : sub) { V v; v.kind = 1; v.l = { a }; r.push_back(v); V d; d.kind = 2; d.d = { { "k", a } }; r.push_back(d); }
    for (auto& a : sub) for (auto& b : sub) { V v; v.kind = 1; v.l = { a, b }; r.push_back(v); V d; d.kind = 2; d.d = { { "k", a }, { "k 2", b } }; r.push_back(d); }
    return r;
}

// ---------------------------------------------------------------- (4) typed values
void typed(uint64_t i)
{
    // well-formed numbers around the limits, in several spellings
    static const std::vector<__int128> base = { 0, 1, 7, 10, 127, 255, INT_MAX, (__int128) INT_MAX + 1, UINT_MAX, INT64_MAX, (__int128) INT64_MAX + 1, UINT64_MAX, (__int128) UINT64_MAX + 1, (__int128) UINT64_MAX * 10, 4294967296ll };
    uint64_t n = base.size();
    __int128 v = base[i % n]; i /= n;
    if (i % 2) v = -v;
    i /= 2;
    const char* pre[] = { "", " ", "0", "+" };
    std::string p = pre[i % 4]; i /= 4;
    std::string post = i % 2 ? " " : "";
    std::string d;
    for (__int128 x = v < 0 ? -v : v; x || d.empty(); x /= 10) d.insert(d.begin(), '0' + (int) (x % 10));
    std::string t = p == "0" ? (v < 0 ? "-0" : "0") + d : p == "+" ? (v < 0 ? "-" : "+") + d : p + (v < 0 ? "-" : "") + d;
    t += post;
    StringConverter s(t);
    bool ok;
    int a = s.to_int(&ok);
    bool in = v >= INT_MIN && v <= INT_MAX;
    VX_CHECK(ok == in && (!in || a == (int) v), "`%s' as int is %d (%s)", t.c_str(), a, ok ? "ok" : "error");
    int64_t b = s.to_int64(&ok);
    in = v >= INT64_MIN && v <= INT64_MAX;
    VX_CHECK(ok == in && (!in || b == (int64_t) v), "`%s' as int64 is %ld (%s)", t.c_str(), b, ok ? "ok" : "error");
    if (v >= 0) {
        uint64_t c = s.to_uint(&ok);
        in = v <= UINT64_MAX;
        VX_CHECK(ok == in && (!in || c == (uint64_t) v), "`%s' as uint is %lu (%s)", t.c_str(), c, ok ? "ok" : "error");
        VX_CHECK(s.to_id() == (in ? (cali_id_t) v : CALI_INV_ID), "`%s' as id", t.c_str());
        if (in) { bool x = s.to_bool(&ok); VX_CHECK(ok && x == (v != 0), "`%s' as bool is %d (%s)", t.c_str(), x, ok ? "ok" : "error"); }
    }
    double f = s.to_double(&ok);
    VX_CHECK(ok && f == (double) v, "`%s' as double is %g (%s)", t.c_str(), f, ok ? "ok" : "error");
    vx::seen(vx::fnv(t));
}
void words(uint64_t i)
{
    // every string of up to five letters: truth values, and everything else is no number
    static const char L[] = "tTrRuUeEfFaAlLsS";
    std::string t;
    int n = 1 + i % 5; i /= 5;
    for (int k = 0; k < n; ++k) { t += L[i % 16]; i /= 16; }
    if (i) return;
    std::string low;
    for (char c : t) low += tolower(c);
    bool T = low == "true" || low == "t", F = low == "false" || low == "f", ok = true;
    bool b = StringConverter(t).to_bool(&ok);
    VX_CHECK(ok == (T || F) && b == T, "`%s' as bool is %d (%s)", t.c_str(), b, ok ? "ok" : "error");
    StringConverter(t).to_int(&ok); VX_CHECK(!ok, "`%s' is a number", t.c_str());
    StringConverter(t).to_uint(&ok); VX_CHECK(!ok, "`%s' is a number", t.c_str());
    StringConverter(t).to_double(&ok); VX_CHECK(!ok, "`%s' is a floating-point number", t.c_str());
}
// nothing at all makes the parsers crash or run on
void junk(uint64_t i, int len)
{
    static const char L[] = "a, \"\\:[]{}";
    std::string t;
    for (int k = 0; k < len; ++k) { t += L[i % 10]; i /= 10; }
    StringConverter s(t);
    bool ok;
    auto l = s.to_stringlist(",:", &ok);
    size_t n = 0;
    for (auto& w : l) n += w.size();
    VX_CHECK(n <= t.size() && l.size() <= t.size(), "elements from nowhere in `%s'", t.c_str());
    n = 0;
    for (auto& w : s.rec_list(&ok)) n += w.to_string().size();
    for (auto& w : s.rec_dict(&ok)) n += w.second.to_string().size() + w.first.size();
    VX_CHECK(n <= 2 * t.size(), "elements from nowhere in `%s'", t.c_str());
}

// ---------------------------------------------------------------- (5) complete programs
// what a channel records shows which services it has
std::string fingerprint(Caliper& c, Channel ch)
{
    Attribute r = c.create_attribute("r", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    c.begin(r, Variant("x"));
    c.push_snapshot(ch.body(), SnapshotView());
    c.end(r);
    bool agg = false, tim = false;
    int n = 0;
    for (auto& rec : svc::flush_records(c, ch.id())) { ++n; for (auto& e : rec) { agg |= e.find("count#") != std::string::npos || e.find("!count=") == 0 || e.find("aggregate.slot") != std::string::npos; tim |= e.find("time.offset") != std::string::npos || e.find("time.duration") != std::string::npos; } }
    return vx::fmt("%d records%s%s", n, agg ? " aggregated" : "", tim ? " timed" : "");
}
const std::vector<std::pair<const char*, const char*>> SVC = { { "trace", "1 records" }, { "event,trace", "3 records" }, { "timer:trace", "1 records timed" }, { "aggregate", "1 records aggregated" }, { "event , trace,timer", "3 records timed" } };
std::string svc_result(const std::string& v) { for (auto& p : SVC) if (v == p.first) return p.second; return "0 records"; }
void programs(uint64_t i)
{
    // sources of the default channel's services: preset, file, profile, environment, set; environment allowed; profile selected by preset
    int m = i % 32; i /= 32;
    bool noenv = i % 2; i /= 2;
    bool prof = i % 2;
    std::string r = vx::in_fork([=]() -> std::string {
        std::string d = dir() + "/p" + std::to_string(getpid());
        mkdir(d.c_str(), 0755);
        if (chdir(d.c_str())) return "chdir";
        Sources s;
        s.allow_env = !noenv;
        std::vector<std::string> f;
        if (m & 2) f.push_back(std::string("CALI_SERVICES_ENABLE=") + quoted(SVC[1].first, 2, ""));
        if (m & 4) { f.push_back("# [mine]"); f.push_back(std::string("CALI_SERVICES_ENABLE=") + SVC[2].first); }
        std::string t;
        for (auto& l : f) t += l + "\n";
        put("caliper.config", t);
        model_file(f, s.files);
        const char* V = "CALI_SERVICES_ENABLE";
        if (m & 1) { cali_config_preset(V, SVC[0].first); s.preset[V] = SVC[0].first; }
        if (prof) { cali_config_preset("CALI_CONFIG_PROFILE", "mine"); s.preset["CALI_CONFIG_PROFILE"] = "mine"; }
        if (m & 8) { setenv(V, SVC[3].first, 1); s.env[V] = SVC[3].first; }
        if (m & 16) { cali_config_set(V, SVC[4].first); s.set[V] = SVC[4].first; }
        cali_config_set("CALI_CHANNEL_FLUSH_ON_EXIT", "false");
        cali_config_allow_read_env(!noenv);
        Caliper c;
        std::string want = svc_result(s.eval({ V })[V]), got;
        Channel ch = c.get_channel(0);
        if (ch) got = fingerprint(c, ch);
        unlink("caliper.config");
        if (chdir("/")) return "chdir";
        rmdir(d.c_str());
        VX_CHECK(ch || want == "0 records", "no default channel");
        VX_CHECK(!ch || got == want, "the default channel gives %s instead of %s", got.c_str(), want.c_str());
        return got;
    });
    vx::seen(vx::fnv(r));
}
void channels(uint64_t i)
{
    // settings of a channel: from its config set, a profile named in it, the environment (if allowed), a file
    int m = i % 16; i /= 16;
    bool allow = i % 2;
    vx::in_fork([=]() -> std::string {
        std::string d = dir() + "/q" + std::to_string(getpid());
        mkdir(d.c_str(), 0755);
        if (chdir(d.c_str())) return "chdir";
        Sources s;
        s.allow_env = allow;
        const char* V = "CALI_SERVICES_ENABLE";
        std::vector<std::string> f;
        if (m & 1) f.push_back(std::string(V) + "=\"" + SVC[1].first + "\"");
        f.push_back("# [mine]"); f.push_back(std::string(V) + "=" + SVC[2].first);
        std::string t;
        for (auto& l : f) t += l + "\n";
        Caliper c;              // (the default channel does not see any of it)
        Channel def = c.get_channel(0);
        put("caliper.config", t);
        model_file(f, s.files);
        svc::Cfg kv = { { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } };
        if (m & 2) { kv.push_back({ "CALI_CONFIG_PROFILE", "mine" }); s.set["CALI_CONFIG_PROFILE"] = "mine"; }
        if (m & 4) { setenv(V, SVC[3].first, 1); s.env[V] = SVC[3].first; }
        if (m & 8) { kv.push_back({ V, SVC[4].first }); s.set[V] = SVC[4].first; }
        cali_id_t id = svc::mkchannel(kv, "c", allow ? CALI_CHANNEL_ALLOW_READ_ENV : 0);
        Channel ch = c.get_channel(id);
        std::string want = svc_result(s.eval({ V })[V]), got = fingerprint(c, ch);
        unlink("caliper.config");
        if (chdir("/")) return "chdir";
        rmdir(d.c_str());
        VX_CHECK(got == want, "the channel gives %s instead of %s", got.c_str(), want.c_str());
        VX_CHECK(!def || fingerprint(c, def) == "0 records", "the default channel has services");
        return "";
    });
}
// all lists of up to three of these, also unknown ones, in any order, with any separators: the services named are enabled
std::string svc_list(uint64_t i, std::set<int>* on)
{
    static const std::vector<std::string> N = { "event", "trace", "timer", "aggregate", "nosuch", "statistics" }, G = { ",", ":", " , ", ": ", ",:" };
    int n = i % 4; i /= 4;
    std::string t;
    for (int k = 0; k < n; ++k) {
        int s = i % 6; i /= 6;
        if (k) { t += G[i % 5]; i /= 5; }
        t += s == 1 && k == 1 ? "\"trace\"" : N[s];
        if (on) { if (on->count(s)) return ""; on->insert(s); }
    }
    return i ? "" : t;
}
void svclists(uint64_t i)
{
    std::set<int> on;
    std::string t = svc_list(i, &on);
    if (t.empty()) return;
    std::string r = vx::in_fork([=]() -> std::string {
        Mute mu;
        cali_id_t id = svc::mkchannel({ { "CALI_SERVICES_ENABLE", t }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }, "c");
        Caliper c;
        std::string got = fingerprint(c, c.get_channel(id));
        std::string err = mu.e.stop();
        bool ev = on.count(0), tr = on.count(1), ti = on.count(2), ag = on.count(3);
        int n = (tr ? ev ? 3 : 1 : 0) + (ag ? ev ? 2 : 1 : 0);      // aggregated: with and without the region
        // (event records carry the event, so that they have aggregation records of their own)
        if (ag && ev) n += 1;
        std::string want = vx::fmt("%d records%s%s", n, ag ? " aggregated" : "", ti && (tr || ag) ? " timed" : "");
        VX_CHECK(got == want, "services `%s' give %s instead of %s", t.c_str(), got.c_str(), want.c_str());
        VX_CHECK((err.find("nosuch") != std::string::npos) == (on.count(4) > 0), "messages with services `%s': %s", t.c_str(), err.c_str());
        return got;
    });
    vx::seen(vx::fnv(r));
}
}
int main(int argc, char** argv)
{
    setenv("CALI_LOG_VERBOSITY", "0", 1);
    vx::Driver d;
    d.define = [&]() {
        bool th = vx::thorough();
        d.enumerate("sources", (uint64_t) NSRC * SELS.size() * 6, sources, srcname, 64);
        uint64_t n = LINES.size();
        for (int k = 1; k <= (th ? 5 : 4); ++k) {
            uint64_t m = k * 3;
            for (int j = 0; j < k; ++j) m *= n;
            d.enumerate(vx::fmt("files of %d lines", k).c_str(), m, [k](uint64_t i) { files(i, k); }, [k](uint64_t i) { std::string s; for (int j = 0; j < k; ++j) { s += LINES[i % LINES.size()] + " | "; i /= LINES.size(); } return s; }, 256);
        }
        uint64_t W = WORDS.size() * 3;
        d.enumerate("lists", 9 * W * W * W * 2, lists, [](uint64_t i) { return list_case(i, nullptr, nullptr); }, 1024);
        static const std::vector<V> vs = vals(0);
        d.enumerate("nested values", vs.size() * 9, [](uint64_t i) { const V& v = vs[i / 9]; std::string t = render(v, i % 3, i / 3 % 3); if (v.kind) check_value(v, StringConverter(t), t); else { V l; l.kind = 1; l.l = { v, v }; std::string u = t + " , " + t; check_value(l, StringConverter(u), u); } vx::seen(vx::fnv(t)); },
                    [](uint64_t i) { return render(vs[i / 9], i % 3, i / 3 % 3); }, 256);
        d.enumerate("numbers", 15 * 2 * 4 * 2, typed, [](uint64_t i) { return vx::fmt("%lu", i); }, 8);
        d.enumerate("truth values", 5 * 1048576, words, [](uint64_t i) { return vx::fmt("%lu", i); }, 65536);
        int L = th ? 7 : 5;
        for (int k = 1; k <= L; ++k) { uint64_t m = 1; for (int j = 0; j < k; ++j) m *= 10; d.enumerate(vx::fmt("any text of length %d", k).c_str(), m, [k](uint64_t i) { junk(i, k); }, [k](uint64_t i) { std::string t; for (int j = 0; j < k; ++j) { t += "a, \"\\:[]{}"[i % 10]; i /= 10; } return t; }, 1024); }
        d.enumerate("default channel", 128, programs, [](uint64_t i) { return vx::fmt("sources %lu%s%s", i % 32, i / 32 % 2 ? " no environment" : "", i / 64 ? " profile" : ""); }, 4);
        d.enumerate("channels", 32, channels, [](uint64_t i) { return vx::fmt("sources %lu%s", i % 16, i / 16 ? " environment" : ""); }, 4);
        d.enumerate("services", 4 * 6 * 5 * 6 * 5 * 6, svclists, [](uint64_t i) { return svc_list(i, nullptr); }, 32);
    };
    int rc = d.main(argc, argv);
    return rc;
}
