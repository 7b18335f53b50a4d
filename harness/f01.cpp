// F01 -- writing and reading a data file preserves all data.
// Source data is built in a metadata database (or by the live library), written with the real
// writer, read back with the real reader into an empty database, and compared by content.
#include "filegen.hpp"
#include "svc.hpp"
#include <fstream>
#include <limits>
using namespace gen;

// all that was written must come back
static void check(Src& s)
{
    std::string t = s.w.text();
    Data d = read_text(t);
    std::string ctx = " -- file: " + esc(t).substr(0, 700);
    VX_CHECK(!d.error, "the reader reports an error on a file written by the library: %s%s", d.msg.c_str(), ctx.c_str());
    try {
        expect_recs("record read back", d.recs, s.exp);
        expect_globals("globals read back", d.globals, s.glob);
        for (auto& a : s.attrs) {
            VX_CHECK(d.attrs.count(a.first), "attribute %s is missing after reading", a.first.c_str());
            VX_CHECK(d.attrs[a.first] == a.second, "attribute reads back as %s, was %s", d.attrs[a.first].c_str(), a.second.c_str());
        }
    } catch (vx::Fail& f) { throw vx::Fail { f.msg + ctx, f.sig }; }
    // the written text of what was read back must read the same again (stable format)
    vx::seen(show(d.recs) + (d.globals.empty() ? "" : *d.globals.begin()));
}
static void role_case(int role, cali_attr_type t, const Variant& v) { Src s; if (role_build(s, role, t, v)) check(s); }
static void seq_case(const std::vector<int>& ks, int gl) { Shapes sh; seq_build(sh, ks, gl); check(sh.s); }
static void attr_case(uint64_t c)
{
    Src s;
    cali_attr_type t = attr_build(s, c);
    Data d = read_text(s.w.text());
    VX_CHECK(!d.error, "reader error %s", d.msg.c_str());
    for (auto& x : s.attrs) VX_CHECK(d.attrs[x.first] == x.second, "attribute reads back as %s, was %s", d.attrs[x.first].c_str(), x.second.c_str());
    if (t != CALI_TYPE_USR && t != CALI_TYPE_PTR) expect_recs("record read back", d.recs, s.exp);
    vx::seen(d.attrs["the attribute"]);
}
// live library: trace with the recorder writing a file, against an in-process flush of the same channel
struct Live : vx::World {
    cali_id_t ch = 0, fn = 0, ph = 0, iv = 0, dv = 0, gl = 0, gi = 0, sv_ = 0;
    std::string file;
    int depth_ = 0, nfl = 0;
    bool hist_open = false;
    void setup() override
    {
        setenv("CALI_LOG_VERBOSITY", "0", 1);
        file = "f01live.cali"; // relative: every process of the exploration works in a directory of its own
        cali_init();
        fn = cali_create_attribute("fn", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        ph = cali_create_attribute("phase,=", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        iv = cali_create_attribute("iv", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
        dv = cali_create_attribute("dv", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE);
        sv_ = cali_create_attribute("sv", CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
        gl = cali_create_attribute("gl", CALI_TYPE_STRING, CALI_ATTR_GLOBAL);
        gi = cali_create_attribute("gi", CALI_TYPE_DOUBLE, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE);
        ch = svc::mkchannel({ { "CALI_SERVICES_ENABLE", "trace,event,recorder" }, { "CALI_RECORDER_FILENAME", file } }, "live", 0);
        cali_activate_channel(ch);
    }
    int nops() const override { return 14; }
    std::string opname(int k) const override
    {
        static const char* N[] = { "begin fn 'a,=b'", "begin fn ''", "end fn", "set phase 'x\\\\'", "set phase ''", "set iv -5", "set dv 1/3", "set sv ''", "global gl 'é=1,'", "global gl ''", "global gi 0.1", "snapshot", "flush", "new attribute with metadata" };
        return N[k];
    }
    bool enabled(int k) const override { return k == 2 ? depth_ > 0 : k == 12 ? nfl < 1 : true; }
    void compare()
    {
        std::string dir = vx::fmt("%s/live.%d", vx::opt.scratch.c_str(), getpid());
        mkdir(dir.c_str(), 0755);
        VX_CHECK(chdir(dir.c_str()) == 0, "chdir %s", dir.c_str());
        // in-process view
        Caliper c;
        Recs exp;
        std::map<std::string, std::string> attrs;
        Channel chn = c.get_channel(ch);
        c.flush(chn.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& in, const std::vector<Entry>& r) { exp.push_back(rec(in, r)); });
        auto glob = globals_of(c, c.get_globals(chn.body()));
        unlink(file.c_str());
        cali_channel_flush(ch, 0);
        std::ifstream is(file);
        std::string t((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
        Data d = read_text(t);
        std::string ctx = " -- file: " + esc(t).substr(0, 900);
        VX_CHECK(!d.error, "the reader reports an error on a file written by the library: %s%s", d.msg.c_str(), ctx.c_str());
        try {
            expect_recs("flushed file", d.recs, exp);
            expect_globals("flushed file", d.globals, glob);
            for (auto& a : d.attrs) {
                Attribute x = c.get_attribute(a.first == "phase,=" ? "phase,=" : a.first);
                VX_CHECK(!x || attr(c, x) == a.second, "attribute reads back as %s, is %s", a.second.c_str(), attr(c, x).c_str());
            }
        } catch (vx::Fail& f) { throw vx::Fail { f.msg + ctx, f.sig }; }
        vx::seen(show(d.recs));
        unlink(file.c_str());
        if (chdir("..") == 0) rmdir(dir.c_str());
    }
    void apply(int k) override
    {
        switch (k) {
        case 0: cali_begin_string(fn, "a,=b"); ++depth_; break;
        case 1: cali_begin_string(fn, ""); ++depth_; break;
        case 2: cali_end(fn); --depth_; break;
        case 3: cali_set_string(ph, "x\\"); break;
        case 4: cali_set_string(ph, ""); break;
        case 5: cali_set_int(iv, -5); break;
        case 6: cali_set_double(dv, 1.0 / 3); break;
        case 7: cali_set_string(sv_, ""); break;
        case 8: cali_set_global_string_byname("glx", "\xc3\xa9=1,"); cali_set_string(gl, "\xc3\xa9=1,"); break;
        case 9: cali_set_string(gl, ""); cali_set_global_string_byname("gly", ""); break;
        case 10: cali_set_double(gi, 0.1); cali_set_global_double_byname("gd", 2.0 / 3); break;
        case 11: cali_channel_push_snapshot(ch, 0, 0, nullptr, nullptr); break;
        case 12: ++nfl; compare(); break;
        case 13: { cali_id_t m[2] = { ph, iv }; cali_variant_t v[2] = { cali_make_variant_from_string("meta,"), cali_make_variant_from_int(4) };
            cali_id_t a = cali_create_attribute_with_metadata(vx::fmt("late=%d", depth_).c_str(), CALI_TYPE_STRING, CALI_ATTR_DEFAULT, 1, m, v);
            cali_set_string(a, "late"); break; }
        }
    }
    bool has_final() const override { return true; }
    void final() override { compare(); }
};

int main(int argc, char** argv)
{
    vx::Driver d;
    static std::vector<std::string> S;
    static std::vector<NV> N;
    d.define = [&]() {
        S = strings(vx::thorough() ? 5 : 4);
        d.enumerate("strings x positions", (uint64_t) NROLE * S.size(), [](uint64_t i) { role_case(i % NROLE, CALI_TYPE_STRING, sv(S[i / NROLE])); }, [](uint64_t i) { return vx::fmt("%s: \"%s\"", ROLE[i % NROLE], esc(S[i / NROLE]).c_str()); }, 128);
        // every single byte, alone, embedded and doubled (control characters other than newline are dropped by the format)
        d.enumerate("every byte", (256 - 32 + 1) * NROLE * 3ull, [](uint64_t i) {
            int b = (int) (i / NROLE / 3); unsigned char c = b == 0 ? '\n' : (unsigned char) (31 + b);
            std::string s(1, (char) c);
            int k = i / NROLE % 3;
            role_case(i % NROLE, CALI_TYPE_STRING, sv(k == 0 ? s : k == 1 ? "x" + s + "y" : s + s));
        }, [](uint64_t i) { return vx::fmt("%s: byte %lu form %lu", ROLE[i % NROLE], i / NROLE / 3 == 0 ? 10 : 31 + i / NROLE / 3, i / NROLE % 3); }, 64);
        N = numbers();
        d.enumerate("numbers x positions", (uint64_t) (NROLE - 1) * N.size(), [](uint64_t i) { auto& n = N[i / (NROLE - 1)]; role_case(i % (NROLE - 1), n.t, n.v); }, [](uint64_t i) { return vx::fmt("%s: %s", ROLE[i % (NROLE - 1)], N[i / (NROLE - 1)].name.c_str()); }, 64);
        d.enumerate("attribute definitions", 4 * CALI_MAXTYPE * 8 * 128, [](uint64_t i) { attr_case(i); }, [](uint64_t i) { return vx::fmt("attribute case %lu", i); }, 64);
        uint64_t n = Shapes::count();
        for (int len = 0; len <= (vx::thorough() ? 4 : 3); ++len) {
            uint64_t m = 5;
            for (int k = 0; k < len; ++k) m *= n;
            auto dec = [n, len](uint64_t i) { std::vector<int> v; i /= 5; for (int k = 0; k < len; ++k) v.push_back(i % n), i /= n; return v; };
            d.enumerate(vx::fmt("record sequences of length %d", len), m, [dec](uint64_t i) { seq_case(dec(i), i % 5); }, [dec](uint64_t i) { std::string s = vx::fmt("globals %lu, records", i % 5); for (int k : dec(i)) s += vx::fmt(" %d", k); return s; }, 32);
        }
        d.histories("live trace to file", vx::thorough() ? 5 : 4, []() { return std::unique_ptr<vx::World>(new Live); });
    };
    return d.main(argc, argv);
}
