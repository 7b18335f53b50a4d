// A04: every public marking construct records the same contexts as plain begin/end calls.
// All programs of up to three constructs (sequence / nesting shapes) x exit kinds; each program is run
// twice in fresh processes, once with the constructs and once as plain begin/end, and the complete
// trace (contexts + trigger data), attribute properties and globals are compared.
#include "ctxmodel.hpp"
#include <caliper/Annotation.h>
#include <caliper/cali.h>
#include <caliper/cali_macros.h>
using namespace cali;
using namespace cm;

struct Abort {};
using Body = std::function<void()>;

namespace cali { extern Attribute class_iteration_attr; }

struct Ref { // plain calls
    Caliper c;
    void b(const char* n, const Variant& v, int prop, cali_attr_type t) { c.begin(c.create_attribute(n, t, prop), v); }
    void e(const char* n) { c.end(c.get_attribute(n)); }
    void s(const char* n, const Variant& v, int prop, cali_attr_type t) { c.set(c.create_attribute(n, t, prop), v); }
    Attribute iter(const char* n) { Variant t(true); return c.create_attribute(std::string("iteration#") + n, CALI_TYPE_INT, CALI_ATTR_ASVALUE, 1, &cali::class_iteration_attr, &t); }
};

struct Construct {
    const char* name;
    bool        raii;  // survives exceptional exit
    bool        leaf;
    std::function<void(const Body&)> real;
    std::function<void(const Body&)> ref;
};

static void region_ref(const char* n, const Body& b)
{
    Ref r;
    r.c.begin(r.c.get_attribute("region"), Variant(n));
    try { b(); } catch (...) { r.e("region"); throw; }
    r.e("region");
}
static void nested_ref(const char* attr, const char* n, const Body& b)
{
    Ref r;
    r.c.begin(r.c.get_attribute(attr), Variant(n));
    b();
    r.e(attr);
}
static void attr_ref(const char* attr, cali_attr_type t, int prop, const Variant& v, const Body& b)
{
    Ref r;
    r.b(attr, v, prop, t);
    try { b(); } catch (...) { r.e(attr); throw; }
    r.e(attr);
}
static void loop_ref(const char* n, const Body& b, int iters, int start = 0, int stride = 1)
{
    Ref r;
    r.c.begin(r.c.get_attribute("loop"), Variant(n));
    Attribute it = r.iter(n);
    for (int i = 0; i < iters; ++i) {
        r.c.begin(it, Variant(start + i * stride));
        try { b(); } catch (...) { r.c.end(it); r.e("loop"); throw; }
        r.c.end(it);
    }
    r.e("loop");
}

static void marked_function_cxx(const Body& b) { CALI_CXX_MARK_FUNCTION; b(); }
static int  marked_function_early(const Body& b, int k) { CALI_CXX_MARK_FUNCTION; if (k == 1) { b(); return 1; } return 2; }
static void marked_function_c(const Body& b) { CALI_MARK_FUNCTION_BEGIN; b(); CALI_MARK_FUNCTION_END; }

static std::vector<Construct> constructs()
{
    std::vector<Construct> v;
    auto add = [&](const char* n, bool raii, bool leaf, std::function<void(const Body&)> real, std::function<void(const Body&)> ref) { v.push_back({ n, raii, leaf, real, ref }); };
    add("cali_begin_region", false, false, [](const Body& b) { cali_begin_region("foo"); b(); cali_end_region("foo"); }, [](const Body& b) { region_ref("foo", b); });
    add("CALI_MARK_BEGIN", false, false, [](const Body& b) { CALI_MARK_BEGIN("bar"); b(); CALI_MARK_END("bar"); }, [](const Body& b) { region_ref("bar", b); });
    add("CALI_WRAP_STATEMENT", false, false, [](const Body& b) { CALI_WRAP_STATEMENT("foo", b()); }, [](const Body& b) { region_ref("foo", b); });
    add("Function", true, false, [](const Body& b) { Function f("foo"); b(); }, [](const Body& b) { region_ref("foo", b); });
    add("ScopeAnnotation", true, false, [](const Body& b) { ScopeAnnotation f("sc ope"); b(); }, [](const Body& b) { region_ref("sc ope", b); });
    add("CALI_CXX_MARK_SCOPE", true, false, [](const Body& b) { CALI_CXX_MARK_SCOPE("foo"); b(); }, [](const Body& b) { region_ref("foo", b); });
    add("CALI_CXX_MARK_FUNCTION", true, false, [](const Body& b) { marked_function_cxx(b); }, [](const Body& b) { region_ref("marked_function_cxx", b); });
    add("CALI_CXX_MARK_FUNCTION(early return)", true, false, [](const Body& b) { marked_function_early(b, 1); }, [](const Body& b) { region_ref("marked_function_early", b); });
    add("CALI_MARK_FUNCTION_BEGIN", false, false, [](const Body& b) { marked_function_c(b); }, [](const Body& b) { region_ref("marked_function_c", b); });
    add("CALI_MARK_PHASE", false, false, [](const Body& b) { CALI_MARK_PHASE_BEGIN("ph"); b(); CALI_MARK_PHASE_END("ph"); }, [](const Body& b) { nested_ref("phase", "ph", b); });
    add("CALI_MARK_COMM_REGION", false, false, [](const Body& b) { CALI_MARK_COMM_REGION_BEGIN("co"); b(); CALI_MARK_COMM_REGION_END("co"); }, [](const Body& b) { nested_ref("comm.region", "co", b); });
    add("Loop", true, false, [](const Body& b) { Loop l("lp"); for (int i = 0; i < 2; ++i) { Loop::Iteration it(l.iteration(i)); b(); } }, [](const Body& b) { loop_ref("lp", b, 2); });
    add("Loop(end() then destructor)", true, false, [](const Body& b) { Loop l("lp"); for (int i = 0; i < 2; ++i) { Loop::Iteration it(l.iteration(i + 5)); b(); } l.end(); }, [](const Body& b) { loop_ref("lp", b, 2, 5); });
    add("Loop(copied)", true, false, [](const Body& b) { Loop l("lq"); { Loop m(l); Loop::Iteration it(m.iteration(7)); b(); } { Loop::Iteration it(l.iteration(8)); b(); } }, [](const Body& b) { loop_ref("lq", b, 2, 7); });
    add("CALI_CXX_MARK_LOOP", true, false, [](const Body& b) { CALI_CXX_MARK_LOOP_BEGIN(myloop, "lp"); for (long i = 0; i < 4; i += 2) { CALI_CXX_MARK_LOOP_ITERATION(myloop, i); b(); } CALI_CXX_MARK_LOOP_END(myloop); }, [](const Body& b) { loop_ref("lp", b, 2, 0, 2); });
    add("CALI_MARK_LOOP", false, false, [](const Body& b) { CALI_MARK_LOOP_BEGIN(cl, "lp"); for (int i = 3; i > 1; --i) { CALI_MARK_ITERATION_BEGIN(cl, i); b(); CALI_MARK_ITERATION_END(cl); } CALI_MARK_LOOP_END(cl); }, [](const Body& b) { loop_ref("lp", b, 2, 3, -1); });
    add("CALI_MARK_LOOP(no iterations)", false, false, [](const Body& b) { CALI_MARK_LOOP_BEGIN(cl, "l0"); b(); CALI_MARK_LOOP_END(cl); }, [](const Body& b) { Ref r; r.iter("l0"); nested_ref("loop", "l0", b); });
    add("Annotation(string)", false, false, [](const Body& b) { Annotation a("an"); a.begin("v"); b(); a.end(); }, [](const Body& b) { attr_ref("an", CALI_TYPE_STRING, 0, Variant("v"), b); });
    add("Annotation::Guard(nested)", true, false, [](const Body& b) { Annotation a("gn", CALI_ATTR_NESTED); Annotation::Guard g(a.begin("w")); b(); }, [](const Body& b) { attr_ref("gn", CALI_TYPE_STRING, CALI_ATTR_NESTED, Variant("w"), b); });
    add("Annotation::Guard(int,asvalue)", true, false, [](const Body& b) { Annotation a("gi", CALI_ATTR_ASVALUE); Annotation::Guard g(a.begin(-3)); b(); }, [](const Body& b) { attr_ref("gi", CALI_TYPE_INT, CALI_ATTR_ASVALUE, Variant(-3), b); });
    add("Annotation(double)", false, false, [](const Body& b) { Annotation a("ad"); a.begin(2.5); b(); a.end(); }, [](const Body& b) { attr_ref("ad", CALI_TYPE_DOUBLE, 0, Variant(2.5), b); });
    add("Annotation(bool)", false, false, [](const Body& b) { Annotation a("ab"); a.begin(); b(); a.end(); }, [](const Body& b) { attr_ref("ab", CALI_TYPE_BOOL, 0, Variant(true), b); });
    add("Annotation(int to double)", false, false, [](const Body& b) { cali_create_attribute("pd", CALI_TYPE_DOUBLE, 0); Annotation a("pd"); a.begin(1.5); a.begin(3); b(); a.end(); a.end(); },
        [](const Body& b) { Ref r; r.b("pd", Variant(1.5), 0, CALI_TYPE_DOUBLE); r.b("pd", Variant(3.0), 0, CALI_TYPE_DOUBLE); b(); r.e("pd"); r.e("pd"); });
    add("Annotation(int to uint)", false, false, [](const Body& b) { Annotation a("pu"); a.begin(Variant(cali_make_variant_from_uint(9))); a.begin(3); b(); a.end(); a.set(4); b(); a.end(); },
        [](const Body& b) { Ref r; r.b("pu", Variant(cali_make_variant_from_uint(9)), 0, CALI_TYPE_UINT); r.b("pu", Variant(cali_make_variant_from_uint(3)), 0, CALI_TYPE_UINT); b(); r.e("pu"); r.s("pu", Variant(cali_make_variant_from_uint(4)), 0, CALI_TYPE_UINT); b(); r.e("pu"); });
    add("Annotation(copies)", false, false, [](const Body& b) { Annotation a("cp"); a.begin("1"); { Annotation x(a); x.begin("2"); b(); } Annotation y("other"); y = a; y.end(); b(); a.end(); },
        [](const Body& b) { Ref r; r.b("cp", Variant("1"), 0, CALI_TYPE_STRING); r.b("cp", Variant("2"), 0, CALI_TYPE_STRING); b(); r.e("cp"); b(); r.e("cp"); });
    add("Annotation(set)", false, false, [](const Body& b) { Annotation a("st", CALI_ATTR_UNALIGNED); a.set("x"); b(); a.set("yy"); a.end(); },
        [](const Body& b) { Ref r; r.s("st", Variant("x"), CALI_ATTR_UNALIGNED, CALI_TYPE_STRING); b(); r.s("st", Variant("yy"), CALI_ATTR_UNALIGNED, CALI_TYPE_STRING); r.e("st"); });
    add("Annotation(set int,double)", false, false, [](const Body& b) { Annotation a("si", CALI_ATTR_ASVALUE), d("sd", CALI_ATTR_ASVALUE); a.set(5); d.set(0.25); b(); d.set(7); a.end(); d.end(); },
        [](const Body& b) { Ref r; r.s("si", Variant(5), CALI_ATTR_ASVALUE, CALI_TYPE_INT); r.s("sd", Variant(0.25), CALI_ATTR_ASVALUE, CALI_TYPE_DOUBLE); b(); r.s("sd", Variant(7.0), CALI_ATTR_ASVALUE, CALI_TYPE_DOUBLE); r.e("si"); r.e("sd"); });
    add("Annotation(typed set)", false, false, [](const Body& b) { Annotation a("ts"); char x[] = "raw data"; a.begin(CALI_TYPE_STRING, x, 3); b(); a.set(CALI_TYPE_STRING, x + 4, 4); a.end(); },
        [](const Body& b) { Ref r; r.b("ts", Variant("raw"), 0, CALI_TYPE_STRING); b(); r.s("ts", Variant("data"), 0, CALI_TYPE_STRING); r.e("ts"); });
    add("Annotation(metadata)", false, false, [](const Body& b) { Annotation::MetadataListType md; md["unit"] = Variant("ms"); md["level"] = Variant(3); Annotation a("md", md, CALI_ATTR_NESTED); a.begin("m"); b(); a.end(); },
        [](const Body& b) { Ref r; Attribute k[2] = { r.c.create_attribute("unit", CALI_TYPE_STRING, 0), r.c.create_attribute("level", CALI_TYPE_INT, 0) }; Variant v[2] = { Variant("ms"), Variant(3) }; Attribute a = r.c.create_attribute("md", CALI_TYPE_STRING, CALI_ATTR_NESTED, 2, k, v); r.c.begin(a, Variant("m")); b(); r.c.end(a); });
    add("cali_begin(id)", false, false, [](const Body& b) { cali_id_t a = cali_create_attribute("ib", CALI_TYPE_BOOL, 0); cali_begin(a); b(); cali_end(a); }, [](const Body& b) { attr_ref("ib", CALI_TYPE_BOOL, 0, Variant(true), b); });
    add("cali_begin_int(id)", false, false, [](const Body& b) { cali_id_t a = cali_create_attribute("ii", CALI_TYPE_INT, CALI_ATTR_ASVALUE); cali_begin_int(a, -7); b(); cali_end(a); }, [](const Body& b) { attr_ref("ii", CALI_TYPE_INT, CALI_ATTR_ASVALUE, Variant(-7), b); });
    add("cali_begin_double(id)", false, false, [](const Body& b) { cali_id_t a = cali_create_attribute("idb", CALI_TYPE_DOUBLE, 0); cali_begin_double(a, 0.5); b(); cali_end(a); }, [](const Body& b) { attr_ref("idb", CALI_TYPE_DOUBLE, 0, Variant(0.5), b); });
    add("cali_begin_string(id)", false, false, [](const Body& b) { cali_id_t a = cali_create_attribute("is", CALI_TYPE_STRING, CALI_ATTR_NESTED); cali_begin_string(a, "s t"); b(); cali_end(a); }, [](const Body& b) { attr_ref("is", CALI_TYPE_STRING, CALI_ATTR_NESTED, Variant("s t"), b); });
    add("cali_set*(id)", false, false, [](const Body& b) { cali_id_t a = cali_create_attribute("jj", CALI_TYPE_INT, CALI_ATTR_ASVALUE), s = cali_create_attribute("js", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED), d = cali_create_attribute("jd", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE), u = cali_create_attribute("ju", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
            cali_set_int(a, 12); cali_set_string(s, "abc"); cali_set_double(d, -1.5); uint64_t x = 77; cali_set(u, &x, sizeof x); b(); cali_end(u); cali_end(d); cali_end(s); cali_end(a); },
        [](const Body& b) { Ref r; r.c.create_attribute("jj", CALI_TYPE_INT, CALI_ATTR_ASVALUE); r.c.create_attribute("js", CALI_TYPE_STRING, CALI_ATTR_UNALIGNED); r.c.create_attribute("jd", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE); r.c.create_attribute("ju", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
            r.s("jj", Variant(12), 0, CALI_TYPE_INT); r.s("js", Variant("abc"), 0, CALI_TYPE_STRING); r.s("jd", Variant(-1.5), 0, CALI_TYPE_DOUBLE); r.s("ju", Variant(cali_make_variant_from_uint(77)), 0, CALI_TYPE_UINT); b(); r.e("ju"); r.e("jd"); r.e("js"); r.e("jj"); });
    add("cali_begin_byname", false, false, [](const Body& b) { cali_begin_byname("nb"); b(); cali_end_byname("nb"); }, [](const Body& b) { attr_ref("nb", CALI_TYPE_BOOL, 0, Variant(true), b); });
    add("cali_begin_int_byname", false, false, [](const Body& b) { cali_begin_int_byname("ni", 4); b(); cali_end_byname("ni"); }, [](const Body& b) { attr_ref("ni", CALI_TYPE_INT, 0, Variant(4), b); });
    add("cali_begin_double_byname", false, false, [](const Body& b) { cali_begin_double_byname("nd", 4.25); b(); cali_end_byname("nd"); }, [](const Body& b) { attr_ref("nd", CALI_TYPE_DOUBLE, 0, Variant(4.25), b); });
    add("cali_begin_string_byname", false, false, [](const Body& b) { cali_begin_string_byname("ns", "q"); b(); cali_end_byname("ns"); }, [](const Body& b) { attr_ref("ns", CALI_TYPE_STRING, 0, Variant("q"), b); });
    add("cali_set_byname", false, true, [](const Body& b) { cali_set_int_byname("bi", 8); cali_set_double_byname("bd", 1.25); cali_set_string_byname("bs", "zz"); },
        [](const Body& b) { Ref r; r.s("bi", Variant(8), CALI_ATTR_UNALIGNED, CALI_TYPE_INT); r.s("bd", Variant(1.25), CALI_ATTR_UNALIGNED, CALI_TYPE_DOUBLE); r.s("bs", Variant("zz"), CALI_ATTR_UNALIGNED, CALI_TYPE_STRING); });
    add("cali_set_global_byname", false, true, [](const Body& b) { cali_set_global_int_byname("gbi", 8); cali_set_global_double_byname("gbd", 1.25); cali_set_global_string_byname("gbs", "glob"); cali_set_global_uint_byname("gbu", 1ull << 40); },
        [](const Body& b) { Ref r; int p = CALI_ATTR_GLOBAL | CALI_ATTR_UNALIGNED | CALI_ATTR_SKIP_EVENTS; r.s("gbi", Variant(8), p, CALI_TYPE_INT); r.s("gbd", Variant(1.25), p, CALI_TYPE_DOUBLE); r.s("gbs", Variant("glob"), p, CALI_TYPE_STRING); r.s("gbu", Variant(cali_make_variant_from_uint(1ull << 40)), p, CALI_TYPE_UINT); });
    add("throw", true, true, [](const Body&) { throw Abort(); }, [](const Body&) { throw Abort(); });
    return v;
}

static std::vector<Construct> C;
static int                    N;

// program shapes over up to three constructs
enum Shape { S_A, S_AB, S_NEST2, S_AB_C, S_NEST_SEQ, S_NEST_AFTER, S_NEST3 };
static const char* shape_name[] = { "%a", "%a;%b", "%a{%b}", "%a;%b;%c", "%a{%b;%c}", "%a{%b};%c", "%a{%b{%c}}" };

struct Prog { int shape, a, b, c; };

static std::string prog_str(const Prog& p)
{
    std::string s = shape_name[p.shape], o;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%') { ++i; o += C[s[i] == 'a' ? p.a : s[i] == 'b' ? p.b : p.c].name; } else o += s[i];
    return o;
}
static bool valid(const Prog& p)
{
    bool na = p.shape == S_NEST2 || p.shape == S_NEST_SEQ || p.shape == S_NEST_AFTER || p.shape == S_NEST3, nb = p.shape == S_NEST3;
    if ((na && C[p.a].leaf) || (nb && C[p.b].leaf)) return false;
    auto thr = [&](int x) { return std::string(C[x].name) == "throw"; };
    bool usec = p.shape >= S_AB_C, useb = p.shape >= S_AB;
    if (useb && thr(p.b) && na && !C[p.a].raii) return false;
    if (usec && thr(p.c)) {
        if (p.shape == S_NEST_SEQ && !C[p.a].raii) return false;
        if (p.shape == S_NEST3 && !(C[p.a].raii && C[p.b].raii)) return false;
    }
    return true;
}
static void exec(const Prog& p, bool ref)
{
    auto run = [&](int k, const Body& b) { ref ? C[k].ref(b) : C[k].real(b); };
    Body nop = [] {};
    try {
        switch (p.shape) {
        case S_A: run(p.a, nop); break;
        case S_AB: run(p.a, nop); run(p.b, nop); break;
        case S_NEST2: run(p.a, [&] { run(p.b, nop); }); break;
        case S_AB_C: run(p.a, nop); run(p.b, nop); run(p.c, nop); break;
        case S_NEST_SEQ: run(p.a, [&] { run(p.b, nop); run(p.c, nop); }); break;
        case S_NEST_AFTER: run(p.a, [&] { run(p.b, nop); }); run(p.c, nop); break;
        case S_NEST3: run(p.a, [&] { run(p.b, [&] { run(p.c, nop); }); }); break;
        }
    } catch (Abort&) {
    }
}

static std::string observe(const Prog& p, bool ref)
{
    cali_configset_t cs = cali_create_configset(nullptr);
    cali_configset_set(cs, "CALI_SERVICES_ENABLE", "event,trace");
    cali_configset_set(cs, "CALI_CHANNEL_CONFIG_CHECK", "false");
    cali_id_t id = cali_create_channel("t", 0, cs);
    cali_delete_configset(cs);
    exec(p, ref);
    Caliper c;
    c.push_snapshot(c.get_channel(id).body(), SnapshotView()); // context after the program
    std::string out;
    std::set<std::string> attrs;
    Channel ch = c.get_channel(id);
    auto note = [&](const Attribute& a) {
        std::string s = a.name() + ":" + std::to_string((int) a.type()) + ":" + std::to_string(a.properties());
        std::set<std::string> meta;
        for (const Node* n = a.node() ? a.node()->parent() : nullptr; n && n->attribute() != CALI_INV_ID; n = n->parent())
            if (c.get_attribute(n->attribute()).name().compare(0, 11, "cali.event.") != 0) // values are attribute ids
                meta.insert(c.get_attribute(n->attribute()).name() + "=" + n->data().to_string());
        for (auto& m : meta) s += "," + m;
        attrs.insert(s);
    };
    c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
        std::multiset<std::string> g;
        for (const Entry& e : rec) {
            g.insert(decode_entry(c, e));
            if (e.is_immediate()) note(c.get_attribute(e.attribute()));
            else for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) note(c.get_attribute(n->attribute()));
        }
        out += show(g) + "\n";
    });
    out += "globals:";
    std::multiset<std::string> gl;
    for (const Entry& e : c.get_globals()) gl.insert(decode_entry(c, e));
    out += show(gl) + "\n";
    for (auto& a : attrs) out += a + "\n";
    return out;
}

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        C = constructs();
        N = C.size();
        std::vector<std::pair<int, uint64_t>> shapes;
        for (int s = S_A; s <= S_NEST3; ++s) {
            uint64_t n = s == S_A ? N : s <= S_NEST2 ? (uint64_t) N * N : (uint64_t) N * N * N;
            if (!vx::thorough() && (s == S_AB_C || s == S_NEST_AFTER)) continue;
            auto dec = [s](uint64_t i) { return Prog { s, (int) (i % N), (int) (i / N % N), (int) (i / N / N % N) }; };
            d.enumerate(std::string("shape ") + shape_name[s], n, [dec](uint64_t i) {
                Prog p = dec(i);
                if (!valid(p)) return;
                std::string a = vx::in_fork([&] { return observe(p, false); }), b = vx::in_fork([&] { return observe(p, true); });
                vx::S->leaves++;
                vx::seen(a);
                if (a != b) {
                    size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
                    size_t l = a.rfind('\n', k); l = l == std::string::npos ? 0 : l + 1;
                    vx::fail("recorded: %s\n  plain calls: %s", a.substr(l, 300).c_str(), b.substr(l, 300).c_str());
                }
            }, [dec](uint64_t i) { return prog_str(dec(i)); }, 32);
        }
    };
    return d.main(argc, argv);
}
