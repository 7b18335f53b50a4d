// B01: laws of values: order, equality, conversion, printing, arithmetic - on all pairs and triples of a
// boundary alphabet of every type.
#include "vx.hpp"
#include <list>
#include <caliper/common/Variant.h>
#include <caliper/common/cali_types.h>
#include <cmath>
#include <climits>
#include <cstdlib>
#include <sstream>
using namespace cali;

struct Val {
    cali_attr_type type;
    __int128       i = 0;     // INT, UINT, ADDR, BOOL, TYPE
    double         d = 0;
    std::string    s;         // STRING, USR
    Variant        v, v2;     // two independently built representations
    std::string    name;
};
static std::vector<Val>          A;
static std::list<std::string>    store;

static Val make(cali_attr_type t, __int128 i, double d, const std::string& s)
{
    Val x;
    x.type = t; x.i = i; x.d = d; x.s = s;
    switch (t) {
    case CALI_TYPE_INV: break;
    case CALI_TYPE_INT: { int64_t k = (int64_t) i; x.v = Variant(CALI_TYPE_INT, &k, sizeof k); x.v2 = Variant(cali_make_variant_from_int64(k)); if (k >= INT_MIN && k <= INT_MAX) x.v2 = Variant((int) k); x.name = std::to_string(k); break; }
    case CALI_TYPE_UINT: { uint64_t k = (uint64_t) i; x.v = Variant(CALI_TYPE_UINT, &k, sizeof k); x.v2 = Variant(cali_make_variant_from_uint(k)); x.name = std::to_string(k); break; }
    case CALI_TYPE_ADDR: { uint64_t k = (uint64_t) i; x.v = x.v2 = Variant(CALI_TYPE_ADDR, &k, sizeof k); x.name = std::to_string(k); break; }
    case CALI_TYPE_BOOL: { bool k = i != 0; x.v = Variant(CALI_TYPE_BOOL, &k, sizeof k); x.v2 = Variant(k); x.name = k ? "true" : "false"; break; }
    case CALI_TYPE_TYPE: { cali_attr_type k = (cali_attr_type) i; x.v = Variant(CALI_TYPE_TYPE, &k, sizeof k); x.v2 = Variant(k); x.name = std::to_string((int) k); break; }
    case CALI_TYPE_DOUBLE: x.v = Variant(CALI_TYPE_DOUBLE, &d, sizeof d); x.v2 = Variant(d); x.name = vx::fmt("%.17g", d); break;
    case CALI_TYPE_PTR: x.v = Variant(CALI_TYPE_PTR, (void*) (uintptr_t) i, 8); x.v2 = Variant(cali_make_variant_from_ptr((void*) (uintptr_t) i)); x.name = vx::fmt("%lx", (unsigned long) i); break;
    case CALI_TYPE_STRING:
    case CALI_TYPE_USR: {
        // exact-size heap copies so that the sanitizer sees any over- or under-read
        auto exact = [&](bool z) { char* p = (char*) malloc(s.size() + z); if (s.size()) memcpy(p, s.data(), s.size()); if (z) p[s.size()] = 0; return p; };
        x.v = Variant(t, exact(false), s.size());
        if (t == CALI_TYPE_STRING && s.find('\0') == std::string::npos) x.v2 = Variant((const char*) exact(true));
        else x.v2 = Variant(t, exact(true), s.size());
        for (unsigned char c : s) x.name += c >= 0x20 && c < 0x7f ? std::string(1, c) : vx::fmt("\\x%02x", c);
        x.name = "'" + x.name + "'";
        break; }
    }
    x.name = std::string(cali_type2string(t)) + ":" + x.name;
    return x;
}
static void build()
{
    const __int128 U = ~0ull;
    A.push_back(make(CALI_TYPE_INV, 0, 0, ""));
    for (__int128 k : std::vector<__int128> { LLONG_MIN, (__int128) LLONG_MIN + 1, (__int128) INT_MIN - 1, INT_MIN, -4294967296ll, -4294967295ll, -1000, -2, -1, 0, 1, 2, 9, 10, INT_MAX - 1, INT_MAX, (__int128) INT_MAX + 1, 4294967295ll, 4294967296ll, 4294967297ll, 1ll << 53, (1ll << 53) + 1, LLONG_MAX - 1, LLONG_MAX }) A.push_back(make(CALI_TYPE_INT, k, 0, ""));
    for (cali_attr_type t : { CALI_TYPE_UINT, CALI_TYPE_ADDR })
        for (__int128 k : std::vector<__int128> { 0, 1, 2, 9, 10, 16, 255, INT_MAX, (__int128) INT_MAX + 1, 4294967295ll, 4294967296ll, 4294967297ll, 1ll << 53, LLONG_MAX, (__int128) LLONG_MAX + 1, U - 1, U }) A.push_back(make(t, k, 0, ""));
    double inf = INFINITY;
    for (double d : { -inf, -1.7976931348623157e308, -1e20, -9223372036854775808.0, -2147483649.0, -2147483648.5, -2147483648.0, -1.5, -1.0, -0.5, -0.0, 0.0, 4.9e-324, 2.2250738585072014e-308, 1e-7, 0.1, 0.5, 1.0, 1.0000000000000002, 1.5, 2.0, 1e6, 1234567.875, 2147483647.0, 2147483647.5, 2147483648.0, 4294967296.0, 9007199254740992.0, 9223372036854774784.0, 9223372036854775808.0, 18446744073709549568.0, 18446744073709551616.0, 1e20, 1.7976931348623157e308, inf }) A.push_back(make(CALI_TYPE_DOUBLE, 0, d, ""));
    for (int k : { 0, 1 }) A.push_back(make(CALI_TYPE_BOOL, k, 0, ""));
    for (int k = 0; k <= CALI_MAXTYPE; ++k) A.push_back(make(CALI_TYPE_TYPE, k, 0, ""));
    for (__int128 k : std::vector<__int128> { 0, 8, 0x1000, (__int128) 1 << 32, ((__int128) 1 << 47) - 8 }) A.push_back(make(CALI_TYPE_PTR, k, 0, ""));
    std::string z("a\0b", 3), z2("a\0c", 3), z3("a\0", 2);
    for (cali_attr_type t : { CALI_TYPE_STRING, CALI_TYPE_USR })
        for (std::string s : std::vector<std::string> { "", " ", "a", "b", "ab", "abc", "abd", "axc", "ba", "A", "a,b", "a=b", "\"q\"", "\\", "x\ny", "\t", "\x7f", "\x80", "\xc3\xa4", "\xff", z, z2, z3, std::string(300, 'l'), std::string(299, 'l') + "m", "l" + std::string(148, 'l') + "X" + std::string(150, 'l') }) A.push_back(make(t, 0, 0, s));
}

// --- oracle
static int sgn(long long x) { return x < 0 ? -1 : x > 0; }
static int ref_cmp(const Val& a, const Val& b)
{
    if (a.type != b.type) return 2; // any fixed order
    switch (a.type) {
    case CALI_TYPE_INV: return 0;
    case CALI_TYPE_DOUBLE: return a.d < b.d ? -1 : a.d > b.d;
    case CALI_TYPE_STRING: case CALI_TYPE_USR: { int c = a.s.compare(b.s); return c < 0 ? -1 : c > 0; } // unsigned char order, then length
    default: return a.i < b.i ? -1 : a.i > b.i;
    }
}
static bool same(const Val& a, const Val& b) { return a.type == b.type && ref_cmp(a, b) == 0; }

static void single(const Val& x)
{
    for (const Variant& v : { x.v, x.v2 }) {
        VX_CHECK(v.type() == x.type, "type");
        VX_CHECK(v == x.v && x.v == v && !(v != x.v), "two values built from the same data differ");
        VX_CHECK(v.empty() == (x.type == CALI_TYPE_INV), "empty()");
        bool ok; const bool num = x.type == CALI_TYPE_INT || x.type == CALI_TYPE_UINT || x.type == CALI_TYPE_ADDR || x.type == CALI_TYPE_BOOL || x.type == CALI_TYPE_TYPE, dbl = x.type == CALI_TYPE_DOUBLE;
        double tr = std::trunc(x.d);
        auto conv = [&](const char* nm, __int128 got, bool ok, __int128 lo, __int128 hi) {
            if (num) {
                VX_CHECK(ok == (x.i >= lo && x.i <= hi), "%s: convertible=%d", nm, ok);
                if (ok) VX_CHECK(got == x.i, "%s: wrong value %lld", nm, (long long) got);
            } else if (dbl) {
                bool fits = tr >= (double) lo && tr < (double) hi + (nm[3] == 'i' && nm[6] == 0 ? 1.0 : 0.0) ; // (double) hi rounds up to hi+1 for 64-bit types
                VX_CHECK(ok == fits, "%s of %.17g: convertible=%d", nm, x.d, ok);
                if (ok) VX_CHECK((double) got == tr, "%s of %.17g: wrong value %lld", nm, x.d, (long long) got);
            } else VX_CHECK(!ok && got == 0, "%s: not a number but converted", nm);
        };
        { int r = v.to_int(&ok); conv("to_int", ok ? r : 0, ok, INT_MIN, INT_MAX); }
        { int64_t r = v.to_int64(&ok); conv("to_int64", ok ? r : 0, ok, LLONG_MIN, LLONG_MAX); }
        { uint64_t r = v.to_uint(&ok); conv("to_uint", ok ? r : 0, ok, 0, ~0ull); if (x.type == CALI_TYPE_UINT) VX_CHECK(v.to_id() == (cali_id_t) x.i, "to_id"); if (!ok) VX_CHECK(v.to_id() == CALI_INV_ID, "to_id of a value that is not an id"); }
        { double r = v.to_double(&ok); VX_CHECK(ok == (num || dbl), "to_double: convertible=%d", ok); if (num) VX_CHECK(r == (double) x.i, "to_double: %.17g", r); if (dbl) VX_CHECK(r == x.d && std::signbit(r) == std::signbit(x.d), "to_double: %.17g", r); }
        { bool r = v.to_bool(&ok); bool can = num && x.type != CALI_TYPE_TYPE; VX_CHECK(ok == can, "to_bool: convertible=%d", ok); VX_CHECK(r == (can && x.i != 0), "to_bool"); }
        { cali_attr_type r = v.to_attr_type(&ok); VX_CHECK(ok == (x.type == CALI_TYPE_TYPE), "to_attr_type"); VX_CHECK(r == (ok ? (cali_attr_type) x.i : CALI_TYPE_INV), "to_attr_type value"); }
        VX_CHECK(v.get_ptr() == (x.type == CALI_TYPE_PTR ? (void*) (uintptr_t) x.i : nullptr), "get_ptr");
        if (x.type == CALI_TYPE_STRING || x.type == CALI_TYPE_USR) {
            VX_CHECK(v.size() == x.s.size() && (x.s.empty() || !memcmp(v.data(), x.s.data(), x.s.size())), "data");
            char* buf = (char*) malloc(x.s.size());
            Variant c = v.copy(buf);
            VX_CHECK(c == v && (x.s.empty() || c.data() == buf), "copy differs");
            free(buf);
        } else VX_CHECK(v.copy(nullptr) == v, "copy differs");
        // print and parse
        std::string s = v.to_string();
        switch (x.type) {
        case CALI_TYPE_INT: case CALI_TYPE_UINT: case CALI_TYPE_ADDR: case CALI_TYPE_BOOL: case CALI_TYPE_TYPE: {
            Variant p = Variant::from_string(x.type, s.c_str());
            if (x.type == CALI_TYPE_TYPE && x.i == CALI_TYPE_INV) break; // the invalid type's name does not denote a value
            VX_CHECK(p == v, "printed as '%s' but parsed as %s '%s'", s.c_str(), cali_type2string(p.type()), p.to_string().c_str());
            break; }
        case CALI_TYPE_DOUBLE: {
            Variant p = Variant::from_string(x.type, s.c_str());
            double e = p.to_double();
            VX_CHECK(p.type() == CALI_TYPE_DOUBLE && (e == x.d || std::fabs(e - x.d) <= 0.5000001e-6), "printed as '%s' but parsed as %.17g", s.c_str(), e);
            break; }
        case CALI_TYPE_STRING:
            if (x.s.find('\0') == std::string::npos) {
                VX_CHECK(s == x.s, "printed as '%s'", s.c_str());
                Variant p = Variant::from_string(x.type, s.c_str());
                VX_CHECK(p == v, "printed as '%s' but parsed differently", s.c_str());
            }
            break;
        default: break;
        }
        std::ostringstream os; os << v;
        VX_CHECK(os.str() == s, "stream output differs from to_string");
    }
}
static void pair(const Val& a, const Val& b)
{
    int c = cali_variant_compare(a.v.c_variant(), b.v.c_variant()), r = cali_variant_compare(b.v2.c_variant(), a.v2.c_variant()), w = ref_cmp(a, b);
    VX_CHECK(sgn(c) == -sgn(r), "compare is not antisymmetric: %d / %d", c, r);
    if (w != 2) VX_CHECK(sgn(c) == w, "compare gives %d, expected %d", c, w);
    else VX_CHECK(c != 0, "values of different types compare equal");
    bool eq = a.v == b.v2;
    VX_CHECK(eq == (b.v == a.v2) && eq == !(a.v != b.v2), "equality is not symmetric");
    bool negz = a.type == CALI_TYPE_DOUBLE && b.type == CALI_TYPE_DOUBLE && a.d == 0 && b.d == 0;
    if (!negz) VX_CHECK(eq == same(a, b), "equality is %d", eq);
    VX_CHECK((a.v < b.v) == (c < 0) && (a.v > b.v) == (c > 0), "< and > disagree with compare");
    // arithmetic
    auto isint = [](const Val& x) { return x.type == CALI_TYPE_INT || x.type == CALI_TYPE_UINT; };
    auto isnum = [&](const Val& x) { return isint(x) || x.type == CALI_TYPE_DOUBLE; };
    if (isnum(b) && a.type == CALI_TYPE_INV) {
        Variant s(a.v), mn(a.v), mx(a.v);
        s += b.v; mn.min(b.v); mx.max(b.v);
        VX_CHECK(s == b.v && mn == b.v && mx == b.v, "sum/min/max starting from empty");
    }
    if (isnum(a) && b.type == CALI_TYPE_INV && a.type != CALI_TYPE_INV) return;
    if (isnum(a) && (a.type == b.type || (isnum(a) && isnum(b)))) {
        Variant s(a.v), mn(a.v), mx(a.v);
        if (a.type == CALI_TYPE_DOUBLE) {
            double y = b.type == CALI_TYPE_DOUBLE ? b.d : (double) b.i;
            s += b.v; mn.min(b.v); mx.max(b.v);
            double want = a.d + y;
            VX_CHECK(s.to_double() == want || (std::isnan(want) && std::isnan(s.to_double())), "sum is %.17g", s.to_double());
            VX_CHECK(mn.to_double() == std::min(a.d, y) && mx.to_double() == std::max(a.d, y), "min/max");
            VX_CHECK(s.type() == a.type && mn.type() == a.type && mx.type() == a.type, "type changed");
        } else if (isint(b)) {
            __int128 lo = a.type == CALI_TYPE_INT ? (__int128) LLONG_MIN : 0, hi = a.type == CALI_TYPE_INT ? (__int128) LLONG_MAX : (__int128) ~0ull;
            if (b.i < lo || b.i > hi) return; // other operand not representable in the receiver's type
            auto get = [&](const Variant& v) { return a.type == CALI_TYPE_INT ? (__int128) v.to_int64() : (__int128) v.to_uint(); };
            if (a.i + b.i >= lo && a.i + b.i <= hi) { s += b.v; VX_CHECK(s.type() == a.type && get(s) == a.i + b.i, "sum is %s", s.to_string().c_str()); }
            mn.min(b.v); mx.max(b.v);
            VX_CHECK(mn.type() == a.type && get(mn) == std::min(a.i, b.i) && mx.type() == a.type && get(mx) == std::max(a.i, b.i), "min/max are %s, %s", mn.to_string().c_str(), mx.to_string().c_str());
        }
    }
    // division by a count
    if (isnum(a) && b.type == CALI_TYPE_UINT && b.i > 0 && b.i <= UINT_MAX) {
        Variant q = Variant(a.v).div((unsigned) b.i);
        VX_CHECK(q.type() == a.type, "div changed the type");
        if (a.type == CALI_TYPE_DOUBLE) VX_CHECK(q.to_double() == a.d / (double) b.i, "div is %.17g", q.to_double());
        else VX_CHECK((a.type == CALI_TYPE_INT ? (__int128) q.to_int64() : (__int128) q.to_uint()) == a.i / b.i, "div is %s", q.to_string().c_str());
    }
}
static void triple(const Val& a, const Val& b, const Val& c)
{
    auto lt = [](const Val& x, const Val& y) { return x.v < y.v2; };
    if (lt(a, b) && lt(b, c)) VX_CHECK(lt(a, c), "< is not transitive");
    auto eqv = [&](const Val& x, const Val& y) { return !lt(x, y) && !lt(y, x); };
    if (eqv(a, b) && eqv(b, c)) VX_CHECK(eqv(a, c), "incomparability is not transitive");
    if (a.v == b.v2 && b.v == c.v2) VX_CHECK(a.v == c.v2, "equality is not transitive");
    // running min/max/sum over a sequence of values of one type
    if (a.type == b.type && b.type == c.type && (a.type == CALI_TYPE_INT || a.type == CALI_TYPE_UINT || a.type == CALI_TYPE_DOUBLE)) {
        Variant mn, mx, sm;
        const Val* seq[3] = { &a, &b, &c };
        __int128 si = 0, mi = a.i, xi = a.i; double sd = 0, md = a.d, xd = a.d;
        __int128 lo = a.type == CALI_TYPE_INT ? (__int128) LLONG_MIN : 0, hi = a.type == CALI_TYPE_INT ? (__int128) LLONG_MAX : (__int128) ~0ull;
        for (int k = 0; k < 3; ++k) {
            const Val& x = *seq[k];
            si += x.i; sd = k ? sd + x.d : x.d; mi = std::min(mi, x.i); xi = std::max(xi, x.i); md = std::min(md, x.d); xd = std::max(xd, x.d);
            if (a.type != CALI_TYPE_DOUBLE && (si < lo || si > hi)) return;
            Variant::update_minmaxsum(x.v, mn, mx, sm);
            if (a.type == CALI_TYPE_DOUBLE)
                VX_CHECK(mn.to_double() == md && mx.to_double() == xd && (sm.to_double() == sd || std::isnan(sd)), "running min/max/sum are %s/%s/%s", mn.to_string().c_str(), mx.to_string().c_str(), sm.to_string().c_str());
            else {
                auto get = [&](const Variant& v) { return a.type == CALI_TYPE_INT ? (__int128) v.to_int64() : (__int128) v.to_uint(); };
                VX_CHECK(get(mn) == mi && get(mx) == xi && get(sm) == si, "running min/max/sum are %s/%s/%s", mn.to_string().c_str(), mx.to_string().c_str(), sm.to_string().c_str());
            }
        }
    }
}

int main(int argc, char** argv)
{
    vx::Driver d;
    d.define = [&]() {
        build();
        static uint64_t n = A.size();
        d.enumerate("values", n, [](uint64_t i) { vx::seen(A[i].name); single(A[i]); }, [](uint64_t i) { return A[i].name; }, 4);
        d.enumerate("pairs", n * n, [](uint64_t i) { vx::seen(A[i / n].name + A[i % n].name); pair(A[i / n], A[i % n]); }, [](uint64_t i) { return A[i / n].name + " / " + A[i % n].name; }, 256);
        d.enumerate("triples", n * n, [](uint64_t i) {
            const Val& a = A[i / n]; const Val& b = A[i % n];
            for (uint64_t k = 0; k < n; ++k) {
                try { triple(a, b, A[k]); } catch (vx::Fail& f) { throw vx::Fail { f.msg + " (third value " + A[k].name + ")", f.sig }; }
                vx::S->evaluations++;
            }
        }, [](uint64_t i) { return A[i / n].name + " / " + A[i % n].name + " / every value"; }, 256);
        // textual round trip of attribute property flags, for every flag combination and buffer size
        static const int F[] = { 1, 2, 64, 128, 256, 512, 1024, 2048 }, SC[] = { 0, 12, 20, 24 };
        d.enumerate("property flags", 256 * 4 * 8, [](uint64_t i) {
            int p = SC[i / 256 % 4] | (int) (i / 1024) * 0x10000;
            for (int k = 0; k < 8; ++k) if (i >> k & 1) p |= F[k];
            char big[512];
            int  n = cali_prop2string(p, big, sizeof big);
            vx::seen(std::string(big));
            VX_CHECK(n > 0 && (size_t) n == strlen(big), "length %d for '%s'", n, big);
            VX_CHECK(cali_string2prop(big) == p, "flags %x printed as '%s' but parsed as %x", p, big, cali_string2prop(big));
            for (size_t len = 1; len < (size_t) n + 3; ++len) {
                char* b = (char*) malloc(len); // exact size: the sanitizer sees any overrun
                int   m = cali_prop2string(p, b, len);
                VX_CHECK(len > (size_t) n ? m == n && !strcmp(b, big) : m == -1, "flags %x (text length %d), buffer of %zu: returned %d", p, n, len, m);
                free(b);
            }
        }, [](uint64_t i) { return vx::fmt("flag set %lu", i); }, 64);
        // every value type name
        d.enumerate("type names", CALI_MAXTYPE + 1, [](uint64_t i) { VX_CHECK(cali_string2type(cali_type2string((cali_attr_type) i)) == (cali_attr_type) i, "type %lu", i); }, [](uint64_t i) { return vx::fmt("type %lu", i); });
    };
    return d.main(argc, argv);
}
