// calidb.hpp -- canonical dumps of attributes, value paths, records and globals of a metadata
// database (any CaliperMetadataAccessInterface), and helpers to build, write and read .cali data.
#pragma once
#include "caliper/cali.h"
#include "caliper/common/Attribute.h"
#include "caliper/common/CaliperMetadataAccessInterface.h"
#include "caliper/common/Entry.h"
#include "caliper/common/Node.h"
#include "caliper/common/OutputStream.h"
#include "caliper/reader/CaliReader.h"
#include "caliper/reader/CaliWriter.h"
#include "caliper/reader/CaliperMetadataDB.h"
#include "vx.hpp"
#include <cmath>
#include <map>
#include <set>
#include <sstream>

namespace cdb {
using namespace cali;
using DB = CaliperMetadataAccessInterface;
inline std::string esc(const char* p, size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = p[i];
        if (c < 0x20 || c >= 0x7f || c == '\\' || c == '|' || c == '"') s += vx::fmt("\\x%02x", c);
        else s += c;
    }
    return s;
}
inline std::string esc(const std::string& s) { return esc(s.data(), s.size()); }
inline std::string val(const Variant& v)
{
    switch (v.type()) {
    case CALI_TYPE_DOUBLE: {
        double d = v.to_double();
        return std::isnan(d) ? "double:nan" : vx::fmt("double:%a", d);
    }
    case CALI_TYPE_STRING: {
        const char* p = (const char*) v.data();
        size_t n = v.size();
        if (n && p[n - 1] == 0) --n;
        return "string:\"" + esc(p, n) + "\"";
    }
    case CALI_TYPE_INT: return vx::fmt("int:%lld", (long long) v.to_int64());
    case CALI_TYPE_UINT: return vx::fmt("uint:%llu", (unsigned long long) v.to_uint());
    case CALI_TYPE_ADDR: return vx::fmt("addr:%llx", (unsigned long long) v.to_uint());
    case CALI_TYPE_BOOL: return v.to_bool() ? "bool:true" : "bool:false";
    case CALI_TYPE_TYPE: return std::string("type:") + cali_type2string(v.to_attr_type());
    case CALI_TYPE_INV: return "inv";
    default: return std::string(cali_type2string(v.type())) + ":?";
    }
}
inline std::string attr(const DB& db, const Attribute& a, int depth = 0)
{
    if (!a) return "<none>";
    std::string s = vx::fmt("%s:%s:%x", esc(a.name()).c_str(), cali_type2string(a.type()), a.properties());
    // metadata: every node between the name node and the type node (the property entry is already included)
    std::string m;
    if (depth < 3)
        for (const Node* n = a.node()->parent(); n && n->attribute() != CALI_INV_ID; n = n->parent()) {
            if (n->attribute() == Attribute::NAME_ATTR_ID || n->attribute() == Attribute::TYPE_ATTR_ID || n->attribute() == Attribute::PROP_ATTR_ID) continue;
            m += "{" + attr(db, db.get_attribute(n->attribute()), depth + 1) + "=" + (db.get_attribute(n->attribute()).is_hidden() ? "(hidden)" : val(n->data())) + "}"; // hidden values are not read back
        }
    return s + m;
}
inline std::string node1(const DB& db, const Node* n) { return attr(db, db.get_attribute(n->attribute())) + "=" + val(n->data()); }
inline std::string path(const DB& db, const Node* n)
{
    std::string s;
    for (; n && n->attribute() != CALI_INV_ID && n->id() != CALI_INV_ID; n = n->parent()) s = "/" + node1(db, n) + s;
    return s;
}
inline std::string entry(const DB& db, const Entry& e)
{
    if (e.is_reference()) return "ref " + path(db, e.node());
    if (e.is_immediate()) return "imm " + attr(db, db.get_attribute(e.attribute())) + "=" + val(e.value());
    return "<empty>";
}
using Rec  = std::vector<std::string>;
using Recs = std::vector<Rec>;
// entries of a record: references in order, then immediates in order
inline Rec rec(const DB& db, const std::vector<Entry>& r)
{
    Rec a, b;
    for (auto& e : r) (e.is_reference() ? a : b).push_back(entry(db, e));
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
inline std::string show(const Rec& r)
{
    std::string s = "[";
    for (auto& x : r) s += (s.size() > 1 ? " | " : "") + x;
    return s + "]";
}
inline std::string show(const Recs& r)
{
    std::string s;
    for (auto& x : r) s += show(x) + " ";
    return s.size() > 1000 ? s.substr(0, 1000) + "..." : s;
}
struct Data {
    Recs                  recs;
    std::set<std::string> globals;
    std::map<std::string, std::string> attrs; // all attributes by name
    bool                  error = false;
    std::string           msg;
};
inline std::set<std::string> globals_of(const DB& db, const std::vector<Entry>& g)
{
    // individual values: the hierarchical entries may be combined into one path
    std::set<std::string> s;
    for (auto& e : g)
        if (e.is_reference()) { for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) s.insert(node1(db, n)); }
        else s.insert(entry(db, e));
    return s;
}
inline void attrs_of(const DB& db, const std::vector<Attribute>& as, std::map<std::string, std::string>& out)
{
    for (auto& a : as) out[esc(a.name())] = attr(db, a);
}
inline Data read_into(CaliperMetadataDB& db, const std::string& text)
{
    Data d;
    CaliReader r;
    std::istringstream is(text);
    r.read(is, db, [](CaliperMetadataAccessInterface&, const Node*) {}, [&](CaliperMetadataAccessInterface& in, const std::vector<Entry>& e) { d.recs.push_back(rec(in, e)); });
    d.error = r.error();
    d.msg = r.error() ? r.error_msg() : "";
    d.globals = globals_of(db, db.get_globals());
    attrs_of(db, db.get_all_attributes(), d.attrs);
    return d;
}
inline Data read_text(const std::string& text)
{
    CaliperMetadataDB db;
    return read_into(db, text);
}
// write records and globals of a source database, in the order given
struct Writer {
    std::ostringstream os;
    OutputStream       str;
    CaliWriter         w;
    static OutputStream& prep(OutputStream& o, std::ostream* s) { o.set_stream(s); return o; }
    Writer() : w(prep(str, &os)) {}
    void write_one(const DB& db, const std::vector<Entry>& r) { w.write_snapshot(db, r); }
    std::string text() { return os.str(); }
};
inline void expect_recs(const char* what, const Recs& got, const Recs& exp)
{
    for (size_t i = 0; i < std::min(got.size(), exp.size()); ++i)
        VX_CHECK(got[i] == exp[i], "%s: record %zu is %s, expected %s", what, i, show(got[i]).c_str(), show(exp[i]).c_str());
    VX_CHECK(got.size() == exp.size(), "%s: %zu records, expected %zu (got %s; expected %s)", what, got.size(), exp.size(), show(got).c_str(), show(exp).c_str());
}
inline void expect_globals(const char* what, const std::set<std::string>& got, const std::set<std::string>& exp)
{
    for (auto& x : exp) VX_CHECK(got.count(x), "%s: global %s is missing (%zu of %zu values there)", what, x.c_str(), got.size(), exp.size());
    for (auto& x : got) VX_CHECK(exp.count(x), "%s: global %s was not written", what, x.c_str());
}
} // namespace cdb
