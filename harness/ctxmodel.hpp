// Reference model of the annotation context (boring on purpose): per scope one list for ordinary
// (region) attributes, one list for unaligned attributes, one list per hidden attribute, and one
// value per value-only attribute.
#pragma once
#include "vx.hpp"
#include <caliper/Caliper.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/cali.h>
#include <caliper/common/Node.h>
#include <caliper/common/Variant.h>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace cm {
using cali::Attribute;
using cali::Caliper;
using cali::Entry;
using cali::Node;
using cali::Variant;

struct AttrDef {
    std::string    name;
    cali_attr_type type;
    int            prop; // as requested at creation (scope THREAD if none)
};

inline bool is_process(int p) { return (p & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS || (p & CALI_ATTR_GLOBAL); }
inline bool is_unaligned(int p) { return p & (CALI_ATTR_UNALIGNED | CALI_ATTR_GLOBAL); }

using KV   = std::pair<std::string, std::string>;
using Path = std::vector<KV>;

inline std::string show(const Path& p)
{
    std::string s;
    for (auto& kv : p) s += "/" + kv.first + "=" + kv.second;
    return s;
}

// Decode an entry into a path (root first) / a single immediate key-value
inline Path decode_node(Caliper& c, const Node* n)
{
    Path p;
    for (; n && n->attribute() != CALI_INV_ID; n = n->parent())
        p.insert(p.begin(), { c.get_attribute(n->attribute()).name(), n->data().to_string() });
    return p;
}
inline std::string decode_entry(Caliper& c, const Entry& e)
{
    if (e.empty()) return "<empty>";
    if (e.is_immediate()) return "!" + c.get_attribute(e.attribute()).name() + "=" + e.value().to_string();
    return show(decode_node(c, e.node()));
}

// model of one scope (thread or process)
struct Scope {
    Path                                          region, unaligned;
    std::map<std::string, std::vector<std::string>> hidden; // hidden reference attributes
    std::map<std::string, std::string>            imm, imm_hidden;
};

struct Model {
    std::vector<AttrDef> attrs;
    std::map<int, Scope> thr; // per thread
    Scope                proc;
    int                  cur = 0;

    Scope& scope(const AttrDef& a) { return is_process(a.prop) ? proc : thr[cur]; }

    static std::string lastof(const Path& p, const std::string& n)
    {
        for (size_t i = p.size(); i-- > 0;)
            if (p[i].first == n) return p[i].second;
        return "";
    }
    static bool erase_last(Path& p, const std::string& n)
    {
        for (size_t i = p.size(); i-- > 0;)
            if (p[i].first == n) {
                p.erase(p.begin() + i);
                return true;
            }
        return false;
    }

    // innermost open value of attribute ("" = none)
    std::string get(const AttrDef& a)
    {
        Scope& s = scope(a);
        if (a.prop & CALI_ATTR_ASVALUE) {
            auto& m  = (a.prop & CALI_ATTR_HIDDEN) ? s.imm_hidden : s.imm;
            auto  it = m.find(a.name);
            return it == m.end() ? "" : it->second;
        }
        if (a.prop & CALI_ATTR_HIDDEN) {
            auto& v = s.hidden[a.name];
            return v.empty() ? "" : v.back();
        }
        return lastof(is_unaligned(a.prop) ? s.unaligned : s.region, a.name);
    }
    bool can_end(const AttrDef& a)
    {
        Scope& s = scope(a);
        if ((a.prop & (CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN)) || is_unaligned(a.prop)) return !get(a).empty();
        return !s.region.empty() && s.region.back().first == a.name;
    }
    void begin(const AttrDef& a, const std::string& v)
    {
        Scope& s = scope(a);
        if (a.prop & CALI_ATTR_ASVALUE) ((a.prop & CALI_ATTR_HIDDEN) ? s.imm_hidden : s.imm)[a.name] = v;
        else if (a.prop & CALI_ATTR_HIDDEN) s.hidden[a.name].push_back(v);
        else (is_unaligned(a.prop) ? s.unaligned : s.region).push_back({ a.name, v });
    }
    void end(const AttrDef& a)
    {
        Scope& s = scope(a);
        if (a.prop & CALI_ATTR_ASVALUE) ((a.prop & CALI_ATTR_HIDDEN) ? s.imm_hidden : s.imm).erase(a.name);
        else if (a.prop & CALI_ATTR_HIDDEN) s.hidden[a.name].pop_back();
        else erase_last(is_unaligned(a.prop) ? s.unaligned : s.region, a.name);
    }
    void set(const AttrDef& a, const std::string& v)
    {
        Scope& s = scope(a);
        if (a.prop & CALI_ATTR_ASVALUE) ((a.prop & CALI_ATTR_HIDDEN) ? s.imm_hidden : s.imm)[a.name] = v;
        else if (a.prop & CALI_ATTR_HIDDEN) {
            auto& h = s.hidden[a.name];
            if (!h.empty()) h.pop_back();
            h.push_back(v);
        } else {
            Path& p = is_unaligned(a.prop) ? s.unaligned : s.region;
            erase_last(p, a.name);
            p.push_back({ a.name, v });
        }
    }
    // expected snapshot content for the current thread, as a multiset of decoded entries
    std::multiset<std::string> snapshot()
    {
        std::multiset<std::string> r;
        for (Scope* s : { &thr[cur], &proc }) {
            if (!s->region.empty()) r.insert(show(s->region));
            if (!s->unaligned.empty()) r.insert(show(s->unaligned));
            for (auto& kv : s->imm) r.insert("!" + kv.first + "=" + kv.second);
        }
        return r;
    }
    std::string str()
    {
        std::string o;
        auto        sc = [&](Scope& s) {
            o += "R" + show(s.region) + "U" + show(s.unaligned);
            for (auto& h : s.hidden) {
                o += "H" + h.first;
                for (auto& v : h.second) o += "," + v;
            }
            for (auto& m : { s.imm, s.imm_hidden })
                for (auto& kv : m) o += "V" + kv.first + "=" + kv.second;
        };
        for (auto& t : thr) {
            o += "T" + std::to_string(t.first);
            sc(t.second);
        }
        sc(proc);
        return o;
    }
};

inline std::string show(const std::multiset<std::string>& s)
{
    std::string o;
    for (auto& x : s) o += (o.empty() ? "" : " | ") + x;
    return "{" + o + "}";
}

inline Variant mkval(cali_attr_type t, const std::string& s)
{
    if (t == CALI_TYPE_STRING) return Variant(s.c_str());
    if (t == CALI_TYPE_INT) return Variant(atoi(s.c_str()));
    if (t == CALI_TYPE_UINT) return Variant(cali_make_variant_from_uint(strtoull(s.c_str(), 0, 10)));
    if (t == CALI_TYPE_DOUBLE) return Variant(atof(s.c_str()));
    if (t == CALI_TYPE_BOOL) return Variant(s == "true");
    return Variant();
}

} // namespace cm
