// Helpers shared by the service checks: channel creation, record decoding, stderr capture.
#pragma once
#include "ctxmodel.hpp"
#include <caliper/cali.h>
#include <map>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
// Link with -Wl,--wrap=memset: zeroing a whole trace buffer costs hundreds of page faults in every
// forked process; dropping the (private anonymous) pages has the same effect.
extern "C" void* __real_memset(void*, int, size_t);
extern "C" __attribute__((weak)) void* __wrap_memset(void* p, int c, size_t n)
{
    if (n >= (256u << 10) && c == 0) {
        uintptr_t a = ((uintptr_t) p + 4095) & ~4095ul, e = ((uintptr_t) p + n) & ~4095ul;
        if (madvise((void*) a, e - a, MADV_DONTNEED) == 0) {
            __real_memset(p, 0, a - (uintptr_t) p);
            __real_memset((void*) e, 0, (uintptr_t) p + n - e);
            return p;
        }
    }
    return __real_memset(p, c, n);
}
namespace svc {
using namespace cali;
struct ErrCapture {
    int fd, saved;
    ErrCapture() { fflush(stderr); fd = syscall(SYS_memfd_create, "err", 0); saved = dup(2); dup2(fd, 2); }
    std::string stop()
    {
        if (saved < 0) return "";
        fflush(stderr);
        dup2(saved, 2);
        close(saved);
        saved = -1;
        std::string s;
        struct stat st;
        fstat(fd, &st);
        s.resize(st.st_size);
        if (pread(fd, &s[0], s.size(), 0) < 0) s.clear();
        close(fd);
        return s;
    }
    ~ErrCapture() { stop(); }
};
using Cfg = std::vector<std::pair<std::string, std::string>>;
inline cali_id_t mkchannel(const Cfg& kv, const char* name, int flags = 0)
{
    cali_configset_t cs = cali_create_configset(nullptr);
    bool chk = false;
    for (auto& p : kv) cali_configset_set(cs, p.first.c_str(), p.second.c_str()), chk |= p.first == "CALI_CHANNEL_CONFIG_CHECK";
    if (!chk) cali_configset_set(cs, "CALI_CHANNEL_CONFIG_CHECK", "false");
    cali_id_t id = cali_create_channel(name, flags, cs);
    cali_delete_configset(cs);
    return id;
}
using Rec  = std::multiset<std::string>; // decoded entries of one record
using Recs = std::vector<Rec>;
inline Recs flush_records(Caliper& c, cali_id_t id)
{
    Recs got;
    Channel ch = c.get_channel(id);
    c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        Rec g;
        for (const Entry& e : rec) g.insert(cm::decode_entry(c, e));
        got.push_back(g);
    });
    return got;
}
inline std::string show(const Recs& r)
{
    std::string s;
    for (auto& x : r) s += cm::show(x) + " ";
    return s.size() > 1200 ? s.substr(0, 1200) + "..." : s;
}
inline void expect_seq(const char* what, const Recs& got, const Recs& exp)
{
    for (size_t i = 0; i < std::min(got.size(), exp.size()); ++i)
        VX_CHECK(got[i] == exp[i], "%s: record %zu is %s, expected %s", what, i, cm::show(got[i]).c_str(), cm::show(exp[i]).c_str());
    VX_CHECK(got.size() == exp.size(), "%s: %zu records, expected %zu (got %s, expected %s)", what, got.size(), exp.size(), show(got).c_str(), show(exp).c_str());
}
inline void expect_set(const char* what, const Recs& got, const Recs& exp)
{
    std::multiset<Rec> a(got.begin(), got.end()), b(exp.begin(), exp.end());
    for (auto& x : a) VX_CHECK(a.count(x) == b.count(x), "%s: record %s appears %zu times, expected %zu (all: %s; expected: %s)", what, cm::show(x).c_str(), a.count(x), b.count(x), show(got).c_str(), show(exp).c_str());
    for (auto& x : b) VX_CHECK(a.count(x) == b.count(x), "%s: record %s is missing (all: %s; expected: %s)", what, cm::show(x).c_str(), show(got).c_str(), show(exp).c_str());
}
// the records an `event` service pushes for one annotation event (trigger info included)
struct EventModel {
    // returns the expected record for an event of kind k ("begin","set","end") on attribute a with value v, before the operation is applied
    static Rec record(cm::Model& m, const cm::AttrDef& a, const char* k, const std::string& v)
    {
        std::string nm = std::string("event.") + k + "#" + a.name;
        Rec r;
        if (a.prop & CALI_ATTR_ASVALUE) {
            r = m.snapshot();
            r.insert("!" + nm + "=" + v);
        } else {
            cm::Scope& s = m.scope(a);
            r = m.snapshot();
            cm::Path p;
            if (a.prop & CALI_ATTR_HIDDEN) { /* not used */ }
            else p = cm::is_unaligned(a.prop) ? s.unaligned : s.region;
            if (!p.empty()) r.erase(r.find(cm::show(p)));
            p.push_back({ nm, v });
            r.insert(cm::show(p));
        }
        if (std::string(k) == "end") r.insert("!region.count=1");
        return r;
    }
};
// result of on-line aggregation over a list of snapshots, keyed by reference entries (+ immediate keys)
struct AggModel {
    std::set<std::string> aggr, immkey; // attribute names
    std::map<std::string, std::pair<Rec, std::map<std::string, std::vector<double>>>> groups;
    std::map<std::string, int> count;
    void clear() { groups.clear(); count.clear(); }
    static bool imm(const std::string& e, std::string& n, std::string& v)
    {
        if (e.empty() || e[0] != '!') return false;
        size_t q = e.find('=');
        n = e.substr(1, q - 1);
        v = e.substr(q + 1);
        return true;
    }
    void add(const Rec& r)
    {
        Rec key;
        std::map<std::string, double> val;
        for (auto& e : r) {
            std::string n, v;
            if (!imm(e, n, v)) key.insert(e);
            else {
                if (immkey.count(n)) key.insert(e);
                if (aggr.count(n)) val[n] = atof(v.c_str());
            }
        }
        auto k = cm::show(key);
        auto& g = groups[k];
        g.first = key;
        for (auto& x : val) g.second[x.first].push_back(x.second);
        ++count[k];
    }
    static std::string num(double d, bool dbl) { return dbl ? Variant(d).to_string() : std::to_string((long long) d); }
    std::set<std::string> dbl; // attributes of type double
    Recs result() const
    {
        Recs out;
        for (auto& g : groups) {
            Rec r = g.second.first;
            for (auto& a : g.second.second) {
                double mn = a.second[0], mx = mn, s = 0;
                for (double d : a.second) mn = std::min(mn, d), mx = std::max(mx, d), s += d;
                bool D = dbl.count(a.first);
                r.insert("!min#" + a.first + "=" + num(mn, D));
                r.insert("!max#" + a.first + "=" + num(mx, D));
                r.insert("!sum#" + a.first + "=" + num(s, D));
                r.insert("!avg#" + a.first + "=" + (D ? num(s / a.second.size(), true) : num((double) ((long long) s / (long long) a.second.size()), false)));
            }
            r.insert("!count=" + std::to_string(count.at(g.first)));
            out.push_back(r);
        }
        return out;
    }
    static Recs strip_slot(Recs r)
    {
        for (auto& x : r)
            for (auto it = x.begin(); it != x.end();)
                if (it->rfind("!aggregate.slot=", 0) == 0) it = x.erase(it);
                else ++it;
        return r;
    }
};
} // namespace svc
