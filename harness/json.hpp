// json.hpp -- a strict JSON reader: rejects everything RFC 8259 does not allow, and repeated object names.
#pragma once
#include "vx.hpp"
namespace json {
struct V {
    enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
    bool b = false; std::string s; // text of numbers, decoded strings
    std::vector<V> a; std::vector<std::pair<std::string, V>> o;
    const V* get(const std::string& k) const { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
};
struct P {
    const std::string& x; size_t i = 0;
    explicit P(const std::string& s) : x(s) {}
    [[noreturn]] void bad(const char* w) { std::string a = x.substr(i > 40 ? i - 40 : 0, 60); throw vx::Fail { vx::fmt("invalid JSON at byte %zu (%s): ...%s...", i, w, a.c_str()), "" }; }
    void ws() { while (i < x.size() && strchr(" \t\n\r", x[i]) && x[i]) ++i; }
    void utf8()
    {
        unsigned char c = x[i];
        int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
        if (n < 0) bad("not UTF-8");
        for (int k = 1; k <= n; ++k) if (i + k >= x.size() || ((unsigned char) x[i + k] & 0xc0) != 0x80) bad("not UTF-8");
        i += n + 1;
    }
    std::string str()
    {
        if (i >= x.size() || x[i] != '"') bad("expected a string");
        ++i;
        std::string r;
        for (;;) {
            if (i >= x.size()) bad("unterminated string");
            unsigned char c = x[i];
            if (c == '"') { ++i; return r; }
            if (c < 0x20) bad("control character in a string");
            if (c != '\\') { size_t b = i; utf8(); r.append(x, b, i - b); continue; }
            ++i;
            if (i >= x.size()) bad("unterminated string");
            char e = x[i++];
            switch (e) {
            case '"': case '\\': case '/': r += e; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'n': r += '\n'; break;
            case 'r': r += '\r'; break;
            case 't': r += '\t'; break;
            case 'u': {
                if (i + 4 > x.size()) bad("short \\u");
                unsigned v = 0;
                for (int k = 0; k < 4; ++k) { if (!isxdigit((unsigned char) x[i])) bad("\\u digits"); v = v * 16 + (isdigit((unsigned char) x[i]) ? x[i] - '0' : (x[i] | 32) - 'a' + 10); ++i; }
                if (v < 0x80) r += (char) v;
                else if (v < 0x800) { r += (char) (0xc0 | v >> 6); r += (char) (0x80 | (v & 63)); }
                else { r += (char) (0xe0 | v >> 12); r += (char) (0x80 | (v >> 6 & 63)); r += (char) (0x80 | (v & 63)); }
                break;
            }
            default: bad("escape");
            }
        }
    }
    V val(int d = 0)
    {
        if (d > 50) bad("depth");
        ws();
        if (i >= x.size()) bad("end of text");
        V v;
        char c = x[i];
        if (c == '"') { v.t = V::Str; v.s = str(); }
        else if (c == '{') {
            v.t = V::Obj; ++i; ws();
            if (i < x.size() && x[i] == '}') { ++i; return v; }
            for (;;) {
                ws();
                std::string k = str();
                if (v.get(k)) bad("repeated name in an object");
                ws();
                if (i >= x.size() || x[i] != ':') bad("expected :");
                ++i;
                v.o.emplace_back(k, val(d + 1));
                ws();
                if (i < x.size() && x[i] == ',') { ++i; continue; }
                if (i < x.size() && x[i] == '}') { ++i; break; }
                bad("expected , or }");
            }
        } else if (c == '[') {
            v.t = V::Arr; ++i; ws();
            if (i < x.size() && x[i] == ']') { ++i; return v; }
            for (;;) {
                v.a.push_back(val(d + 1));
                ws();
                if (i < x.size() && x[i] == ',') { ++i; continue; }
                if (i < x.size() && x[i] == ']') { ++i; break; }
                bad("expected , or ]");
            }
        } else if (x.compare(i, 4, "true") == 0) { v.t = V::Bool; v.b = true; i += 4; }
        else if (x.compare(i, 5, "false") == 0) { v.t = V::Bool; i += 5; }
        else if (x.compare(i, 4, "null") == 0) i += 4;
        else {
            size_t b = i;
            auto dig = [&]() { size_t k = i; while (i < x.size() && isdigit((unsigned char) x[i])) ++i; return i > k; };
            if (x[i] == '-') ++i;
            if (i < x.size() && x[i] == '0') ++i;
            else if (!dig()) bad("not a value");
            if (i < x.size() && x[i] == '.') { ++i; if (!dig()) bad("number"); }
            if (i < x.size() && (x[i] | 32) == 'e') { ++i; if (i < x.size() && strchr("+-", x[i])) ++i; if (!dig()) bad("number"); }
            v.t = V::Num; v.s = x.substr(b, i - b);
        }
        return v;
    }
};
inline V parse(const std::string& s)
{
    P p(s);
    V v = p.val();
    p.ws();
    if (p.i != s.size()) p.bad("text behind the value");
    return v;
}
inline std::string show(const V& v)
{
    switch (v.t) {
    case V::Null: return "null";
    case V::Bool: return v.b ? "true" : "false";
    case V::Num: return v.s;
    case V::Str: return "\"" + v.s + "\"";
    default: return v.t == V::Arr ? "[...]" : "{...}";
    }
}
} // namespace json
