// Reference semantics of kl's typed serialization: what a value of a described type looks like as a
// document, what a document means for a value (deserialize) and what a partial document changes (patch).
// Written from the documentation of the attributes and of json.hpp/yaml.hpp; nothing of kl is used here.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace sm {

using i128 = __int128;

// ---- documents and model values -------------------------------------------------------------------
struct J
{
    enum kind { Null, Bool, Int, Dbl, Str, Arr, Obj, Cmplx } k = Null;
    bool b = false;
    bool flt = false;                                // a Dbl that was a float: precise to a float only
    i128 i = 0;
    double d = 0;
    std::string s;                                   // string value, or the exact text of a Dbl
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    static J null() { return {}; }
    static J boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
    static J num(i128 v) { J j; j.k = Int; j.i = v; return j; }
    static J dbl(double v, std::string text = {}) { J j; j.k = Dbl; j.d = v; j.s = std::move(text); return j; }
    static J str(std::string v) { J j; j.k = Str; j.s = std::move(v); return j; }
    static J arr(std::vector<J> v = {}) { J j; j.k = Arr; j.a = std::move(v); return j; }
    static J obj(std::vector<std::pair<std::string, J>> v = {}) { J j; j.k = Obj; j.o = std::move(v); return j; }
    const J* find(const std::string& key) const
    {
        for (auto& [k2, v] : o)
            if (k2 == key)
                return &v;
        return nullptr;
    }
};

inline std::string dec(i128 v)
{
    if (v == 0)
        return "0";
    bool neg = v < 0;
    std::string r;
    for (unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; u; u /= 10)
        r.insert(r.begin(), char('0' + (int)(u % 10)));
    return neg ? "-" + r : r;
}

inline std::string dbl_text(const J& j)
{
    if (!j.s.empty())
        return j.s;
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", j.d);
    if (!std::strpbrk(b, ".eEn"))
        std::strcat(b, ".0");
    return b;
}

// JSON text; strings are escaped so that the text is also valid YAML (double-quoted flow scalars)
inline void quote(std::string& out, const std::string& s)
{
    out += '"';
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (out += '\\') += (char)c;
        else if (c < 0x20 || c == 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            out += b;
        }
        else
            out += (char)c;
    }
    out += '"';
}
inline void write(std::string& out, const J& j)
{
    switch (j.k)
    {
    case J::Null: out += "null"; break;
    case J::Bool: out += j.b ? "true" : "false"; break;
    case J::Int: out += dec(j.i); break;
    case J::Dbl: out += dbl_text(j); break;
    case J::Str: quote(out, j.s); break;
    case J::Cmplx: out += j.s; break;
    case J::Arr:
        out += '[';
        for (std::size_t n = 0; n < j.a.size(); ++n)
        {
            if (n) out += ", ";
            write(out, j.a[n]);
        }
        out += ']';
        break;
    case J::Obj:
        out += '{';
        for (std::size_t n = 0; n < j.o.size(); ++n)
        {
            if (n) out += ", ";
            quote(out, j.o[n].first);
            out += ": ";
            write(out, j.o[n].second);
        }
        out += '}';
        break;
    }
}
inline std::string text(const J& j)
{
    std::string r;
    write(r, j);
    return r;
}

// ---- schemas --------------------------------------------------------------------------------------
struct Schema;
using S = std::shared_ptr<const Schema>;

struct Field
{
    std::string name;             // C++ name, used in error messages
    std::string wire;             // serialized name
    S schema;
    std::vector<std::string> aliases;
    bool skip_ser = false, skip_de = false, skip_if_null = false, emit_null = false,
         allow_missing = false, skip_if_empty = false, flatten = false, extra = false;
    std::optional<J> def;
    std::function<bool(const J&)> valid;
    std::function<J(const void*)> get;
    std::function<void(void*, const J&)> set;
};

struct Schema
{
    enum kind { Bool, Int, Flt, Dbl, Str, Enum, EnumSet, Opt, Vec, Arr, Tup, Map, Struct, Custom } k;
    i128 lo = 0, hi = 0;
    std::vector<std::string> names;
    std::vector<S> sub;
    std::size_t n = 0;
    std::vector<Field> fields;
};

inline std::string type_label(const S& s)
{
    switch (s->k)
    {
    case Schema::Bool: return "bool";
    case Schema::Int: return (s->lo < 0 ? "int" : "uint") + std::to_string(s->hi > 0xffffffffll ? 64 : s->hi > 0xffff ? 32 : s->hi > 0xff ? 16 : 8);
    case Schema::Flt: return "float";
    case Schema::Dbl: return "double";
    case Schema::Str: return "string";
    case Schema::Enum: return "enum";
    case Schema::EnumSet: return "enum_set";
    case Schema::Opt: return "optional<" + type_label(s->sub[0]) + ">";
    case Schema::Vec: return "seq<" + type_label(s->sub[0]) + ">";
    case Schema::Arr: return "array<" + type_label(s->sub[0]) + ">";
    case Schema::Map: return "map<" + type_label(s->sub[0]) + ">";
    case Schema::Custom: return "custom";
    case Schema::Tup:
    {
        std::string r = "tuple<";
        for (auto& x : s->sub) r += type_label(x) + ",";
        return r + ">";
    }
    case Schema::Struct:
    {
        std::string r = "struct{";
        for (auto& f : s->fields) r += f.name + ",";
        return r + "}";
    }
    }
    return "?";
}

struct DeErr { std::vector<std::string> path; };  // expected deserialize_error; path tokens inner to outer
struct LogicErr {};                               // expected std::logic_error
struct Unspec {};                                 // the documentation leaves the result open

enum class backend { json, yaml };

// structural equality; in YAML documents scalars are plain text
inline bool is_scalar(const J& j) { return j.k == J::Bool || j.k == J::Int || j.k == J::Dbl || j.k == J::Str; }
inline std::string scalar_text(const J& j)
{
    return j.k == J::Bool ? (j.b ? "true" : "false") : j.k == J::Int ? dec(j.i) : j.k == J::Dbl ? dbl_text(j) : j.s;
}

// Doubles that came out of kl::json::parse may be a few ULPs off (KNOWN_FINDINGS.txt); 0 means exact.
inline int parse_ulps = 0;
struct parsed_text
{
    explicit parsed_text(bool json) { parse_ulps = json ? 3 : 0; }
    ~parsed_text() { parse_ulps = 0; }
};

inline bool same(const J& expect, const J& got)
{
    if (expect.k == J::Dbl && got.k == J::Dbl)
    {
        if (std::isnan(expect.d) || std::isnan(got.d))
            return std::isnan(expect.d) && std::isnan(got.d);
        if (std::signbit(expect.d) != std::signbit(got.d))
            return false;
        double lo = std::min(expect.d, got.d), hi = std::max(expect.d, got.d);
        for (int n = 0; n < parse_ulps && lo != hi; ++n)
            lo = std::nextafter(lo, hi);
        return lo == hi;
    }
    if (expect.k != got.k)
        return false;
    switch (expect.k)
    {
    case J::Null: return true;
    case J::Bool: return expect.b == got.b;
    case J::Int: return expect.i == got.i;
    case J::Str:
    case J::Cmplx: return expect.s == got.s;
    case J::Arr:
        if (expect.a.size() != got.a.size())
            return false;
        for (std::size_t n = 0; n < expect.a.size(); ++n)
            if (!same(expect.a[n], got.a[n]))
                return false;
        return true;
    case J::Obj:
        if (expect.o.size() != got.o.size())
            return false;
        for (std::size_t n = 0; n < expect.o.size(); ++n)
            if (expect.o[n].first != got.o[n].first || !same(expect.o[n].second, got.o[n].second))
                return false;
        return true;
    default: return false;
    }
}

// got: a YAML tree whose scalars are all Str; a number may be spelled in any way that reads back the same
inline bool same_yaml(const J& expect, const J& got)
{
    if (is_scalar(expect))
    {
        if (got.k != J::Str)
            return false;
        if (expect.k == J::Dbl)
        {
            if (std::isnan(expect.d))
                return got.s == ".nan";
            if (std::isinf(expect.d))
                return got.s == (expect.d < 0 ? "-.inf" : ".inf");
            char* end = nullptr;
            double v = expect.flt ? (double)std::strtof(got.s.c_str(), &end) : std::strtod(got.s.c_str(), &end);
            return end == got.s.c_str() + got.s.size() && !got.s.empty() && v == expect.d && std::signbit(v) == std::signbit(expect.d);
        }
        return scalar_text(expect) == got.s;
    }
    if (expect.k != got.k)
        return false;
    if (expect.k == J::Arr)
    {
        if (expect.a.size() != got.a.size())
            return false;
        for (std::size_t n = 0; n < expect.a.size(); ++n)
            if (!same_yaml(expect.a[n], got.a[n]))
                return false;
    }
    if (expect.k == J::Obj)
    {
        if (expect.o.size() != got.o.size())
            return false;
        for (std::size_t n = 0; n < expect.o.size(); ++n)
            if (expect.o[n].first != got.o[n].first || !same_yaml(expect.o[n].second, got.o[n].second))
                return false;
    }
    return true;
}

// ---- serialize ------------------------------------------------------------------------------------
inline void reserved(const Schema& s, std::set<std::string>& out)
{
    for (auto& f : s.fields)
    {
        if (f.extra)
            continue;
        if (f.flatten)
            reserved(*f.schema, out);
        else
        {
            out.insert(f.wire);
            out.insert(f.aliases.begin(), f.aliases.end());
        }
    }
}

inline bool null_value(const S& s, const J& m) { return s->k == Schema::Opt && m.k == J::Null; }

inline J ser(const S& s, const J& m, bool skip_null);

inline void ser_fields(const S& s, const J& m, bool skip_null, const std::set<std::string>& names, J& out)
{
    for (std::size_t n = 0; n < s->fields.size(); ++n)
    {
        const Field& f = s->fields[n];
        const J& v = m.a[n];
        if (f.skip_ser)
            continue;
        bool isnull = null_value(f.schema, v);
        bool skip = f.emit_null ? false : f.skip_if_null ? isnull : skip_null && isnull;
        if (!skip && f.skip_if_empty)
            skip = v.k == J::Str ? v.s.empty() : v.k == J::Arr ? v.a.empty() : v.o.empty();
        if (skip)
            continue;
        if (f.extra)
            for (auto& [key, val] : v.o)
            {
                if (names.count(key))
                    throw LogicErr{};
                if (!(skip_null && null_value(f.schema->sub[0], val)))
                    out.o.emplace_back(key, ser(f.schema->sub[0], val, skip_null));
            }
        else if (f.flatten)
            ser_fields(f.schema, v, skip_null, names, out);
        else
            out.o.emplace_back(f.wire, ser(f.schema, v, skip_null));
    }
}

inline J ser(const S& s, const J& m, bool skip_null)
{
    switch (s->k)
    {
    case Schema::Opt: return m.k == J::Null ? m : ser(s->sub[0], m, skip_null);
    case Schema::Flt:
    {
        J out = m;
        out.flt = true;
        return out;
    }
    case Schema::Vec:
    case Schema::Arr:
    case Schema::Tup:
    {
        J out = J::arr();
        for (std::size_t n = 0; n < m.a.size(); ++n)
            out.a.push_back(ser(s->k == Schema::Tup ? s->sub[n] : s->sub[0], m.a[n], skip_null));
        return out;
    }
    case Schema::Map:
    {
        J out = J::obj();
        for (auto& [key, val] : m.o)
            if (!(skip_null && null_value(s->sub[0], val)))
                out.o.emplace_back(key, ser(s->sub[0], val, skip_null));
        return out;
    }
    case Schema::Struct:
    {
        J out = J::obj();
        std::set<std::string> names;
        reserved(*s, names);
        ser_fields(s, m, skip_null, names, out);
        return out;
    }
    case Schema::Custom: return J::str("<" + dec(m.i) + ">");
    default: return m;
    }
}

// ---- deserialize and patch ------------------------------------------------------------------------
inline bool int_text(const std::string& t, i128& out)
{
    std::size_t p = t.size() && t[0] == '-' ? 1 : 0;
    if (p == t.size() || t.size() > 30)
        return false;
    if (t[p] == '0' && t.size() > p + 1)
        throw Unspec{};  // octal, hexadecimal and the like: the YAML library's business
    i128 v = 0;
    for (; p < t.size(); ++p)
    {
        if (t[p] < '0' || t[p] > '9')
            return false;
        v = v * 10 + (t[p] - '0');
    }
    out = t[0] == '-' ? -v : v;
    return true;
}

inline void de(const S& s, const J& doc, J& m, backend be);
inline void pat(const S& s, const J& doc, J& m, backend be);
inline J blank(const S& s);

[[noreturn]] inline void rethrow_with(DeErr e, std::string tok)
{
    e.path.push_back(std::move(tok));
    throw e;
}

inline void set_map(J& m, const std::string& key, J v)   // keys in std::map order, first one wins
{
    std::size_t n = 0;
    while (n < m.o.size() && m.o[n].first < key)
        ++n;
    if (n < m.o.size() && m.o[n].first == key)
        return;
    m.o.insert(m.o.begin() + n, {key, std::move(v)});
}

inline void struct_map(const S& s, const J& doc, J& m, backend be, bool patching, const std::set<std::string>& names)
{
    for (std::size_t n = 0; n < s->fields.size(); ++n)
    {
        const Field& f = s->fields[n];
        J& v = m.a[n];
        if (f.skip_de)
            continue;
        if (f.extra)
        {
            if (!patching)
                v = J::obj();
            for (auto& [key, node] : doc.o)
            {
                if (names.count(key))
                    continue;
                try
                {
                    J* existing = nullptr;
                    if (patching)
                        for (auto& [k2, v2] : v.o)
                            if (k2 == key)
                                existing = &v2;
                    if (existing)
                        pat(f.schema->sub[0], node, *existing, be);
                    else
                    {
                        J fresh = blank(f.schema->sub[0]);
                        if (patching)
                            pat(f.schema->sub[0], node, fresh, be);
                        else
                            de(f.schema->sub[0], node, fresh, be);
                        set_map(v, key, fresh);
                    }
                }
                catch (DeErr& e) { rethrow_with(e, "extra field " + key); }
            }
            continue;
        }
        try
        {
            if (f.flatten)
            {
                struct_map(f.schema, doc, v, be, patching, names);
                continue;
            }
            const J* node = doc.find(f.wire);
            for (auto& al : f.aliases)
                if (!node)
                    node = doc.find(al);
            if (!node)
            {
                if (patching)
                    continue;
                if (f.def)
                {
                    v = *f.def;
                    continue;
                }
                if (f.allow_missing)
                    continue;
                de(f.schema, J::null(), v, be);
            }
            else if (node->k == J::Null && f.def)
            {
                v = *f.def;
                continue;
            }
            else if (patching)
                pat(f.schema, *node, v, be);
            else
                de(f.schema, *node, v, be);
            if (f.valid && !f.valid(v))
                throw DeErr{};
        }
        catch (DeErr& e) { rethrow_with(e, "field " + f.name); }
    }
}

inline void de(const S& s, const J& doc, J& m, backend be)
{
    const bool yaml = be == backend::yaml;
    switch (s->k)
    {
    case Schema::Bool:
        if (yaml)
        {
            if (!is_scalar(doc)) throw DeErr{};
            auto t = scalar_text(doc);
            if (t == "true" || t == "false") m = J::boolean(t == "true");
            else if (t == "yes" || t == "no" || t == "on" || t == "off" || t == "y" || t == "n") throw Unspec{};
            else throw DeErr{};
            return;
        }
        if (doc.k != J::Bool) throw DeErr{};
        m = doc;
        return;
    case Schema::Int:
    {
        i128 v;
        if (yaml)
        {
            if (!is_scalar(doc) || !int_text(scalar_text(doc), v)) throw DeErr{};
        }
        else
        {
            if (doc.k != J::Int) throw DeErr{};
            v = doc.i;
        }
        if (v < s->lo || v > s->hi) throw DeErr{};
        m = J::num(v);
        return;
    }
    case Schema::Flt:
    case Schema::Dbl:
    {
        double v;
        if (yaml)
        {
            if (!is_scalar(doc)) throw DeErr{};
            auto t = scalar_text(doc);
            if (t == ".nan" || t == ".inf" || t == "-.inf")
                v = t == ".nan" ? NAN : t[0] == '-' ? -INFINITY : INFINITY;
            else
            {
                char* end = nullptr;
                if (t.empty() || !(std::isdigit((unsigned char)t[0]) || (t[0] == '-' && t.size() > 1 && std::isdigit((unsigned char)t[1])))) throw DeErr{};
                if (t.find_first_of("xX") != t.npos) throw Unspec{};
                v = std::strtod(t.c_str(), &end);
                if (end != t.c_str() + t.size()) throw DeErr{};
                if (std::isinf(v) || (v != 0 && std::fabs(v) < 1e-300)) throw Unspec{};
            }
        }
        else
        {
            if (doc.k == J::Int) v = (double)doc.i;
            else if (doc.k == J::Dbl) v = doc.d;
            else throw DeErr{};
        }
        if (s->k == Schema::Flt)
        {
            if (std::isfinite(v) && std::fabs(v) > 3.4028234663852886e38) throw Unspec{};
            if (yaml && v != 0 && std::fabs(v) < 1.2e-38) throw Unspec{};
            v = (float)v;
        }
        m = J::dbl(v);
        return;
    }
    case Schema::Str:
        if (yaml ? !is_scalar(doc) : doc.k != J::Str) throw DeErr{};
        m = J::str(scalar_text(doc));
        return;
    case Schema::Enum:
        if (yaml ? !is_scalar(doc) : doc.k != J::Str) throw DeErr{};
        for (auto& n : s->names)
            if (n == scalar_text(doc))
            {
                m = J::str(n);
                return;
            }
        throw DeErr{};
    case Schema::EnumSet:
    {
        if (doc.k != J::Arr) throw DeErr{};
        J out = J::arr();
        std::set<std::string> in;
        for (auto& e : doc.a)
        {
            if (yaml ? !is_scalar(e) : e.k != J::Str) throw DeErr{};
            bool known = false;
            for (auto& n : s->names)
                known = known || n == scalar_text(e);
            if (!known) throw DeErr{};
            in.insert(scalar_text(e));
        }
        for (auto& n : s->names)
            if (in.count(n))
                out.a.push_back(J::str(n));
        m = out;
        return;
    }
    case Schema::Custom:
    {
        if (yaml ? !is_scalar(doc) : doc.k != J::Str) throw DeErr{};
        auto t = scalar_text(doc);
        i128 v;
        if (t.size() < 3 || t.front() != '<' || t.back() != '>' || !int_text(t.substr(1, t.size() - 2), v)) throw DeErr{};
        m = J::num(v);
        return;
    }
    case Schema::Opt:
    {
        if (doc.k == J::Null)
        {
            m = J::null();
            return;
        }
        J fresh = blank(s->sub[0]);
        de(s->sub[0], doc, fresh, be);
        m = fresh;
        return;
    }
    case Schema::Vec:
    {
        if (doc.k != J::Arr) throw DeErr{};
        J out = J::arr();
        for (std::size_t n = 0; n < doc.a.size(); ++n)
            try
            {
                J fresh = blank(s->sub[0]);
                de(s->sub[0], doc.a[n], fresh, be);
                out.a.push_back(fresh);
            }
            catch (DeErr& e) { rethrow_with(e, "element " + std::to_string(n)); }
        m = out;
        return;
    }
    case Schema::Arr:
        if (doc.k != J::Arr || doc.a.size() > s->n) throw DeErr{};
        for (std::size_t n = 0; n < s->n; ++n)
            try { de(s->sub[0], n < doc.a.size() ? doc.a[n] : J::null(), m.a[n], be); }
            catch (DeErr& e) { rethrow_with(e, "element " + std::to_string(n)); }
        return;
    case Schema::Tup:
        if (doc.k != J::Arr || doc.a.size() > s->sub.size()) throw DeErr{};
        for (std::size_t n = 0; n < s->sub.size(); ++n)
            de(s->sub[n], n < doc.a.size() ? doc.a[n] : J::null(), m.a[n], be);
        return;
    case Schema::Map:
    {
        if (doc.k != J::Obj) throw DeErr{};
        J out = J::obj();
        for (auto& [key, node] : doc.o)
            try
            {
                J fresh = blank(s->sub[0]);
                de(s->sub[0], node, fresh, be);
                set_map(out, key, fresh);
            }
            catch (DeErr& e) { rethrow_with(e, "field " + key); }
        m = out;
        return;
    }
    case Schema::Struct:
        if (doc.k == J::Obj)
        {
            std::set<std::string> names;
            reserved(*s, names);
            struct_map(s, doc, m, be, false, names);
            return;
        }
        if (doc.k == J::Arr)
        {
            std::size_t count = 0, at = 0;
            for (auto& f : s->fields)
                count += !f.skip_de;
            if (doc.a.size() > count) throw DeErr{};
            for (std::size_t n = 0; n < s->fields.size(); ++n)
            {
                const Field& f = s->fields[n];
                if (f.skip_de)
                    continue;
                try
                {
                    if (f.extra || f.flatten)
                        throw DeErr{};
                    J node = at < doc.a.size() ? doc.a[at] : J::null();
                    if (node.k == J::Null && (f.def || (f.allow_missing && at >= doc.a.size())))
                        throw Unspec{};  // the attributes speak of keys, not of positions
                    de(f.schema, node, m.a[n], be);
                    if (f.valid && !f.valid(m.a[n]))
                        throw DeErr{};
                }
                catch (DeErr& e) { rethrow_with(e, "element " + std::to_string(at)); }
                ++at;
            }
            return;
        }
        throw DeErr{};
    }
}

inline void pat(const S& s, const J& doc, J& m, backend be)
{
    if (s->k == Schema::Struct && doc.k == J::Obj)
    {
        std::set<std::string> names;
        reserved(*s, names);
        struct_map(s, doc, m, be, true, names);
        return;
    }
    if (s->k == Schema::Opt && doc.k != J::Null)
    {
        J v = m.k == J::Null ? blank(s->sub[0]) : m;
        pat(s->sub[0], doc, v, be);
        m = v;
        return;
    }
    if (s->k == Schema::Custom)
    {
        // the harness' serializer adds when patching
        J v = m;
        de(s, doc, v, be);
        m = J::num(m.i + v.i);
        return;
    }
    de(s, doc, m, be);
}

// value-initialised
inline J blank(const S& s)
{
    switch (s->k)
    {
    case Schema::Bool: return J::boolean(false);
    case Schema::Int: return J::num(0);
    case Schema::Flt:
    case Schema::Dbl: return J::dbl(0);
    case Schema::Str: return J::str("");
    case Schema::Enum: return J::str(s->names[0]);
    case Schema::EnumSet: return J::arr();
    case Schema::Opt: return J::null();
    case Schema::Vec: return J::arr();
    case Schema::Map: return J::obj();
    case Schema::Custom: return J::num(0);
    case Schema::Arr:
    {
        J r = J::arr();
        for (std::size_t n = 0; n < s->n; ++n)
            r.a.push_back(blank(s->sub[0]));
        return r;
    }
    case Schema::Tup:
    {
        J r = J::arr();
        for (auto& x : s->sub)
            r.a.push_back(blank(x));
        return r;
    }
    case Schema::Struct:
    {
        J r = J::arr();
        for (auto& f : s->fields)
            r.a.push_back(blank(f.schema));
        return r;
    }
    }
    return {};
}

// ---- exhaustive generators ------------------------------------------------------------------------
// level 0: full alphabets; 1: a few representatives; 2: two
// Documents are enumerated by their deviations from a valid document (wrong kind, null, missing or extra
// member, alias, reordering, ...): all documents with at most `budget` of them, like a preemption bound.
inline int budget = 1 << 30;
inline int dev(int n)
{
    if (budget <= 0)
        return 0;
    int c = mc::choose(n);
    budget -= c != 0;
    return c;
}
// Values likewise: deviations from the smallest (zeros, null, empty) or from the largest enumerated value.
inline bool from_largest = false;
inline int pick_dev(int n) { return (dev(n) + (from_largest ? n - 1 : 0)) % n; }

inline J gen(const S& s, int level)
{
    auto pick = [](std::vector<J> v) { return v[pick_dev((int)v.size())]; };
    switch (s->k)
    {
    case Schema::Bool: return J::boolean(pick_dev(2));
    case Schema::Int:
        if (level == 0)
        {
            std::vector<J> v{J::num(s->lo), J::num(s->lo + 1), J::num(0), J::num(1), J::num(s->hi - 1), J::num(s->hi), J::num(s->hi / 2), J::num(s->hi / 2 + 1)};
            if (s->lo < 0) v.push_back(J::num(-1));
            return pick(v);
        }
        if (level == 1) return pick({J::num(0), J::num(2), J::num(s->lo), J::num(s->hi)});
        return pick({J::num(0), J::num(2)});
    case Schema::Flt:
    case Schema::Dbl:
    {
        if (level > 0) return pick({J::dbl(0), J::dbl(-1.5)});
        std::vector<double> v{0, -0.0, 1, -1.5, 0.1f, 1e10f, 16777217.f, 3.4028234663852886e38, 1.1754943508222875e-38, 123456.789f, -1e-10f};
        if (s->k == Schema::Dbl)
            for (double d : {0.1, 0.1 + 0.2, 1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 1 / 3.0, 1e21, 1e-7, 123456789012345680.0, 18446744073709551616.0, -9223372036854775808.0})
                v.push_back(d);
        return J::dbl(v[pick_dev((int)v.size())]);
    }
    case Schema::Str:
        if (level == 0)
        {
            static const std::vector<std::string> all = {"", "a", "ab", "0", "-1", "1.5", "true", "null", "~", "NULL", " ", " x", "x ", "a b", "\t", "\n", "a\nb", "a\n", "\r", std::string("a\0b", 3),
                                                         std::string(1, '\0'), "\x01", "\x1f", "\x7f", "\"", "\\", "/", "'", "\\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "-", "- a", "a: b", "a:", ":", "#c", "a #c", "[", "]", "{}", "[1]", ",",
                                                         "&a", "*a", "!x", "!!int 1", "%a", "@", "`", "|", ">", "?", "? a", "=", "<<", "0x10", "010", "1e3", ".inf", "yes", "2001-01-01", "a,b", "x\xc2\xa0y", "\xef\xbb\xbf"
                                                         };
            static const std::vector<std::string> longer = {std::string(300, 'q'), std::string(200, ' ') + "z"};
            int n = pick_dev((int)(all.size() + longer.size()));
            return J::str(n < (int)all.size() ? all[n] : longer[n - all.size()]);
        }
        if (level == 1) return pick({J::str(""), J::str("a"), J::str("null")});
        return pick({J::str(""), J::str("a")});
    case Schema::Enum: return J::str(s->names[level < 2 ? pick_dev((int)s->names.size()) : pick_dev(2)]);
    case Schema::EnumSet:
    {
        J r = J::arr();
        for (std::size_t n = 0; n < s->names.size() && (level < 2 || n < 2); ++n)
            if (pick_dev(2))
                r.a.push_back(J::str(s->names[n]));
        return r;
    }
    case Schema::Custom: return pick({J::num(0), J::num(5), J::num(-7)});
    case Schema::Opt:
        if (!pick_dev(2)) return J::null();
        return gen(s->sub[0], level);
    case Schema::Vec:
    {
        J r = J::arr();
        int n = pick_dev(level == 0 ? 4 : level == 1 ? 3 : 2);
        for (int k = 0; k < n; ++k)
            r.a.push_back(gen(s->sub[0], n == 1 && level == 0 ? 0 : level == 0 ? 1 : 2));
        return r;
    }
    case Schema::Arr:
    {
        J r = J::arr();
        for (std::size_t k = 0; k < s->n; ++k)
            r.a.push_back(gen(s->sub[0], level + 1));
        return r;
    }
    case Schema::Tup:
    {
        J r = J::arr();
        for (auto& x : s->sub)
            r.a.push_back(gen(x, level + 1));
        return r;
    }
    case Schema::Map:
    {
        J r = J::obj();
        static const std::vector<std::string> keys0 = {"", std::string("k\0z", 3), "k 1", "null", "zz"};
        static const std::vector<std::string> keys1 = {"k", "p"};
        static const std::vector<std::string> keys2 = {"", "k 1", "zz"};
        auto sk = s->sub[0]->k == Schema::Opt ? s->sub[0]->sub[0]->k : s->sub[0]->k;
        bool big = sk == Schema::Struct || sk == Schema::Map || sk == Schema::Tup || sk == Schema::Vec || sk == Schema::EnumSet;
        for (auto& key : level == 0 ? (big ? keys2 : keys0) : keys1)
            if (pick_dev(2))
                r.o.emplace_back(key, gen(s->sub[0], 2));
        return r;
    }
    case Schema::Struct:
    {
        J r = J::arr();
        for (auto& f : s->fields)
        {
            if (f.extra)
            {
                // also a key that collides with a reflected one
                J m = J::obj();
                std::vector<std::string> keys = {"extra", "p", "zz"};
                for (auto& key : keys)
                    if (key == "p" ? dev(2) : pick_dev(2))
                        m.o.emplace_back(key, gen(f.schema->sub[0], 2));
                r.a.push_back(m);
            }
            else
                r.a.push_back(gen(f.schema, level + 1));
        }
        return r;
    }
    }
    return {};
}

// two fixed, distinguishable values of every type (initial values for deserialize/patch)
inline J fixed(const S& s, int variant)
{
    switch (s->k)
    {
    case Schema::Bool: return J::boolean(variant);
    case Schema::Int: return J::num(variant ? 2 : 3);
    case Schema::Flt:
    case Schema::Dbl: return J::dbl(variant ? 2.5 : 0.5);
    case Schema::Str: return J::str(variant ? "old" : "");
    case Schema::Enum: return J::str(s->names.back());
    case Schema::EnumSet: return variant ? J::arr({J::str(s->names[0])}) : J::arr();
    case Schema::Custom: return J::num(10 + variant);
    case Schema::Opt: return variant ? fixed(s->sub[0], 1) : J::null();
    case Schema::Vec: return variant ? J::arr({fixed(s->sub[0], 1), fixed(s->sub[0], 0)}) : J::arr();
    case Schema::Map: return variant ? J::obj({{"k", fixed(s->sub[0], 1)}, {"old", fixed(s->sub[0], 0)}}) : J::obj();
    case Schema::Arr:
    {
        J r = J::arr();
        for (std::size_t n = 0; n < s->n; ++n)
            r.a.push_back(fixed(s->sub[0], variant));
        return r;
    }
    case Schema::Tup:
    {
        J r = J::arr();
        for (auto& x : s->sub)
            r.a.push_back(fixed(x, variant));
        return r;
    }
    case Schema::Struct:
    {
        J r = J::arr();
        for (auto& f : s->fields)
            r.a.push_back(f.extra ? (variant ? J::obj({{"extra", fixed(f.schema->sub[0], 1)}, {"old", fixed(f.schema->sub[0], 0)}}) : J::obj())
                                  : fixed(f.schema, variant));
        return r;
    }
    }
    return {};
}

inline J wrong(const S& s);

// a valid document for s
inline J good(const S& s, int variant)
{
    switch (s->k)
    {
    case Schema::Bool: return J::boolean(!variant);
    case Schema::Int: return J::num(variant ? s->hi : 1);
    case Schema::Flt:
    case Schema::Dbl: return variant ? J::num(7) : J::dbl(1.25);
    case Schema::Str: return J::str(variant ? "new" : "n");
    case Schema::Enum: return J::str(s->names[variant ? 0 : s->names.size() / 2]);
    case Schema::EnumSet: return variant ? J::arr({J::str(s->names.back()), J::str(s->names[0])}) : J::arr({J::str(s->names[1])});
    case Schema::Custom: return J::str(variant ? "<4>" : "<-1>");
    case Schema::Opt: return good(s->sub[0], variant);
    case Schema::Vec: return variant ? J::arr({good(s->sub[0], 0), good(s->sub[0], 1)}) : J::arr({good(s->sub[0], 0)});
    case Schema::Map: return variant ? J::obj({{"k", good(s->sub[0], 0)}, {"n", good(s->sub[0], 1)}}) : J::obj({{"k", good(s->sub[0], 1)}});
    case Schema::Arr:
    {
        J r = J::arr();
        for (std::size_t n = 0; n < s->n; ++n)
            r.a.push_back(good(s->sub[0], variant));
        return r;
    }
    case Schema::Tup:
    {
        J r = J::arr();
        for (auto& x : s->sub)
            r.a.push_back(good(x, variant));
        return r;
    }
    case Schema::Struct:
    {
        J r = J::obj();
        for (auto& f : s->fields)
            if (!f.extra && !f.flatten && !f.skip_de)
                r.o.emplace_back(f.wire, good(f.schema, variant));
        return r;
    }
    }
    return {};
}
inline J wrong(const S& s)
{
    switch (s->k)
    {
    case Schema::Vec:
    case Schema::Arr:
    case Schema::Tup:
    case Schema::EnumSet: return J::obj({{"k", J::num(1)}});
    case Schema::Map: return J::arr({J::num(1)});
    case Schema::Struct: return J::num(1);
    case Schema::Opt: return wrong(s->sub[0]);
    default: return J::arr({J::num(1)});
    }
}

inline const std::vector<J>& scalar_docs(backend be)
{
    static const std::vector<J> js = [] {
        std::vector<J> v{J::null(), J::boolean(true), J::boolean(false), J::str(""), J::str("1"), J::str("a"), J::str("one"), J::str("two"), J::str("three"),
                         J::str("TWO"), J::str("two "), J::str("null"), J::str("true"), J::str("<5>"), J::str("<>"), J::arr(), J::arr({J::num(1)}), J::arr({J::null()}), J::obj(), J::obj({{"a", J::num(1)}}),
                         J::dbl(1.0, "1.0"), J::dbl(1.5, "1.5"), J::dbl(-1.5, "-1.5"), J::dbl(100, "1e2"), J::dbl(1e300, "1e300"), J::dbl(0.1, "0.1"), J::dbl(-0.0, "-0.0"),
                         J::dbl(18446744073709551616.0, "18446744073709551616"), J::dbl(-9223372036854775808.0, "-9223372036854775809"), J::dbl(1e19, "10000000000000000000.0")};
        for (i128 base : {i128(0), i128(127), i128(255), i128(32767), i128(65535), i128(2147483647), i128(4294967295ll), (i128(1) << 53), (i128(1) << 63) - 1, (i128(1) << 64) - 1})
            for (int d = -1; d <= 2; ++d)
                for (int neg = 0; neg < 2; ++neg)
                {
                    i128 x = neg ? -(base + d) : base + d;
                    if (x >= -(i128(1) << 63) && x < (i128(1) << 64) && !(neg && base + d <= 0))
                        v.push_back(J::num(x));
                }
        return v;
    }();
    static const std::vector<J> ym = [] {
        std::vector<J> v = js;
        for (auto& j : v)
            if (j.k == J::Dbl && (j.s == "18446744073709551616" || j.s == "-9223372036854775809"))
                j = J::num(j.s[0] == '-' ? -(i128(1) << 63) - 1 : i128(1) << 64);
        v.push_back(J::str("1 2"));
        v.push_back(J::str("99999999999999999999"));
        v.push_back(J::str("-99999999999999999999"));
        v.push_back(J::str(".nan"));
        v.push_back(J::str("-.inf"));
        v.push_back(J::str("1.5x"));
        v.push_back(J::str("1x"));
        return v;
    }();
    return be == backend::json ? js : ym;
}

inline J doc(const S& s, int level, backend be);

inline J field_value_doc(const Field& f, int level, backend be)
{
    const S& s = f.schema;
    int extra = f.valid ? 5 : 0;   // values around the limits
    bool compound = s->k == Schema::Struct || s->k == Schema::Vec || s->k == Schema::Map || (s->k == Schema::Opt && s->sub[0]->k == Schema::Struct);
    if (compound && level < 1)
        return doc(s, level + 1, be);
    int n = dev(4 + extra);
    switch (n)
    {
    case 0: return good(s, 0);
    case 1: return J::null();
    case 2: return wrong(s);
    case 3: return good(s, 1);
    default: return s->k == Schema::Str || (s->k == Schema::Opt && s->sub[0]->k == Schema::Str) ? J::str(std::string(n - 4, 'v')) : J::num(n - 5);
    }
}

inline void collect(const S& s, std::vector<const Field*>& out)
{
    for (auto& f : s->fields)
        if (f.flatten)
            collect(f.schema, out);
        else if (!f.extra)
            out.push_back(&f);
}

inline J struct_doc(const S& s, int level, backend be)
{
    int form = dev(level < 2 ? 7 : 3);
    if (form >= 3)
        return form == 3 ? J::null() : form == 4 ? J::str("x") : form == 5 ? J::num(1) : J::arr({J::arr()});
    std::vector<const Field*> fs;
    collect(s, fs);
    if (form == 1)
    {
        // positional
        J r = J::arr();
        std::size_t len = (fs.size() + dev((int)fs.size() + 2)) % (fs.size() + 2);
        for (std::size_t n = 0; n < len; ++n)
        {
            if (n < fs.size() && n < 3)
                r.a.push_back(field_value_doc(*fs[n], 2, be));
            else if (n < fs.size())
                r.a.push_back(dev(2) ? J::null() : good(fs[n]->schema, 0));
            else
                r.a.push_back(J::num(1));
        }
        return r;
    }
    // by name; form 2 reverses the member order and adds unknown members around
    J r = J::obj();
    if (form == 2)
        r.o.emplace_back("unknown", J::num(77));
    for (auto* f : fs)
    {
        int names = 1 + (int)f->aliases.size();
        if (level >= 2 || form == 2)
        {
            if (!dev(2))
                r.o.emplace_back(f->wire, good(f->schema, form == 2));
            continue;
        }
        // absent, one of the names, the C++ name when renamed, canonical and last alias together, two aliases
        int renamed = f->wire != f->name;
        const int several = names > 2; // two aliases without the canonical name, in either order
        const int forms = 1 + names + renamed + (names > 1) + several;
        int c = (1 + dev(forms)) % forms;
        if (c == 0)
            continue;
        if (c <= names)
        {
            r.o.emplace_back(c == 1 ? f->wire : f->aliases[c - 2], field_value_doc(*f, level, be));
            continue;
        }
        if (c == names + 1 && renamed)
        {
            bool clash = false;
            for (auto* g : fs)
                clash = clash || g->wire == f->name || std::count(g->aliases.begin(), g->aliases.end(), f->name);
            if (!clash)
                r.o.emplace_back(f->name, good(f->schema, 0));
            continue;
        }
        if (several && c == forms - 1)
        {
            // every pair of aliases; the earlier one in the declaration counts, whatever the order in the document
            const int k = (int)f->aliases.size();
            int at = dev(k * (k - 1)), a = at / (k - 1), b = at % (k - 1);
            b += b >= a;
            for (int x : {a, b})
                r.o.emplace_back(f->aliases[x], x > std::min(a, b) && dev(2) ? wrong(f->schema) : good(f->schema, x == std::min(a, b)));
            continue;
        }
        r.o.emplace_back(f->aliases.back(), good(f->schema, 0));
        r.o.emplace_back(f->wire, dev(2) ? J::null() : good(f->schema, 1));
        if (f->aliases.size() > 1)
            r.o.emplace_back(f->aliases.front(), wrong(f->schema));
    }
    bool has_extra = false;
    std::function<void(const S&)> look = [&](const S& x) {
        for (auto& f : x->fields)
        {
            has_extra = has_extra || f.extra;
            if (f.flatten)
                look(f.schema);
        }
    };
    look(s);
    if (form == 2)
    {
        std::reverse(r.o.begin(), r.o.end());
        r.o.emplace_back("zzz", J::str("w"));
    }
    else if (has_extra)
    {
        const Field* ex = nullptr;
        std::function<void(const S&)> lookf = [&](const S& x) {
            for (auto& f : x->fields)
            {
                if (f.extra) ex = &f;
                if (f.flatten) lookf(f.schema);
            }
        };
        lookf(s);
        for (const char* key : {"extra", "fresh"})
            if (int c = dev(key[0] == 'e' ? 5 : 2))
                r.o.emplace_back(key, c == 1 ? good(ex->schema->sub[0], 0) : c == 2 ? J::null() : c == 3 ? wrong(ex->schema->sub[0]) : J::obj());
    }
    return r;
}

inline J doc(const S& s, int level, backend be)
{
    switch (s->k)
    {
    case Schema::Bool:
    case Schema::Int:
    case Schema::Flt:
    case Schema::Dbl:
    case Schema::Str:
    case Schema::Enum:
    case Schema::Custom:
    {
        if (level == 0)
        {
            auto& v = scalar_docs(be);
            return v[mc::choose((int)v.size())];
        }
        int n = dev(level == 1 ? 6 : 3);
        return n == 0 ? good(s, 0) : n == 1 ? J::null() : n == 2 ? wrong(s) : n == 3 ? good(s, 1) : n == 4 ? J::str("x") : J::dbl(1.5, "1.5");
    }
    case Schema::Opt: return doc(s->sub[0], level, be);
    case Schema::EnumSet:
    {
        int form = dev(4);
        if (form) return form == 1 ? J::null() : form == 2 ? J::str(s->names[0]) : J::obj();
        J r = J::arr();
        int n = mc::choose(level == 0 ? 4 : 3);
        for (int k = 0; k < n; ++k)
        {
            int c = level == 0 ? mc::choose((int)s->names.size() + 3) : dev((int)s->names.size() + 3);
            r.a.push_back(c < (int)s->names.size() ? J::str(s->names[c]) : c == (int)s->names.size() ? J::str("bogus") : c == (int)s->names.size() + 1 ? J::num(1) : J::null());
        }
        return r;
    }
    case Schema::Vec:
    case Schema::Arr:
    case Schema::Tup:
    {
        int form = dev(level < 2 ? 5 : 2);
        if (form == 1) return J::obj({{"k", J::num(1)}});
        if (form) return form == 2 ? J::null() : form == 3 ? J::str("x") : J::num(0);
        std::size_t max = s->k == Schema::Vec ? (level == 0 ? 3 : 2) : s->k == Schema::Arr ? s->n + 1 : s->sub.size() + 1;
        J r = J::arr();
        const std::size_t usual = s->k == Schema::Vec ? 1 : max - 1;
        std::size_t n = (usual + (level == 0 && s->k == Schema::Vec ? mc::choose((int)max + 1) : dev((int)max + 1))) % (max + 1);
        for (std::size_t k = 0; k < n; ++k)
            r.a.push_back(s->sub.empty() ? J::num(1) : doc(s->k == Schema::Tup ? s->sub[std::min(k, s->sub.size() - 1)] : s->sub[0], n > 2 && level == 0 && s->k != Schema::Tup ? 2 : level + 1, be));
        return r;
    }
    case Schema::Map:
    {
        int form = dev(level < 2 ? 5 : 2);
        if (form == 1) return J::arr({J::num(1)});
        if (form) return form == 2 ? J::null() : form == 3 ? J::str("x") : J::num(0);
        J r = J::obj();
        for (const char* key : {"zeta", "", "k"})
        {
            if (level >= 1 && !*key)
                continue;
            if (level == 0 ? mc::choose(2) : !dev(2))
                r.o.emplace_back(key, doc(s->sub[0], level + 1, be));
        }
        return r;
    }
    case Schema::Struct: return struct_doc(s, level, be);
    }
    return {};
}

} // namespace sm
