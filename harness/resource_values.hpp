// Model values, schemas and addressing: the part of the resource model that does not depend on the verbs.
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace {

// ------------------------------------------------------------------ model values
struct V
{
    enum kind_t { NUL, INT, DBL, BOOL, STR, LIST, OBJ } k = NUL;
    long long i = 0;
    double d = 0;
    std::string s;
    std::vector<V> l;
    std::vector<std::pair<std::string, V>> o;

    V* find(const std::string& name)
    {
        for (auto& f : o)
            if (f.first == name)
                return &f.second;
        return nullptr;
    }
    const V* find(const std::string& name) const { return const_cast<V*>(this)->find(name); }
    bool operator==(const V& r) const
    {
        return k == r.k && i == r.i && d == r.d && s == r.s && l == r.l && o == r.o;
    }
    bool operator!=(const V& r) const { return !(*this == r); }
};

V vint(long long x) { V v; v.k = V::INT; v.i = x; return v; }
V vstr(std::string x) { V v; v.k = V::STR; v.s = std::move(x); return v; }
V vlist() { V v; v.k = V::LIST; return v; }
V vobj() { V v; v.k = V::OBJ; return v; }

std::string text(const V& v)
{
    switch (v.k)
    {
    case V::NUL: return "null";
    case V::INT: return std::to_string(v.i);
    case V::DBL: return std::to_string(v.d);
    case V::BOOL: return v.i ? "true" : "false";
    case V::STR: return "\"" + v.s + "\"";
    case V::LIST:
    {
        std::string r = "[";
        for (auto& e : v.l)
            r += (r.size() > 1 ? "," : "") + text(e);
        return r + "]";
    }
    case V::OBJ:
    {
        std::string r = "{";
        for (auto& e : v.o)
            r += (r.size() > 1 ? "," : "") + ("\"" + e.first + "\":") + text(e.second);
        return r + "}";
    }
    }
    return "?";
}

// The model's own JSON reader (payloads use no escapes).
struct reader
{
    const std::string& t;
    std::size_t p = 0;
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n')) ++p; }
    V value()
    {
        ws();
        V v;
        if (t.compare(p, 4, "null") == 0) { p += 4; return v; }
        if (t.compare(p, 4, "true") == 0) { p += 4; v.k = V::BOOL; v.i = 1; return v; }
        if (t.compare(p, 5, "false") == 0) { p += 5; v.k = V::BOOL; return v; }
        if (t[p] == '"') { v.k = V::STR; v.s = str(); return v; }
        if (t[p] == '[')
        {
            v.k = V::LIST;
            ++p;
            for (ws(); t[p] != ']'; ws())
            {
                v.l.push_back(value());
                ws();
                if (t[p] == ',') ++p;
            }
            ++p;
            return v;
        }
        if (t[p] == '{')
        {
            v.k = V::OBJ;
            ++p;
            for (ws(); t[p] != '}'; ws())
            {
                auto key = str();
                ws();
                ++p; // ':'
                v.o.emplace_back(key, value());
                ws();
                if (t[p] == ',') ++p;
            }
            ++p;
            return v;
        }
        auto e = t.find_first_not_of("+-.0123456789eE", p);
        auto num = t.substr(p, e == std::string::npos ? e : e - p);
        p += num.size();
        if (num.empty())
            throw std::runtime_error("model reader: bad JSON: " + t);
        if (num.find_first_of(".eE") != std::string::npos)
        {
            v.k = V::DBL;
            v.d = std::stod(num);
        }
        else
        {
            v.k = V::INT;
            v.i = std::stoll(num);
        }
        return v;
    }
    std::string str()
    {
        ++p;
        auto e = t.find('"', p);
        auto r = t.substr(p, e - p);
        p = e + 1;
        return r;
    }
};
V parse(const std::string& t) { return reader{t}.value(); }

// ------------------------------------------------------------------ model schema
struct S;
struct F
{
    std::string name;
    const S* type;
    bool ro = false, sro = false;
    std::string key; // child_key member, if any
};
using rules_t = std::set<std::string>;
using validator_t = void (*)(const V& value, bool veto, rules_t& broken);
struct S
{
    enum kind_t { INT, STR, STRUCT, OPT, VEC, MAP, ARR } k = INT;
    const S* elem = nullptr;
    std::size_t n = 0;
    std::vector<F> f;
    validator_t val = nullptr;
    bool deletable = true;
    bool indexed = true;   // elements have positions as addresses (if they have no keys)
    bool hash_key = false; // elements are addressed as "#<key>"
};

S make(S::kind_t k, const S* e = nullptr, validator_t v = nullptr) { S s; s.k = k; s.elem = e; s.val = v; return s; }
S make(std::vector<F> f, validator_t v = nullptr) { S s; s.k = S::STRUCT; s.f = std::move(f); s.val = v; return s; }

V mdefault(const S& s)
{
    switch (s.k)
    {
    case S::INT: return vint(0);
    case S::STR: return vstr("");
    case S::OPT: return V{};
    case S::VEC: return vlist();
    case S::MAP: return vobj();
    case S::ARR: { auto v = vlist(); v.l.assign(s.n, mdefault(*s.elem)); return v; }
    case S::STRUCT:
    {
        auto v = vobj();
        for (auto& f : s.f)
            v.o.emplace_back(f.name, mdefault(*f.type));
        return v;
    }
    }
    return {};
}

struct bad_payload {};

V mdeserialize(const S& s, const V& j)
{
    static const V null_value;
    switch (s.k)
    {
    case S::INT:
        if (j.k != V::INT || j.i < -2147483648LL || j.i > 2147483647LL)
            throw bad_payload{};
        return vint(j.i);
    case S::STR:
        if (j.k != V::STR)
            throw bad_payload{};
        return j;
    case S::OPT:
        return j.k == V::NUL ? V{} : mdeserialize(*s.elem, j);
    case S::VEC:
    case S::ARR:
    {
        if (j.k != V::LIST || (s.k == S::ARR && j.l.size() != s.n))
            throw bad_payload{};
        auto v = vlist();
        for (auto& e : j.l)
            v.l.push_back(mdeserialize(*s.elem, e));
        return v;
    }
    case S::MAP:
    {
        if (j.k != V::OBJ)
            throw bad_payload{};
        std::map<std::string, V> m;
        for (auto& e : j.o)
            m.emplace(e.first, mdeserialize(*s.elem, e.second));
        auto v = vobj();
        for (auto& e : m)
            v.o.push_back(e);
        return v;
    }
    case S::STRUCT:
    {
        auto v = vobj();
        if (j.k == V::OBJ)
        {
            for (auto& f : s.f)
            {
                auto p = j.find(f.name);
                v.o.emplace_back(f.name, mdeserialize(*f.type, p ? *p : null_value));
            }
        }
        else if (j.k == V::LIST && j.l.size() <= s.f.size())
        {
            for (std::size_t i = 0; i < s.f.size(); ++i)
                v.o.emplace_back(s.f[i].name,
                                 mdeserialize(*s.f[i].type, i < j.l.size() ? j.l[i] : null_value));
        }
        else
            throw bad_payload{};
        return v;
    }
    }
    throw bad_payload{};
}

V mpatch(const S& s, const V& cur, const V& j)
{
    if (s.k == S::STRUCT && j.k == V::OBJ)
    {
        V v = cur;
        for (auto& f : s.f)
            if (auto p = j.find(f.name))
                *v.find(f.name) = mpatch(*f.type, *v.find(f.name), *p);
        return v;
    }
    if (s.k == S::OPT)
    {
        if (j.k == V::NUL)
            return V{};
        return mpatch(*s.elem, cur.k == V::NUL ? mdefault(*s.elem) : cur, j);
    }
    return mdeserialize(s, j);
}

const char* const DUPLICATE = "duplicate child key";
const char* const FOREIGN = "!foreign";

void mvalidate(const S& s, const V& v, const std::string& key, bool veto, rules_t& bad)
{
    if (s.val)
        s.val(v, veto, bad);
    if (!key.empty())
        for (std::size_t i = 0; i < v.l.size(); ++i)
            for (std::size_t j = i + 1; j < v.l.size(); ++j)
                if (*v.l[i].find(key) == *v.l[j].find(key))
                    bad.insert(DUPLICATE);
    switch (s.k)
    {
    case S::OPT:
        if (v.k != V::NUL)
            mvalidate(*s.elem, v, "", veto, bad);
        break;
    case S::VEC:
    case S::ARR:
        for (auto& e : v.l)
            mvalidate(*s.elem, e, "", veto, bad);
        break;
    case S::MAP:
        for (auto& e : v.o)
            mvalidate(*s.elem, e.second, "", veto, bad);
        break;
    case S::STRUCT:
        for (std::size_t i = 0; i < s.f.size(); ++i)
            mvalidate(*s.f[i].type, v.o[i].second, s.f[i].key, veto, bad);
        break;
    default: break;
    }
}

// ------------------------------------------------------------------ model addressing
using segs = std::vector<std::string>;

struct place
{
    V* v = nullptr;
    const S* s = nullptr;
    bool ro = false, sro = false;  // attributes of the addressed field itself
    bool inherited = false;        // something above makes it immutable
    std::string key;               // child key of the addressed collection
    std::string identity;          // addressed value is a keyed element with this key member
};
struct not_found {};
struct not_traversable : not_found {}; // the path goes on below something that has nothing below it

bool parse_index(const std::string& t, std::size_t& out)
{
    if (t.empty() || t.size() > 9 || (t.size() > 1 && t[0] == '0'))
        return false;
    out = 0;
    for (char c : t)
    {
        if (c < '0' || c > '9')
            return false;
        out = out * 10 + (c - '0');
    }
    return true;
}

std::string key_segment(const S& coll, const V& key)
{
    return coll.hash_key ? "#" + std::to_string(key.i) : key.s;
}

place resolve(V& root, const S& schema, const segs& path, std::size_t count)
{
    place p;
    p.v = &root;
    p.s = &schema;
    std::size_t i = 0;
    while (i < count)
    {
        place q;
        q.inherited = p.inherited || p.sro;
        switch (p.s->k)
        {
        case S::STRUCT:
        {
            const F* found = nullptr;
            for (auto& f : p.s->f)
                if (f.name == path[i])
                    found = &f;
            if (!found)
                throw not_found{};
            q.v = p.v->find(found->name);
            q.s = found->type;
            q.ro = found->ro;
            q.sro = found->sro;
            q.key = found->key;
            if (!p.identity.empty() && found->name == p.identity)
                q.inherited = true;
            ++i;
            break;
        }
        case S::OPT:
            if (p.v->k == V::NUL)
                throw not_found{};
            q.v = p.v;
            q.s = p.s->elem;
            break;
        case S::MAP:
            q.v = p.v->find(path[i]);
            if (!q.v)
                throw not_found{};
            q.s = p.s->elem;
            ++i;
            break;
        case S::VEC:
        case S::ARR:
        {
            if (!p.key.empty())
            {
                for (auto& e : p.v->l)
                    if (!q.v && key_segment(*p.s, *e.find(p.key)) == path[i])
                        q.v = &e;
                q.identity = p.key;
            }
            else
            {
                if (!p.s->indexed)
                    throw not_traversable{};
                std::size_t idx;
                if (parse_index(path[i], idx) && idx < p.v->l.size())
                    q.v = &p.v->l[idx];
            }
            if (!q.v)
                throw not_found{};
            q.s = p.s->elem;
            ++i;
            break;
        }
        default: throw not_traversable{};
        }
        p = q;
    }
    return p;
}

// Every address that exists in a tree.
void addresses(const S& s, const V& v, const std::string& key, const std::string& at,
               std::vector<std::string>& out, bool emit = true)
{
    if (emit)
        out.push_back(at);
    switch (s.k)
    {
    case S::STRUCT:
        for (std::size_t i = 0; i < s.f.size(); ++i)
            addresses(*s.f[i].type, v.o[i].second, s.f[i].key, at + "/" + s.f[i].name, out);
        break;
    case S::OPT:
        if (v.k != V::NUL)
            addresses(*s.elem, v, "", at, out, false);
        break;
    case S::MAP:
        for (auto& e : v.o)
            addresses(*s.elem, e.second, "", at + "/" + e.first, out);
        break;
    case S::VEC:
    case S::ARR:
        if (key.empty() && !s.indexed)
            break;
        for (std::size_t i = 0; i < v.l.size(); ++i)
            addresses(*s.elem, v.l[i], "",
                      at + "/" + (key.empty() ? std::to_string(i) : key_segment(s, *v.l[i].find(key))), out);
        break;
    default: break;
    }
}

segs split_path(const std::string& p)
{
    segs r;
    for (std::size_t i = 0; i < p.size();)
    {
        auto e = p.find('/', i + 1);
        if (e == std::string::npos)
            e = p.size();
        r.push_back(p.substr(i + 1, e - i - 1));
        i = e;
    }
    return r;
}

} // namespace
