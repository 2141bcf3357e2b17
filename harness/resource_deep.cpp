// Resource trees (C05..C09), nested: every operation the schema suggests, on every address of a
// tree in which every kind of container holds a structure with every kind of container.
#include "resource_deep_app.hpp"
#define RESOURCE_ROOT deep::Deep
#include "resource_model.hpp"

namespace {
using namespace deep;

// ------------------------------------------------------------------ the schema of deep::Deep
void v_leaf(const V& v, bool, rules_t& bad)
{
    if (v.find("a")->i < 0) bad.insert("leaf: negative");
}
void v_kleaf(const V& v, bool, rules_t& bad)
{
    if (v.find("x")->i < 0) bad.insert("kleaf: negative");
}
void v_opt(const V& v, bool, rules_t& bad)
{
    if (v.k != V::NUL && v.find("a")->i == 99) bad.insert("optional: 99");
}
void v_list(const V& v, bool, rules_t& bad)
{
    if (v.l.size() > 3) bad.insert("list: too long");
}
void v_map(const V& v, bool, rules_t& bad)
{
    if (!v.find("p")) bad.insert("map: p missing");
}
void v_kmid(const V& v, bool, rules_t& bad)
{
    if (v.find("id")->s.empty()) bad.insert("kmid: no id");
}

const S s_int = make(S::INT), s_str = make(S::STR);
const S s_leaf = make({{"a", &s_int}, {"bee", &s_int, true}}, v_leaf);
const S s_kleaf = make({{"x", &s_int}, {"key", &s_str}, {"other", &s_str}}, v_kleaf);
const S s_oleaf = make(S::OPT, &s_leaf, v_opt), s_vleaf = make(S::VEC, &s_leaf, v_list), s_vkleaf = make(S::VEC, &s_kleaf),
        s_mleaf = make(S::MAP, &s_leaf, v_map);
const S s_mid = make({{"l", &s_leaf},
                      {"ol", &s_oleaf},
                      {"vl", &s_vleaf},
                      {"kl", &s_vkleaf, false, false, "key"},
                      {"ml", &s_mleaf},
                      {"rl", &s_leaf, true},
                      {"sl", &s_leaf, false, true}});
const S s_kmid = make({{"m", &s_mid}, {"id", &s_str}}, v_kmid);
const S s_omid = make(S::OPT, &s_mid), s_vmid = make(S::VEC, &s_mid), s_vkmid = make(S::VEC, &s_kmid), s_mmid = make(S::MAP, &s_mid);
const S s_omleaf = make(S::OPT, &s_mleaf), s_mvleaf = make(S::MAP, &s_vleaf), s_vmleaf = make(S::VEC, &s_mleaf),
        s_voleaf = make(S::VEC, &s_oleaf), s_moleaf = make(S::MAP, &s_oleaf), s_umleaf = make(S::MAP, &s_leaf);
const S s_deep = make({{"m", &s_mid},
                       {"om", &s_omid},
                       {"vm", &s_vmid},
                       {"km", &s_vkmid, false, false, "id"},
                       {"mm", &s_mmid},
                       {"rm", &s_mid, true},
                       {"sm", &s_mid, false, true},
                       {"rom", &s_omid, true},
                       {"som", &s_omid, false, true},
                       {"rvl", &s_vleaf, true},
                       {"rml", &s_mleaf, true},
                       {"sml", &s_mleaf, false, true},
                       {"rkl", &s_vkleaf, true, false, "key"},
                       {"skl", &s_vkleaf, false, true, "key"},
                       {"oml", &s_omleaf},
                       {"mvl", &s_mvleaf},
                       {"vml", &s_vmleaf},
                       {"vol", &s_voleaf},
                       {"mol", &s_moleaf},
                       {"um", &s_umleaf}});
const S& root_schema = s_deep;

// ------------------------------------------------------------------ real tree -> model tree
V conv(const Leaf& x)
{
    auto v = vobj();
    v.o = {{"a", vint(x.a)}, {"bee", vint(x.b)}};
    return v;
}
V conv(const KLeaf& x)
{
    auto v = vobj();
    v.o = {{"x", vint(x.x)}, {"key", vstr(x.id)}, {"other", vstr(x.other)}};
    return v;
}
V conv(const Mid&);
V conv(const KMid&);
template <typename T> V conv(const std::optional<T>&);
template <typename T> V conv(const std::map<std::string, T>&);
template <typename T> V conv(const std::vector<T>&);
template <typename R> V conv_list(const R& r)
{
    auto v = vlist();
    for (auto& e : r)
        v.l.push_back(conv(e));
    return v;
}
template <typename M> V conv_map(const M& m)
{
    std::map<std::string, V> sorted;
    for (auto& e : m)
        sorted.emplace(e.first, conv(e.second));
    auto v = vobj();
    v.o.assign(sorted.begin(), sorted.end());
    return v;
}
template <typename T> V conv(const std::optional<T>& x) { return x ? conv(*x) : V{}; }
template <typename T> V conv(const std::map<std::string, T>& m) { return conv_map(m); }
template <typename T> V conv(const std::vector<T>& l) { return conv_list(l); }
V conv(const Mid& x)
{
    auto v = vobj();
    v.o = {{"l", conv(x.l)},   {"ol", conv(x.ol)}, {"vl", conv(x.vl)}, {"kl", conv(x.kl)},
           {"ml", conv(x.ml)}, {"rl", conv(x.rl)}, {"sl", conv(x.sl)}};
    return v;
}
V conv(const KMid& x)
{
    auto v = vobj();
    v.o = {{"m", conv(x.m)}, {"id", vstr(x.id)}};
    return v;
}
V conv(const Deep& x)
{
    auto v = vobj();
    v.o = {{"m", conv(x.m)},     {"om", conv(x.om)},        {"vm", conv(x.vm)},        {"km", conv_list(x.km)},
           {"mm", conv(x.mm)},   {"rm", conv(x.rm)},        {"sm", conv(x.sm)},        {"rom", conv(x.rom)},
           {"som", conv(x.som)}, {"rvl", conv(x.rvl)},      {"rml", conv(x.rml)},      {"sml", conv(x.sml)},
           {"rkl", conv_list(x.rkl)}, {"skl", conv_list(x.skl)}, {"oml", conv(x.oml)}, {"mvl", conv(x.mvl)},
           {"vml", conv(x.vml)}, {"vol", conv(x.vol)},      {"mol", conv(x.mol)},      {"um", conv_map(x.um)}};
    return v;
}

Mid mid(int n)
{
    Mid m;
    m.l = {n, n + 1};
    m.ol = Leaf{n + 2, n + 3};
    m.vl = {{n + 4, n + 5}, {n + 6, n + 7}};
    m.kl = {{n + 8, "a", "oa"}, {n + 9, "b", "ob"}};
    m.ml = {{"p", {n + 10, n + 11}}, {"q", {n + 12, n + 13}}};
    m.rl = {n + 14, n + 15};
    m.sl = {n + 16, n + 17};
    return m;
}

Deep initial()
{
    Deep d;
    d.m = mid(100);
    d.om = mid(200);
    d.vm = {mid(300), mid(350)};
    d.km = {{mid(400), "a"}, {mid(450), "b"}};
    d.mm = {{"p", mid(500)}, {"q", mid(550)}};
    d.rm = mid(600);
    d.sm = mid(700);
    d.rom = mid(800);
    d.som = mid(900);
    d.rvl = {{1, 2}, {3, 4}};
    d.rml = {{"p", {5, 6}}, {"q", {7, 8}}};
    d.sml = {{"p", {9, 10}}, {"q", {11, 12}}};
    d.rkl = {{13, "a", "o"}, {14, "b", "o"}};
    d.skl = {{15, "a", "o"}, {16, "b", "o"}};
    d.oml = std::map<std::string, Leaf>{{"p", {17, 18}}, {"q", {19, 20}}};
    d.mvl = {{"p", {{21, 22}, {23, 24}}}, {"q", {}}};
    d.vml = {{{"p", {25, 26}}}, {{"p", {27, 28}}, {"q", {29, 30}}}};
    d.vol = {Leaf{31, 32}, std::nullopt, Leaf{33, 34}};
    d.mol = {{"p", Leaf{35, 36}}, {"q", std::nullopt}};
    d.um = {{"p", {37, 38}}};
    return d;
}

// ------------------------------------------------------------------ payloads the schema suggests
V example(const S& s, const std::string& key, int& n)
{
    switch (s.k)
    {
    case S::INT: return vint(++n);
    case S::STR: return vstr("s" + std::to_string(++n));
    case S::OPT: return example(*s.elem, "", n);
    case S::VEC:
    case S::ARR:
    {
        auto v = vlist();
        for (int i = 0; i < 2; ++i)
        {
            v.l.push_back(example(*s.elem, "", n));
            if (!key.empty() && i == 0)
                *v.l.back().find(key) = vstr("a");
        }
        return v;
    }
    case S::MAP:
    {
        auto v = vobj();
        v.o.emplace_back("p", example(*s.elem, "", n));
        if (&s != &s_umleaf) // its order is not specified
            v.o.emplace_back("r", example(*s.elem, "", n));
        return v;
    }
    case S::STRUCT:
    {
        auto v = vobj();
        for (auto& f : s.f)
            v.o.emplace_back(f.name, example(*f.type, f.key, n));
        return v;
    }
    }
    return {};
}

// Calls fn for every spoiled version of `whole`, one spoiled place (below `at`) at a time.
template <typename Fn>
void spoil(const S& s, const std::string& key, V& at, Fn fn)
{
    const V keep = at;
    auto with = [&](V v) { at = std::move(v); fn(); at = keep; };
    if (s.val == v_leaf) { V v = keep; v.find("a")->i = -1; with(v); }
    if (s.val == v_kleaf) { V v = keep; v.find("x")->i = -1; with(v); }
    if (s.val == v_kmid) { V v = keep; v.find("id")->s = ""; with(v); }
    if (s.val == v_opt) { V v = keep; v.find("a")->i = 99; with(v); with(V{}); }
    if (s.val == v_list) { V v = keep; while (v.l.size() < 4) v.l.push_back(v.l[0]); with(v); with(vlist()); }
    if (s.val == v_map) { V v = keep; v.o.erase(v.o.begin()); with(v); with(vobj()); }
    if (!key.empty()) { V v = keep; v.l.push_back(v.l[0]); with(v); v.l[1] = v.l[0]; v.l.pop_back(); with(v); with(vlist()); }
    switch (s.k)
    {
    case S::OPT: spoil(*s.elem, "", at, fn); break;
    case S::VEC:
    case S::ARR: spoil(*s.elem, "", at.l.back(), fn); break; // the last element
    case S::MAP: spoil(*s.elem, "", at.o.back().second, fn); break;
    case S::STRUCT:
        for (std::size_t i = 0; i < s.f.size(); ++i)
            spoil(*s.f[i].type, s.f[i].key, at.o[i].second, fn);
        with(vint(7));
        { V v = keep; v.o.back().second = vobj(); with(v); }                     // ill-typed last field
        { V v = keep; v.o.front().second = vlist(); v.o.front().second.l.assign(9, vint(1)); with(v); } // ill-typed first field
        { V v = keep; v.o.pop_back(); with(v); }                                 // missing last field
        break;
    case S::INT: with(vstr("bad")); break;
    case S::STR: with(vint(5)); break;
    default: break;
    }
}

// Partial objects: one field only, at every depth structures and optionals allow.
void partial(const S& s, std::vector<std::string>& out)
{
    const S& t = s.k == S::OPT ? *s.elem : s;
    if (t.k != S::STRUCT)
        return;
    out.push_back("{}");
    for (auto& f : t.f)
    {
        int n = 40;
        const auto whole = text(example(*f.type, f.key, n));
        out.push_back("{\"" + f.name + "\":" + whole + "}");
        std::vector<std::string> sub;
        partial(*f.type, sub);
        for (auto& p : sub)
            out.push_back("{\"" + f.name + "\":" + p + "}");
        if (f.type->k == S::OPT)
            out.push_back("{\"" + f.name + "\":null}");
        if (f.type->k == S::INT)
            out.push_back("{\"" + f.name + "\":-1}");
        if (f.type->k == S::STR)
            out.push_back("{\"" + f.name + "\":\"a\"}");
    }
}

void build_ops()
{
    V tree = conv(initial());
    std::vector<std::string> all;
    addresses(root_schema, tree, "", "", all);
    for (auto& p : all)
    {
        const auto at = split_path(p);
        const auto where = resolve(tree, at, at.size());
        const S& s = *where.s;
        const bool big = at.empty();
        int n = 50;
        V v = example(s, where.key, n);
        if (!where.identity.empty())
        {
            op(PUT, p, text(v)); // another identity
            op(PATCH, p, text(v));
            *v.find(where.identity) = *where.v->find(where.identity);
        }
        op(PUT, p, text(v));
        op(PATCH, p, text(v));
        op(PUT, p, "null");
        op(PATCH, p, "null");
        int every = 0;
        spoil(s, where.key, v, [&] {
            op(PUT, p, text(v));
            if (!big || ++every % 4 == 0)
                op(PATCH, p, text(v));
        });
        std::vector<std::string> parts;
        partial(s, parts);
        for (auto& q : parts)
            op(PATCH, p, q);
        op(DELETE_, p);
        if (s.k == S::VEC || s.k == S::MAP)
        {
            int m = 70;
            V e = example(*s.elem, "", m);
            op(POST, p, text(e));
            if (!where.key.empty())
            {
                V d = e;
                *d.find(where.key) = *where.v->l.back().find(where.key);
                op(POST, p, text(d));
            }
            spoil(*s.elem, "", e, [&] { op(POST, p, text(e)); });
            for (auto absent : {"/2", "/zz"})
            {
                op(PUT, p + absent, text(e));
                op(DELETE_, p + absent);
            }
        }
        else
        {
            op(POST, p, "1");
            op(DELETE_, p + "/nosuch");
            op(PUT, p + "/nosuch", "1");
        }
    }
}

void setup()
{
    if (!ops.empty())
        return;
    build_ops();
    std::set<std::string> w;
    for (auto& o : ops)
        w.insert(o->path);
    watch.assign(w.begin(), w.end());
}

applied apply(resource& r, const oper& o)
{
    applied a;
    kl::resources::operation_result res{};
    const rapidjson::Value& val = o.doc;
    switch (o.what)
    {
    case PUT: res = run_deep<PUT>(r, o.kpath, val); break;
    case PATCH: res = run_deep<PATCH>(r, o.kpath, val); break;
    case POST: res = run_deep<POST>(r, o.kpath, val); break;
    case DELETE_: res = run_deep<DELETE_>(r, o.kpath, val); break;
    }
    a.status = static_cast<int>(res.status);
    a.body = res.body;
    return a;
}
kl::resources::operation_result read_at(const resource& r, const kl::path& at) { return read_deep(r, at); }

void nested()
{
    static const bool once = gates();
    (void)once;
    setup();
    static node_state* root = [] {
        auto n = new node_state;
        n->r = kl::resources::make_resource(initial());
        observe(*n);
        return n;
    }();
    const int first = mc::choose(static_cast<int>(ops.size()), "operation");
    if (first == 0 && c06)
        check_reads(*root);
    node_state one;
    const bool changed = step(*root, *ops[first], one);
    mc::state(hash_of(one, false));
    mc::outcome(hash_of(one, false));
    if (mc::want_sample())
        mc::sample(show(*ops[first]).substr(0, 100));
    if (!changed)
        return;
    // histories of two operations below the first ones that change the structure of the tree
    const auto& o = *ops[first];
    const bool structural = o.what == DELETE_ || o.what == POST || (o.payload == "null" && o.what == PUT);
    if (!structural)
        return;
    if (c06)
        check_reads(one);
    if (!mc::thorough() && o.at.size() > 2)
        return;
    node_state two;
    for (auto& o2 : ops)
    {
        if (!mc::thorough() && !is_prefix(segs(o.at.begin(), o.at.begin() + 1), o2->at))
            continue;
        mc::progress();
        if (step(one, *o2, two))
            mc::state(hash_of(two, false));
        mc::trace();
    }
}

MC_SCENARIO("C05", "nested", nested, 1, true, 300);
MC_SCENARIO("C06", "nested", nested, 1, true, 300);
MC_SCENARIO("C07", "nested", nested, 1, true, 300);
MC_SCENARIO("C08", "nested", nested, 1, true, 300);
MC_SCENARIO("C09", "nested", nested, 1, true, 300);
} // namespace
