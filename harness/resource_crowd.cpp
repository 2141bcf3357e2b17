// Resource trees (C05..C09), crowded: collections of a dozen elements (two-digit positions, long and
// look-alike keys) and a recursive type addressed through paths of up to 25 segments.
#include "mc.hpp"

#include "kl/json.hpp"
#include "kl/path.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/resource.hpp"
#include "kl/resource_attributes.hpp"
#include "kl/resource_op.hpp"
#include "kl/serialization_attributes.hpp"

#include <array>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace attr = kl::resources::attributes;

enum verb { PUT, PATCH, POST, DELETE_ };

namespace crowd {

struct Item
{
    std::string id;
    std::string alt;
    int v = 0;

    template <typename Context>
    void validate_resource(Context&) const
    {
        if (v < 0)
            throw kl::resources::validation_error("item: negative");
    }
};
KL_REFLECT_STRUCT(Item, id, alt, v)

struct Tree
{
    int v = 0;
    std::vector<Tree> kids;

    template <typename Context>
    void validate_resource(Context&) const
    {
        if (v == 13)
            throw kl::resources::validation_error("tree: 13");
    }
};
KL_REFLECT_STRUCT(Tree, v, kids)

struct Crowd
{
    std::vector<int> ints;
    std::vector<Item> items;
    std::list<Item> two;
    std::map<std::string, int> m;
    std::deque<int> dq;
    std::array<int, 12> arr{};
    Tree tree;

    template <typename Context>
    void validate_resource(Context&) const
    {
        int sum = 0;
        for (int i : ints)
            sum += i;
        if (sum > 1000)
            throw kl::resources::validation_error("crowd: sum");
        if (m.size() < 11)
            throw kl::resources::validation_error("crowd: map");
    }
};
KL_REFLECT_STRUCT(Crowd, ints, (items, attr::child_key<&Item::id>),
                  (two, attr::child_key<&Item::alt>), m, dq, arr, tree)

} // namespace crowd

#define RESOURCE_ROOT crowd::Crowd
#include "resource_model.hpp"

namespace {
using namespace crowd;

void v_item(const V& v, bool, rules_t& bad)
{
    if (v.find("v")->i < 0) bad.insert("item: negative");
}
void v_tree(const V& v, bool, rules_t& bad)
{
    if (v.find("v")->i == 13) bad.insert("tree: 13");
}
void v_crowd(const V& v, bool, rules_t& bad)
{
    long long sum = 0;
    for (auto& e : v.find("ints")->l) sum += e.i;
    if (sum > 1000) bad.insert("crowd: sum");
    if (v.find("m")->o.size() < 11) bad.insert("crowd: map");
}

const S s_int = make(S::INT), s_str = make(S::STR), s_ints = make(S::VEC, &s_int), s_map = make(S::MAP, &s_int);
const S s_item = make({{"id", &s_str}, {"alt", &s_str}, {"v", &s_int}}, v_item), s_items = make(S::VEC, &s_item);
const S s_arr = [] { S s = make(S::ARR, &s_int); s.n = 12; s.deletable = false; return s; }();
const S* tree_schema()
{
    static S tree, kids;
    if (tree.f.empty())
    {
        kids = make(S::VEC, &tree);
        tree = make({{"v", &s_int}, {"kids", &kids}}, v_tree);
    }
    return &tree;
}
const S s_crowd = make({{"ints", &s_ints},
                        {"items", &s_items, false, false, "id"},
                        {"two", &s_items, false, false, "alt"},
                        {"m", &s_map},
                        {"dq", &s_ints},
                        {"arr", &s_arr},
                        {"tree", tree_schema()}},
                       v_crowd);
const S& root_schema = s_crowd;

V conv(int i) { return vint(i); }
V conv(const Item& x)
{
    auto v = vobj();
    v.o = {{"id", vstr(x.id)}, {"alt", vstr(x.alt)}, {"v", vint(x.v)}};
    return v;
}
V conv(const Tree& x);
template <typename R> V conv_list(const R& r)
{
    auto v = vlist();
    for (auto& e : r)
        v.l.push_back(conv(e));
    return v;
}
V conv(const Tree& x)
{
    auto v = vobj();
    v.o = {{"v", vint(x.v)}, {"kids", conv_list(x.kids)}};
    return v;
}
V conv(const Crowd& x)
{
    auto v = vobj(), m = vobj();
    for (auto& e : x.m)
        m.o.emplace_back(e.first, vint(e.second));
    v.o = {{"ints", conv_list(x.ints)}, {"items", conv_list(x.items)}, {"two", conv_list(x.two)}, {"m", m},
           {"dq", conv_list(x.dq)},     {"arr", conv_list(x.arr)},     {"tree", conv(x.tree)}};
    return v;
}

const char* const keys[] = {"0", "1", "10", "11", "a", "aa", "A", "a b", "a.b", "\xc3\xa9", "..a",
                            "a key that is longer than any buffer for short strings"};

Crowd initial()
{
    Crowd c;
    for (int i = 0; i < 12; ++i)
    {
        c.ints.push_back(i + 1);
        c.dq.push_back(20 + i);
        c.arr[i] = 40 + i;
        c.items.push_back({keys[i], std::to_string(i), i});
        c.two.push_back({keys[i], "alt" + std::to_string(i), i});
        c.m[keys[i]] = 60 + i;
    }
    Tree* t = &c.tree;
    for (int d = 0; d < 11; ++d)
    {
        t->v = 100 + d;
        t->kids.resize(d == 3 ? 12 : 1);
        t = &t->kids.back();
    }
    t->v = 200;
    return c;
}

void build_ops()
{
    V tree = conv(initial());
    std::vector<std::string> all;
    addresses(root_schema, tree, "", "", all);
    for (auto& p : all)
    {
        const auto at = split_path(p);
        const auto where = resolve(tree, at, at.size());
        V v = *where.v;
        op(DELETE_, p);
        switch (where.s->k)
        {
        case S::INT:
            op(PUT, p, "7");
            op(PATCH, p, "-13");
            op(PUT, p, "1000000");
            op(PUT, p, "\"x\"");
            op(POST, p, "1");
            op(PUT, p + "/0", "1");
            if (p.find("tree") != p.npos)
                op(PUT, p, "13");
            break;
        case S::STR:
            op(PUT, p, "\"new\"");
            op(PUT, p, "\"a\"");
            break;
        case S::STRUCT:
            op(PATCH, p, "{\"v\":5}");
            op(PATCH, p, "{\"v\":-5}");
            op(PATCH, p, "{\"v\":13}");
            op(PUT, p, text(v));
            op(PUT, p, "{\"v\":1}");
            if (v.find("id"))
            {
                V w = v;
                w.find("v")->i = 99;
                op(PUT, p, text(w));
                *w.find("id") = vstr("other");
                op(PUT, p, text(w));
                *w.find("id") = vstr("a");
                op(PATCH, p, text(w));
                w = v;
                *w.find("alt") = vstr("alt3");
                op(PUT, p, text(w));
            }
            break;
        case S::MAP:
        case S::VEC:
        case S::ARR:
        {
            op(PUT, p, text(v));
            op(PUT, p, "[]");
            op(PATCH, p, "{}");
            V e = v;
            if (where.s->k == S::MAP)
            {
                e.o[7].second.i = 1;
                op(PUT, p, text(e));
                e.o.pop_back();
                op(PUT, p, text(e));
                op(PATCH, p, text(e));
                op(POST, p, "1");
            }
            else
            {
                if (e.l.size() > 1)
                {
                    std::swap(e.l.front(), e.l.back());
                    op(PUT, p, text(e));
                    e.l.pop_back();
                    op(PATCH, p, text(e));
                    e.l.push_back(e.l[0]); // the same key twice, far apart
                    op(PUT, p, text(e));
                    std::swap(e.l[3], e.l.back());
                    op(PUT, p, text(e));
                    op(POST, p, text(v.l[5]));
                    op(POST, p, text(v.l.back()));
                }
                op(POST, p, "1");
                op(POST, p, "2000");
                op(POST, p, "{\"v\":5,\"kids\":[]}");
                op(POST, p, "{\"v\":13,\"kids\":[]}");
                op(POST, p, "{\"id\":\"new\",\"alt\":\"new alt\",\"v\":1}");
                op(POST, p, "{\"id\":\"fresh\",\"alt\":\"alt7\",\"v\":1}");
                op(POST, p, "{\"id\":\"new\",\"alt\":\"new alt\",\"v\":-1}");
            }
            for (auto absent : {"/12", "/13", "/010", "/00", "/+1", "/-1", "/1 ", "/0x1", "/1.", "/99999999999999999999", "/18446744073709551616",
                                "/18446744073709551617", "/4294967297", "/aaa", "/alt", "/altt1", "/alt1x", "/aA", "/ a", "/new", "/new alt"})
            {
                if (at.size() > 3 && absent[1] > '1') // deep in the tree: a few of them
                    continue;
                op(PUT, p + absent, "1");
                op(DELETE_, p + absent);
            }
            break;
        }
        default: break;
        }
    }
}

void setup()
{
    if (!ops.empty())
        return;
    build_ops();
    std::set<std::string> w;
    for (auto& o : ops)
        w.insert(o->path);
    watch.assign(w.begin(), w.end());
}

applied apply(resource& r, const oper& o)
{
    applied a;
    kl::resources::operation_result res{};
    const rapidjson::Value& val = o.doc;
    kl::json::deserialize_context ctx;
    switch (o.what)
    {
    case PUT: res = kl::resources::put(r, o.kpath, val, ctx); break;
    case PATCH: res = kl::resources::patch(r, o.kpath, val, ctx); break;
    case POST: res = kl::resources::post(r, o.kpath, val, ctx); break;
    case DELETE_: res = kl::resources::del(r, o.kpath, ctx); break;
    }
    a.status = static_cast<int>(res.status);
    a.body = res.body;
    return a;
}
kl::resources::operation_result read_at(const resource& r, const kl::path& at)
{
    return kl::resources::get(r, at, [](const auto& v) { return kl::json::dump(v); });
}

void crowded()
{
    static const bool once = gates();
    (void)once;
    setup();
    static node_state* root = [] {
        auto n = new node_state;
        n->r = kl::resources::make_resource(initial());
        observe(*n);
        return n;
    }();
    const int first = mc::choose(static_cast<int>(ops.size()), "operation");
    if (first == 0 && c06)
        check_reads(*root);
    node_state one;
    const bool changed = step(*root, *ops[first], one);
    mc::state(hash_of(one, false));
    mc::outcome(hash_of(one, false));
    if (mc::want_sample())
        mc::sample(show(*ops[first]).substr(0, 100));
    const auto& o = *ops[first];
    if (!changed || o.at.empty())
        return;
    if (o.what != DELETE_ && o.what != POST && !mc::thorough())
        return;
    if (c06)
        check_reads(one);
    node_state two;
    for (auto& o2 : ops)
    {
        if (o2->at.empty() || o2->at[0] != o.at[0])
            continue;
        // every transition of C08 asks the tracker about every address: fewer of them in the quick tier
        if (c08 && !mc::thorough() && (o2->what == PUT || (o2->at.size() > 3 && o2->at.size() < 20)))
            continue;
        mc::progress();
        if (step(one, *o2, two))
            mc::state(hash_of(two, false));
        mc::trace();
    }
}

MC_SCENARIO("C05", "crowded", crowded, 1, true, 300);
MC_SCENARIO("C06", "crowded", crowded, 1, true, 300);
MC_SCENARIO("C08", "crowded", crowded, 1, true, 300);
MC_SCENARIO("C09", "crowded", crowded, 1, true, 300);
MC_SCENARIO("C07", "crowded", crowded, 1, true, 300);
} // namespace
