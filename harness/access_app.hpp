// C34: the types whose trees are reached by path, and the functions under test behind a plain interface.
#pragma once
#include "mc.hpp"

#include "kl/json.hpp"
#include "kl/path.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/resource_attributes.hpp"
#include "kl/resource_op.hpp"
#include "kl/serialization_attributes.hpp"
#include "kl/yaml.hpp"

#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <vector>

#include "resource_values.hpp"

namespace acc {
namespace attr = kl::resources::attributes;
namespace sattr = kl::serialization::attributes;

struct Leaf
{
    int a = 0;
    int b = 0;
};
KL_REFLECT_STRUCT(Leaf, a, (b, attr::read_only, sattr::rename("bee")))

struct Keyed
{
    int x = 0;
    std::string id;
    Leaf leaf;
};
KL_REFLECT_STRUCT(Keyed, x, (id, sattr::rename("key")), leaf)

struct Numbered
{
    int w = 0;
    int key = 0;
};
KL_REFLECT_STRUCT(Numbered, w, key)
inline bool resource_key_matches(const Numbered&, const int& key, std::string_view segment)
{
    return segment == "#" + std::to_string(key);
}

struct Base
{
    int n = 0;
    int ro = 0;
};
KL_REFLECT_STRUCT(Base, n, (ro, attr::read_only))

struct Tree : Base
{
    std::string s;
    Leaf l;
    Leaf rl;
    Leaf sl;
    std::optional<Leaf> ol;
    std::optional<int> oi;
    std::vector<int> li;
    std::vector<Leaf> vl;
    std::list<Keyed> kl;
    std::vector<Keyed> rkl;
    std::deque<Keyed> skl;
    std::vector<Numbered> nums;
    std::map<std::string, int> mi;
    std::map<std::string, Leaf> sml;
    std::unordered_map<std::string, std::vector<int>> um;
    std::list<int> plain;
    std::array<int, 2> arr{};
    std::deque<std::optional<Leaf>> dol;
    std::optional<std::map<std::string, Keyed>> omk;
};
KL_REFLECT_STRUCT_DERIVED(Tree, Base, s, l, (rl, attr::read_only), (sl, attr::subtree_read_only), ol, oi, li, vl,
                          (kl, attr::child_key<&Keyed::id>), (rkl, attr::read_only, attr::child_key<&Keyed::id>),
                          (skl, attr::subtree_read_only, attr::child_key<&Keyed::id>), (nums, attr::child_key<&Numbered::key>),
                          mi, (sml, attr::subtree_read_only), um, plain, arr, (dol, attr::subtree_read_only), (omk, sattr::rename("wire")))

// collections in elements of collections
using Clear = std::map<std::string, int, std::less<>>;
struct Group
{
    std::string name;
    std::vector<Keyed> items;
    Clear tm;
    std::optional<std::optional<Leaf>> oo;
};
KL_REFLECT_STRUCT(Group, name, (items, attr::child_key<&Keyed::id>), (tm, attr::subtree_read_only), oo)
struct More
{
    Clear tm;
    std::map<std::string, std::map<std::string, Leaf>> mm;
    std::list<Group> groups;
    std::vector<Group> plain_groups;
    std::map<std::string, Group> by_name;
};
KL_REFLECT_STRUCT(More, (tm, attr::read_only), mm, (groups, attr::child_key<&Group::name>), (plain_groups, attr::subtree_read_only), by_name)

using Map = std::map<std::string, Leaf>;
using List = std::vector<std::vector<int>>;
using Opt = std::optional<Keyed>;

struct seen
{
    int calls = 0;
    std::string value;      // what the visitor was given, as the model prints it
    std::string remaining;  // what was left of the path
    bool ro = false, child_ro = false, is_const = false;
};

// Every function takes the segments as a view and reports 0: done, 1: path_segment_not_found_error,
// 2: path_not_traversable_error, 3: deserialize_error.
template <typename T>
struct reach
{
    static int visit(T& obj, kl::path_view at, std::size_t stop, bool plain, seen& out);
    static int visit_const(const T& obj, kl::path_view at, std::size_t stop, bool plain, seen& out);
    static int json_dump(const T& obj, kl::path_view at, bool skip_null, std::string& out);
    static int json_serialize(const T& obj, kl::path_view at, bool skip_null, std::string& out);
    static int json_deserialize(T& obj, kl::path_view at, const std::string& doc);
    static int yaml_dump(const T& obj, kl::path_view at, bool skip_null, std::string& out);
    static int yaml_serialize(const T& obj, kl::path_view at, bool skip_null, std::string& out);
    static int yaml_deserialize(T& obj, kl::path_view at, const std::string& doc);
};
} // namespace acc

namespace {
// ---------------------------------------------------------------- real tree -> model tree
using namespace acc;
inline V conv(int x) { return vint(x); }
inline V conv(const std::string& x) { return vstr(x); }
inline V conv(const Leaf& x)
{
    auto v = vobj();
    v.o = {{"a", conv(x.a)}, {"bee", conv(x.b)}};
    return v;
}
inline V conv(const Keyed& x)
{
    auto v = vobj();
    v.o = {{"x", conv(x.x)}, {"key", conv(x.id)}, {"leaf", conv(x.leaf)}};
    return v;
}
inline V conv(const Numbered& x)
{
    auto v = vobj();
    v.o = {{"w", conv(x.w)}, {"key", conv(x.key)}};
    return v;
}
inline V conv(const Group& g);
inline V conv(const Clear& m);
template <typename T> V conv(const std::vector<T>& r);
template <typename T> V conv(const std::deque<T>& r);
template <typename T> V conv(const std::list<T>& r);
template <typename T, std::size_t N> V conv(const std::array<T, N>& r);
template <typename T> V conv(const std::map<std::string, T>& m);
template <typename T> V conv(const std::unordered_map<std::string, T>& m);
template <typename T> V conv(const std::optional<T>& x) { return x ? conv(*x) : V{}; }
template <typename R> V conv_list(const R& r)
{
    auto v = vlist();
    for (auto& e : r)
        v.l.push_back(conv(e));
    return v;
}
template <typename M> V conv_map(const M& m)
{
    std::map<std::string, V> sorted;
    for (auto& e : m)
        sorted.emplace(e.first, conv(e.second));
    auto v = vobj();
    for (auto& e : sorted)
        v.o.emplace_back(e.first, e.second);
    return v;
}
template <typename T> V conv(const std::vector<T>& r) { return conv_list(r); }
template <typename T> V conv(const std::deque<T>& r) { return conv_list(r); }
template <typename T> V conv(const std::list<T>& r) { return conv_list(r); }
template <typename T, std::size_t N> V conv(const std::array<T, N>& r) { return conv_list(r); }
template <typename T> V conv(const std::map<std::string, T>& m) { return conv_map(m); }
template <typename T> V conv(const std::unordered_map<std::string, T>& m) { return conv_map(m); }
inline V conv(const Clear& m) { return conv_map(m); }
inline V conv(const Group& g)
{
    auto v = vobj();
    v.o = {{"name", conv(g.name)}, {"items", conv(g.items)}, {"tm", conv(g.tm)}, {"oo", conv(g.oo)}};
    return v;
}
inline V conv(const More& m)
{
    auto v = vobj();
    v.o = {{"tm", conv(m.tm)}, {"mm", conv(m.mm)}, {"groups", conv(m.groups)}, {"plain_groups", conv(m.plain_groups)}, {"by_name", conv(m.by_name)}};
    return v;
}
inline V conv(const Tree& t)
{
    auto v = vobj();
    v.o = {{"n", conv(t.n)}, {"ro", conv(t.ro)}, {"s", conv(t.s)}, {"l", conv(t.l)}, {"rl", conv(t.rl)}, {"sl", conv(t.sl)},
           {"ol", conv(t.ol)}, {"oi", conv(t.oi)}, {"li", conv(t.li)}, {"vl", conv(t.vl)}, {"kl", conv(t.kl)}, {"rkl", conv(t.rkl)},
           {"skl", conv(t.skl)}, {"nums", conv(t.nums)}, {"mi", conv(t.mi)}, {"sml", conv(t.sml)}, {"um", conv(t.um)},
           {"plain", conv(t.plain)}, {"arr", conv(t.arr)}, {"dol", conv(t.dol)}, {"wire", conv(t.omk)}};
    return v;
}
} // namespace
