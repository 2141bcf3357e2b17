// The application types used by the resource harness.
#pragma once

#include "mc.hpp"

#include "kl/json.hpp"
#include "kl/path.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/resource.hpp"
#include "kl/resource_attributes.hpp"
#include "kl/resource_op.hpp"
#include "kl/serialization_attributes.hpp"

#include <array>
#include <deque>
#include <exception>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace attr = kl::resources::attributes;
namespace sattr = kl::serialization::attributes;

// ------------------------------------------------------------------ the data under test
enum verb { PUT, PATCH, POST, DELETE_ };

namespace app {

struct op_context : kl::json::deserialize_context
{
    bool veto = false;
};

struct foreign_failure : std::runtime_error
{
    foreign_failure() : std::runtime_error("foreign") {}
};

struct Inner
{
    int a = 0;
    std::string s;

    template <typename Context>
    void validate_resource(Context&) const
    {
        if (a < 0)
            throw kl::resources::validation_error("inner: negative");
        if (a == 13)
            throw foreign_failure{};
    }
};
KL_REFLECT_STRUCT(Inner, a, s)

struct Item
{
    std::string id;
    int v = 0;
    std::vector<int> tags;
    std::optional<int> note;
};
KL_REFLECT_STRUCT(Item, id, v, tags, note)

template <typename Context>
void validate_resource(const Item& it, Context&)
{
    if (it.v < 0)
        throw kl::resources::validation_error("item: negative");
}

struct Num
{
    int w = 0;
    int key = 0;
};
KL_REFLECT_STRUCT(Num, w, key)

inline bool resource_key_matches(const Num&, const int& key, std::string_view segment)
{
    return segment == "#" + std::to_string(key);
}

struct Guarded
{
    int g = 0;
    void validate_resource(op_context& ctx) const
    {
        if (ctx.veto)
            throw kl::resources::validation_error("veto");
    }
};
KL_REFLECT_STRUCT(Guarded, g)

struct Box
{
    Inner in;
    int ro = 0;
    std::vector<int> rl;
};
KL_REFLECT_STRUCT(Box, in, (ro, attr::read_only), (rl, attr::read_only))

struct Root
{
    int n = 0;
    int ro = 0;
    Inner in;
    Box sub;
    Box fixed;
    std::optional<Inner> oin;
    std::optional<int> oint;
    std::optional<int> roopt;
    std::optional<Guarded> guard;
    std::vector<int> list;
    std::vector<Inner> structs;
    std::vector<Item> items;
    std::map<std::string, int> ints;
    std::map<std::string, Inner> objs;
    std::vector<int> slist;
    std::vector<Item> ritems;
    std::vector<Item> sitems;
    std::list<Num> nums;
    std::array<int, 2> arr{};
    std::optional<std::vector<int>> olist;
    std::vector<std::deque<int>> grid;
    std::string cpp_name;

    template <typename Context>
    void validate_resource(Context&) const
    {
        if (n < static_cast<int>(list.size()))
            throw kl::resources::validation_error("root: list too long");
        if (items.empty())
            throw kl::resources::validation_error("root: no items");
        if (ints.find("k1") == ints.end())
            throw kl::resources::validation_error("root: k1 missing");
        if (oin && !oint)
            throw kl::resources::validation_error("root: oin needs oint");
        if (nums.size() > 2)
            throw kl::resources::validation_error("root: too many nums");
    }
};
KL_REFLECT_STRUCT(Root, n, (ro, attr::read_only), in, (sub, attr::subtree_read_only),
                  (fixed, attr::read_only), oin, oint, (roopt, attr::read_only), guard, list,
                  structs, (items, attr::child_key<&Item::id>), ints, objs,
                  (slist, attr::subtree_read_only),
                  (ritems, attr::read_only, attr::child_key<&Item::id>),
                  (sitems, attr::subtree_read_only, attr::child_key<&Item::id>),
                  (nums, attr::child_key<&Num::key>), arr, olist, grid,
                  (cpp_name, sattr::rename("wireName")))

// values whose copies and moves may throw
extern int fuse; // 0: never; n: the n-th copy/move/assignment throws
extern int fuse_hits;
struct fuse_blown {};
inline void burn()
{
    // one failure at a time: the undo of a failure already under way is not failed as well
    if (std::uncaught_exceptions() == 0 && fuse > 0 && --fuse == 0)
    {
        ++fuse_hits;
        throw fuse_blown{};
    }
}

struct Brittle
{
    std::string id;
    int v = 0;
    std::vector<int> data;

    Brittle() = default;
    Brittle(std::string i, int x) : id(std::move(i)), v(x), data(3, x) {}
    Brittle(const Brittle& o) : id(o.id), v(o.v), data(o.data) { burn(); }
    Brittle(Brittle&& o) : id(std::move(o.id)), v(o.v), data(std::move(o.data)) { burn(); }
    Brittle& operator=(const Brittle& o)
    {
        id = o.id;
        burn();
        v = o.v;
        data = o.data;
        return *this;
    }
    Brittle& operator=(Brittle&& o)
    {
        id = std::move(o.id);
        v = o.v;
        burn();
        data = std::move(o.data);
        return *this;
    }
    template <typename Context>
    void validate_resource(Context&) const
    {
        if (v < 0)
            throw kl::resources::validation_error("brittle: negative");
    }
};
KL_REFLECT_STRUCT(Brittle, id, v, data)

struct Shelf
{
    Brittle one;
    std::optional<Brittle> maybe;
    std::vector<Brittle> many;
    std::vector<Brittle> keyed;
    std::map<std::string, Brittle> named;
};
KL_REFLECT_STRUCT(Shelf, one, maybe, many, (keyed, attr::child_key<&Brittle::id>), named)


// The verbs, one translation unit each (resource_verbs.cpp).
using root_resource = kl::resources::resource<Root>;
using shelf_resource = kl::resources::resource<Shelf>;
template <verb> kl::resources::operation_result run_root(root_resource&, const kl::path&, const rapidjson::Value&, op_context&);
template <verb> kl::resources::operation_result run_shelf(shelf_resource&, const kl::path&, const rapidjson::Value&);
kl::resources::operation_result read_root(const root_resource&, const kl::path&);

} // namespace app

