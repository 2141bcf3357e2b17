// Nested application types: every kind of container around a structure that itself contains every
// kind of container, with access attributes on each of them.
#pragma once

#include "mc.hpp"

#include "kl/json.hpp"
#include "kl/path.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/resource.hpp"
#include "kl/resource_attributes.hpp"
#include "kl/resource_op.hpp"
#include "kl/serialization_attributes.hpp"

#include <deque>
#include <list>
#include <map>
#include <optional>
#include <string>
#include <unordered_map>
#include <vector>

namespace attr = kl::resources::attributes;
namespace sattr = kl::serialization::attributes;

enum verb { PUT, PATCH, POST, DELETE_ };

namespace deep {

struct Leaf
{
    int a = 0;
    int b = 0;

    template <typename Context>
    void validate_resource(Context&) const
    {
        if (a < 0)
            throw kl::resources::validation_error("leaf: negative");
    }
};
KL_REFLECT_STRUCT(Leaf, a, (b, attr::read_only, sattr::rename("bee")))

struct KLeaf
{
    int x = 0;
    std::string id;
    std::string other;
};
KL_REFLECT_STRUCT(KLeaf, x, (id, sattr::rename("key")), other)

// validators found by argument-dependent lookup, on structures and on containers
template <typename Context>
void validate_resource(const KLeaf& k, Context&)
{
    if (k.x < 0)
        throw kl::resources::validation_error("kleaf: negative");
}
template <typename Context>
void validate_resource(const std::optional<Leaf>& l, Context&)
{
    if (l && l->a == 99)
        throw kl::resources::validation_error("optional: 99");
}
template <typename Context>
void validate_resource(const std::vector<Leaf>& l, Context&)
{
    if (l.size() > 3)
        throw kl::resources::validation_error("list: too long");
}
template <typename Context>
void validate_resource(const std::map<std::string, Leaf>& m, Context&)
{
    if (m.find("p") == m.end())
        throw kl::resources::validation_error("map: p missing");
}

struct Mid
{
    Leaf l;
    std::optional<Leaf> ol;
    std::vector<Leaf> vl;
    std::vector<KLeaf> kl;
    std::map<std::string, Leaf> ml;
    Leaf rl;
    Leaf sl;
};
KL_REFLECT_STRUCT(Mid, l, ol, vl, (kl, attr::child_key<&KLeaf::id>), ml, (rl, attr::read_only),
                  (sl, attr::subtree_read_only))

struct KMid
{
    Mid m;
    std::string id;

    template <typename Context>
    void validate_resource(Context&) const
    {
        if (id.empty())
            throw kl::resources::validation_error("kmid: no id");
    }
};
KL_REFLECT_STRUCT(KMid, m, id)

struct Deep
{
    Mid m;
    std::optional<Mid> om;
    std::vector<Mid> vm;
    std::list<KMid> km;
    std::map<std::string, Mid> mm;
    Mid rm;
    Mid sm;
    std::optional<Mid> rom;
    std::optional<Mid> som;
    std::vector<Leaf> rvl;
    std::map<std::string, Leaf> rml;
    std::map<std::string, Leaf> sml;
    std::deque<KLeaf> rkl;
    std::deque<KLeaf> skl;
    std::optional<std::map<std::string, Leaf>> oml;
    std::map<std::string, std::vector<Leaf>> mvl;
    std::vector<std::map<std::string, Leaf>> vml;
    std::vector<std::optional<Leaf>> vol;
    std::map<std::string, std::optional<Leaf>> mol;
    std::unordered_map<std::string, Leaf> um;
};
KL_REFLECT_STRUCT(Deep, m, om, vm, (km, attr::child_key<&KMid::id>), mm, (rm, attr::read_only),
                  (sm, attr::subtree_read_only), (rom, attr::read_only), (som, attr::subtree_read_only),
                  (rvl, attr::read_only), (rml, attr::read_only), (sml, attr::subtree_read_only),
                  (rkl, attr::read_only, attr::child_key<&KLeaf::id>),
                  (skl, attr::subtree_read_only, attr::child_key<&KLeaf::id>), oml, mvl, vml, vol, mol, um)

// The verbs, one translation unit each (resource_deep_verbs.cpp).
using deep_resource = kl::resources::resource<Deep>;
template <verb> kl::resources::operation_result run_deep(deep_resource&, const kl::path&, const rapidjson::Value&);
kl::resources::operation_result read_deep(const deep_resource&, const kl::path&);

} // namespace deep
