// The real library under one set of names for both backends (-DWITH_YAML=0/1).
#pragma once
#include "serial_types.hpp"
#if WITH_YAML
#include "kl/yaml.hpp"
#else
#include "kl/json.hpp"
#endif
#include <algorithm>
#include <stdexcept>

using namespace sm;
using zoo::col;

namespace {

constexpr backend be = WITH_YAML ? backend::yaml : backend::json;

// ---- the real library ------------------------------------------------------------------------------
#if WITH_YAML
using node = YAML::Node;
namespace lib = kl::yaml;
node parse(const std::string& t) { return kl::yaml::parse(t.c_str()); }
J tree(const YAML::Node& n)
{
    if (!n.IsDefined() || n.IsNull()) return J::null();
    if (n.IsScalar()) return J::str(n.Scalar());
    if (n.IsSequence())
    {
        J r = J::arr();
        for (const auto& e : n) r.a.push_back(tree(e));
        return r;
    }
    J r = J::obj();
    for (const auto& e : n) r.o.emplace_back(e.first.Scalar(), tree(e.second));
    return r;
}
bool equal(const J& expect, const J& got) { return same_yaml(expect, got); }
template <typename T> std::string dump(const T& v, bool skip)
{
    YAML::Emitter em;
    kl::yaml::dump_context ctx{em, skip};
    kl::yaml::dump(v, ctx);
    return em.c_str();
}
template <typename T> J serialized(const T& v, bool skip)
{
    kl::yaml::serialize_context ctx{skip};
    return tree(kl::yaml::serialize(v, ctx));
}
#else
using node = rapidjson::Document;
namespace lib = kl::json;
node parse(const std::string& t) { return kl::json::parse(t); }
J tree(const rapidjson::Value& v)
{
    if (v.IsNull()) return J::null();
    if (v.IsBool()) return J::boolean(v.GetBool());
    if (v.IsString()) return J::str({v.GetString(), v.GetStringLength()});
    if (v.IsInt64()) return J::num(v.GetInt64());
    if (v.IsUint64()) return J::num(v.GetUint64());
    if (v.IsNumber()) return J::dbl(v.GetDouble());
    if (v.IsArray())
    {
        J r = J::arr();
        for (auto& e : v.GetArray()) r.a.push_back(tree(e));
        return r;
    }
    J r = J::obj();
    for (auto& e : v.GetObject()) r.o.emplace_back(std::string(e.name.GetString(), e.name.GetStringLength()), tree(e.value));
    return r;
}
bool equal(const J& expect, const J& got) { return same(expect, got); }
template <typename T> std::string dump(const T& v, bool skip)
{
    rapidjson::StringBuffer buf;
    rapidjson::Writer<rapidjson::StringBuffer> wr{buf};
    kl::json::dump_context ctx{wr, skip};
    kl::json::dump(v, ctx);
    return {buf.GetString(), buf.GetSize()};
}
template <typename T> J serialized(const T& v, bool skip)
{
    rapidjson::Document doc;
    kl::json::serialize_context ctx{doc, skip};
    J a = tree(kl::json::serialize(v, ctx));
    kl::json::owning_serialize_context ctx2{skip};
    rapidjson::Value val = kl::json::serialize(v, ctx2);
    J b = tree(val);
    if (!same(a, b))
        mc::fail("owning_serialize_context gives %s, serialize_context %s", text(b).c_str(), text(a).c_str());
    return a;
}
#endif

inline std::string show(const std::string& s) { return mc::printable(s); }

} // namespace
