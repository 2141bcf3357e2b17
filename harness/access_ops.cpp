// The functions under test, one group per translation unit (-DGROUP=0..6) so that they compile in parallel.
#include "access_app.hpp"

#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <yaml-cpp/yaml.h>

namespace acc {
namespace {
template <typename F>
int guarded(F f)
{
    try
    {
        f();
        return 0;
    }
    catch (const kl::resources::path_segment_not_found_error&)
    {
        return 1;
    }
    catch (const kl::resources::path_not_traversable_error&)
    {
        return 2;
    }
    catch (const kl::serialization::deserialize_error&)
    {
        return 3;
    }
}

template <typename T>
int visit_any(T& obj, kl::path_view at, std::size_t stop, bool plain, seen& out)
{
    return guarded([&] {
        // a result that cannot be copied: what the visitor returns is what comes out
        auto look = [&](auto& node, kl::path_view left, auto& ctx) {
            using node_t = std::decay_t<decltype(node)>;
            ++out.calls;
            out.value = text(conv(node.value()));
            out.remaining.clear();
            for (std::size_t i = 0; i < left.size(); ++i)
                out.remaining += "/" + std::string(left[i]);
            out.ro = ctx.template is_node_read_only<node_t>();
            out.child_ro = ctx.template is_child_node_read_only<node_t>();
            out.is_const = std::is_const_v<std::remove_reference_t<decltype(node.value())>>;
            return std::make_unique<int>(4711 + out.calls);
        };
        std::unique_ptr<int> r;
        if (plain)
            r = kl::resources::visit_at_path<std::unique_ptr<int>>(
                obj, at, [&](auto node, auto& ctx) { return look(node, kl::path{}.view(), ctx); });
        else
            r = kl::resources::visit_at_path<std::unique_ptr<int>>(
                obj, at, stop, [&](auto node, kl::path_view left, auto& ctx) { return look(node, left, ctx); });
        MC_CHECK(r && *r == 4711 + out.calls, "the visitor's result is lost");
    });
}
} // namespace

#if GROUP == 0
template <typename T>
int reach<T>::visit(T& obj, kl::path_view at, std::size_t stop, bool plain, seen& out)
{
    return visit_any(obj, at, stop, plain, out);
}
#elif GROUP == 1
template <typename T>
int reach<T>::visit_const(const T& obj, kl::path_view at, std::size_t stop, bool plain, seen& out)
{
    return visit_any(obj, at, stop, plain, out);
}
#elif GROUP == 2
template <typename T>
int reach<T>::json_serialize(const T& obj, kl::path_view at, bool skip_null, std::string& out)
{
    return guarded([&] {
        kl::json::owning_serialize_context ctx{skip_null};
        auto v = kl::resources::serialize_at_path(obj, at, ctx);
        rapidjson::StringBuffer buf;
        rapidjson::Writer<rapidjson::StringBuffer> w{buf};
        v.Accept(w);
        out = buf.GetString();
    });
}
template <typename T>
int reach<T>::json_dump(const T& obj, kl::path_view at, bool skip_null, std::string& out)
{
    rapidjson::StringBuffer buf;
    rapidjson::Writer<rapidjson::StringBuffer> w{buf};
    int rc = guarded([&] {
        kl::json::dump_context ctx{w, skip_null};
        kl::resources::dump_at_path(obj, at, ctx);
    });
    out = buf.GetString();
    return rc;
}
#elif GROUP == 3
template <typename T>
int reach<T>::json_deserialize(T& obj, kl::path_view at, const std::string& doc)
{
    return guarded([&] {
        auto d = kl::json::parse(doc);
        kl::json::deserialize_context ctx;
        kl::resources::deserialize_at_path(obj, at, static_cast<const rapidjson::Value&>(d), ctx);
    });
}
#elif GROUP == 4
template <typename T>
int reach<T>::yaml_serialize(const T& obj, kl::path_view at, bool skip_null, std::string& out)
{
    return guarded([&] {
        kl::yaml::serialize_context ctx{skip_null};
        out = YAML::Dump(kl::resources::serialize_at_path(obj, at, ctx));
    });
}
template <typename T>
int reach<T>::yaml_dump(const T& obj, kl::path_view at, bool skip_null, std::string& out)
{
    YAML::Emitter e;
    int rc = guarded([&] {
        kl::yaml::dump_context ctx{e, skip_null};
        kl::resources::dump_at_path(obj, at, ctx);
    });
    out = e.c_str();
    return rc;
}
#elif GROUP == 5
template <typename T>
int reach<T>::yaml_deserialize(T& obj, kl::path_view at, const std::string& doc)
{
    return guarded([&] {
        auto d = kl::yaml::parse(doc.c_str());
        kl::yaml::deserialize_context ctx;
        kl::resources::deserialize_at_path(obj, at, d, ctx);
    });
}
#endif

#if GROUP == 0
#define INST(T) template int reach<T>::visit(T&, kl::path_view, std::size_t, bool, seen&);
#elif GROUP == 1
#define INST(T) template int reach<T>::visit_const(const T&, kl::path_view, std::size_t, bool, seen&);
#elif GROUP == 2
#define INST(T)                                                                             \
    template int reach<T>::json_serialize(const T&, kl::path_view, bool, std::string&);    \
    template int reach<T>::json_dump(const T&, kl::path_view, bool, std::string&);
#elif GROUP == 3
#define INST(T) template int reach<T>::json_deserialize(T&, kl::path_view, const std::string&);
#elif GROUP == 4
#define INST(T)                                                                             \
    template int reach<T>::yaml_serialize(const T&, kl::path_view, bool, std::string&);    \
    template int reach<T>::yaml_dump(const T&, kl::path_view, bool, std::string&);
#elif GROUP == 5
#define INST(T) template int reach<T>::yaml_deserialize(T&, kl::path_view, const std::string&);
#endif
INST(Tree)
INST(More)
INST(Map)
INST(List)
INST(Opt)
INST(int)
INST(std::string)
} // namespace acc
