// One verb per translation unit (-DVERB=0..4), so that they compile in parallel.
#include "resource_app.hpp"

namespace app {

#if VERB < 4
template <verb W, typename R, typename Context>
static kl::resources::operation_result run(R& r, const kl::path& at, const rapidjson::Value& v, Context& ctx)
{
    if constexpr (W == PUT)
        return kl::resources::put(r, at, v, ctx);
    else if constexpr (W == PATCH)
        return kl::resources::patch(r, at, v, ctx);
    else if constexpr (W == POST)
        return kl::resources::post(r, at, v, ctx);
    else
        return kl::resources::del(r, at, ctx);
}

constexpr verb W = static_cast<verb>(VERB);

template <>
kl::resources::operation_result run_root<W>(root_resource& r, const kl::path& at, const rapidjson::Value& v, op_context& ctx)
{
    return run<W>(r, at, v, ctx);
}

template <>
kl::resources::operation_result run_shelf<W>(shelf_resource& r, const kl::path& at, const rapidjson::Value& v)
{
    kl::json::deserialize_context ctx;
    return run<W>(r, at, v, ctx);
}
#else
kl::resources::operation_result read_root(const root_resource& r, const kl::path& at)
{
    return kl::resources::get(r, at, [](const auto& v) { return kl::json::dump(v); });
}
#endif

} // namespace app
