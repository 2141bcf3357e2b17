// One verb per translation unit (-DVERB=0..4), so that they compile in parallel.
#include "resource_deep_app.hpp"

namespace deep {

#if VERB < 4
constexpr verb W = static_cast<verb>(VERB);

template <>
kl::resources::operation_result run_deep<W>(deep_resource& r, const kl::path& at, const rapidjson::Value& v)
{
    kl::json::deserialize_context ctx;
    (void)v;
    if constexpr (W == PUT)
        return kl::resources::put(r, at, v, ctx);
    else if constexpr (W == PATCH)
        return kl::resources::patch(r, at, v, ctx);
    else if constexpr (W == POST)
        return kl::resources::post(r, at, v, ctx);
    else
        return kl::resources::del(r, at, ctx);
}
#else
kl::resources::operation_result read_deep(const deep_resource& r, const kl::path& at)
{
    return kl::resources::get(r, at, [](const auto& v) { return kl::json::dump(v); });
}
#endif

} // namespace deep
