// C35: customised serialization (-DWITH_YAML=0/1, -DGROUP=0..5).
// Types whose dump/serialize/deserialize/patch come from serializer<T>, from ADL overloads, from the
// library's own rules or from several of these at once, in every position a value can occur in, through
// every way into the library, with contexts of the library, derived from them and written from scratch.
#include "serial_lib.hpp"
#include <deque>
#include <list>
#include <sstream>

namespace cz {

enum : int { SD = 1, SS = 2, SR = 4, SP = 8, AD = 16, AS = 32, AR = 64, AP = 128, TAG = 256 };
constexpr int null_v = -7, empty_v = -8, boom_v = -9;
struct boom {};                                  // what a customisation throws for boom_v
enum kind { k_plain, k_refl, k_rng, k_mp, k_enum, k_raw };

template <int M> struct plain { int v = 0; char via = '-'; int salt = 0; };
template <int M> struct refl { int v = 0; char via = '-'; int salt = 0; KL_REFLECT_STRUCT_FRIEND(refl, v) };
template <int M> struct rng : std::vector<int> { char via = '-'; int salt = 0; };
template <int M> struct mp : std::map<std::string, int> { char via = '-'; int salt = 0; };

template <typename T> struct info;
template <int M> struct info<plain<M>> { static constexpr int mask = M; static constexpr kind k = k_plain; };
template <int M> struct info<refl<M>> { static constexpr int mask = M; static constexpr kind k = k_refl; };
template <int M> struct info<rng<M>> { static constexpr int mask = M; static constexpr kind k = k_rng; };
template <int M> struct info<mp<M>> { static constexpr int mask = M; static constexpr kind k = k_mp; };

// value / how it was read / the context it was read with
struct obs { int v; char via; int salt; bool operator==(const obs& o) const { return v == o.v && via == o.via && salt == o.salt; } };
template <typename T> std::enable_if_t<info<T>::k <= k_refl, obs> look(const T& x) { return {x.v, x.via, x.salt}; }
template <typename T> std::enable_if_t<info<T>::k == k_rng, obs> look(const T& x) { return {x.empty() ? 0 : x.size() > 1 ? 99999 : x[0], x.via, x.salt}; }
template <typename T> std::enable_if_t<info<T>::k == k_mp, obs> look(const T& x) { auto i = x.find("k"); return {x.empty() ? 0 : i == x.end() || x.size() > 1 ? 99999 : i->second, x.via, x.salt}; }
static const char vias[] = "-SAsa";
template <typename T> std::enable_if_t<info<T>::k >= k_enum, obs> look(const T& x)
{
    int e = (int)x, v = (e - (((e % 1000) + 1000) % 1000)) / 1000, r = ((e % 1000) + 1000) % 1000;
    return {v, r / 10 < 5 ? vias[r / 10] : '?', r % 10};
}
template <typename T> void put(T& x, obs o)
{
    if constexpr (info<T>::k >= k_enum)
        x = static_cast<T>(o.v * 1000 + int(std::strchr(vias, o.via) - vias) * 10 + o.salt);
    else
    {
        x.via = o.via;
        x.salt = o.salt;
        if constexpr (info<T>::k == k_rng) x.assign(1, o.v);
        else if constexpr (info<T>::k == k_mp) { x.clear(); x["k"] = o.v; }
        else x.v = o.v;
    }
}

template <typename C, typename = void> struct has_backend : std::false_type {};
template <typename C> struct has_backend<C, std::void_t<typename C::backend_type>> : std::true_type {};
template <typename C, typename = void> struct has_salt : std::false_type {};
template <typename C> struct has_salt<C, std::void_t<decltype(std::declval<C&>().salt)>> : std::true_type {};
template <typename C> int touch(C& ctx)
{
    if constexpr (has_salt<C>::value) { ++ctx.calls; return ctx.salt; }
    else return 0;
}

using strings = std::vector<std::string>;
template <typename T, typename C> void hook_dump(char how, const T& x, C& ctx)
{
    int s = touch(ctx), v = look(x).v;
    if (v == boom_v) throw boom{};
    if (how == 'S') lib::dump("S:" + std::to_string(v) + ":" + std::to_string(s), ctx);
    else if constexpr (has_backend<C>::value) kl::serialization::dump(strings{"A", std::to_string(v), std::to_string(s)}, ctx);
    else lib::dump(strings{"A", std::to_string(v), std::to_string(s)}, ctx);
}
#if WITH_YAML
using tnode = YAML::Node;
#else
using tnode = rapidjson::Value;
#endif
template <typename T, typename C> tnode hook_ser(char how, const T& x, C& ctx)
{
    int s = touch(ctx), v = look(x).v;
    if (v == boom_v) throw boom{};
    if (how == 'S') return lib::serialize("S:" + std::to_string(v) + ":" + std::to_string(s), ctx);
    if constexpr (has_backend<C>::value) return kl::serialization::serialize(strings{"A", std::to_string(v), std::to_string(s)}, ctx);
    else return lib::serialize(strings{"A", std::to_string(v), std::to_string(s)}, ctx);
}
template <typename T, typename C> void hook_read(char how, T& out, const tnode& n, C& ctx)
{
    int s = touch(ctx), v = 0, used = -1;
    if (how == 'S' || how == 's')
    {
        std::string t;
        lib::deserialize(t, n, ctx);
        if (std::sscanf(t.c_str(), "S:%d:7%n", &v, &used) != 1 || used != (int)t.size()) throw kl::serialization::deserialize_error{"not an S form"};
    }
    else
    {
        strings t;
        if constexpr (has_backend<C>::value) kl::serialization::deserialize(t, n, ctx);
        else lib::deserialize(t, n, ctx);
        if (t.size() != 3 || t[0] != "A" || t[2] != "7") throw kl::serialization::deserialize_error{"not an A form"};
        v = std::atoi(t[1].c_str());
    }
    if (v == boom_v) throw boom{};
    if (how == 's') v += look(out).v;
    if (how == 'a') v = look(out).v + 10 * v;
    put(out, {v, how, s});
}

template <typename T, int M> struct hooks
{
    template <typename C, int K = M, std::enable_if_t<(K & SD) != 0, int> = 0> static void dump(const T& x, C& ctx) { hook_dump('S', x, ctx); }
    template <typename C, int K = M, std::enable_if_t<(K & SS) != 0, int> = 0> static tnode serialize(const T& x, C& ctx) { return hook_ser('S', x, ctx); }
    template <typename C, int K = M, std::enable_if_t<(K & SR) != 0, int> = 0> static void deserialize(T& x, const tnode& n, C& ctx) { hook_read('S', x, n, ctx); }
    template <typename C, int K = M, std::enable_if_t<(K & SP) != 0, int> = 0> static void patch(T& x, const tnode& n, C& ctx) { hook_read('s', x, n, ctx); }
};
#define CZ_ADL(K) \
    template <int M, typename C, std::enable_if_t<(M & AD) && !(M & TAG), int> = 0> void dump_adl(lib::stream_tag, const K<M>& x, C& ctx) { hook_dump('A', x, ctx); } \
    template <int M, typename C, std::enable_if_t<(M & AS) && !(M & TAG), int> = 0> tnode serialize_adl(lib::tree_tag, const K<M>& x, C& ctx) { return hook_ser('A', x, ctx); } \
    template <int M, typename C, std::enable_if_t<(M & AR) && !(M & TAG), int> = 0> void deserialize_adl(lib::tree_tag, K<M>& x, const tnode& n, C& ctx) { hook_read('A', x, n, ctx); } \
    template <int M, typename C, std::enable_if_t<(M & AP) && !(M & TAG), int> = 0> void patch_adl(lib::tree_tag, K<M>& x, const tnode& n, C& ctx) { hook_read('a', x, n, ctx); }
CZ_ADL(plain)
CZ_ADL(refl)
CZ_ADL(rng)
CZ_ADL(mp)
// the tag as a template parameter, for several backends at once
template <typename Tag, int M, typename C, std::enable_if_t<(M & AD) && (M & TAG), int> = 0> void dump_adl(Tag, const plain<M>& x, C& ctx) { hook_dump('A', x, ctx); }
template <typename Tag, int M, typename C, std::enable_if_t<(M & AS) && (M & TAG), int> = 0> auto serialize_adl(Tag, const plain<M>& x, C& ctx) { return hook_ser('A', x, ctx); }
template <typename Tag, int M, typename V, typename C, std::enable_if_t<(M & AR) && (M & TAG), int> = 0> void deserialize_adl(Tag, plain<M>& x, const V& n, C& ctx) { hook_read('A', x, n, ctx); }
template <typename Tag, int M, typename V, typename C, std::enable_if_t<(M & AP) && (M & TAG), int> = 0> void patch_adl(Tag, plain<M>& x, const V& n, C& ctx) { hook_read('a', x, n, ctx); }

#define CZ_NAMES e0 = 0, e1 = 1000, e2 = 2000, e3 = 3000, e4 = 4000, e5 = 5000, e6 = 6000, e7 = 7000, e8 = 8000, e9 = 9000, e10 = 10000, \
                 e11 = 11000, e12 = 12000, e13 = 13000, e14 = 14000, e15 = 15000, e16 = 16000, e17 = 17000, nul = -7000, emp = -8000
} // namespace cz
#define CZ_ENUM(ns, decl, M, K, R) \
    namespace cz::ns { \
    enum decl : int { CZ_NAMES }; \
    R \
    template <typename C, int Q = M, std::enable_if_t<(Q & AD) != 0, int> = 0> void dump_adl(lib::stream_tag, const en& x, C& ctx) { hook_dump('A', x, ctx); } \
    template <typename C, int Q = M, std::enable_if_t<(Q & AS) != 0, int> = 0> tnode serialize_adl(lib::tree_tag, const en& x, C& ctx) { return hook_ser('A', x, ctx); } \
    template <typename C, int Q = M, std::enable_if_t<(Q & AR) != 0, int> = 0> void deserialize_adl(lib::tree_tag, en& x, const tnode& n, C& ctx) { hook_read('A', x, n, ctx); } \
    template <typename C, int Q = M, std::enable_if_t<(Q & AP) != 0, int> = 0> void patch_adl(lib::tree_tag, en& x, const tnode& n, C& ctx) { hook_read('a', x, n, ctx); } \
    } \
    namespace cz { template <> struct info<ns::en> { static constexpr int mask = M; static constexpr kind k = K; }; }
#define CZ_REFL KL_REFLECT_ENUM(en, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, nul, emp)
CZ_ENUM(q0, class en, SD | SS | SR | SP, k_enum, CZ_REFL)
CZ_ENUM(q1, en, SD | AD | SS | AS | SR | SP | AR | AP, k_enum, CZ_REFL)
CZ_ENUM(q2, class en, AD | AS | AR, k_enum, CZ_REFL)
CZ_ENUM(q3, en, AD | AS | AR | AP, k_enum, CZ_REFL)
CZ_ENUM(q4, class en, SP, k_enum, CZ_REFL)
CZ_ENUM(q5, class en, SD | SS | SR | SP, k_raw, )
CZ_ENUM(q6, en, AD | AS | AR | SP, k_raw, )
CZ_ENUM(q7, en, SD | AS, k_raw, )
CZ_ENUM(q8, en, AD | SS | AR | AP, k_enum, CZ_REFL)

namespace kl::serialization {
template <int M> struct serializer<cz::plain<M>> : cz::hooks<cz::plain<M>, M> {};
template <int M> struct serializer<cz::refl<M>> : cz::hooks<cz::refl<M>, M> {};
template <int M> struct serializer<cz::rng<M>> : cz::hooks<cz::rng<M>, M> {};
template <int M> struct serializer<cz::mp<M>> : cz::hooks<cz::mp<M>, M> {};
#define CZ_SER(ns) template <> struct serializer<cz::ns::en> : cz::hooks<cz::ns::en, cz::info<cz::ns::en>::mask> {};
CZ_SER(q0) CZ_SER(q1) CZ_SER(q4) CZ_SER(q5) CZ_SER(q6) CZ_SER(q7) CZ_SER(q8)

// null and empty by the user's own definition
#define CZ_TRAITS(...) \
    struct optional_traits<__VA_ARGS__> { static bool is_null_value(const __VA_ARGS__& x) { return cz::look(x).v == cz::null_v; } };
#define CZ_EMPTY(...) \
    struct empty_traits<__VA_ARGS__> { static bool is_empty_value(const __VA_ARGS__& x) { return cz::look(x).v == cz::empty_v; } };
template <int M> CZ_TRAITS(cz::plain<M>) template <int M> CZ_EMPTY(cz::plain<M>)
template <int M> CZ_TRAITS(cz::refl<M>) template <int M> CZ_EMPTY(cz::refl<M>)
template <int M> CZ_TRAITS(cz::rng<M>) template <int M> CZ_EMPTY(cz::rng<M>)
template <int M> CZ_TRAITS(cz::mp<M>) template <int M> CZ_EMPTY(cz::mp<M>)
#define CZ_TR(ns) template <> CZ_TRAITS(cz::ns::en) template <> CZ_EMPTY(cz::ns::en)
CZ_TR(q0) CZ_TR(q1) CZ_TR(q2) CZ_TR(q3) CZ_TR(q4) CZ_TR(q5) CZ_TR(q6) CZ_TR(q7) CZ_TR(q8)
} // namespace kl::serialization

namespace cz {
// ---- where a value can be ---------------------------------------------------------------------------
template <typename T> struct inner { T x{}; int n = 9; KL_REFLECT_STRUCT_FRIEND(inner, x, n) };
namespace atr = kl::serialization::attributes;
template <typename T> struct box
{
    T f{}, r{}, sn{}, en{}, se{}, al{};
    std::vector<T> vec;
    std::map<std::string, T> m;
    std::optional<T> o;
    std::tuple<T, int> t{T{}, 4};
    std::pair<int, T> p{5, T{}};
    std::array<T, 2> a{};
    std::list<T> l;
    inner<T> in;
    std::map<std::string, std::vector<inner<T>>> deep;
    std::map<std::string, T> ex;
    KL_REFLECT_STRUCT_FRIEND(box, f, (r, atr::rename("ren")), (sn, atr::skip_if_null), (en, atr::emit_null), (se, atr::skip_if_empty), (al, atr::aliases("al2")),
                             vec, m, o, t, p, a, l, in, deep, (ex, atr::extra_fields))
};
enum { p_f, p_r, p_sn, p_en, p_se, p_al, p_v0, p_v1, p_m, p_o, p_t, p_p, p_a0, p_a1, p_l, p_in, p_deep, n_boxed };  // plus the extra field
constexpr int p_ex = n_boxed, n_pos = n_boxed + 1;

template <typename T> T* at(box<T>& b, int p)
{
    switch (p)
    {
    case p_f: return &b.f;
    case p_r: return &b.r;
    case p_sn: return &b.sn;
    case p_en: return &b.en;
    case p_se: return &b.se;
    case p_al: return &b.al;
    case p_v0: return b.vec.size() == 2 ? &b.vec[0] : nullptr;
    case p_v1: return b.vec.size() == 2 ? &b.vec[1] : nullptr;
    case p_m: return b.m.size() == 1 && b.m.count("k") ? &b.m["k"] : nullptr;
    case p_o: return b.o ? &*b.o : nullptr;
    case p_t: return &std::get<0>(b.t);
    case p_p: return &b.p.second;
    case p_a0: return &b.a[0];
    case p_a1: return &b.a[1];
    case p_l: return b.l.size() == 1 ? &b.l.front() : nullptr;
    case p_in: return &b.in.x;
    case p_deep: return b.deep.size() == 1 && b.deep.count("d") && b.deep["d"].size() == 1 ? &b.deep["d"][0].x : nullptr;
    default: return b.ex.size() == 1 && b.ex.count("z") ? &b.ex["z"] : nullptr;
    }
}
template <typename T> box<T> filled(const obs (&o)[n_pos])
{
    box<T> b;
    b.vec.resize(2);
    b.m["k"];
    b.o.emplace();
    b.l.emplace_back();
    b.deep["d"].emplace_back();
    b.ex["z"];
    for (int p = 0; p < n_pos; ++p) put(*at(b, p), o[p]);
    return b;
}

// ---- the contract -----------------------------------------------------------------------------------
template <typename T> char way(int s_bit, int a_bit) { return info<T>::mask & s_bit ? 'S' : info<T>::mask & a_bit ? 'A' : '-'; }
template <typename T> char patch_way()
{
    int m = info<T>::mask;
    if (m & SP) return 's';
    if (m & AP) return 'a';
    if (info<T>::k == k_refl) return '-';
    return way<T>(SR, AR);                       // no patch of its own: a patch is a complete value
}
template <typename T> J form(char how, int v, int salt)
{
    if (how == 'S' || how == 's') return J::str("S:" + std::to_string(v) + ":" + std::to_string(salt));
    if (how == 'A' || how == 'a') return J::arr({J::str("A"), J::str(std::to_string(v)), J::str(std::to_string(salt))});
    switch (info<T>::k)
    {
    case k_refl: return J::obj({{"v", J::num(v)}});
    case k_rng: return J::arr({J::num(v)});
    case k_mp: return J::obj({{"k", J::num(v)}});
    case k_enum: return J::str(v == null_v ? "nul" : v == empty_v ? "emp" : "e" + std::to_string(v));
    case k_raw: return J::num(v * 1000);
    default: mc::fail("the type %d has no rule", info<T>::mask);
    }
}
template <typename T> obs read_as(char how, obs before, int v, int salt)
{
    switch (how)
    {
    case 'S':
    case 'A': return {v, how, salt};
    case 's': return {before.v + v, how, salt};
    case 'a': return {before.v + 10 * v, how, salt};
    }
    if (info<T>::k >= k_enum) return {v, '-', 0};
    return {v, before.via, before.salt};         // the rest of the object is not the library's business
}

// what a context skips
// 0 nothing, 1 null values, 2 (own contexts) values called empty
template <typename V, typename = void> struct has_info : std::false_type {};
template <typename V> struct has_info<V, std::void_t<decltype(info<V>::mask)>> : std::true_type {};
template <typename V> bool own_skip(int mode, const V& v)
{
    if (mode == 1) return kl::serialization::is_null_value(v);
    if constexpr (has_info<V>::value) return mode == 2 && look(v).v == empty_v;
    else return false;
}

// ---- contexts ---------------------------------------------------------------------------------------
#if WITH_YAML
using lib_dump = lib::dump_context;
struct out_text { YAML::Emitter w; std::string text() { return w.c_str(); } };
#else
using wr_t = rapidjson::Writer<rapidjson::StringBuffer>;
using lib_dump = lib::dump_context<wr_t>;
struct out_text { rapidjson::StringBuffer b; wr_t w{b}; std::string text() { return {b.GetString(), b.GetSize()}; } };
#endif
struct der_dump : lib_dump { using lib_dump::lib_dump; int salt = 3, calls = 0; };
struct own_dump
{
    out_text& o;
    int mode, salt = 5, calls = 0;
    own_dump(out_text& t, int m) : o(t), mode(m) {}
    own_dump(const own_dump&) = delete;
#if WITH_YAML
    YAML::Emitter& emitter() { return o.w; }
#else
    using writer_type = wr_t;
    wr_t& writer() { return o.w; }
#endif
    template <typename V> bool skip_null_value(const V& v) { return own_skip(mode, v); }
};
#if WITH_YAML
struct store {};
using lib_ser = lib::serialize_context;
struct lib_ser2 : lib_ser { lib_ser2(store&, bool skip) : lib_ser(skip) {} };
#else
struct store { lib::allocator a; };
using lib_ser = lib::serialize_context;
struct lib_ser2 : lib_ser { lib_ser2(store& s, bool skip) : lib_ser(s.a, skip) {} };
#endif
struct der_ser : lib_ser2 { using lib_ser2::lib_ser2; int salt = 3, calls = 0; };
struct own_ser
{
    store& s;
    int mode, salt = 5, calls = 0;
    own_ser(store& t, int m) : s(t), mode(m) {}
    own_ser(const own_ser&) = delete;
#if !WITH_YAML
    lib::allocator& allocator() { return s.a; }
#endif
    template <typename V> bool skip_null_value(const V& v) { return own_skip(mode, v); }
};
using lib_read = lib::deserialize_context;
struct der_read : lib_read { int salt = 3, calls = 0; };
struct own_read { int salt = 5, calls = 0; own_read() = default; own_read(const own_read&) = delete; };

template <typename C> int calls_of(C& c) { if constexpr (has_salt<C>::value) return c.calls; else return -1; }
const char* const ctx_names[] = {"the library's context", "a derived context", "a context of the user's own"};
const int salts[] = {0, 3, 5};

static void check_calls(const char* op, int got, int want)
{
    if (got >= 0 && got != want) mc::fail("%s: the caller's context saw %d calls of the customisation, expected %d", op, got, want);
}

// every way to write one value: the document, and the number of customised calls the context saw
template <typename T> J write_it(const T& x, int ctx, int mode, bool direct, bool tree_op, int hooks_expected)
{
    auto go = [&](auto& c) {
        using C = std::remove_reference_t<decltype(c)>;
        (void)direct;
        if constexpr (has_backend<C>::value) { if (direct) { kl::serialization::dump(x, c); return; } }
        lib::dump(x, c);
    };
    auto go_tree = [&](auto& c) {
        using C = std::remove_reference_t<decltype(c)>;
        if constexpr (has_backend<C>::value) { if (direct) return tree(kl::serialization::serialize(x, c)); }
        return tree(lib::serialize(x, c));
    };
    mc::transition();
    if (!tree_op)
    {
        out_text o;
        int n;
        if (ctx == 0) { lib_dump c{o.w, mode != 0}; go(c); n = -1; }
        else if (ctx == 1) { der_dump c{o.w, mode != 0}; go(c); n = c.calls; }
        else { own_dump c{o, mode}; go(c); n = c.calls; }
        check_calls("dump", n, hooks_expected);
        return tree(parse(o.text()));
    }
    store s;
    J r;
    int n = -1;
    if (ctx == 0) { lib_ser2 c{s, mode != 0}; r = go_tree(c); }
    else if (ctx == 1) { der_ser c{s, mode != 0}; r = go_tree(c); n = c.calls; }
    else { own_ser c{s, mode}; r = go_tree(c); n = c.calls; }
    check_calls("serialize", n, hooks_expected);
    return r;
}
// 0 read, 1 refused
template <typename T> bool read_it(T& x, const tnode& d, int ctx, bool direct, bool patch, int hooks_expected)
{
    auto go = [&](auto& c) {
        using C = std::remove_reference_t<decltype(c)>;
        try
        {
            if constexpr (has_backend<C>::value)
                if (direct) { patch ? kl::serialization::patch(x, d, c) : kl::serialization::deserialize(x, d, c); return true; }
            patch ? lib::patch(x, d, c) : lib::deserialize(x, d, c);
            return true;
        }
        catch (const kl::serialization::deserialize_error&) { return false; }
    };
    mc::transition();
    bool ok;
    int n = -1;
    if (ctx == 0) { lib_read c; ok = go(c); }
    else if (ctx == 1) { der_read c; ok = go(c); n = c.calls; }
    else { own_read c; ok = go(c); n = c.calls; }
    if (ok) check_calls(patch ? "patch" : "deserialize", n, hooks_expected);
    return ok;
}
static std::string mask_name(int m)
{
    std::string r;
    const char* n[] = {"serializer.dump", "serializer.serialize", "serializer.deserialize", "serializer.patch", "dump_adl", "serialize_adl", "deserialize_adl", "patch_adl", "templated tag"};
    for (int i = 0; i < 9; ++i)
        if (m >> i & 1) r += (r.empty() ? "" : ",") + std::string(n[i]);
    return r.empty() ? "nothing" : r;
}
const char* const kinds[] = {"a plain type", "a reflected struct", "a range", "a map", "a reflected enum", "an enum"};
template <typename T> std::string whom() { return std::string(kinds[info<T>::k]) + " customised with {" + mask_name(info<T>::mask) + "}"; }
static void note_case(const std::string& s)
{
    mc::note("%s", s.c_str());
    mc::state(mc::hasher().s(s));
    if (mc::want_sample()) mc::sample(s);
}
static node doc_of(const J& j) { return parse(text(j)); }

// ---- one value on its own, every entry point ----------------------------------------------------------
template <typename T> void root()
{
    const char dw = way<T>(SD, AD), sw = way<T>(SS, AS), rw = way<T>(SR, AR), pw = patch_way<T>();
    int op = mc::choose(5, "operation");
    int ctx = op == 4 ? 1 + mc::choose(2, "context") : mc::choose(4, "context");
    bool direct = ctx < 2 && op != 4 && mc::choose(2, "through");
    int salt = ctx == 3 ? 0 : salts[ctx];
    const char* cn = ctx == 3 ? "no context" : ctx_names[ctx];
    T x{};
    auto differs = [&](const char* what, const J& want, const J& got) {
        if (!equal(want, got)) mc::fail("%s of %s with %s%s: %s, expected %s", what, whom<T>().c_str(), cn, direct ? " (kl::serialization)" : "", text(got).c_str(), text(want).c_str());
    };
    auto settled = [&](const char* what, bool ok, obs want, bool want_ok) {
        if (ok != want_ok) mc::fail("%s of %s with %s: %s", what, whom<T>().c_str(), cn, ok ? "accepted a document it must refuse" : "refused its own form");
        obs got = look(x);
        if (ok && !(got == want))
            mc::fail("%s of %s with %s gives value %d read by %c with context %d, expected %d by %c with %d", what, whom<T>().c_str(), cn, got.v, got.via, got.salt, want.v, want.via, want.salt);
        mc::count(ok ? "documents accepted" : "documents refused");
    };
    if (op <= 1)
    {
        int v = mc::choose(3, "value") + 1;
        if (v == 3) v = null_v;                       // skipping is for fields only
        put(x, {v, '-', 0});
        note_case(whom<T>() + (op ? " serialized with " : " dumped with ") + cn);
        J want = form<T>(op ? sw : dw, v, salt);
        if (ctx == 3)
        {
            if (op) differs("serialize", want, tree(lib::serialize(x)));
            else
            {
                differs("dump", want, tree(parse(lib::dump(x))));
#if !WITH_YAML
                differs("pretty_dump", want, tree(parse(lib::pretty_dump(x))));
#endif
            }
            mc::transition();
        }
        else
            differs(op ? "serialize" : "dump", want, write_it(x, ctx, mc::choose(2, "skip null"), direct, op, (op ? sw : dw) != '-'));
        mc::count("values written");
        return;
    }
    if (op <= 3)
    {
        obs before{op == 3 ? 2 : 0, '-', 0};
        if (op == 3) put(x, before);
        char how = op == 3 ? pw : rw;
        int f = mc::choose(4, "document");
        const char forms[] = {how, 'S', 'A', '-'};
        bool own = f == 0;
        auto fold = [](char c) { return c == 's' ? 'S' : c == 'a' ? 'A' : c; };
        if (!own && (fold(forms[f]) == fold(how) || (forms[f] == '-' && info<T>::k == k_plain))) mc::skip();
        J d = form<T>(forms[f], 1, 7);
        note_case(whom<T>() + (op == 3 ? " patched with " : " read with ") + cn + " from " + text(d));
        node n = doc_of(d);
        bool ok;
        if (ctx == 3)
        {
            try
            {
                if (op == 3) lib::patch(x, n);
                else
                {
                    lib::deserialize(x, n);
                    T y = lib::template deserialize<T>(n);
                    if (!(look(y) == look(x))) mc::fail("deserialize<T>(value) differs from deserialize(out, value) for %s", whom<T>().c_str());
                }
                ok = true;
            }
            catch (const kl::serialization::deserialize_error&) { ok = false; }
            mc::transition();
        }
        else
            ok = read_it(x, n, ctx, direct, op == 3, how != '-');
        settled(op == 3 ? "patch" : "deserialize", ok, read_as<T>(how, before, 1, salt), own);
        return;
    }
    // builders and extractors with the caller's context
    put(x, {1, '-', 0});
    auto build = [&](auto& c) {
        note_case(whom<T>() + " built and extracted with " + cn);
        T y{};
        put(y, {2, '-', 0});
#if WITH_YAML
        differs("to_sequence", J::arr({form<T>(sw, 1, salt), form<T>(sw, 2, salt)}), tree(lib::to_sequence(c).add(x).add(y).done()));
        differs("to_map", J::obj({{"p", form<T>(sw, 1, salt)}, {"q", form<T>(sw, 2, salt)}}), tree(lib::to_map(c).add("p", x).add(std::string("q"), y).done()));
#else
        differs("to_array", J::arr({form<T>(sw, 1, salt), form<T>(sw, 2, salt)}), tree(lib::to_array(c).add(x).add(y).done()));
        differs("to_object", J::obj({{"p", form<T>(sw, 1, salt)}, {"q", form<T>(sw, 2, salt)}}), tree(lib::to_object(c).add("p", x).add_dynamic_name(std::string("q"), y).done()));
#endif
        check_calls("builders", c.calls, sw == '-' ? 0 : 4);
        mc::transition(2);
        mc::count("values written", 4);
    };
    auto take = [&](auto& c) {
        node a = doc_of(J::arr({form<T>(rw, 3, 7), form<T>(rw, 4, 7)})), o = doc_of(J::obj({{"p", form<T>(rw, 5, 7)}}));
        T y[3]{};
#if WITH_YAML
        lib::from_sequence(a, c).extract(y[0]).extract(y[1]);
        lib::from_map(o, c).extract("p", y[2]);
#else
        lib::from_array(a, c).extract(y[0]).extract(y[1]);
        lib::from_object(o, c).extract("p", y[2]);
#endif
        for (int i = 0; i < 3; ++i)
        {
            x = y[i];
            settled(i == 2 ? "extract (member)" : "extract (element)", true, read_as<T>(rw, {0, '-', 0}, 3 + i, salt), true);
        }
        check_calls("extractors", c.calls, rw == '-' ? 0 : 3);
        mc::transition(2);
    };
    store s;
    if (ctx == 1) { der_ser c{s, true}; build(c); der_read r; take(r); }
    else { own_ser c{s, 1}; build(c); own_read r; take(r); }
}

static void passed_on(bool expected)
{
    if (!expected) mc::fail("an exception out of nowhere");
    mc::count("exceptions passed on");
}

// ---- every position ---------------------------------------------------------------------------------
struct written { J doc; int hooks = 0; };
template <typename T> written box_doc(char how, const obs (&o)[n_pos], int salt, int mode)
{
    written w;
    auto X = [&](int p) { w.hooks += how != '-'; return form<T>(how, o[p].v, salt); };
    // skipping by the context: fields, map values, extra fields
    auto skipped = [&](int p) { return (mode == 1 && o[p].v == null_v) || (mode == 2 && o[p].v == empty_v); };
    std::vector<std::pair<std::string, J>> d;
    if (!skipped(p_f)) d.emplace_back("f", X(p_f));
    if (!skipped(p_r)) d.emplace_back("ren", X(p_r));
    if (o[p_sn].v != null_v) d.emplace_back("sn", X(p_sn));
    d.emplace_back("en", X(p_en));
    if (!skipped(p_se) && o[p_se].v != empty_v) d.emplace_back("se", X(p_se));
    if (!skipped(p_al)) d.emplace_back("al", X(p_al));
    { J e = J::arr(); e.a.push_back(X(p_v0)); e.a.push_back(X(p_v1)); d.emplace_back("vec", e); }
    d.emplace_back("m", skipped(p_m) ? J::obj() : J::obj({{"k", X(p_m)}}));
    d.emplace_back("o", X(p_o));
    d.emplace_back("t", J::arr({X(p_t), J::num(4)}));
    d.emplace_back("p", J::arr({J::num(5), X(p_p)}));
    { J e = J::arr(); e.a.push_back(X(p_a0)); e.a.push_back(X(p_a1)); d.emplace_back("a", e); }
    d.emplace_back("l", J::arr({X(p_l)}));
    auto in = [&](int p) { return skipped(p) ? J::obj({{"n", J::num(9)}}) : J::obj({{"x", X(p)}, {"n", J::num(9)}}); };
    d.emplace_back("in", in(p_in));
    d.emplace_back("deep", J::obj({{"d", J::arr({in(p_deep)})}}));
    if (!skipped(p_ex)) d.emplace_back("z", X(p_ex));
    w.doc = J::obj(d);
    return w;
}
template <typename T> void boxed_write()
{
    obs o[n_pos];
    for (int p = 0; p < n_pos; ++p) o[p] = {p + 1 > 17 ? 17 : p + 1, '-', 0};
    o[p_ex].v = 1;
    bool tree_op = mc::choose(2, "operation");
    int ctx = mc::choose(3, "context");
    int mode = mc::choose(ctx == 2 ? 3 : 2, "skip");
    bool direct = ctx < 2 && mc::choose(2, "through");
    int p = mc::choose(n_pos + 1, "position");
    char how = tree_op ? way<T>(SS, AS) : way<T>(SD, AD);
    const int special[] = {null_v, empty_v, boom_v};
    if (p < n_pos) o[p].v = special[mc::choose(how == '-' ? 2 : 3, "special")];
    bool throws = p < n_pos && o[p].v == boom_v;
    box<T> b = filled<T>(o);
    written w = box_doc<T>(how, o, salts[ctx], mode);
    note_case(whom<T>() + (tree_op ? " serialized" : " dumped") + " in every position with " + ctx_names[ctx] + ", position " + std::to_string(p));
    J got;
    try
    {
        got = write_it(b, ctx, mode, direct, tree_op, w.hooks);
        if (throws) mc::fail("%s of an object holding %s: an exception of the customisation was swallowed", tree_op ? "serialize" : "dump", whom<T>().c_str());
    }
    catch (const boom&)
    {
        if (!throws) mc::fail("an exception out of nowhere");
        mc::count("exceptions passed on");
        return;
    }
    if (!equal(w.doc, got))
        mc::fail("%s of an object holding %s with %s (skip rule %d): %s, expected %s", tree_op ? "serialize" : "dump", whom<T>().c_str(), ctx_names[ctx], mode, text(got).c_str(), text(w.doc).c_str());
    mc::count("values written", n_pos);
}

// a document for the box: form of each position given by the caller, nullopt = left out
using forms_of = std::function<std::optional<J>(int)>;
static J box_input(const forms_of& X, bool alias, bool in_seq)
{
    std::vector<std::pair<std::string, J>> d;
    auto field = [&](const char* n, int p) { if (auto j = X(p)) d.emplace_back(n, *j); };
    auto list = [](std::vector<std::optional<J>> v) -> std::optional<J> {
        J a = J::arr();
        for (auto& e : v) { if (!e) return std::nullopt; a.a.push_back(*e); }
        return a;
    };
    auto group = [&](const char* n, std::optional<J> j) { if (j) d.emplace_back(n, *j); };
    field("f", p_f);
    field("ren", p_r);
    field("sn", p_sn);
    field("en", p_en);
    field("se", p_se);
    field(alias ? "al2" : "al", p_al);
    group("vec", list({X(p_v0), X(p_v1)}));
    if (auto j = X(p_m)) d.emplace_back("m", J::obj({{"k", *j}}));
    field("o", p_o);
    group("t", list({X(p_t), J::num(4)}));
    group("p", list({J::num(5), X(p_p)}));
    group("a", list({X(p_a0), X(p_a1)}));
    group("l", list({X(p_l)}));
    auto in = [&](int p) -> std::optional<J> {
        auto j = X(p);
        if (!j) return std::nullopt;
        return in_seq ? J::arr({*j, J::num(9)}) : J::obj({{"x", *j}, {"n", J::num(9)}});
    };
    group("in", in(p_in));
    if (auto j = in(p_deep)) d.emplace_back("deep", J::obj({{"d", J::arr({*j})}}));
    field("z", p_ex);
    return J::obj(d);
}
// what stands in one position instead of the right form
template <typename T> J wrong_form(char how, int k)
{
    auto fold = [](char c) { return c == 's' ? 'S' : c == 'a' ? 'A' : c; };
    const char ws[] = {'S', 'A', '-'};
    if (k == 0) return J::null();
    char w = ws[k - 1];
    if (w == fold(how) || (w == '-' && info<T>::k == k_plain)) mc::skip();
    return form<T>(w, 1, 7);
}
template <typename T> void compare(const char* what, box<T>& b, const obs (&want)[n_pos], const bool (&there)[n_pos], const char* cn)
{
    for (int p = 0; p < n_pos; ++p)
    {
        T* x = at(b, p);
        if (!x != !there[p]) mc::fail("%s of an object holding %s with %s: position %d is %s", what, whom<T>().c_str(), cn, p, x ? "there" : "not there");
        if (!x) continue;
        obs g = look(*x);
        if (!(g == want[p]))
            mc::fail("%s of an object holding %s with %s: position %d is %d read by %c with context %d, expected %d by %c with %d", what, whom<T>().c_str(), cn, p,
                     g.v, g.via, g.salt, want[p].v, want[p].via, want[p].salt);
    }
    if (std::get<1>(b.t) != 4 || b.p.first != 5 || b.in.n != 9) mc::fail("%s changed a neighbour", what);
}
template <typename T> void boxed_read()
{
    char how = way<T>(SR, AR);
    int ctx = mc::choose(3, "context");
    bool direct = ctx < 2 && mc::choose(2, "through");
    int bad = mc::choose(n_pos + 1, "position"), kind = bad < n_pos ? mc::choose(how == '-' ? 5 : 6, "instead") : -1;
    J instead = kind >= 0 && kind < 4 ? wrong_form<T>(how, kind) : J::null();
    bool alias = bad == n_pos && mc::choose(2, "alias"), in_seq = bad == n_pos && mc::choose(2, "sequence");
    auto v_of = [](int p) { return p % 17 + 1; };
    J d = box_input([&](int p) -> std::optional<J> {
        if (p != bad) return form<T>(how, v_of(p), 7);
        if (kind == 4) return std::nullopt;
        return kind == 5 ? form<T>(how, boom_v, 7) : instead;
    }, alias, in_seq);
    bool want_ok = true, there[n_pos];
    int hooks = 0;
    obs want[n_pos];
    for (int p = 0; p < n_pos; ++p)
    {
        there[p] = !(p == bad && (p == p_o || (p == p_ex && kind == 4)));
        want[p] = read_as<T>(how, {0, '-', 0}, v_of(p), salts[ctx]);
        hooks += there[p] && how != '-';
    }
    if (bad < n_pos)
    {
        // a position left out or null is an error unless an optional or an extra field may be absent
        want_ok = (bad == p_o && (kind == 0 || kind == 4)) || (bad == p_ex && kind == 4);
    }
    note_case(whom<T>() + " read in every position with " + ctx_names[ctx] + " from " + text(d));
    box<T> b;
    node n = doc_of(d);
    bool ok;
    try { ok = read_it(b, n, ctx, direct, false, hooks); }
    catch (const boom&) { return passed_on(kind == 5); }
    if (kind == 5) mc::fail("deserialize of an object holding %s: an exception of the customisation was swallowed", whom<T>().c_str());
    if (ok != want_ok)
        mc::fail("deserialize of an object holding %s with %s from %s: %s", whom<T>().c_str(), ctx_names[ctx], text(d).c_str(), ok ? "accepted" : "refused");
    mc::count(ok ? "documents accepted" : "documents refused");
    if (ok) compare("deserialize", b, want, there, ctx_names[ctx]);
}
template <typename T> void boxed_patch()
{
    char whole = way<T>(SR, AR), part = patch_way<T>();
    int ctx = mc::choose(3, "context");
    bool direct = ctx < 2 && mc::choose(2, "through");
    // which field is in the document: one of them, none or all; then something wrong in one position
    int only = mc::choose(n_pos + 2, "fields"), bad = -1, kind = -1;
    if (only == n_pos) bad = mc::choose(n_pos + 1, "position");
    else if (only < n_pos && mc::choose(2, "wrong")) bad = only;
    if (bad == n_pos) bad = -1;
    bool fresh = mc::choose(2, "fresh");             // the optional is empty, the extra field unknown
    auto patched = [](int p) { return p <= p_al || p == p_o || p == p_in || p == p_ex; };
    auto how_of = [&](int p) { return patched(p) ? part : whole; };
    J instead = J::null();
    if (bad >= 0)
    {
        kind = mc::choose(how_of(bad) == '-' ? 4 : 5, "instead");
        instead = kind == 4 ? form<T>(how_of(bad), boom_v, 7) : wrong_form<T>(how_of(bad), kind);
    }
    auto twin = [](int p) { return p == p_v0 ? p_v1 : p == p_v1 ? p_v0 : p == p_a0 ? p_a1 : p == p_a1 ? p_a0 : p; };
    auto in_doc = [&](int p) { return only == n_pos || only == p || only == twin(p); };
    auto v_of = [](int p) { return p % 17 + 1; };
    J d = box_input([&](int p) -> std::optional<J> {
        if (!in_doc(p)) return std::nullopt;
        return p == bad ? instead : form<T>(how_of(p), v_of(p), 7);
    }, mc::choose(2, "alias"), false);
    obs want[n_pos];
    bool there[n_pos];
    int hooks = 0;
    for (int p = 0; p < n_pos; ++p) want[p] = {info<T>::k == k_enum ? v_of(p + 3) : 100 + p, '-', 0}, there[p] = true;
    box<T> b = filled<T>(want);
    if (fresh) { b.o.reset(); b.ex.clear(); there[p_o] = there[p_ex] = false; }
    for (int p = 0; p < n_pos; ++p)
        if (in_doc(p))
        {
            obs before = patched(p) && there[p] ? want[p] : obs{0, '-', 0};
            // fixed arrays, tuples and pairs are read in place
            if (p == p_t || p == p_p || p == p_a0 || p == p_a1) before = want[p];
            want[p] = read_as<T>(how_of(p), before, v_of(p), salts[ctx]);
            there[p] = true;
            hooks += how_of(p) != '-';
        }
    bool want_ok = bad < 0 || !in_doc(bad) || (bad == p_o && kind == 0);
    if (bad == p_o && kind == 0) { there[p_o] = false; hooks -= part != '-'; }
    note_case(whom<T>() + " patched in every position with " + ctx_names[ctx] + " by " + text(d));
    node n = doc_of(d);
    bool ok;
    try { ok = read_it(b, n, ctx, direct, true, hooks); }
    catch (const boom&) { return passed_on(kind == 4); }
    if (kind == 4) mc::fail("patch of an object holding %s: an exception of the customisation was swallowed", whom<T>().c_str());
    if (ok != want_ok)
        mc::fail("patch of an object holding %s with %s by %s: %s", whom<T>().c_str(), ctx_names[ctx], text(d).c_str(), ok ? "accepted" : "refused");
    mc::count(ok ? "documents accepted" : "documents refused");
    if (ok) compare("patch", b, want, there, ctx_names[ctx]);
}

// ---- the sets of customisations -------------------------------------------------------------------------
constexpr int plain_mask(int k)
{
    constexpr int d[] = {SD, AD, SD | AD}, s[] = {SS, AS, SS | AS};
    constexpr int r[] = {SR | SP, AR, AR | AP, AR | SP, SR | SP | AR, SR | SP | AR | AP};
    return d[k % 3] | s[k / 3 % 3] | r[k / 9] | (k & 1 ? TAG : 0);
}
constexpr int refl_mask(int k)
{
    constexpr int d[] = {0, SD, AD, SD | AD}, s[] = {0, SS, AS, SS | AS};
    constexpr int r[] = {0, SP, AP, SP | AP, SR | SP, AR | AP, AR | SP, SR | SP | AR, SR | SP | AR | AP};
    return d[k % 4] | s[(k + k / 4) % 4] | r[k / 8];
}
constexpr int coll_mask(int k)
{
    constexpr int d[] = {0, SD | SS, AD | AS, SD | AD | SS | AS}, r[] = {0, SP, AR, SR | SP, AR | AP};
    return d[k % 4] | r[k / 4];
}
template <template <int> class K, int (*mask)(int), int... I> std::vector<void (*)()> roots(std::integer_sequence<int, I...>) { return {&root<K<mask(I)>>...}; }
template <typename... T> std::vector<std::array<void (*)(), 3>> boxes() { return {{&boxed_write<T>, &boxed_read<T>, &boxed_patch<T>}...}; }

static void pick(const std::vector<void (*)()>& v) { v[mc::choose((int)v.size(), "type")](); }
static void pick(const std::vector<std::array<void (*)(), 3>>& v) { v[mc::choose((int)v.size(), "type")][mc::choose(3, "operation")](); }

#define ID "C35"
#define B (WITH_YAML ? " (YAML)" : " (JSON)")
const std::string n0 = std::string("plain types") + B, n1 = std::string("reflected types") + B, n2 = std::string("ranges, maps and enums") + B,
                  n3 = std::string("plain types in every position") + B, n4 = std::string("reflected types in every position") + B, n5 = std::string("other types in every position") + B;
#if GROUP == 0
MC_SCENARIO(ID, n0.c_str(), [] { pick(roots<plain, plain_mask>(std::make_integer_sequence<int, 54>{})); });
#elif GROUP == 1
MC_SCENARIO(ID, n1.c_str(), [] { pick(roots<refl, refl_mask>(std::make_integer_sequence<int, 72>{})); });
#elif GROUP == 2
MC_SCENARIO(ID, n2.c_str(), [] {
    switch (mc::choose(3, "kind"))
    {
    case 0: return pick(roots<rng, coll_mask>(std::make_integer_sequence<int, 20>{}));
    case 1: return pick(roots<mp, coll_mask>(std::make_integer_sequence<int, 20>{}));
    default: return pick({&root<q0::en>, &root<q1::en>, &root<q2::en>, &root<q3::en>, &root<q4::en>, &root<q5::en>, &root<q6::en>, &root<q7::en>, &root<q8::en>});
    }
}, 3);
#elif GROUP == 3
MC_SCENARIO(ID, n3.c_str(), [] {
    pick(boxes<plain<SD | SS | SR | SP>, plain<AD | AS | AR>, plain<AD | AS | AR | AP | TAG>, plain<SD | SS | SR | SP | AD | AS | AR | AP>,
               plain<SD | AS | AR | SP>, plain<AD | SS | AR | AP>>());
}, 3);
#elif GROUP == 4
MC_SCENARIO(ID, n4.c_str(), [] {
    pick(boxes<refl<0>, refl<SD | SS | SR | SP>, refl<AD | AS | AR | AP>, refl<SD | SS | SR | SP | AD | AS | AR | AP>, refl<SD | AS | SP>, refl<SS | AD | AP>>());
}, 3);
#else
MC_SCENARIO(ID, n5.c_str(), [] {
    pick(boxes<rng<SD | SS | SR | SP>, rng<AD | AS | AR>, mp<SD | SS | SR | SP>, mp<AD | AS | AR | AP>, q1::en, q2::en, q6::en>());
}, 3);
#endif
} // namespace cz
