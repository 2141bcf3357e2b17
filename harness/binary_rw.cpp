// C14 (every value survives a write/read round trip in the documented layout), C15 (reader safety on
// arbitrary input), C16 (writer never leaves its buffer).
#include "mc.hpp"

#include "kl/binary_rw.hpp"
#include "kl/binary_rw/endian.hpp"
#include "kl/binary_rw/map.hpp"
#include "kl/binary_rw/optional.hpp"
#include "kl/binary_rw/pair.hpp"
#include "kl/binary_rw/set.hpp"
#include "kl/binary_rw/string.hpp"
#include "kl/binary_rw/variant.hpp"
#include "kl/binary_rw/vector.hpp"

#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#include <sys/mman.h>
#include <cstdlib>
#include <limits>
#include <memory>
#include <new>

extern std::size_t g_largest_alloc;
#if CHUNK == 0
std::size_t g_largest_alloc;
void* operator new(std::size_t n)
{
    if (n > g_largest_alloc)
        g_largest_alloc = n;
    if (n > (std::size_t(1) << 30))
        throw std::bad_alloc{};
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

#endif

namespace {
using bytes = std::string;
enum class color : std::uint16_t
{
    red = 1,
    green = 0x0203,
    blue = 0xffff
};
struct point // a user-defined composite
{
    std::int16_t x = 0;
    std::string name;
    std::optional<std::uint8_t> z;
    bool operator==(const point& o) const { return x == o.x && name == o.name && z == o.z; }
};
void write_binary(kl::binary_writer& w, const point& p) { w << p.x << p.name << p.z; }
void read_binary(kl::binary_reader& r, point& p) { r >> p.x >> p.name >> p.z; }

// ---- the reference: layout, decoder and value domain per type ------------------------------------
struct in
{
    const bytes& b;
    std::size_t pos = 0;
    std::size_t left() const { return b.size() - pos; }
};

template <typename T, typename = void>
struct ref;

template <typename T>
struct ref<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>>
{
    static void enc(bytes& o, const T& v) { o.append(reinterpret_cast<const char*>(&v), sizeof v); }
    static bool dec(in& i, T& v)
    {
        if (i.left() < sizeof v)
            return false;
        std::memcpy(&v, i.b.data() + i.pos, sizeof v);
        i.pos += sizeof v;
        return true;
    }
    static std::vector<T> dom()
    {
        if constexpr (std::is_same_v<T, color>)
            return {color::red, color::green, color::blue};
        else if constexpr (std::is_same_v<T, bool>)
            return {false, true};
        else if constexpr (std::is_floating_point_v<T>)
            return {T(0), T(-0.0), T(1.5), -std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min(),
                    std::numeric_limits<T>::infinity()};
        else
            return {T(0), T(1), T(0x7f), T(0x80), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(),
                    T(0x0102030405060708ull)};
    }
};
void enc_size(bytes& o, std::size_t n) { ref<std::uint32_t>::enc(o, (std::uint32_t)n); }

template <>
struct ref<std::string>
{
    static void enc(bytes& o, const std::string& v)
    {
        enc_size(o, v.size());
        o += v;
    }
    static bool dec(in& i, std::string& v)
    {
        std::uint32_t n;
        if (!ref<std::uint32_t>::dec(i, n) || n > i.left())
            return false;
        v = i.b.substr(i.pos, n);
        i.pos += n;
        return true;
    }
    static std::vector<std::string> dom()
    {
        return {"", "a", std::string("\0x", 2), "longer than the small string buffer of any library"};
    }
};
template <typename A, typename B>
struct ref<std::pair<A, B>>
{
    using T = std::pair<A, B>;
    static void enc(bytes& o, const T& v)
    {
        ref<A>::enc(o, v.first);
        ref<B>::enc(o, v.second);
    }
    static bool dec(in& i, T& v) { return ref<A>::dec(i, v.first) && ref<B>::dec(i, v.second); }
    static std::vector<T> dom()
    {
        std::vector<T> r;
        for (auto& a : ref<A>::dom())
            for (auto& b : ref<B>::dom())
                r.push_back({a, b});
        return r;
    }
};
template <typename A>
struct ref<std::optional<A>>
{
    using T = std::optional<A>;
    static void enc(bytes& o, const T& v)
    {
        o.push_back(v.has_value());
        if (v)
            ref<A>::enc(o, *v);
    }
    static bool dec(in& i, T& v)
    {
        std::uint8_t f;
        if (!ref<std::uint8_t>::dec(i, f))
            return false;
        v = std::nullopt;
        if (!f)
            return true;
        v.emplace();
        return ref<A>::dec(i, *v);
    }
    static std::vector<T> dom()
    {
        std::vector<T> r{T{}};
        for (auto& a : ref<A>::dom())
        {
            r.emplace_back();
            r.back().emplace(a);
        }
        return r;
    }
};
template <typename C, typename E>
std::vector<std::vector<E>> sequences(std::size_t max_len)
{
    // all sequences over a small part of the element domain
    std::vector<E> full = ref<E>::dom(), d;
    std::size_t keep = full.size() <= 3 ? full.size() : 3;
    for (std::size_t k = 0; k < keep; ++k)
        d.push_back(full[k * (full.size() - 1) / (keep - 1 ? keep - 1 : 1)]);
    std::vector<std::vector<E>> all{{}}, last{{}};
    for (std::size_t l = 0; l < max_len; ++l)
    {
        std::vector<std::vector<E>> next;
        for (auto& s : last)
            for (auto& e : d)
            {
                next.push_back(s);
                next.back().push_back(e);
            }
        all.insert(all.end(), next.begin(), next.end());
        last = next;
    }
    return all;
}
template <typename A>
struct ref<std::vector<A>>
{
    using T = std::vector<A>;
    static void enc(bytes& o, const T& v)
    {
        enc_size(o, v.size());
        for (auto& e : v)
            ref<A>::enc(o, e);
    }
    static bool dec(in& i, T& v)
    {
        std::uint32_t n;
        v.clear();
        if (!ref<std::uint32_t>::dec(i, n))
            return false;
        for (std::uint32_t k = 0; k < n; ++k)
        {
            A a{};
            if (!ref<A>::dec(i, a))
                return false;
            v.push_back(a);
        }
        return true;
    }
    static std::vector<T> dom() { return sequences<T, A>(2); }
};
template <typename A>
struct ref<std::set<A>>
{
    using T = std::set<A>;
    static void enc(bytes& o, const T& v)
    {
        enc_size(o, v.size());
        for (auto& e : v)
            ref<A>::enc(o, e);
    }
    static bool dec(in& i, T& v)
    {
        std::vector<A> t;
        v.clear();
        if (!ref<std::vector<A>>::dec(i, t))
            return false;
        v.insert(t.begin(), t.end());
        return true;
    }
    static std::vector<T> dom()
    {
        std::vector<T> r;
        for (auto& s : sequences<T, A>(2))
            r.push_back(T(s.begin(), s.end()));
        return r;
    }
};
template <typename K, typename V>
struct ref<std::map<K, V>>
{
    using T = std::map<K, V>;
    static void enc(bytes& o, const T& v)
    {
        enc_size(o, v.size());
        for (auto& [k, e] : v)
        {
            ref<K>::enc(o, k);
            ref<V>::enc(o, e);
        }
    }
    static bool dec(in& i, T& v)
    {
        std::vector<std::pair<K, V>> t;
        v.clear();
        if (!ref<std::vector<std::pair<K, V>>>::dec(i, t))
            return false;
        for (auto& e : t)
            v.insert(e);
        return true;
    }
    static std::vector<T> dom()
    {
        std::vector<T> r;
        auto ks = sequences<T, K>(2);
        auto vs = ref<V>::dom();
        for (auto& s : ks)
            for (std::size_t rot = 0; rot < vs.size(); ++rot)
            {
                T m;
                std::size_t n = rot;
                for (auto& k : s)
                    m[k] = vs[n++ % vs.size()];
                r.push_back(m);
            }
        return r;
    }
};
template <typename... A>
struct ref<std::variant<A...>>
{
    using T = std::variant<A...>;
    static void enc(bytes& o, const T& v)
    {
        o.push_back((char)v.index());
        std::visit([&](auto& e) { ref<std::decay_t<decltype(e)>>::enc(o, e); }, v);
    }
    template <std::size_t I = 0>
    static bool dec_at(in& i, T& v, std::size_t want)
    {
        if constexpr (I < sizeof...(A))
        {
            if (want == I)
            {
                std::variant_alternative_t<I, T> e{};
                if (!ref<decltype(e)>::dec(i, e))
                    return false;
                v.template emplace<I>(e);
                return true;
            }
            return dec_at<I + 1>(i, v, want);
        }
        else
            return false;
    }
    static bool dec(in& i, T& v)
    {
        std::uint8_t k;
        return ref<std::uint8_t>::dec(i, k) && dec_at(i, v, k);
    }
    static std::vector<T> dom()
    {
        std::vector<T> r;
        auto add = [&](auto vals) {
            for (auto&& e : vals)
                r.push_back(T{static_cast<typename decltype(vals)::value_type>(e)});
        };
        (add(ref<A>::dom()), ...);
        return r;
    }
};
template <>
struct ref<point>
{
    static void enc(bytes& o, const point& v)
    {
        ref<std::int16_t>::enc(o, v.x);
        ref<std::string>::enc(o, v.name);
        ref<std::optional<std::uint8_t>>::enc(o, v.z);
    }
    static bool dec(in& i, point& v)
    {
        return ref<std::int16_t>::dec(i, v.x) && ref<std::string>::dec(i, v.name) &&
               ref<std::optional<std::uint8_t>>::dec(i, v.z);
    }
    static std::vector<point> dom()
    {
        std::vector<point> r;
        for (auto& n : ref<std::string>::dom())
            for (auto& z : {std::optional<std::uint8_t>{}, std::optional<std::uint8_t>{200}})
                r.push_back({std::int16_t(-300), n, z});
        return r;
    }
};
template <boost::endian::order O, typename U, std::size_t N, boost::endian::align Al>
struct ref<boost::endian::endian_arithmetic<O, U, N, Al>>
{
    using T = boost::endian::endian_arithmetic<O, U, N, Al>;
    static void enc(bytes& o, const T& t)
    {
        auto v = static_cast<std::uint64_t>(t.value());
        for (std::size_t k = 0; k < N / 8; ++k)
            o.push_back(char(v >> 8 * (O == boost::endian::order::big ? N / 8 - 1 - k : k)));
    }
    static bool dec(in& i, T& t)
    {
        if (i.left() < N / 8)
            return false;
        std::uint64_t v = 0;
        for (std::size_t k = 0; k < N / 8; ++k)
            v |= std::uint64_t((unsigned char)i.b[i.pos + k])
                 << 8 * (O == boost::endian::order::big ? N / 8 - 1 - k : k);
        i.pos += N / 8;
        t = static_cast<U>(v);
        return true;
    }
    static std::vector<T> dom() { return {T(U(0)), T(U(1)), T(U(0x1234)), T(U(0xfe))}; }
};

template <typename T>
const char* type_name()
{
    return __PRETTY_FUNCTION__;
}
using big16 = boost::endian::big_uint16_t;
using lit32 = boost::endian::little_uint32_t;
using big32 = boost::endian::big_int32_t;

template <typename... T>
struct types
{
    static constexpr int n = sizeof...(T);
    template <typename F>
    static void at(int i, F&& f)
    {
        int k = 0;
        ((k++ == i ? (f(static_cast<T*>(nullptr)), 0) : 0), ...);
    }
};
using V1 = std::variant<std::uint8_t, std::string, std::vector<std::uint16_t>>;
#if CHUNK == 0
using all_types = types<std::uint8_t,
                        std::uint32_t,
                        bool,
                        char,
                        std::vector<std::int64_t>,
                        std::vector<std::optional<std::uint8_t>>,
                        std::optional<std::vector<std::uint8_t>>,
                        std::pair<std::vector<std::uint8_t>, std::optional<std::string>>,
                        std::map<std::string, std::vector<std::string>>,
                        std::set<std::string>,
                        std::variant<std::optional<std::uint8_t>, std::map<std::uint8_t, std::uint8_t>>,
                        big16,
                        std::pair<big32, lit32>,
                        std::map<std::string, point>,
                        std::vector<std::map<std::uint8_t, std::optional<std::string>>>>;
#elif CHUNK == 1
using all_types = types<std::int8_t,
                        std::int32_t,
                        float,
                        std::string,
                        std::vector<color>,
                        std::vector<std::pair<std::uint8_t, std::string>>,
                        std::optional<std::optional<std::uint8_t>>,
                        std::map<std::uint8_t, std::string>,
                        std::map<std::uint8_t, std::map<std::uint8_t, std::uint8_t>>,
                        std::set<std::pair<std::uint8_t, std::uint8_t>>,
                        std::vector<V1>,
                        lit32,
                        point,
                        std::vector<double>>;
#elif CHUNK == 2
using all_types = types<std::uint16_t,
                        std::uint64_t,
                        double,
                        std::vector<std::uint8_t>,
                        std::vector<std::string>,
                        std::optional<std::uint16_t>,
                        std::pair<std::uint8_t, std::uint32_t>,
                        std::map<std::string, std::uint32_t>,
                        std::set<std::uint8_t>,
                        V1,
                        std::map<std::uint8_t, V1>,
                        big32,
                        std::vector<point>,
                        std::set<std::vector<std::uint8_t>>>;
#elif CHUNK == 3
using all_types = types<std::int16_t,
                        std::int64_t,
                        color,
                        std::vector<std::uint16_t>,
                        std::vector<std::vector<std::uint16_t>>,
                        std::optional<std::string>,
                        std::pair<std::string, std::string>,
                        std::map<std::uint16_t, std::uint16_t>,
                        std::set<std::uint32_t>,
                        std::variant<std::string, std::uint16_t, bool>,
                        std::optional<V1>,
                        std::vector<big16>,
                        std::optional<point>,
                        std::vector<std::set<std::uint16_t>>>;
#endif

// exactly sized heap copy: ASan reports any access outside
struct exact
{
    std::byte* p;
    std::size_t n;
    explicit exact(const bytes& b) : p(static_cast<std::byte*>(std::malloc(b.size() ? b.size() : 1))), n(b.size())
    {
        std::memcpy(p, b.data(), n);
        if (!n)
        {
            std::free(p);
            p = nullptr;
        }
    }
    explicit exact(std::size_t n, int fill) : exact(bytes(n, (char)fill)) {}
    ~exact() { std::free(p); }
    gsl::span<const std::byte> cspan() const { return {p, n}; }
    gsl::span<std::byte> span() { return {p, n}; }
    bytes str() const { return n ? bytes(reinterpret_cast<const char*>(p), n) : bytes(); }
};

template <typename T>
bytes encode(const T& v)
{
    bytes o;
    ref<T>::enc(o, v);
    return o;
}
template <typename T>
bool same(const T& a, const T& b)
{
    return encode(a) == encode(b);
}

#if PART == 14
// ---- C14 -------------------------------------------------------------------------------------------
template <typename T>
void roundtrip()
{
    static const auto dom = ref<T>::dom();
    int vi = mc::choose((int)dom.size(), "value");
    const T& v = dom[vi];
    bytes want = encode(v);
    int offset = mc::choose(3, "offset");
    int slack = mc::choose(2, "slack");
    exact buf(offset + want.size() + slack * 5, 0xEE);
    {
        kl::binary_writer w{buf.span()};
        w.skip(offset);
        w << v;
        MC_CHECK(!w.err(), "%s: value %d does not fit in the %zu bytes of its encoding", type_name<T>(), vi, want.size());
        MC_CHECK(w.pos() == offset + want.size(), "%s: wrote %zu bytes, expected %zu", type_name<T>(),
                 w.pos() - offset, want.size());
        MC_CHECK(w.left() == std::size_t(slack) * 5 && w.empty() == !slack, "left()/empty() wrong");
        MC_CHECK(buf.str() == bytes(offset, '\xEE') + want + bytes(slack * 5, '\xEE'),
                 "%s: value %d is written as %s, expected %s", type_name<T>(), vi, mc::hex(buf.str()).c_str(),
                 mc::hex(want).c_str());
    }
    mc::transition(2);
    // into every other value of the domain: what was there before must be replaced
    for (int k = -1; k < (int)dom.size() && k < 24; ++k)
    {
        kl::binary_reader r{buf.cspan()};
        r.skip(offset);
        T got = k < 0 ? T{} : dom[k];
        bool ok = r.read(got);
        MC_CHECK(ok && !r.err(), "%s: reading back value %d failed", type_name<T>(), vi);
        MC_CHECK(same(got, v), "%s: value %d read back as %s, expected %s", type_name<T>(), vi,
                 mc::hex(encode(got)).c_str(), mc::hex(want).c_str());
        MC_CHECK(r.pos() == offset + want.size(), "%s: reading consumed %zu of %zu bytes", type_name<T>(),
                 r.pos() - offset, want.size());
        mc::transition();
    }
    {
        kl::binary_reader r{buf.cspan()};
        r.skip(offset);
        T got = r.template read<T>();
        MC_CHECK(same(got, v), "%s: read<T>() returned another value", type_name<T>());
        kl::binary_reader r2{buf.cspan()};
        r2.skip(offset);
        T got2{};
        r2 >> got2;
        MC_CHECK(!r2.err() && same(got2, v), "%s: operator>> produced another value", type_name<T>());
    }
    mc::state(mc::hasher{}.s(want).s(type_name<T>()));
    mc::outcome(mc::hasher{}.s(want).s(type_name<T>()));
    if (mc::want_sample())
        mc::sample(std::string(type_name<T>()) + " -> " + mc::hex(want));
}
void c14()
{
    int t = mc::choose(all_types::n, "type");
    all_types::at(t, [](auto* p) { roundtrip<std::remove_pointer_t<decltype(p)>>(); });
}
MC_SCENARIO("C14", "every type and value, offset, slack, types " MC_STR(CHUNK), c14, 1);

#endif
#if PART == 14 && CHUNK == 0
// several values of different types back to back
void c14_mixed()
{
    bytes want;
    std::vector<int> kinds, vals;
    exact buf(512, 0);
    kl::binary_writer w{buf.span()};
    using mixed = types<std::uint8_t, std::uint32_t, std::string, std::vector<std::uint16_t>,
                        std::optional<std::string>, V1, std::map<std::uint8_t, std::string>, point, std::set<std::uint8_t>>;
    int n = mc::thorough() ? 4 : 3;
    for (int i = 0; i < n; ++i)
    {
        int k = mc::choose(mixed::n, "type");
        mixed::at(k, [&](auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            static const auto d = ref<T>::dom();
            int few = (int)std::min<std::size_t>(d.size(), 4);
            int v = mc::choose(few, "value");
            v = v * (int)(d.size() - 1) / std::max(1, few - 1);
            kinds.push_back(k);
            vals.push_back(v);
            w << d[v];
            ref<T>::enc(want, d[v]);
        });
    }
    MC_CHECK(!w.err() && w.pos() == want.size() && buf.str().substr(0, want.size()) == want,
             "a sequence of writes differs from the concatenated encodings");
    kl::binary_reader r{gsl::span<const std::byte>{buf.p, w.pos()}};
    std::size_t pos = 0;
    for (int i = 0; i < n; ++i)
        mixed::at(kinds[i], [&](auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            static const auto d = ref<T>::dom();
            T got{};
            r >> got;
            MC_CHECK(!r.err() && same(got, d[vals[i]]), "value %d of the sequence read back wrongly", i);
            pos += encode(got).size();
            MC_CHECK(r.pos() == pos, "cursor is at %zu after value %d, expected %zu", r.pos(), i, pos);
        });
    MC_CHECK(r.empty() && r.left() == 0, "input left over");
    mc::transition(2 * n);
    mc::state(mc::hasher{}.s(want));
    mc::outcome(mc::hasher{}.s(want));
}
MC_SCENARIO("C14", "sequences of values", c14_mixed, 2);

void c14_large()
{
    // element counts around every width a length could be truncated to
    static const int sizes[] = {127, 128, 254, 255, 256, 257, 511, 512, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 70001};
    int n = sizes[mc::choose(16, "elements")];
    int k = mc::choose(7, "type");
    auto go = [&](auto v) {
        using T = decltype(v);
        bytes want = encode(v);
        exact buf(want.size(), 0);
        kl::binary_writer w{buf.span()};
        w << v;
        MC_CHECK(!w.err() && w.pos() == want.size() && buf.str() == want, "%s with %d elements is written wrongly",
                 type_name<T>(), n);
        kl::binary_reader r{buf.cspan()};
        T got{};
        MC_CHECK(r.read(got) && r.empty() && got == v, "%s with %d elements is read back wrongly", type_name<T>(), n);
        kl::binary_reader cut{gsl::span<const std::byte>{buf.p, buf.n - 1}};
        MC_CHECK(!cut.read(got) && cut.err(), "%s with %d elements: truncated input accepted", type_name<T>(), n);
        exact small(want.size() - 1, 0xEE);
        kl::binary_writer ws{small.span()};
        ws << v;
        MC_CHECK(ws.err(), "%s with %d elements: overflow not reported", type_name<T>(), n);
        mc::transition(4);
        mc::state(mc::hasher{}.s(want).s(type_name<T>()));
        mc::outcome(mc::hasher{}.s(want).s(type_name<T>()));
        mc::progress();
    };
    if (k == 0)
        go(std::string(n, 'x'));
    else if (k == 1)
        go(std::vector<std::uint8_t>(n, 7));
    else if (k == 2)
        go(std::vector<std::uint32_t>(n, 0x01020304));
    else if (k == 3)
        go(std::vector<std::string>(n, "ab"));
    else if (k == 4)
    {
        std::map<std::uint32_t, std::uint8_t> m;
        for (int i = 0; i < n; ++i)
            m[i] = std::uint8_t(i);
        go(m);
    }
    else if (k == 5)
    {
        std::set<std::uint32_t> m;
        for (int i = 0; i < n; ++i)
            m.insert(i);
        go(m);
    }
    else
        go(std::optional<std::pair<std::string, std::vector<std::uint16_t>>>{{std::string(n, 'y'), std::vector<std::uint16_t>(n, 3)}});
}
MC_SCENARIO("C14", "large containers", c14_large, 2);

void c14_spans()
{
    // raw values, spans of trivially copyable elements, typed buffers
    int n = mc::choose(6, "elements");
    int kind = mc::choose(4, "kind");
    std::vector<std::uint16_t> src(n);
    for (int i = 0; i < n; ++i)
        src[i] = std::uint16_t(0x0102 * (i + 1));
    bytes want(reinterpret_cast<const char*>(src.data()), n * 2);
    exact buf(n * 2 + 1, 0xCC);
    kl::binary_writer w{buf.span()};
    if (kind == 0)
        w << gsl::span<const std::uint16_t>{src};
    else if (kind == 1)
        w.write_span(gsl::span<const std::uint16_t>{src});
    else
        for (auto v : src)
            MC_CHECK(kind == 2 ? w.write_raw(v) : (w << v, true), "write_raw failed");
    MC_CHECK(!w.err() && w.pos() == want.size() && buf.str() == want + '\xCC', "span written wrongly");
    std::vector<std::uint16_t> dst(n, 0xDEAD);
    kl::binary_reader r{buf.cspan()};
    if (kind == 0)
        r >> gsl::span<std::uint16_t>{dst};
    else if (kind == 1)
        MC_CHECK(r.read_span(gsl::span<std::uint16_t>{dst}), "read_span failed");
    else if (kind == 2)
        for (auto& v : dst)
        {
            std::uint16_t p = 0;
            MC_CHECK(r.peek(p) && r.peek<std::uint16_t>() == p, "peek failed");
            auto at = r.pos();
            MC_CHECK(r.read_raw(v) && v == p && r.pos() == at + 2, "read_raw differs from peek");
        }
    else
    {
        auto s = r.span(n * 2, false);
        MC_CHECK(r.pos() == 0 && s.size() == std::size_t(n * 2), "span() without moving");
        s = r.span(n * 2);
        MC_CHECK(r.pos() == std::size_t(n * 2) && (n == 0 || s.data() == buf.p), "span() does not view the buffer");
        if (n)
            std::memcpy(dst.data(), s.data(), n * 2);
    }
    MC_CHECK(!r.err() && dst == src && r.left() == 1, "span read back wrongly");
    // typed (non-byte) buffers
    std::vector<std::uint32_t> typed(n, 0);
    kl::binary_writer w2{gsl::span<std::uint32_t>{typed}};
    MC_CHECK(w2.left() == std::size_t(n) * 4, "typed buffer has %zu bytes", w2.left());
    for (int i = 0; i < n; ++i)
        w2 << std::uint32_t(i * 0x01010101u);
    kl::binary_reader r2{gsl::span<const std::uint32_t>{typed}};
    for (int i = 0; i < n; ++i)
        MC_CHECK(r2.read<std::uint32_t>() == i * 0x01010101u && !r2.err(), "typed buffer read back wrongly");
    MC_CHECK(r2.empty(), "typed buffer not consumed");
    mc::transition(2);
    mc::state(n * 10 + kind + 1);
    mc::outcome(n * 10 + kind + 1);
}
MC_SCENARIO("C14", "spans and raw values", c14_spans, 1);

#endif
#if PART == 15
// ---- C15 -------------------------------------------------------------------------------------------
template <typename T>
bool is_empty_after_error(const T&)
{
    return true;
}
template <typename A>
bool is_empty_after_error(const std::vector<A>& v)
{
    return v.empty();
}
template <typename A>
bool is_empty_after_error(const std::set<A>& v)
{
    return v.empty();
}
template <typename A, typename B>
bool is_empty_after_error(const std::map<A, B>& v)
{
    return v.empty();
}
bool is_empty_after_error(const std::string& v) { return v.empty(); }

// booleans only have two valid representations; other bytes are outside of what can be decoded
template <typename T>
constexpr bool holds_bool = false;
template <>
constexpr bool holds_bool<bool> = true;
template <typename... A>
constexpr bool holds_bool<std::variant<A...>> = (holds_bool<A> || ...);

template <typename T>
void feed(const bytes& input)
{
    if constexpr (holds_bool<T>)
        return;
    else
    {
        exact buf(input);
        in i{input};
        T want{};
        bool ok = ref<T>::dec(i, want);
        T got{};
        g_largest_alloc = 0;
        kl::binary_reader r{buf.cspan()};
        bool res = r.read(got);
        MC_CHECK(g_largest_alloc <= 256 * input.size() + 4096,
                 "%s: reading %zu bytes of input allocated a block of %zu bytes [%s]", type_name<T>(), input.size(),
                 g_largest_alloc, mc::hex(input).c_str());
        MC_CHECK(res == !r.err(), "%s: the result of read() contradicts err()", type_name<T>());
        MC_CHECK(r.pos() <= input.size() && r.left() == input.size() - r.pos(), "%s: cursor outside of the input",
                 type_name<T>());
        MC_CHECK(res == ok, "%s: reading %s %s, expected %s", type_name<T>(), mc::hex(input).c_str(),
                 res ? "succeeded" : "failed", ok ? "success" : "failure");
        mc::transition();
        mc::trace();
        if (ok)
        {
            mc::count("decoded");
            MC_CHECK(same(got, want) && r.pos() == i.pos, "%s: %s decoded as %s (%zu bytes), expected %s (%zu bytes)",
                     type_name<T>(), mc::hex(input).c_str(), mc::hex(encode(got)).c_str(), r.pos(),
                     mc::hex(encode(want)).c_str(), i.pos);
        }
        else
        {
            mc::count("refused");
            MC_CHECK(is_empty_after_error(got), "%s: container not empty after a failed read", type_name<T>());
            // sticky: nothing can be read any more, the cursor does not move, destinations stay put
            auto at = r.pos();
            std::uint8_t b = 0x5A;
            MC_CHECK(!r.read(b) && b == 0x5A && r.err() && r.pos() == at, "%s: the reader recovered from an error",
                     type_name<T>());
            r >> b;
            MC_CHECK(b == 0x5A && r.err() && r.pos() == at, "%s: operator>> read after an error", type_name<T>());
            T again{};
            MC_CHECK(!r.read(again) && r.err() && r.pos() == at, "%s: read after an error", type_name<T>());
            r >> again;
            MC_CHECK(r.err() && r.pos() == at && is_empty_after_error(again), "%s: operator>> after an error", type_name<T>());
            MC_CHECK(r.span(0).empty() && r.span(1).empty() && !r.peek(b) && b == 0x5A, "view or peek after an error");
            r.skip(0);
            r.skip(-1);
            MC_CHECK(r.err() && r.pos() == at, "skip moved the cursor after an error");
        }
        mc::hasher h;
        h.u(ok).s(input).s(type_name<T>());
        mc::state(h);
    }
}

void c15_mutations()
{
    // every truncation and every single-byte replacement of every valid encoding
    int t = mc::choose(all_types::n, "type");
    all_types::at(t, [](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        static const auto dom = [] {
            auto d = ref<T>::dom();
            if (d.size() > 40 && !mc::thorough())
                d.resize(40);
            return d;
        }();
        const T& v = dom[mc::choose((int)dom.size(), "value")];
        bytes b = encode(v);
        for (std::size_t n = 0; n <= b.size(); ++n)
            feed<T>(b.substr(0, n));
        feed<T>(b + '\xff');
        for (std::size_t k = 0; k < b.size(); ++k)
            for (int x = 0; x < 256; ++x)
            {
                // beyond the first 24 bytes of an encoding (string contents): a few values only
                if (k >= 24 && x > 3 && x < 254)
                    continue;
                bytes m = b;
                m[k] = (char)x;
                feed<T>(m);
                if (x == 0xff || x == 0x7f)
                {
                    // also with the following bytes saturated: huge lengths
                    for (std::size_t l = k + 1; l < b.size() && l < k + 4; ++l)
                        m[l] = (char)0xff;
                    feed<T>(m);
                }
            }
        mc::progress();
    });
}
MC_SCENARIO("C15", "truncations and corruptions of valid input, types " MC_STR(CHUNK), c15_mutations, 2);

#endif
#if PART == 15 && CHUNK == 3
void c15_arbitrary()
{
    // every byte string up to a length over an alphabet that contains all structural values
    static const unsigned char al[] = {0, 1, 2, 3, 0x41, 0x80, 0xff};
    const int max_len = mc::thorough() ? 9 : 7;
    using targets = types<std::string, std::vector<std::uint8_t>, std::vector<std::uint16_t>, std::vector<std::string>,
                          std::optional<std::uint16_t>, std::optional<std::string>, std::pair<std::uint8_t, std::string>,
                          std::map<std::uint8_t, std::uint8_t>, std::set<std::uint8_t>, V1,
                          std::variant<std::optional<std::uint8_t>, std::map<std::uint8_t, std::uint8_t>>,
                          std::vector<std::optional<std::uint8_t>>, std::vector<V1>, point, big16, std::uint32_t,
                          std::vector<std::vector<std::uint16_t>>, std::map<std::string, std::uint32_t>>;
    int t = mc::choose(targets::n, "type");
    int len = mc::choose(max_len + 1, "length");
    int first = len ? mc::choose(7, "first byte") : 0;
    targets::at(t, [&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        bytes b(len, '\0');
        std::uint64_t total = 1;
        for (int i = 1; i < len; ++i)
            total *= 7;
        for (std::uint64_t k = 0; k < total; ++k)
        {
            std::uint64_t v = k;
            for (int i = 1; i < len; ++i, v /= 7)
                b[i] = (char)al[v % 7];
            if (len)
                b[0] = (char)al[first];
            feed<T>(b);
            if ((k & 1023) == 0)
                mc::progress();
        }
    });
}
MC_SCENARIO("C15", "arbitrary short inputs", c15_arbitrary, 3);

#endif
#if PART == 15 && CHUNK == 2
void c15_structured()
{
    // length prefix (all interesting values) + arbitrary short tail
    static const std::uint32_t sizes[] = {0, 1, 2, 3, 4, 5, 8, 9, 255, 256, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu,
                                          0x40000000u, 0x20000001u, 0x10000000u};
    using targets = types<std::string, std::vector<std::uint8_t>, std::vector<std::uint16_t>, std::vector<std::uint32_t>,
                          std::vector<std::int64_t>, std::vector<std::string>, std::vector<std::vector<std::uint16_t>>,
                          std::map<std::uint8_t, std::string>, std::map<std::string, std::uint32_t>,
                          std::set<std::string>, std::vector<point>, std::vector<V1>, std::vector<double>,
                          std::vector<std::pair<std::uint8_t, std::string>>>;
    int t = mc::choose(targets::n, "type");
    int s1 = mc::choose(17, "length");
    targets::at(t, [&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        for (auto s2 : sizes)
            for (int pad = 0; pad < 24; ++pad)
                for (int lead = 0; lead < 3; ++lead)
                {
                    bytes b;
                    enc_size(b, sizes[s1]);
                    b.append(lead, '\1');
                    enc_size(b, s2);
                    b.append(pad, '\0');
                    feed<T>(b);
                }
        mc::progress();
    });
}
MC_SCENARIO("C15", "hostile lengths", c15_structured, 2);

#endif
#if PART != 14 && CHUNK == 0
// programs over the cursor interface, reader and writer share the model
struct cursor_model
{
    std::size_t size, pos = 0;
    bool err = false;
    std::size_t left() const { return size - pos; }
    bool take(std::size_t n)
    {
        if (err || n > left())
        {
            err = true;
            return false;
        }
        pos += n;
        return true;
    }
    void skip(std::ptrdiff_t off)
    {
        if ((off > 0 && (std::size_t)off > left()) || (off < 0 && (off < -(std::ptrdiff_t)pos)))
            err = true;
        if (!err)
            pos += off;
    }
};
const std::ptrdiff_t skips[] = {0, 1, 2, 3, -1, -2, -5, 100, std::numeric_limits<std::ptrdiff_t>::max(),
                                std::numeric_limits<std::ptrdiff_t>::min(), std::numeric_limits<std::ptrdiff_t>::min() + 1};

template <typename C>
void check_cursor(const C& c, const cursor_model& m, const char* what)
{
    MC_CHECK(c.err() == m.err, "%s: err() is %d, expected %d", what, c.err(), m.err);
    MC_CHECK(c.pos() == m.pos && c.left() == m.left() && c.empty() == (m.left() == 0),
             "%s: cursor at %zu with %zu left, expected %zu and %zu", what, c.pos(), c.left(), m.pos, m.left());
}

// a reservation of more than 2^32 bytes that costs no memory as long as nobody writes to it
std::byte* huge_region()
{
    static std::byte* p = [] {
        void* q = ::mmap(nullptr, (std::size_t{1} << 32) + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return q == MAP_FAILED ? nullptr : static_cast<std::byte*>(q);
    }();
    return p;
}
const std::size_t big_counts[] = {0, 1, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131072,
                                  // do not fit the buffer, whatever their low 16 or 32 bits say
                                  262144, std::size_t{1} << 31, (std::size_t{1} << 32) - 1, std::size_t{1} << 32,
                                  (std::size_t{1} << 32) + 1, (std::size_t{1} << 32) + 256};
constexpr int n_big = 18, n_fit = 12;
const std::size_t big_buffer = 200000;

#endif
#if PART == 15 && CHUNK == 0
void reader_big()
{
    static const bytes data = [] {
        bytes d;
        for (std::size_t i = 0; i < big_buffer; ++i)
            d.push_back(char((i * 131) ^ (i >> 8) ^ (i >> 15)));
        return d;
    }();
    exact buf(data);
    kl::binary_reader r{buf.cspan()};
    cursor_model m{data.size()};
    auto* region = huge_region();
    if (!region)
        mc::skip();
    const int depth = mc::thorough() ? 3 : 2;
    for (int d = 0; d < depth; ++d)
    {
        int o = mc::choose(6, "op");
        std::size_t k = big_counts[mc::choose(n_big, "size")];
        mc::transition();
        auto at = m.pos;
        if (o == 0 || o == 1)
        {
            auto keep = m;
            bool want = m.take(k);
            if (o == 1 && want)
                m = keep;
            auto s = r.span(k, o == 0);
            MC_CHECK(s.size() == (want ? k : 0), "span(%zu) at %zu of %zu has %zu bytes", k, at, data.size(), (std::size_t)s.size());
            MC_CHECK(!want || s.data() == buf.p + at, "span(%zu) at %zu starts elsewhere", k, at);
        }
        else if (o == 2)
        {
            bool want = m.take(k);
            MC_CHECK(r.read_span(gsl::span<std::byte>{region, k}) == want, "read_span(%zu) at %zu of %zu", k, at, data.size());
            MC_CHECK(!want || std::memcmp(region, data.data() + at, k) == 0, "read_span(%zu) at %zu reads other bytes", k, at);
        }
        else if (o == 3)
        {
            // elements of four bytes: the number of bytes is what counts
            bool want = m.take(k / 4 * 4);
            r >> gsl::span<std::uint32_t>{reinterpret_cast<std::uint32_t*>(region), k / 4};
            MC_CHECK(!want || std::memcmp(region, data.data() + at, k / 4 * 4) == 0, "read of %zu words at %zu reads other bytes", k / 4, at);
        }
        else
        {
            auto off = o == 4 ? (std::ptrdiff_t)k : -(std::ptrdiff_t)k;
            r.skip(off);
            m.skip(off);
        }
        check_cursor(r, m, "reader");
        if (!m.err && m.left())
        {
            std::uint8_t next = 0;
            MC_CHECK(r.peek(next) && (char)next == data[m.pos], "the byte at %zu is read as %d", m.pos, next);
        }
        mc::progress();
    }
    mc::hasher h;
    h.u(m.pos).u(m.err);
    mc::state(h);
    mc::outcome(h);
}
MC_SCENARIO("C15", "large requests", reader_big, 2);

void reader_program()
{
    int n = mc::choose(6, "buffer size");
    bytes data;
    for (int i = 0; i < n; ++i)
        data.push_back(char(0x10 + i));
    exact buf(data);
    kl::binary_reader r{buf.cspan()};
    cursor_model m{(std::size_t)n};
    const int depth = mc::thorough() ? 6 : 5;
    for (int d = 0; d < depth; ++d)
    {
        int o = mc::choose(24, "op");
        mc::transition();
        auto raw = [&](auto& dst, auto fn, const char* what) {
            auto before = dst;
            auto at = m.pos;
            bool want = m.take(sizeof dst);
            bool got = fn(dst);
            MC_CHECK(got == want, "%s returned %d, expected %d", what, got, want);
            if (want)
                MC_CHECK(!std::memcmp(&dst, data.data() + at, sizeof dst), "%s produced other bytes", what);
            else
                MC_CHECK(!std::memcmp(&dst, &before, sizeof dst), "%s failed but changed its destination", what);
        };
        std::uint8_t a = 0xA5;
        std::uint16_t b = 0xA5A5;
        std::uint32_t c = 0xA5A5A5A5u;
        if (o == 0)
            raw(a, [&](auto& x) { return r.read(x); }, "read(u8)");
        else if (o == 1)
            raw(b, [&](auto& x) { return r.read_raw(x); }, "read_raw(u16)");
        else if (o == 2)
            raw(c, [&](auto& x) { r >> x; return !r.err(); }, "operator>>(u32)");
        else if (o == 3)
        {
            bool fits = !m.err && m.left() >= 2;
            bool got = r.peek(b);
            MC_CHECK(got == fits && (fits ? !std::memcmp(&b, data.data() + m.pos, 2) : b == 0xA5A5), "peek(u16)");
        }
        else if (o == 4)
        {
            bool fits = !m.err && m.left() >= 1;
            auto v = r.peek<std::uint8_t>();
            MC_CHECK(v == (fits ? (std::uint8_t)data[m.pos] : 0), "peek<u8>() returned %u", v);
        }
        else if (o == 5 || o == 6)
        {
            std::size_t cnt = o == 5 ? 2 : 0;
            auto at = m.pos;
            bool want = m.take(cnt);
            auto s = r.span(cnt);
            MC_CHECK(s.size() == (want ? cnt : 0) && (!s.size() || s.data() == buf.p + at), "span(%zu)", cnt);
        }
        else if (o == 7)
        {
            bool fits = !m.err && m.left() >= 3;
            if (!fits)
                m.err = true;
            auto s = r.span(3, false);
            MC_CHECK(s.size() == (fits ? 3u : 0u) && (!fits || s.data() == buf.p + m.pos), "span(3, false)");
        }
        else if (o == 8)
        {
            m.err = true;
            auto s = r.span(std::numeric_limits<std::size_t>::max());
            MC_CHECK(s.empty(), "span(SIZE_MAX) is not empty");
        }
        else if (o == 9)
        {
            r.notify_error();
            m.err = true;
        }
        else if (o == 10)
        {
            std::uint8_t arr[3] = {9, 9, 9};
            auto at = m.pos;
            bool want = m.take(3);
            bool got = r.read_span(gsl::span<std::uint8_t>{arr});
            MC_CHECK(got == want && (want ? !std::memcmp(arr, data.data() + at, 3) : arr[0] == 9 && arr[2] == 9),
                     "read_span(3)");
        }
        else if (o == 11)
        {
            auto at = m.pos;
            bool want = m.take(2);
            auto v = r.read<std::uint16_t>();
            std::uint16_t e = 0;
            if (want)
                std::memcpy(&e, data.data() + at, 2);
            MC_CHECK(v == e, "read<u16>() returned %u, expected %u", v, e);
        }
        else if (o == 12)
        {
            kl::binary_reader copy = r; // independent cursor
            copy.skip(1);
            copy.notify_error();
        }
        else
        {
            r.skip(skips[o - 13]);
            m.skip(skips[o - 13]);
        }
        check_cursor(r, m, "reader");
    }
    mc::hasher h;
    h.u(n).u(m.pos).u(m.err);
    mc::state(h);
    mc::outcome(h);
}
MC_SCENARIO("C15", "reader programs", reader_program, 2);

#endif
#if PART == 16
// ---- C16 -------------------------------------------------------------------------------------------
void c16_sizes()
{
    int t = mc::choose(all_types::n, "type");
    all_types::at(t, [](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        static const auto dom = ref<T>::dom();
        const T& v = dom[mc::choose((int)dom.size(), "value")];
        bytes want = encode(v);
        for (std::size_t n = 0; n <= want.size() + 2; ++n)
        {
            exact buf(n, 0xEE);
            kl::binary_writer w{buf.span()};
            w << v;
            mc::transition();
            mc::trace();
            bytes out = buf.str();
            bool fits = n >= want.size();
            MC_CHECK(w.err() == !fits, "%s: err() is %d for a buffer of %zu and an encoding of %zu bytes",
                     type_name<T>(), w.err(), n, want.size());
            MC_CHECK(w.pos() <= n, "%s: cursor outside of the buffer", type_name<T>());
            MC_CHECK(out.substr(0, w.pos()) == want.substr(0, w.pos()),
                     "%s: the bytes written are not a prefix of the encoding", type_name<T>());
            MC_CHECK(out.substr(w.pos()) == bytes(n - w.pos(), '\xEE'), "%s: bytes beyond the cursor were changed",
                     type_name<T>());
            if (fits)
                MC_CHECK(w.pos() == want.size(), "%s: wrote %zu of %zu bytes", type_name<T>(), w.pos(), want.size());
            else
            {
                mc::count("overflow refused");
                auto at = w.pos();
                w << std::uint8_t(1);
                w << v;
                MC_CHECK(!w.write_raw(std::uint8_t(2)) && w.err() && w.pos() == at && buf.str() == out,
                         "%s: the writer wrote after an error", type_name<T>());
            }
        }
        mc::state(mc::hasher{}.s(want).s(type_name<T>()));
        mc::outcome(mc::hasher{}.s(want).s(type_name<T>()));
    });
}
MC_SCENARIO("C16", "every value into every buffer size, types " MC_STR(CHUNK), c16_sizes, 2);

#endif
#if PART == 16 && CHUNK == 0
void writer_big()
{
    exact buf(big_buffer, 0xEE);
    kl::binary_writer w{buf.span()};
    cursor_model m{big_buffer};
    bytes shadow(big_buffer, '\xEE');
    auto* region = huge_region();
    if (!region)
        mc::skip();
    const int depth = mc::thorough() ? 3 : 2;
    for (int d = 0; d < depth; ++d)
    {
        int o = mc::choose(4, "op");
        std::size_t k = big_counts[mc::choose(n_big, "size")];
        mc::transition();
        auto at = m.pos;
        for (std::size_t i = 0; i < big_buffer; ++i)
            region[i] = std::byte((i * 7) ^ (i >> 8) ^ (i >> 15) ^ (d << 6));
        if (o == 0 || o == 1)
        {
            std::size_t n = o == 0 ? k : k / 4 * 4;
            bool want = m.take(n);
            if (want && n)
                std::memcpy(&shadow[at], region, n);
            if (o == 0)
                MC_CHECK(w.write_span(gsl::span<const std::byte>{region, n}) == want, "write_span(%zu) at %zu of %zu", n, at, big_buffer);
            else
                w << gsl::span<const std::uint32_t>{reinterpret_cast<const std::uint32_t*>(region), n / 4};
        }
        else
        {
            auto off = o == 2 ? (std::ptrdiff_t)k : -(std::ptrdiff_t)k;
            w.skip(off);
            m.skip(off);
        }
        check_cursor(w, m, "writer");
        MC_CHECK(std::memcmp(buf.p, shadow.data(), big_buffer) == 0, "a request of %zu bytes at %zu leaves other bytes in the buffer", k, at);
        mc::progress();
    }
    mc::hasher h;
    h.u(m.pos).u(m.err).s(shadow);
    mc::state(h);
    mc::outcome(h);
}
MC_SCENARIO("C16", "large requests", writer_big, 2);

void writer_program()
{
    int n = mc::choose(8, "buffer size");
    exact buf(n, 0xEE);
    kl::binary_writer w{buf.span()};
    cursor_model m{(std::size_t)n};
    bytes shadow(n, '\xEE');
    const int depth = mc::thorough() ? 6 : 5;
    auto put = [&](const void* p, std::size_t k) {
        auto at = m.pos;
        bool ok = m.take(k);
        if (ok && k)
            std::memcpy(&shadow[at], p, k);
        return ok;
    };
    for (int d = 0; d < depth; ++d)
    {
        int o = mc::choose(18, "op");
        mc::transition();
        std::uint8_t a = std::uint8_t(0x11 * (d + 1));
        std::uint16_t b = std::uint16_t(0x1234 + d);
        std::uint32_t c = 0xC0DE0000u + d;
        if (o == 0)
        {
            bool want = put(&a, 1);
            MC_CHECK(w.write_raw(a) == want, "write_raw(u8)");
        }
        else if (o == 1)
        {
            put(&b, 2);
            w << b;
        }
        else if (o == 2)
        {
            put(&c, 4);
            w << c;
        }
        else if (o == 3)
        {
            std::uint8_t arr[3] = {a, a, 7};
            bool want = put(arr, 3);
            MC_CHECK(w.write_span(gsl::span<const std::uint8_t>{arr}) == want, "write_span(3)");
        }
        else if (o == 4)
        {
            bool want = put(nullptr, 0);
            MC_CHECK(w.write_span(gsl::span<const std::uint8_t>{}) == want, "write_span(0)");
        }
        else if (o == 5)
        {
            // length first, then contents: both or a prefix
            std::uint32_t len = 2;
            put(&len, 4);
            put("hi", 2);
            w << std::string("hi");
        }
        else if (o == 6)
        {
            w.notify_error();
            m.err = true;
        }
        else
        {
            w.skip(skips[o - 7]);
            m.skip(skips[o - 7]);
        }
        check_cursor(w, m, "writer");
        MC_CHECK(buf.str() == shadow, "buffer is %s, expected %s", mc::hex(buf.str()).c_str(), mc::hex(shadow).c_str());
    }
    mc::hasher h;
    h.u(n).u(m.pos).u(m.err).s(shadow);
    mc::state(h);
    mc::outcome(h);
}
MC_SCENARIO("C16", "writer programs", writer_program, 2);
#endif
} // namespace
