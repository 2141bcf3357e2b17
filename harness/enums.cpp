// C22 (flag sets and flag operators), C23 (enum <-> string), C24 (enum ranges and iterators).
#include "mc.hpp"
#include "kl/enum_range.hpp"
#include "kl/enum_reflector.hpp"
#include "kl/enum_set.hpp"
#include "kl/enum_traits.hpp"
#include "kl/iterator_facade.hpp"
#include "kl/reflect_enum.hpp"

#include <algorithm>
#include <array>
#include <cstring>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <vector>

// ---------------------------------------------------------------------------- enum types
namespace fl {
enum class u8 : std::uint8_t { a = 1, b = 2, c = 4, top = 128 };
enum class i8 : std::int8_t { a = 1, b = 2, neg = -128 };
enum class u16 : std::uint16_t { a = 1 };
enum class i16 : std::int16_t { a = 1 };
enum class u32 : std::uint32_t { a = 1 };
enum class i32 : std::int32_t { a = 1 };
enum class u64 : std::uint64_t { a = 1 };
enum class i64 : std::int64_t { a = 1 };
enum un : unsigned { ua = 1 };
} // namespace fl

#define FLAG(T) \
    template <> struct kl::enum_traits<fl::T> : kl::enum_trait_support_indexing, kl::enum_trait_support_bitmask, kl::enum_trait_support_bitshift { static constexpr bool support_range = false; };
FLAG(u8) FLAG(i8) FLAG(u16) FLAG(i16) FLAG(u32) FLAG(i32) FLAG(u64) FLAG(i64)

namespace {

// Unsigned 64-bit image of an underlying value; all oracles below work on bit vectors.
template <typename E> std::uint64_t bits(E e)
{
    std::uint64_t v = 0;
    std::memcpy(&v, &e, sizeof e);
    return v;
}
template <typename E> std::uint64_t mask() { return sizeof(E) == 8 ? ~0ull : (1ull << (8 * sizeof(E))) - 1; }
template <typename E> E mk(std::uint64_t v)
{
    E e;
    std::memcpy(&e, &v, sizeof e);
    return e;
}
template <typename E> std::int64_t sval(E e)   // the mathematical value for signed types
{
    std::uint64_t v = bits(e);
    unsigned w = 8 * sizeof(E);
    if (w < 64 && (v >> (w - 1)) & 1)
        v |= ~mask<E>();
    return (std::int64_t)v;
}
template <typename E> bool less(E a, E b)
{
    if (std::is_signed_v<std::underlying_type_t<E>>)
        return sval(a) < sval(b);
    return bits(a) < bits(b);
}

template <typename E> std::vector<std::uint64_t> operands()
{
    std::vector<std::uint64_t> v;
    if (sizeof(E) == 1)
    {
        for (int i = 0; i < 256; ++i)
            v.push_back(i);
        return v;
    }
    std::set<std::uint64_t> s{0, mask<E>(), 3, 5, 0x55555555'55555555ull & mask<E>(), 0xAAAAAAAA'AAAAAAAAull & mask<E>(),
                              mask<E>() >> 1, 0x00ff00ff'00ff00ffull & mask<E>(), 0xff00ff00'ff00ff00ull & mask<E>()};
    for (unsigned b = 0; b < 8 * sizeof(E); ++b)
    {
        s.insert(1ull << b);
        s.insert(~(1ull << b) & mask<E>());
        s.insert((1ull << b) - 1);
        if (mc::thorough())
            for (unsigned c = 0; c < b; ++c)
                s.insert((1ull << b) | (1ull << c));
    }
    for (auto x : s)
        v.push_back(x & mask<E>());
    return v;
}

#define EQ(expr, want)                                                                                              \
    do {                                                                                                            \
        auto got_ = (expr);                                                                                         \
        auto want_ = (want);                                                                                        \
        mc::transition();                                                                                           \
        if (!(got_ == want_))                                                                                       \
            mc::fail("%s: operands %#llx and %#llx: " #expr " is %#llx, expected %#llx", tn, (unsigned long long)x, \
                     (unsigned long long)y, (unsigned long long)got_, (unsigned long long)want_);                   \
    } while (0)

template <typename E> void flag_pair(const char* tn, std::uint64_t x, std::uint64_t y)
{
    using S = kl::enum_set<E>;
    const std::uint64_t M = mask<E>();
    const E a = mk<E>(x), b = mk<E>(y);
    const S A{a}, B{b};
    auto u = [](S s) { return bits(s.value()); };
    EQ(u(A), x);
    EQ(bits(A.underlying_value()), x);
    EQ(static_cast<bool>(A), x != 0);
    EQ(u(A | B), x | y);
    EQ(u(A & B), x & y);
    EQ(u(A ^ B), x ^ y);
    EQ(u(~A), ~x & M);
    EQ(u(A | b), x | y);
    EQ(u(A & b), x & y);
    EQ(u(A ^ b), x ^ y);
    EQ(u(a | B), x | y);
    EQ(u(a & B), x & y);
    EQ(u(a ^ B), x ^ y);
    EQ(A.test(b), (x & y) == y);
    EQ(A.has_all(b), (x & y) == y);
    EQ(A.has_all(B), (x & y) == y);
    EQ(A.has_any(b), (x & y) != 0);
    EQ(A.has_any(B), (x & y) != 0);
    EQ(A == B, x == y);
    EQ(A != B, x != y);
    EQ(A < B, less(a, b));
    EQ(A == b, x == y);
    EQ(A != b, x != y);
    EQ(A < b, less(a, b));
    EQ(a == B, x == y);
    EQ(a != B, x != y);
    EQ(a < B, less(a, b));
#define COMP(op, ref)                     \
    {                                     \
        S s = A;                          \
        S& r = (s op B);                  \
        EQ(&r == &s, true);               \
        EQ(u(s), ref);                    \
        EQ(u(B), y);                      \
        s = A;                            \
        S& q = (s op b);                  \
        EQ(&q == &s, true);               \
        EQ(u(s), ref);                    \
        S t = A; /* self */               \
        t op t;                           \
        EQ(u(t), #op[0] == '^' ? 0 : x);  \
    }
    COMP(|=, x | y)
    COMP(&=, x & y)
    COMP(^=, x ^ y)
#undef COMP
    EQ(u(S{}), 0ull);
}

template <typename E> void flag_ops_pair(const char* tn, std::uint64_t x, std::uint64_t y)
{
    const std::uint64_t M = mask<E>();
    const E a = mk<E>(x), b = mk<E>(y);
    EQ(bits(a | b), x | y);
    EQ(bits(a & b), x & y);
    EQ(bits(a ^ b), x ^ y);
    EQ(bits(~a), ~x & M);
    EQ(check_mask(a, b), (x & y) != 0);
#define COMP(op, ref)                    \
    {                                    \
        E s = a;                         \
        E& r = (s op b);                 \
        EQ(&r == &s, true);              \
        EQ(bits(s), ref);                \
        E t = a;                         \
        t op t;                          \
        EQ(bits(t), #op[0] == '^' ? 0 : x); \
    }
    COMP(|=, x | y)
    COMP(&=, x & y)
    COMP(^=, x ^ y)
#undef COMP
}

template <typename E> void flag_unary(const char* tn, std::uint64_t x)
{
    const std::uint64_t M = mask<E>();
    const std::uint64_t y = 0;
    const E a = mk<E>(x);
    constexpr bool sgn = std::is_signed_v<std::underlying_type_t<E>>;
    static_assert(std::is_same_v<decltype(+a), std::underlying_type_t<E>>);
    EQ(bits(+a), x);
    const bool maxed = x == (sgn ? M >> 1 : M);
    if (!maxed || !sgn)
    {
        E s = a;
        E& r = ++s;
        EQ(&r == &s, true);
        EQ(bits(s), (x + 1) & M);
        s = a;
        E old = s++;
        EQ(bits(old), x);
        EQ(bits(s), (x + 1) & M);
    }
    // shifts: only those that C++ defines (no negative operand, no bit lost in a promoted signed type)
    const int w = 8 * sizeof(E) < 32 ? 32 : 8 * sizeof(E);
    for (int n = 0; n < w; ++n)
    {
        const std::uint64_t y = n;
        bool neg = sgn && sval(a) < 0;
        if (!neg)
        {
            E s = a;
            EQ(bits(a >> n), n < 64 ? (x >> n) : 0);
            E& r = (s >>= n);
            EQ(&r == &s, true);
            EQ(bits(s), x >> n);
        }
        else   // the same value the underlying type gives, and the same in both forms
        {
            E s = a;
            const std::uint64_t want = (std::uint64_t)(sval(a) >> n) & M;
            EQ(bits(a >> n), want);
            E& r = (s >>= n);
            EQ(&r == &s, true);
            EQ(bits(s), want);
        }
        bool promoted_signed = sgn || sizeof(E) < 4;
        bool fits = !promoted_signed || (n == 0 || (x <= ((1ull << (w - 1)) - 1) >> n));
        if (!neg && fits)
        {
            E s = a;
            EQ(bits(a << n), (x << n) & M);
            E& r = (s <<= n);
            EQ(&r == &s, true);
            EQ(bits(s), (x << n) & M);
        }
    }
}

template <typename E> void flags(const char* tn)
{
    auto ops = operands<E>();
    int i = mc::choose((int)ops.size(), "left operand");
    if constexpr (!std::is_same_v<E, fl::un>)
        flag_unary<E>(tn, ops[i]);
    for (auto y : ops)
    {
        mc::trace();
        flag_pair<E>(tn, ops[i], y);
        if constexpr (!std::is_same_v<E, fl::un>)
            flag_ops_pair<E>(tn, ops[i], y);
        mc::state(mc::hasher{}.s(tn).u(ops[i]).u(y));
    }
    if (mc::want_sample())
        mc::sample(std::string(tn) + ": every operator with left operand " + std::to_string(ops[i]) + " and " + std::to_string(ops.size()) + " right operands");
    mc::count("operand pairs", ops.size());
}

// Programs of compound assignments on three sets: the value after every step is what the bit
// vectors say, and only the assigned set changed.
template <typename E> void flag_programs(const char* tn)
{
    using S = kl::enum_set<E>;
    const std::uint64_t M = mask<E>(), top = M ^ (M >> 1);
    const std::uint64_t lit[] = {0, 1, top, (top | 3)};
    S v[2];
    std::uint64_t m[2] = {0, 0};
    int steps = mc::thorough() ? 5 : 4;
    for (int k = 0; k < steps; ++k)
    {
        int op = mc::choose(5, "operation");
        if (op == 4)
            break;
        int dst = mc::choose(2, "target");
        int src = mc::choose(6, "operand");
        std::uint64_t o = src < 2 ? m[src] : lit[src - 2];
        S os = src < 2 ? v[src] : S{mk<E>(o)};
        mc::note("v%d op%d= %#llx", dst, op, (unsigned long long)o);
        switch (op)
        {
        case 0: src < 2 ? v[dst] |= os : v[dst] |= mk<E>(o); m[dst] |= o; break;
        case 1: src < 2 ? v[dst] &= os : v[dst] &= mk<E>(o); m[dst] &= o; break;
        case 2: src < 2 ? v[dst] ^= os : v[dst] ^= mk<E>(o); m[dst] ^= o; break;
        case 3: v[dst] = ~os; m[dst] = ~o & M; break;
        }
        mc::transition();
        for (int q = 0; q < 2; ++q)
            MC_CHECK(bits(v[q].value()) == m[q], "%s: after step %d set %d holds %#llx, expected %#llx", tn, k, q,
                     (unsigned long long)bits(v[q].value()), (unsigned long long)m[q]);
        MC_CHECK((v[0] == v[1]) == (m[0] == m[1]) && v[0].has_all(v[1]) == ((m[0] & m[1]) == m[1]) && v[0].has_any(v[1]) == ((m[0] & m[1]) != 0),
                 "%s: a query disagrees with the contents %#llx and %#llx", tn, (unsigned long long)m[0], (unsigned long long)m[1]);
        mc::state(mc::hasher{}.s(tn).u(m[0]).u(m[1]));
    }
}

using big = __int128;
std::string str(big v)
{
    bool n = v < 0;
    std::string s;
    do
    {
        int d = (int)(v % 10);
        s.insert(s.begin(), char('0' + (d < 0 ? -d : d)));
        v /= 10;
    } while (v);
    return n ? "-" + s : s;
}
template <typename E> big val(E e) { return (big)static_cast<std::underlying_type_t<E>>(e); }

// for_each_enum over every interval
template <typename E> void foreach_enum(const char* tn)
{
    using U = std::underlying_type_t<E>;
    int lo = mc::choose(256, "first") + std::numeric_limits<U>::min();
    for (int hi = std::numeric_limits<U>::min(); hi <= std::numeric_limits<U>::max(); ++hi)
    {
        std::vector<int> got;
        kl::for_each_enum(static_cast<E>(lo), static_cast<E>(hi), [&](E e) {
            got.push_back((int)static_cast<U>(e));
            if (got.size() > 300)
                mc::fail("%s: for_each_enum(%d, %d) does not end", tn, lo, hi);
        });
        mc::trace();
        mc::transition(got.size() + 1);
        MC_CHECK((int)got.size() == std::max(0, hi - lo), "%s: for_each_enum(%d, %d) visits %zu values", tn, lo, hi, got.size());
        for (std::size_t k = 0; k < got.size(); ++k)
            MC_CHECK(got[k] == lo + (int)k, "%s: for_each_enum(%d, %d) visits %d as number %zu", tn, lo, hi, got[k], k);
    }
}

// wider types: short intervals at the ends, around zero and around every power of two
template <typename E> void foreach_wide(const char* tn)
{
    using U = std::underlying_type_t<E>;
    const big lo = (big)std::numeric_limits<U>::min(), hi = (big)std::numeric_limits<U>::max();
    std::set<big> at{lo, hi, 0};
    for (int p = 0; p < (int)sizeof(U) * 8; ++p)
        for (big b : {(big)1 << p, -((big)1 << p)})
            if (b >= lo && b <= hi) at.insert(b);
    for (big c : at)
        for (int d = -3; d <= 3; ++d)
            for (int len = -2; len <= 5; ++len)
            {
                const big first = c + d, last = first + len;
                if (first < lo || last < lo || first > hi || last > hi) continue;
                big next = first;
                kl::for_each_enum(static_cast<E>((U)first), static_cast<E>((U)last), [&](E e) {
                    MC_CHECK(val(e) == next && next < last, "%s: for_each_enum(%s, %s) visits %s, expected %s", tn, str(first).c_str(), str(last).c_str(), str(val(e)).c_str(), str(next).c_str());
                    ++next;
                });
                MC_CHECK(next == std::max(first, last), "%s: for_each_enum(%s, %s) stops at %s", tn, str(first).c_str(), str(last).c_str(), str(next).c_str());
                mc::trace();
                mc::transition();
            }
    // a long one, and a function object that must not be copied or moved away
    struct counter
    {
        long n = 0;
        void operator()(E) { ++n; }
    } f;
    kl::for_each_enum(static_cast<E>((U)0), static_cast<E>((U)30000), f);
    MC_CHECK(f.n == 30000, "%s: for_each_enum counts %ld of 30000 in the function object given", tn, f.n);
}

#if PART == 22
MC_SCENARIO("C22", "for_each_enum, wider types", [] {
    switch (mc::choose(6, "type"))
    {
    case 0: foreach_wide<fl::u16>("u16"); break;
    case 1: foreach_wide<fl::i16>("i16"); break;
    case 2: foreach_wide<fl::u32>("u32"); break;
    case 3: foreach_wide<fl::i32>("i32"); break;
    case 4: foreach_wide<fl::u64>("u64"); break;
    case 5: foreach_wide<fl::i64>("i64"); break;
    }
}, 1);
#define F(T) \
    MC_SCENARIO("C22", "flag algebra " #T, [] { flags<fl::T>(#T); }, 1); \
    MC_SCENARIO("C22", "flag programs " #T, [] { flag_programs<fl::T>(#T); });
F(u8) F(i8) F(u16) F(i16) F(u32) F(i32) F(u64) F(i64) F(un)
MC_SCENARIO("C22", "for_each_enum u8", [] { foreach_enum<fl::u8>("u8"); }, 1);
MC_SCENARIO("C22", "for_each_enum i8", [] { foreach_enum<fl::i8>("i8"); }, 1);
#endif
} // namespace

// ---------------------------------------------------------------------------- C23
namespace en {
enum class ord { A, B, C };
KL_REFLECT_ENUM(ord, A, (B, bb), C)
enum class one { only };
KL_REFLECT_ENUM(one, only)
enum class one7 : std::int8_t { seven = 7 };
KL_REFLECT_ENUM(one7, seven)
enum class hole : std::uint8_t { a = 0, b = 1, d = 3, last = 255 };
KL_REFLECT_ENUM(hole, a, b, d, last)
enum class neg : std::int8_t { low = -128, minus = -1, zero = 0, high = 127 };
KL_REFLECT_ENUM(neg, low, minus, zero, high)
enum class shuffled : std::uint8_t { x = 2, y = 0, z = 1 };
KL_REFLECT_ENUM(shuffled, x, y, z)
enum class shuffled2 : std::uint8_t { p0 = 0, p2 = 2, p1 = 1, p3 = 3 }; // starts at 0, ends at size-1, not sorted
KL_REFLECT_ENUM(shuffled2, p0, p2, p1, p3)
enum class gap_inside : std::uint8_t { q0 = 0, q5 = 5, q2 = 2 };
KL_REFLECT_ENUM(gap_inside, q0, q5, q2)
enum class dupval : std::int16_t { first = 4, second = 4, third = 5 };
KL_REFLECT_ENUM(dupval, first, second, third)
enum class dupord : std::uint8_t { a0 = 0, b0 = 0, c1 = 1, d3 = 3 };   // duplicates, yet 0 .. size-1
KL_REFLECT_ENUM(dupord, a0, b0, c1, d3)
enum class partial : std::uint8_t { r0, r1, r2, r3 };                   // r3 not reflected
KL_REFLECT_ENUM(partial, r0, r1, r2)
enum class tail : std::uint8_t { s0, s1, s2 };                           // s0 not reflected
KL_REFLECT_ENUM(tail, s1, s2)
enum class dupname : std::uint8_t { m, n, o };
KL_REFLECT_ENUM(dupname, (m, same), (n, same), (o, other))
enum class swapped : std::uint8_t { left, right };
KL_REFLECT_ENUM(swapped, (left, right), (right, left))
enum class wide : std::uint64_t { w0 = 0, w1 = 1, big = 0x1'0000'0001ull, huge = ~0ull };
KL_REFLECT_ENUM(wide, w0, w1, big, huge)
enum class swide : std::int64_t { lo = std::numeric_limits<std::int64_t>::min(), hi = std::numeric_limits<std::int64_t>::max() };
KL_REFLECT_ENUM(swide, lo, hi)
enum class word : std::uint16_t { k0, k1, k2, k3, k4 };
KL_REFLECT_ENUM(word, k0, k1, k2, k3, k4)
enum unscoped { us_a, us_b, us_c };
KL_REFLECT_ENUM(unscoped, us_a, (us_b, B), us_c)
enum class prefix { a, ab, abc };
KL_REFLECT_ENUM(prefix, abc, ab, a)
enum class chr : char { x = 'x', y = 'y' };
KL_REFLECT_ENUM(chr, x, y)
enum class boolean : bool { off, on };
KL_REFLECT_ENUM(boolean, off, on)
// clang-format off
enum class seq : std::uint8_t { v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19,
    v20, v21, v22, v23, v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42,
    v43, v44, v45, v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64, v65, v66, v67, v68, v69 };
KL_REFLECT_ENUM_SEQ(seq, (v0)(v1)(v2)(v3)(v4)(v5)(v6)(v7)(v8)(v9)(v10)(v11)(v12)(v13)(v14)(v15)(v16)(v17)(v18)(v19)
    (v20)(v21)(v22)(v23)(v24)(v25)(v26)(v27)(v28)(v29)(v30)(v31)(v32)(v33)(v34)(v35)(v36)(v37)(v38)(v39)(v40)(v41)(v42)
    (v43)(v44)(v45)(v46)(v47)(v48)(v49)(v50)(v51)(v52)(v53)(v54)(v55)(v56)(v57)(v58)(v59)(v60)(v61)(v62)(v63)(v64)(v65)(v66)(v67)(v68)(v69))
// clang-format on
} // namespace en

namespace {

using table = std::vector<std::pair<std::int64_t, std::string>>;   // value (as 64-bit image), name; declaration order

template <typename E> std::vector<E> enum_values(const table& t)
{
    using U = std::underlying_type_t<E>;
    std::vector<E> out;
    if constexpr (std::is_same_v<E, en::unscoped>)   // no fixed underlying type: only values 0..3 exist
        return {static_cast<E>(0), static_cast<E>(1), static_cast<E>(2), static_cast<E>(3)};
    else if constexpr (std::is_same_v<U, bool>)
        return {static_cast<E>(0), static_cast<E>(1)};
    else if constexpr (sizeof(E) <= 2)
    {
        for (long v = std::numeric_limits<U>::min(); v <= (long)std::numeric_limits<U>::max(); ++v)
            out.push_back(static_cast<E>(v));
        return out;
    }
    // For wide types: everything near a declared value, near every power of two, and every value congruent to
    // a declared one modulo 2^8, 2^16, 2^32 (a narrowed comparison would confuse them).
    std::set<std::int64_t> s;
    for (int d = -70; d <= 70; ++d)
    {
        s.insert(d);
        for (auto& [v, n] : t)
            s.insert((std::int64_t)((std::uint64_t)v + (std::uint64_t)(std::int64_t)d));
    }
    for (int b = 0; b < 64; ++b)
        for (int d = -2; d <= 2; ++d)
            for (auto& [v, n] : t)
            {
                std::uint64_t p = 1ull << b;
                s.insert((std::int64_t)(p + (std::uint64_t)(std::int64_t)d));
                s.insert((std::int64_t)((std::uint64_t)0 - p + (std::uint64_t)(std::int64_t)d));
                s.insert((std::int64_t)((std::uint64_t)v + p));
                s.insert((std::int64_t)((std::uint64_t)v - p));
                s.insert((std::int64_t)((std::uint64_t)v ^ p));
            }
    std::set<std::uint64_t> seen;
    for (auto v : s)
        if (seen.insert((std::uint64_t)v & mask<E>()).second)
            out.push_back(mk<E>((std::uint64_t)v & mask<E>()));
    return out;
}

template <typename E> const std::string* ref_name(const table& t, E e)
{
    for (auto& [v, n] : t)
        if (mk<E>((std::uint64_t)v & mask<E>()) == e)
            return &n;
    return nullptr;
}

template <typename E> void to_str(const char* tn, const table& t)
{
    using R = kl::enum_reflector<E>;
    const std::string unknown = std::string("unknown <") + tn + ">";
    auto vals = enum_values<E>(t);
    int chunk = 64, nchunks = ((int)vals.size() + chunk - 1) / chunk;
    int c = mc::choose(nchunks, "values");
    for (int i = c * chunk; i < std::min<int>((int)vals.size(), (c + 1) * chunk); ++i)
    {
        E e = vals[i];
        const std::string* want = ref_name<E>(t, e);
        const char* def = "fallback";
        struct
        {
            const char* what;
            const char* got;
            std::string expect;
        } q[] = {
            {"kl::to_string", kl::to_string(e), want ? *want : unknown},
            {"enum_reflector::to_string", R::to_string(e), want ? *want : unknown},
            {"reflect_enum<E>().to_string", kl::reflect_enum<E>().to_string(e), want ? *want : unknown},
            {"to_string(e, default)", R::to_string(e, def), want ? *want : std::string(def)},
            {"to_string(e, null)", R::to_string(e, nullptr), want ? *want : std::string("<null>")},
        };
        for (auto& x : q)
        {
            mc::transition();
            std::string got = x.got ? x.got : "<null>";
            MC_CHECK(got == x.expect, "%s: %s of value %#llx is \"%s\", expected \"%s\"", tn, x.what, (unsigned long long)bits(e), got.c_str(), x.expect.c_str());
        }
        if (want)
        {
            // the string leads back to the same value, unless an earlier enumerator took the name
            auto back = kl::from_string<E>(*want);
            const std::pair<std::int64_t, std::string>* first = nullptr;
            for (auto& p : t)
                if (p.second == *want && !first)
                    first = &p;
            MC_CHECK(back && bits(*back) == ((std::uint64_t)first->first & mask<E>()), "%s: the name \"%s\" of %#llx does not lead back", tn, want->c_str(), (unsigned long long)bits(e));
            mc::count("named values");
        }
        else
            mc::count("unnamed values");
        mc::trace();
        mc::state(mc::hasher{}.s(tn).u(bits(e)));
    }
}

template <typename E> void from_str_one(const char* tn, const table& t, const std::string& s)
{
    using R = kl::enum_reflector<E>;
    // exactly sized, not terminated: a read past the view is a sanitizer report
    std::unique_ptr<char[]> buf{new char[s.size()]};
    std::memcpy(buf.get(), s.data(), s.size());
    std::string_view view{buf.get(), s.size()};
    const std::pair<std::int64_t, std::string>* want = nullptr;
    for (auto& p : t)
        if (p.second == s && !want)
            want = &p;
    std::optional<E> got[] = {kl::from_string<E>(view), R::from_string(view), kl::reflect_enum<E>().from_string(view)};
    for (auto& g : got)
    {
        mc::transition();
        MC_CHECK(g.has_value() == (want != nullptr), "%s: from_string(\"%s\") %s", tn, mc::printable(s).c_str(), g ? "accepts a string no enumerator has" : "does not know an enumerator's name");
        if (g)
            MC_CHECK(bits(*g) == ((std::uint64_t)want->first & mask<E>()), "%s: from_string(\"%s\") is %#llx", tn, mc::printable(s).c_str(), (unsigned long long)bits(*g));
    }
    mc::trace();
    mc::count(want ? "known strings" : "unknown strings");
}

template <typename E> void from_str(const char* tn, const table& t)
{
    // every edit of every name, and every short string over the characters that occur
    std::set<char> cs;
    for (auto& p : t)
        cs.insert(p.second.begin(), p.second.end());
    std::string chars(cs.begin(), cs.end());
    chars += '\0';
    chars += 'A';
    chars += ' ';
    if (chars.size() > 10)
        chars = chars.substr(chars.size() - 10);
    int what = mc::choose((int)t.size() + 1 + (int)chars.size(), "family");
    if (what < (int)t.size())
    {
        const std::string n = t[what].second;
        std::set<std::string> ed{n, n + n, n + std::string(1, '\0'), std::string(1, '\0') + n, "en::" + n, std::string(tn) + "::" + n, " " + n, n + " "};
        for (std::size_t i = 0; i <= n.size(); ++i)
        {
            ed.insert(n.substr(0, i));
            ed.insert(n.substr(i));
            for (int c = 0; c < 256; ++c)
            {
                ed.insert(n.substr(0, i) + (char)c + n.substr(i));
                if (i < n.size())
                    ed.insert(n.substr(0, i) + (char)c + n.substr(i + 1));
            }
            if (i + 1 < n.size())
                ed.insert(n.substr(0, i) + n[i + 1] + n[i] + n.substr(i + 2));
            if (i < n.size())
                ed.insert(n.substr(0, i) + n.substr(i + 1));
        }
        for (auto& s : ed)
            from_str_one<E>(tn, t, s);
        return;
    }
    if (what == (int)t.size())
    {
        from_str_one<E>(tn, t, "");
        return;
    }
    std::string s(1, chars[what - (int)t.size() - 1]);
    int maxlen = mc::thorough() ? 5 : 4;
    std::function<void()> rec = [&] {
        from_str_one<E>(tn, t, s);
        if ((int)s.size() == maxlen)
            return;
        for (char c : chars)
        {
            s.push_back(c);
            rec();
            s.pop_back();
        }
    };
    rec();
}

template <typename E> void listing(const char* tn, const table& t)
{
    using R = kl::enum_reflector<E>;
    mc::trace();
    mc::transition(t.size());
    MC_CHECK(R::count() == t.size() && kl::reflect_enum<E>().count() == t.size(), "%s: count() is %zu, %zu enumerators declared", tn, R::count(), t.size());
    auto check = [&](auto&& rng, const char* how) {
        std::size_t i = 0;
        for (auto e : rng)
        {
            MC_CHECK(i < t.size() && bits(static_cast<E>(e)) == ((std::uint64_t)t[i].first & mask<E>()), "%s: %s lists %#llx as number %zu", tn, how, (unsigned long long)bits(static_cast<E>(e)), i);
            ++i;
        }
        MC_CHECK(i == t.size(), "%s: %s lists %zu values, declared %zu", tn, how, i, t.size());
    };
    check(R::values(), "values()");
    check(R::constexpr_values(), "constexpr_values()");
    check(kl::reflect_enum<E>().values(), "reflect_enum().values()");
    MC_CHECK(R::values().size() == t.size(), "%s: values().size() is %zu", tn, (std::size_t)R::values().size());
    auto view = reflect_enum(kl::enum_<E>);
    std::size_t i = 0;
    MC_CHECK(view.size() == t.size(), "%s: the reflection lists %zu pairs", tn, (std::size_t)view.size());
    for (auto& p : view)
    {
        MC_CHECK(p.name == t[i].second && bits(p.value) == ((std::uint64_t)t[i].first & mask<E>()), "%s: the reflected pair %zu is wrong", tn, i);
        MC_CHECK(p.name.data()[p.name.size()] == 0, "%s: name %zu is not terminated", tn, i);
        ++i;
    }
}

table seq_table()
{
    table t;
    for (int i = 0; i < 70; ++i)
        t.push_back({i, "v" + std::to_string(i)});
    return t;
}
#define EN(T, ...)                                                                           \
    MC_SCENARIO("C23", "to_string " #T, [] { to_str<en::T>(#T, __VA_ARGS__); }, 1);         \
    MC_SCENARIO("C23", "from_string " #T, [] { from_str<en::T>(#T, __VA_ARGS__); }, 1);     \
    MC_SCENARIO("C23", "listing " #T, [] { listing<en::T>(#T, __VA_ARGS__); }, 1);
#define T_(...) table{__VA_ARGS__}
#if PART == 23
EN(ord, T_({0, "A"}, {1, "bb"}, {2, "C"}))
EN(one, T_({0, "only"}))
EN(one7, T_({7, "seven"}))
EN(hole, T_({0, "a"}, {1, "b"}, {3, "d"}, {255, "last"}))
EN(neg, T_({-128, "low"}, {-1, "minus"}, {0, "zero"}, {127, "high"}))
EN(shuffled, T_({2, "x"}, {0, "y"}, {1, "z"}))
EN(shuffled2, T_({0, "p0"}, {2, "p2"}, {1, "p1"}, {3, "p3"}))
EN(gap_inside, T_({0, "q0"}, {5, "q5"}, {2, "q2"}))
EN(dupval, T_({4, "first"}, {4, "second"}, {5, "third"}))
EN(dupord, T_({0, "a0"}, {0, "b0"}, {1, "c1"}, {3, "d3"}))
EN(partial, T_({0, "r0"}, {1, "r1"}, {2, "r2"}))
EN(tail, T_({1, "s1"}, {2, "s2"}))
EN(dupname, T_({0, "same"}, {1, "same"}, {2, "other"}))
EN(swapped, T_({0, "right"}, {1, "left"}))
EN(wide, T_({0, "w0"}, {1, "w1"}, {0x1'0000'0001ll, "big"}, {-1, "huge"}))
EN(swide, T_({std::numeric_limits<std::int64_t>::min(), "lo"}, {std::numeric_limits<std::int64_t>::max(), "hi"}))
EN(word, T_({0, "k0"}, {1, "k1"}, {2, "k2"}, {3, "k3"}, {4, "k4"}))
EN(unscoped, T_({0, "us_a"}, {1, "B"}, {2, "us_c"}))
EN(prefix, T_({2, "abc"}, {1, "ab"}, {0, "a"}))
EN(chr, T_({'x', "x"}, {'y', "y"}))
EN(boolean, T_({0, "off"}, {1, "on"}))
EN(seq, seq_table())
#endif
} // namespace

// ---------------------------------------------------------------------------- C24
namespace rn {
enum class i32 : int { lo = 0, hi = 6 };
enum class neg : std::int8_t { lo = -3, hi = 3 };
enum class allneg : int { lo = -5, hi = -1 };
enum class u8 : std::uint8_t { lo = 250, hi = 255 };
enum class u8full : std::uint8_t { lo = 0, hi = 255 };
enum class i8full : std::int8_t { lo = -128, hi = 127 };
enum class closed : std::uint16_t { lo = 2, hi = 6 };
enum class u32 : std::uint32_t { lo = 0xFFFFFFF8u, hi = 0xFFFFFFFFu };
enum class u32low : std::uint32_t { lo = 1, hi = 5 };
enum class w16 : std::int16_t { lo = -30000, hi = 30000 };
enum class wu16 : std::uint16_t { lo = 0, hi = 65535 };
enum class w32 : std::int32_t { lo = -100, hi = 69000 };
enum class wall : std::int32_t { lo = -0x30000000, hi = 0x30000000 };
enum class wu32 : std::uint32_t { lo = 5, hi = 0xFFFFFFFFu };
enum class w64 : std::int64_t { lo = -0x3000000000000000ll, hi = 0x3000000000000000ll };
enum class wu64 : std::uint64_t { lo = 1, hi = 0x7000000000000000ull };
enum class i64 : std::int64_t { lo = -0x100000002ll, hi = -0x100000000ll + 2 };
enum class u64 : std::uint64_t { lo = 0x7FFFFFFFFFFFFFF0ull, hi = 0x7FFFFFFFFFFFFFF4ull };
} // namespace rn
template <> struct kl::enum_traits<rn::i32> : kl::enum_trait_support_range<rn::i32, rn::i32::lo, rn::i32::hi> {};
template <> struct kl::enum_traits<rn::neg> : kl::enum_trait_support_range<rn::neg, rn::neg::lo, rn::neg::hi> {};
template <> struct kl::enum_traits<rn::allneg> : kl::enum_trait_support_range<rn::allneg, rn::allneg::lo, rn::allneg::hi> {};
template <> struct kl::enum_traits<rn::u8> : kl::enum_trait_support_range<rn::u8, rn::u8::lo, rn::u8::hi> {};
template <> struct kl::enum_traits<rn::u8full> : kl::enum_trait_support_range<rn::u8full, rn::u8full::lo, rn::u8full::hi> {};
template <> struct kl::enum_traits<rn::i8full> : kl::enum_trait_support_range<rn::i8full, rn::i8full::lo, rn::i8full::hi> {};
template <> struct kl::enum_traits<rn::closed> : kl::enum_trait_support_range<rn::closed, rn::closed::lo, rn::closed::hi, false> {};
template <> struct kl::enum_traits<rn::u32> : kl::enum_trait_support_range<rn::u32, rn::u32::lo, rn::u32::hi> {};
template <> struct kl::enum_traits<rn::u32low> : kl::enum_trait_support_range<rn::u32low, rn::u32low::lo, rn::u32low::hi, false> {};
#define WIDE(T) template <> struct kl::enum_traits<rn::T> : kl::enum_trait_support_range<rn::T, rn::T::lo, rn::T::hi> {};
WIDE(w16) WIDE(wu16) WIDE(w32) WIDE(wall) WIDE(wu32) WIDE(w64) WIDE(wu64)
template <> struct kl::enum_traits<rn::i64> : kl::enum_trait_support_range<rn::i64, rn::i64::lo, rn::i64::hi> {};
template <> struct kl::enum_traits<rn::u64> : kl::enum_trait_support_range<rn::u64, rn::u64::lo, rn::u64::hi> {};

namespace {


// Walk programs on an iterator: positions are indices 0..n of the range.
template <typename It, typename Deref> void walk(const char* tn, It begin, It end, int n, Deref at)
{
    auto laws = [&](It it, int pos) {
        mc::transition();
        MC_CHECK((it == end) == (pos == n) && (it != end) == (pos != n), "%s: position %d of %d compares wrongly with end", tn, pos, n);
        MC_CHECK(end - it == n - pos && it - begin == pos && begin - it == -pos && it - end == pos - n, "%s: wrong distances at position %d of %d (%td to end, %td from begin)", tn, pos, n, end - it, it - begin);
        if (pos < n)
            MC_CHECK(*it == at(pos), "%s: wrong value at position %d", tn, pos);
        for (int q = 0; q <= n; ++q)
        {
            int d = q - pos;
            It j = it + d;
            It k = d + it;
            It l = it - (-d);
            It m = it;
            It& mr = (m += d);
            It o = it;
            It& orf = (o -= -d);
            MC_CHECK(j == k && j == l && j == m && j == o && &mr == &m && &orf == &o, "%s: the ways to move from %d to %d disagree", tn, pos, q);
            MC_CHECK(j - it == d && it - j == -d, "%s: distance from %d to %d is %td", tn, pos, q, j - it);
            MC_CHECK((it < j) == (pos < q) && (it > j) == (pos > q) && (it <= j) == (pos <= q) && (it >= j) == (pos >= q) && (it == j) == (pos == q) && (it != j) == (pos != q),
                     "%s: ordering of positions %d and %d is wrong", tn, pos, q);
            if (q < n)
                MC_CHECK(*j == at(q) && it[d] == at(q), "%s: reading position %d from %d is wrong", tn, q, pos);
        }
        mc::state(mc::hasher{}.s(tn).u(pos));
    };
    It it = begin;
    int pos = 0;
    laws(it, pos);
    int steps = mc::thorough() ? 5 : 4;
    for (int s = 0; s < steps; ++s)
    {
        int op = mc::choose(7, "move");
        int to = pos;
        if (op == 0)
            return;
        if (op == 1 || op == 2)
            to = pos + 1;
        if (op == 3 || op == 4)
            to = pos - 1;
        if (to < 0 || to > n)
            mc::skip();
        It before = it;
        if (op == 1)
        {
            It& r = ++it;
            MC_CHECK(&r == &it, "%s: ++ does not return the iterator", tn);
        }
        if (op == 2)
        {
            It old = it++;
            MC_CHECK(old == before, "%s: it++ does not return the old position", tn);
        }
        if (op == 3)
        {
            It& r = --it;
            MC_CHECK(&r == &it, "%s: -- does not return the iterator", tn);
        }
        if (op == 4)
        {
            It old = it--;
            MC_CHECK(old == before, "%s: it-- does not return the old position", tn);
        }
        if (op == 5 || op == 6)
        {
            int cap = std::min(n, 7);
            int q = mc::choose(cap + 1, "position");
            if (n > 7 && q > 3)
                q = n - (cap - q);
            to = q;
            if (op == 5)
                it += to - pos;
            else
                it -= pos - to;
        }
        pos = to;
        mc::note("move %d -> %d", op, pos);
        laws(it, pos);
        MC_CHECK((before == it) == ((before - begin) == pos), "%s: moving changed the copy", tn);
    }
}

template <typename E> void range_of(const char* tn, big lo, big hi)
{
    using T = kl::enum_traits<E>;
    int n = (int)(hi - lo);
    auto at = [lo](int i) { return static_cast<E>((std::underlying_type_t<E>)(lo + i)); };
    // the range as a whole
    MC_CHECK((big)T::min_value() == lo && (big)T::max_value() == hi && val(T::min()) == lo && val(T::max()) == hi && (big)T::count() == hi - lo, "%s: min/max/count do not describe [%s, %s)", tn, str(lo).c_str(), str(hi).c_str());
    int i = 0;
    for (E e : kl::enum_range<E>{})
    {
        MC_CHECK(i < n && e == at(i), "%s: element %d of the range is %s", tn, i, str(val(e)).c_str());
        ++i;
    }
    MC_CHECK(i == n, "%s: the range has %d elements, expected %d", tn, i, n);
    kl::enum_range<E> rng;
    MC_CHECK(std::distance(rng.begin(), rng.end()) == n, "%s: std::distance is wrong", tn);
    std::vector<E> fwd(rng.begin(), rng.end()), ref;
    for (int k = 0; k < n; ++k)
        ref.push_back(at(k));
    MC_CHECK(fwd == ref, "%s: copying the range into a vector", tn);
    std::vector<E> rev;
    for (auto r = std::make_reverse_iterator(rng.end()); r != std::make_reverse_iterator(rng.begin()); ++r)
        rev.push_back(*r);
    std::reverse(rev.begin(), rev.end());
    MC_CHECK(rev == ref, "%s: iterating in reverse", tn);
    for (int k = 0; k < n; ++k)
    {
        auto f = std::find(rng.begin(), rng.end(), at(k));
        auto b = std::lower_bound(rng.begin(), rng.end(), at(k));
        MC_CHECK(f - rng.begin() == k && b - rng.begin() == k, "%s: std::find / std::lower_bound of element %d", tn, k);
        MC_CHECK(kl::enum_iterator<E>{at(k)} == f, "%s: an iterator constructed from a value", tn);
    }
    walk(tn, rng.begin(), rng.end(), n, at);
}

// in_range for enum values and for integers of every type: the mathematical answer
template <typename E, typename V> void in_range_ints(const char* tn, big lo, big hi)
{
    using T = kl::enum_traits<E>;
    std::set<big> vs;
    big vmin = (big)std::numeric_limits<V>::min(), vmax = (big)std::numeric_limits<V>::max();
    auto put = [&](big v) {
        if (v >= vmin && v <= vmax)
            vs.insert(v);
    };
    if (sizeof(V) <= 2)
        for (big v = vmin; v <= vmax; ++v)
            put(v);
    for (int d = -20; d <= 20; ++d)
    {
        for (big b : {(big)0, lo, hi, vmin, vmax})
            put(b + d);
        for (int p = 0; p < 65; ++p)
            for (big b : {(big)0, lo, hi})
            {
                put(b + ((big)1 << p) + d);
                put(b - ((big)1 << p) + d);
            }
    }
    for (big v : vs)
    {
        mc::transition();
        bool want = v >= lo && v < hi;
        MC_CHECK(T::in_range(static_cast<V>(v)) == want, "%s: in_range(%s of %zu-byte %s type) is %d, the range is [%s, %s)", tn, str(v).c_str(), sizeof(V), std::is_signed_v<V> ? "signed" : "unsigned", !want, str(lo).c_str(), str(hi).c_str());
        mc::trace();
        mc::count(want ? "in range" : "out of range");
    }
}
template <typename E> void in_range(const char* tn, big lo, big hi)
{
    using U = std::underlying_type_t<E>;
    switch (mc::choose(10, "integer type"))
    {
    case 0: in_range_ints<E, std::int8_t>(tn, lo, hi); break;
    case 1: in_range_ints<E, std::uint8_t>(tn, lo, hi); break;
    case 2: in_range_ints<E, std::int16_t>(tn, lo, hi); break;
    case 3: in_range_ints<E, std::uint16_t>(tn, lo, hi); break;
    case 4: in_range_ints<E, std::int32_t>(tn, lo, hi); break;
    case 5: in_range_ints<E, std::uint32_t>(tn, lo, hi); break;
    case 6: in_range_ints<E, std::int64_t>(tn, lo, hi); break;
    case 7: in_range_ints<E, std::uint64_t>(tn, lo, hi); break;
    case 8: in_range_ints<E, char>(tn, lo, hi); break;
    case 9:
        for (int p = -70; p <= 70; ++p)
            for (big b : {(big)0, lo, hi, (big)std::numeric_limits<U>::min(), (big)std::numeric_limits<U>::max()})
            {
                big v = b + p;
                if (v < (big)std::numeric_limits<U>::min() || v > (big)std::numeric_limits<U>::max())
                    continue;
                mc::transition();
                MC_CHECK(kl::enum_traits<E>::in_range(static_cast<E>((U)v)) == (v >= lo && v < hi), "%s: in_range of the enum value %s", tn, str(v).c_str());
            }
        break;
    }
}

#define RN(T, lo, hi)                                                          \
    MC_SCENARIO("C24", "range " #T, [] { range_of<rn::T>(#T, lo, hi); });      \
    MC_SCENARIO("C24", "in_range " #T, [] { in_range<rn::T>(#T, lo, hi); }, 1);
#if PART == 24
RN(i32, 0, 6)
RN(neg, -3, 3)
RN(allneg, -5, -1)
RN(u8, 250, 255)
RN(u8full, 0, 255)
RN(i8full, -128, 127)
RN(closed, 2, 7)
RN(u32, 0xFFFFFFF8ll, 0xFFFFFFFFll)
RN(u32low, 1, 6)
RN(i64, -0x100000002ll, -0x100000000ll + 2)
RN(u64, 0x7FFFFFFFFFFFFFF0ll, 0x7FFFFFFFFFFFFFF4ll)
#endif
// Wide ranges: every jump between any two of the positions around 0, the end and every power of two.
template <typename E> void wide(const char* tn)
{
    using T = kl::enum_traits<E>;
    const big lo = val(E::lo), hi = val(E::hi), n = hi - lo;
    auto at = [lo](big i) { return static_cast<E>((std::underlying_type_t<E>)(lo + i)); };
    MC_CHECK((big)T::min_value() == lo && (big)T::max_value() == hi && val(T::min()) == lo && val(T::max()) == hi, "%s: min/max are not [%s, %s)", tn, str(lo).c_str(), str(hi).c_str());
    const kl::enum_range<E> rng;
    const auto begin = rng.begin(), end = rng.end();
    if (n <= 70000)
    {
        big i = 0;
        for (E e : rng)
        {
            MC_CHECK(i < n && e == at(i), "%s: element %s of the range is %s", tn, str(i).c_str(), str(val(e)).c_str());
            ++i;
        }
        MC_CHECK(i == n && (big)T::count() == n, "%s: the range has %s elements, expected %s", tn, str(i).c_str(), str(n).c_str());
        auto it = end;
        while (it != begin)
            MC_CHECK(*--it == at(--i), "%s: going back to %s", tn, str(i).c_str());
    }
    std::set<big> set;
    for (int p = 0; p < 63; ++p)
        for (int d = -1; d <= 1; ++d)
            for (big b : {((big)1 << p) + d, n - ((big)1 << p) + d, n / 2 + ((big)1 << p) + d, n / 2 - ((big)1 << p) + d})
                if (b >= 0 && b <= n) set.insert(b);
    const std::vector<big> ps(set.begin(), set.end());
    for (big from : ps)
    {
        mc::progress();
        auto a = begin + (std::ptrdiff_t)from;
        MC_CHECK(a - begin == (std::ptrdiff_t)from && end - a == (std::ptrdiff_t)(n - from) && a == kl::enum_iterator<E>{at(from)}, "%s: begin + %s is elsewhere", tn, str(from).c_str());
        MC_CHECK(from == n || (*a == at(from) && begin[(std::ptrdiff_t)from] == at(from)), "%s: element %s", tn, str(from).c_str());
        if (from < n)
        {
            auto next = a;
            ++next;
            MC_CHECK(next - a == 1 && next == a + 1 && next - begin == (std::ptrdiff_t)(from + 1), "%s: incrementing at %s", tn, str(from).c_str());
            --next;
            MC_CHECK(next == a, "%s: decrementing to %s", tn, str(from).c_str());
        }
        for (big to : ps)
        {
            const auto by = (std::ptrdiff_t)(to - from);
            auto b = a, c = a;
            b += by;
            c -= -by;
            MC_CHECK(b == c && b == a + by && b == by + a && b == a - -by && b == kl::enum_iterator<E>{at(to)}, "%s: jumping from %s to %s", tn, str(from).c_str(), str(to).c_str());
            MC_CHECK(b - a == by && a - b == -by, "%s: the distance from %s to %s is %s", tn, str(from).c_str(), str(to).c_str(), str(b - a).c_str());
            MC_CHECK((a < b) == (from < to) && (a > b) == (from > to) && (a <= b) == (from <= to) && (a >= b) == (from >= to) && (a == b) == (from == to) && (a != b) == (from != to), "%s: comparing %s and %s", tn, str(from).c_str(), str(to).c_str());
            if (to < n) MC_CHECK(a[by] == at(to), "%s: element %s from %s", tn, str(to).c_str(), str(from).c_str());
            mc::transition();
        }
    }
    mc::trace(ps.size() * ps.size());
    mc::state(mc::hasher{}.s(tn));
    mc::count("long jumps", ps.size() * ps.size());
}
#if PART == 24
MC_SCENARIO("C24", "wide ranges", [] {
    switch (mc::choose(7, "type"))
    {
    case 0: wide<rn::w16>("w16"); break;
    case 1: wide<rn::wu16>("wu16"); break;
    case 2: wide<rn::w32>("w32"); break;
    case 3: wide<rn::wall>("wall"); break;
    case 4: wide<rn::wu32>("wu32"); break;
    case 5: wide<rn::w64>("w64"); break;
    case 6: wide<rn::wu64>("wu64"); break;
    }
}, 1);
#endif

// A user's iterator over references, with an element type that needs operator->
struct cell
{
    int v;
    bool operator==(const cell& o) const { return v == o.v; }
};
struct ptr_iter : kl::iterator_facade<ptr_iter, cell&, std::random_access_iterator_tag>
{
    ptr_iter() = default;
    explicit ptr_iter(cell* p) : p(p) {}
    cell& dereference() const { return *p; }
    void increment() { ++p; }
    void decrement() { --p; }
    void advance(std::ptrdiff_t n) { p += n; }
    std::ptrdiff_t distance_to(const ptr_iter& o) const { return p - o.p; }
    bool equal_to(const ptr_iter& o) const { return p == o.p; }
    cell* p{};
};
struct val_iter : kl::iterator_facade<val_iter, cell, std::random_access_iterator_tag>
{
    val_iter() = default;
    explicit val_iter(int i) : i(i) {}
    cell dereference() const { return cell{i * i}; }
    void increment() { ++i; }
    void decrement() { --i; }
    void advance(std::ptrdiff_t n) { i += (int)n; }
    std::ptrdiff_t distance_to(const val_iter& o) const { return i - o.i; }
    bool equal_to(const val_iter& o) const { return i == o.i; }
    int i{};
};
struct fwd_iter : kl::iterator_facade<fwd_iter, const cell&, std::forward_iterator_tag>
{
    fwd_iter() = default;
    explicit fwd_iter(const cell* p) : p(p) {}
    const cell& dereference() const { return *p; }
    void increment() { ++p; }
    bool equal_to(const fwd_iter& o) const { return p == o.p; }
    const cell* p{};
};

#if PART == 24
MC_SCENARIO("C24", "user iterator over references", [] {
    static std::vector<cell> cells(6);
    for (int i = 0; i < 6; ++i)
        cells[i].v = 10 + i;
    ptr_iter b{cells.data()}, e{cells.data() + 6};
    for (int i = 0; i < 6; ++i)
    {
        ptr_iter it = b + i;
        MC_CHECK(&*it == &cells[i] && &b[i] == &cells[i] && it.operator->() == &cells[i] && it->v == 10 + i, "reference iterator: element %d", i);
        it->v += 100;
        MC_CHECK(cells[i].v == 110 + i, "reference iterator: writing through -> is lost");
        (*it).v -= 100;
        MC_CHECK(cells[i].v == 10 + i, "reference iterator: writing through * is lost");
        mc::transition();
    }
    walk("reference iterator", b, e, 6, [](int i) { return cell{10 + i}; });
});
MC_SCENARIO("C24", "user iterator over values", [] {
    val_iter b{0}, e{6};
    for (int i = 0; i < 6; ++i)
        MC_CHECK((b + i)->v == i * i, "value iterator: -> at %d", i);
    walk("value iterator", b, e, 6, [](int i) { return cell{i * i}; });
});
MC_SCENARIO("C24", "user forward iterator", [] {
    std::vector<cell> cells{{1}, {2}, {3}, {4}};
    int n = mc::choose(5, "length");
    fwd_iter b{cells.data()}, e{cells.data() + n};
    int i = 0;
    std::vector<fwd_iter> seen;
    for (fwd_iter it = b; it != e; mc::choose(2, "increment") ? (void)++it : (void)it++)
    {
        MC_CHECK(i < n && &*it == &cells[i] && it->v == i + 1, "forward iterator: element %d", i);
        seen.push_back(it);
        ++i;
        mc::transition();
        if (i > 4)
            break;
    }
    MC_CHECK(i == n, "forward iterator: %d of %d elements", i, n);
    for (int k = 0; k < n; ++k)
        MC_CHECK(&*seen[k] == &cells[k] && (seen[k] == fwd_iter{&cells[k]}), "forward iterator: an old copy moved");
    mc::state(mc::hasher{}.u(n).u(i));
});
#endif
} // namespace

