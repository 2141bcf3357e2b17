// C33 (type computations and value-preserving casts).  Type lists are enumerated at compile time, every list
// of up to three of five types; what the library's metafunctions say about each is compared at run time with
// the list itself.
#include "mc.hpp"

#include "kl/meta.hpp"
#include "kl/type_traits.hpp"
#include "kl/utility.hpp"

#include <array>
#include <cstring>
#include <limits>
#include <string>
#include <utility>
#include <vector>

namespace mt {
struct box
{
    int a;
};
// the alphabet
template <int I> struct letter;
template <> struct letter<0> { using type = int; };
template <> struct letter<1> { using type = const box&; };
template <> struct letter<2> { using type = double*; };
template <> struct letter<3> { using type = std::string&&; };
template <> struct letter<4> { using type = box; };
constexpr int L = 5;
template <typename T> constexpr int id()
{
    if constexpr (std::is_same_v<T, int>) return 0;
    else if constexpr (std::is_same_v<T, const box&>) return 1;
    else if constexpr (std::is_same_v<T, double*>) return 2;
    else if constexpr (std::is_same_v<T, std::string&&>) return 3;
    else if constexpr (std::is_same_v<T, box>) return 4;
    else if constexpr (std::is_void_v<T>) return 5;
    else return -1;
}
template <typename P> struct ids_of;
template <typename... T> struct ids_of<kl::type_pack<T...>>
{
    static std::vector<int> get() { return {id<T>()...}; }
};

// the N-th list of a given length, and each kind of callable with that argument list
template <int... I> struct list
{
    static constexpr int len = sizeof...(I);
    static std::vector<int> ids() { return {I...}; }
};
template <std::size_t N, int Len, int... I> struct nth : nth<N / L, Len - 1, I..., (int)(N % L)>
{
};
template <std::size_t N, int... I> struct nth<N, 0, I...>
{
    using type = list<I...>;
};
constexpr std::size_t power(int n) { return n ? L * power(n - 1) : 1; }

template <typename R, typename... A> struct functor
{
    R operator()(A...) const;
};
template <typename R, typename... A> struct mutable_functor
{
    R operator()(A...);
};

template <typename T> using no_ref = std::negation<std::is_reference<T>>;
template <typename T> using is_cls = std::is_class<std::remove_cv_t<std::remove_reference_t<T>>>;
template <typename T> using yes = std::true_type;
template <typename T> using no = std::false_type;

std::string show(const std::vector<int>& v)
{
    std::string s = "[";
    for (int i : v) s += std::to_string(i) + " ";
    return s + "]";
}
void same(const char* what, const std::vector<int>& list, const std::vector<int>& got, const std::vector<int>& want)
{
    mc::transition();
    MC_CHECK(got == want, "%s of type list %s is %s, expected %s", what, show(list).c_str(), show(got).c_str(), show(want).c_str());
}
template <typename P, std::size_t... K> std::vector<int> extracted(std::index_sequence<K...>) { return {id<typename P::template extract<K>::type>()...}; }
template <typename F, std::size_t... K> std::vector<int> args(std::index_sequence<K...>) { return {id<typename kl::func_traits<F>::template arg<K>::type>()...}; }
template <typename F, std::size_t... K> std::vector<int> args_t(std::index_sequence<K...>) { return {id<typename kl::func_traits<F>::template arg_t<K>>()...}; }

template <typename F, typename R, typename Sig> void callable(const char* what, const std::vector<int>& v)
{
    using FT = kl::func_traits<F>;
    constexpr std::size_t n = FT::arity;
    MC_CHECK(n == v.size(), "func_traits of %s with arguments %s says %zu arguments", what, show(v).c_str(), n);
    if constexpr (n <= 4)
    {
        same("func_traits::arg", v, args<F>(std::make_index_sequence<n>{}), v);
        same("func_traits::arg_t", v, args_t<F>(std::make_index_sequence<n>{}), v);
    }
    same("func_traits::args_type", v, ids_of<typename FT::args_type>::get(), v);
    MC_CHECK((std::is_same_v<typename FT::return_type, R>), "func_traits of %s with arguments %s has another return type", what, show(v).c_str());
    MC_CHECK((std::is_same_v<typename FT::signature_type, Sig>), "func_traits of %s with arguments %s has another signature", what, show(v).c_str());
    mc::count("callables");
}
template <typename R, int... I> void callables(list<I...>, const std::vector<int>& v)
{
    using S = R(typename letter<I>::type...);
    callable<S, R, S>("a function", v);
    callable<S*, R, S>("a function pointer", v);
    callable<S&, R, S>("a function reference", v);
    callable<S*&, R, S>("a reference to a function pointer", v);
    using M = R (box::*)(typename letter<I>::type...);
    using MC = R (box::*)(typename letter<I>::type...) const;
    callable<M, R, S>("a member function", v);
    callable<MC, R, S>("a const member function", v);
    callable<M&&, R, S>("a reference to a member function", v);
    MC_CHECK((std::is_same_v<typename kl::func_traits<M>::class_type, box>) && (std::is_same_v<typename kl::func_traits<MC>::class_type, box>), "func_traits names another class");
    using F = functor<R, typename letter<I>::type...>;
    callable<F, R, S>("a function object", v);
    callable<F&, R, S>("a function object reference", v);
    callable<const F&, R, S>("a const function object reference", v);
    callable<F&&, R, S>("a function object rvalue", v);
    callable<mutable_functor<R, typename letter<I>::type...>, R, S>("a mutable function object", v);
}

template <int... I> void lists(list<I...> l)
{
    const std::vector<int> v = l.ids();
    using P = kl::type_pack<typename letter<I>::type...>;
    MC_CHECK(P::value == v.size(), "a type_pack of %s has size %zu", show(v).c_str(), (std::size_t)P::value);
    same("type_pack::extract", v, extracted<P>(std::make_index_sequence<sizeof...(I)>{}), v);
    auto keep = [&](auto pred) {
        std::vector<int> k;
        for (int i : v)
            if (pred(i)) k.push_back(i);
        return k;
    };
    auto noref = keep([](int i) { return i != 1 && i != 3; });
    auto cls = keep([](int i) { return i == 1 || i == 3 || i == 4; });
    same("filter", v, ids_of<kl::filter_t<no_ref, typename letter<I>::type...>>::get(), noref);
    same("filter of a type_pack", v, ids_of<kl::filter_t<no_ref, P>>::get(), noref);
    same("filter", v, ids_of<kl::filter_t<is_cls, typename letter<I>::type...>>::get(), cls);
    same("filter of a type_pack", v, ids_of<kl::filter_t<is_cls, P>>::get(), cls);
    same("filter that keeps all", v, ids_of<kl::filter_t<yes, P>>::get(), v);
    same("filter that keeps none", v, ids_of<kl::filter_t<no, P>>::get(), {});
    auto front = v;
    front.insert(front.begin(), 5);
    same("push_front", v, ids_of<kl::push_front_t<void, P>>::get(), front);
    if constexpr (sizeof...(I) >= 2)
    {
        bool all = true;
        for (int i : v) all &= i == v[0];
        MC_CHECK((kl::is_same_v<typename letter<I>::type...> == all) && (kl::is_same<typename letter<I>::type...>::value == all), "is_same of %s is %d", show(v).c_str(), !all);
        mc::count(all ? "lists of one type" : "lists of several types");
    }
    callables<void>(l, v);
    if constexpr (sizeof...(I) <= 2) callables<const box&>(l, v);
    mc::trace();
    mc::state(mc::hasher{}.s(show(v)));
    mc::count("type lists");
}
template <int Len, std::size_t Base, std::size_t... K> void some(std::index_sequence<K...>) { (lists(typename nth<Base + K, Len>::type{}), ...); }
template <int Len, std::size_t... B> void blocks(int which, std::index_sequence<B...>)
{
    ((which == (int)B ? some<Len, B * L>(std::make_index_sequence<L>{}) : void()), ...);
}

MC_SCENARIO("C33", "type lists up to length 3", [] {
    int len = mc::choose(4, "length");
    if (len == 0)
        some<0, 0>(std::make_index_sequence<1>{});
    else if (len == 1)
        some<1, 0>(std::make_index_sequence<L>{});
    else if (len == 2)
        blocks<2>(mc::choose(L, "block"), std::make_index_sequence<power(2) / L>{});
    else
        blocks<3>(mc::choose(L * L, "block"), std::make_index_sequence<power(3) / L>{});
});

// lists with one odd type out at every position, up to length 10
template <int Len, int Odd, int... K> void odd(std::integer_sequence<int, K...>)
{
    constexpr bool none = Odd >= Len;
    const std::vector<int> v{(K == Odd ? 2 : 0)...};
    using P = kl::type_pack<typename letter<(K == Odd ? 2 : 0)>::type...>;
    MC_CHECK((kl::is_same_v<typename letter<(K == Odd ? 2 : 0)>::type...> == none), "is_same of %s", show(v).c_str());
    same("type_pack::extract", v, extracted<P>(std::make_index_sequence<Len>{}), v);
    std::vector<int> ptrs;
    if (!none) ptrs.push_back(2);
    same("filter", v, ids_of<kl::filter_t<std::is_pointer, P>>::get(), ptrs);
    same("filter", v, ids_of<kl::filter_t<std::is_integral, P>>::get(), std::vector<int>(Len - !none, 0));
    using F = functor<int, typename letter<(K == Odd ? 2 : 0)>::type...>;
    MC_CHECK(kl::func_traits<F>::arity == Len, "func_traits of a function of %d arguments says %zu", Len, (std::size_t)kl::func_traits<F>::arity);
    same("func_traits::arg", v, args<F>(std::make_index_sequence<Len>{}), v);
    mc::trace();
}
template <int Len, int... Odd> void odds(std::integer_sequence<int, Odd...>) { (odd<Len, Odd>(std::make_integer_sequence<int, Len>{}), ...); }
template <int... Len> void odd_lists(int which, std::integer_sequence<int, Len...>) { ((which == Len ? odds<Len + 2>(std::make_integer_sequence<int, Len + 3>{}) : void()), ...); }
MC_SCENARIO("C33", "one odd type in a long list", [] { odd_lists(mc::choose(9, "length"), std::make_integer_sequence<int, 9>{}); }, 1);

// ---- cv, references, members --------------------------------------------------------------------------
struct members
{
    int i;
    const double cd = 1;
    box b;
    int* p;
    const char* const cp = nullptr;
    int arr[3];
    std::string f(int) const;
};
template <typename T> void plain(const char* what)
{
#define RC(X) MC_CHECK((std::is_same_v<kl::remove_cvref_t<X>, T> && std::is_same_v<typename kl::remove_cvref<X>::type, T>), "remove_cvref of " #X " for %s", what)
    RC(T);
    RC(const T);
    RC(volatile T);
    RC(const volatile T);
    RC(T&);
    RC(const T&);
    RC(const volatile T&);
    RC(T&&);
    RC(const T&&);
    RC(volatile T&&);
#undef RC
    mc::transition(10);
    // the variadic is_same does not look through qualifiers
    MC_CHECK((!kl::is_same_v<T, const T> && !kl::is_same_v<T, T&> && !kl::is_same_v<T, T, T&&> && !kl::is_same_v<T&, T, T> && kl::is_same_v<const T, const T, const T> && kl::is_same_v<T&, T&>), "is_same ignores qualifiers of %s", what);
    MC_CHECK((!kl::always_false_v<T> && !kl::always_false<const T&>::value), "always_false");
}
void qualifiers()
{
    plain<int>("int");
    plain<box>("a class");
    plain<int*>("a pointer");
    plain<const int*>("a pointer to const");
    plain<int[3]>("an array");
#define MP(m, T) MC_CHECK((std::is_same_v<kl::member_pointer_traits<&members::m>::value_type, T> && std::is_same_v<kl::member_pointer_traits<&members::m>::class_type, members>), "member_pointer_traits of " #m)
    MP(i, int);
    MP(cd, const double);
    MP(b, box);
    MP(p, int*);
    MP(cp, const char* const);
    MP(arr, int[3]);
#undef MP
    auto lambda = [](int, const box&) -> double* { return nullptr; };
    auto mut = [n = 0](box) mutable { return ++n; };
    callable<decltype(lambda), double*, double*(int, const box&)>("a lambda", {0, 1});
    callable<decltype((lambda)), double*, double*(int, const box&)>("a lambda", {0, 1});
    callable<decltype(mut), int, int(box)>("a mutable lambda", {4});
    static_assert(kl::type_pack<>::value == 0);
    mc::transition(6);
}
MC_SCENARIO("C33", "qualifiers and members", qualifiers, 1);

// ---- detection helpers ----------------------------------------------------------------------------------
KL_HAS_TYPEDEF_HELPER(alpha)
KL_HAS_TYPEDEF_HELPER(beta)
KL_VALID_EXPR_HELPER(can_go, std::declval<T&>().go(1))
KL_VALID_EXPR_HELPER(can_const_go, std::declval<const T&>().go(1))
template <bool> struct with_alpha { using alpha = int; };
template <> struct with_alpha<false> {};
template <bool> struct with_beta { using beta = void; };
template <> struct with_beta<false> {};
template <int> struct with_go {};
template <> struct with_go<1> { void go(int); };
template <> struct with_go<2> { int go(long) const; };
template <> struct with_go<3> { void go(std::string); };
template <bool A, bool B, int G> struct shape : with_alpha<A>, with_beta<B>, with_go<G> {};
template <bool A, bool B, int G> void detect()
{
    using S = shape<A, B, G>;
    MC_CHECK((has_alpha_v<S> == A && has_alpha<S>::value == A && has_beta_v<S> == B && has_beta<S>::value == B), "KL_HAS_TYPEDEF_HELPER is wrong for shape %d%d", A, B);
    MC_CHECK((can_go_v<S> == (G == 1 || G == 2) && can_go<S>::value == (G == 1 || G == 2) && can_const_go_v<S> == (G == 2)), "KL_VALID_EXPR_HELPER is wrong for shape %d", G);
    mc::transition(2);
}
template <int G> void detect_all()
{
    detect<false, false, G>();
    detect<false, true, G>();
    detect<true, false, G>();
    detect<true, true, G>();
}
// overloads for the ranks in Have; the highest rank not above the requested one must win
template <int Have> struct chooser
{
    template <int H = Have, std::enable_if_t<(H >> 0 & 1) != 0, int> = 0> static int at(kl::priority_tag<0>) { return 0; }
    template <int H = Have, std::enable_if_t<(H >> 1 & 1) != 0, int> = 0> static int at(kl::priority_tag<1>) { return 1; }
    template <int H = Have, std::enable_if_t<(H >> 2 & 1) != 0, int> = 0> static int at(kl::priority_tag<2>) { return 2; }
    template <int H = Have, std::enable_if_t<(H >> 3 & 1) != 0, int> = 0> static int at(kl::priority_tag<3>) { return 3; }
    template <int H = Have, std::enable_if_t<(H >> 4 & 1) != 0, int> = 0> static int at(kl::priority_tag<4>) { return 4; }
};
template <int Have, unsigned Ask> void ranks()
{
    int want = -1;
    for (int k = 0; k <= (int)Ask; ++k)
        if (Have >> k & 1) want = k;
    constexpr bool reachable = (Have & ((2 << Ask) - 1)) != 0;
    if constexpr (reachable)
    {
        int got = chooser<Have>::at(kl::priority_tag<Ask>{});
        MC_CHECK(got == want, "priority_tag<%u> among overloads %#x chose %d, expected %d", Ask, Have, got, want);
        mc::transition();
        mc::count("ranked overload sets");
    }
}
template <int... Have> void all_ranks(std::integer_sequence<int, Have...>) { ((ranks<Have, 0>(), ranks<Have, 1>(), ranks<Have, 2>(), ranks<Have, 3>(), ranks<Have, 4>()), ...); }
MC_SCENARIO("C33", "detection and ranking", [] {
    switch (mc::choose(5, "part"))
    {
    case 0: detect_all<0>(); break;
    case 1: detect_all<1>(); break;
    case 2: detect_all<2>(); break;
    case 3: detect_all<3>(); break;
    case 4: all_ranks(std::make_integer_sequence<int, 32>{}); break;
    }
    mc::trace();
}, 1);

// ---- casts that keep the value ----------------------------------------------------------------------------
struct two
{
    std::uint8_t lo, hi;
};
struct mixed
{
    std::uint32_t a;
    std::uint16_t b, c;
};
template <typename To, typename From> void there_and_back(From f, const char* what)
{
    To t = kl::bit_cast<To>(f);
    From back = kl::bit_cast<From>(t);
    MC_CHECK(!std::memcmp(&t, &f, sizeof f) && !std::memcmp(&back, &f, sizeof f), "bit_cast changes bits of a %s", what);
}
void cast64(std::uint64_t v)
{
    there_and_back<std::int64_t>(v, "uint64");
    there_and_back<double>(v, "uint64 as double");
    there_and_back<std::array<std::uint8_t, 8>>(v, "uint64 as bytes");
    there_and_back<mixed>(v, "uint64 as struct");
    there_and_back<const void*>(v, "uint64 as pointer");
    mc::transition(5);
}
MC_SCENARIO("C33", "bit_cast", [] {
    int hi = mc::choose(256, "upper byte");
    there_and_back<std::int8_t>((std::uint8_t)hi, "uint8");
    there_and_back<char>((std::int8_t)hi, "int8");
    for (int lo = 0; lo < 256; ++lo)
    {
        const std::uint16_t h = (std::uint16_t)(hi << 8 | lo);
        there_and_back<std::int16_t>(h, "uint16");
        there_and_back<two>(h, "uint16 as struct");
        for (std::uint32_t tail : {0u, 1u, 0x7fffu, 0x8000u, 0xffffu, 0x5555u})
        {
            const std::uint32_t w = (std::uint32_t)h << 16 | tail;
            there_and_back<float>(w, "uint32 as float");
            there_and_back<std::int32_t>(w, "uint32");
            there_and_back<std::array<std::uint16_t, 2>>(w, "uint32 as array");
        }
        mc::transition(20);
        // 16 bits anywhere in a word of 64, over zeros and ones
        for (int at = 0; at <= 48; at += 8)
        {
            cast64((std::uint64_t)h << at);
            cast64(~((std::uint64_t)h << at));
        }
    }
    if (mc::thorough())
        for (std::uint32_t k = 0; k < 1u << 24; ++k)
        {
            const std::uint32_t w = (std::uint32_t)hi << 24 | k;
            there_and_back<float>(w, "uint32 as float");
            if (k % 65536 == 0) mc::progress();
        }
    mc::trace(256);
    mc::count("bit patterns", 256);
});
enum class eu8 : std::uint8_t {};
enum class ei8 : std::int8_t {};
enum class eu16 : std::uint16_t {};
enum class ei16 : std::int16_t {};
enum class eu32 : std::uint32_t {};
enum class ei32 : std::int32_t {};
enum class eu64 : std::uint64_t {};
enum class ei64 : std::int64_t {};
enum plain_enum : short {};
enum class ebool : bool {};
template <typename E> void casts(int part)
{
    using U = std::underlying_type_t<E>;
    static_assert(std::is_same_v<decltype(kl::underlying_cast(E{})), U>);
    static_assert(noexcept(kl::underlying_cast(E{})));
    auto one = [](U u) {
        U got = kl::underlying_cast((E)u);
        MC_CHECK(got == u, "underlying_cast gives %lld for %lld", (long long)got, (long long)u);
        mc::transition();
    };
    if constexpr (sizeof(U) <= 2)
        for (long v = 0; v < 256; ++v)
            one((U)(part << 8 | v));
    else
        for (int sh = 0; sh + 8 <= (int)sizeof(U) * 8; ++sh)
        {
            one((U)((std::uint64_t)part << sh));
            one((U)~((std::uint64_t)part << sh));
        }
}
MC_SCENARIO("C33", "underlying_cast", [] {
    int part = mc::choose(256, "part");
    casts<eu8>(part);
    casts<ei8>(part);
    casts<eu16>(part);
    casts<ei16>(part);
    casts<eu32>(part);
    casts<ei32>(part);
    casts<eu64>(part);
    casts<ei64>(part);
    casts<plain_enum>(part);
    casts<ebool>(part & 1);
    constexpr auto c = kl::underlying_cast(eu16(77));
    static_assert(c == 77, "usable in constant expressions");
    mc::trace(10);
    mc::state(mc::hasher{}.u(part));
});
} // namespace mt
