// The C++ types whose serialization is explored, and their descriptions for the reference model.
#pragma once
#include "serial_model.hpp"
#include "kl/enum_set.hpp"
#include "kl/reflect_enum.hpp"
#include "kl/reflect_struct.hpp"
#include "kl/serialization.hpp"
#include "kl/serialization_attributes.hpp"
#include <array>
#include <deque>
#include <list>
#include <limits>
#include <tuple>
#include <unordered_map>

namespace zoo {
namespace at = kl::serialization::attributes;

enum class col { one = 1, two = 2, three = 4 };
KL_REFLECT_ENUM(col, one, two, three)
enum plain_enum { zero_e, first_e, second_e };
KL_REFLECT_ENUM(plain_enum, (zero_e, zero), (first_e, one), (second_e, second))
enum class raw8 : std::int8_t { lo = -128, mid = 3, hi = 127 };

struct cust { int v = 0; };   // has a kl::serialization::serializer

struct P { int i = 0; std::string s; std::optional<int> o; };
KL_REFLECT_STRUCT(P, i, s, o)
struct N { P p; std::optional<P> op; };
KL_REFLECT_STRUCT(N, p, op)
struct Q { std::vector<P> vp; std::map<std::string, P> mp; };
KL_REFLECT_STRUCT(Q, vp, mp)
struct R { std::array<int, 2> a{}; std::tuple<bool, std::string> t; cust c; col e = col::one; };
KL_REFLECT_STRUCT(R, a, t, c, e)
struct B1 { int b1 = 0; };
KL_REFLECT_STRUCT(B1, b1)
struct B2 { std::string b2; };
KL_REFLECT_STRUCT(B2, b2)
struct Der : B1, B2 { std::optional<bool> own; };
KL_REFLECT_STRUCT_DERIVED(Der, (B1, B2), own)
struct Empty {};

// attributes
struct A1 { int a = 0; int b = 0; std::optional<int> d; std::string e; };
KL_REFLECT_STRUCT(A1, (a, at::default_value(7)), (b, at::allow_missing), (d, at::default_value(3)), (e, at::allow_missing, at::default_value("dflt")))
struct A2 { int r = 0; std::optional<int> v; int ge = 0; int le = 0; };
inline void check_v(const std::optional<int>& v) { if (v && *v == 2) throw kl::serialization::deserialize_error{"two is not allowed"}; }
KL_REFLECT_STRUCT(A2, (r, at::range(1, 2)), (v, at::validate([](const std::optional<int>& v) { check_v(v); })), (ge, at::greater_equal(1)), (le, at::less_equal(1)))
struct A3 { int x = 0; int y = 0; int z = 0; std::optional<int> w; };
KL_REFLECT_STRUCT(A3, (x, at::rename("X")), (y, at::aliases("yy", "why")), (z, at::rename("Z"), at::aliases("zed")), (w, at::rename("W"), at::skip_if_null))
struct A4 { int a = 0; int hidden = 0; int out_only = 0; int in_only = 0; };
KL_REFLECT_STRUCT(A4, a, (hidden, at::skip), (out_only, at::skip_deserialization), (in_only, at::skip_serialization))
struct A5 { std::optional<int> e, n, plain; std::string se; std::vector<int> ve; };
KL_REFLECT_STRUCT(A5, (e, at::emit_null), (n, at::skip_if_null), plain, (se, at::skip_if_empty), (ve, at::skip_if_empty))
struct In { int p = 0; int hid = 0; std::optional<int> oo; };
KL_REFLECT_STRUCT(In, (p, at::aliases("q")), (hid, at::skip), oo)
struct A6 { int a = 0; In in; std::map<std::string, int> extra; };
KL_REFLECT_STRUCT(A6, a, (in, at::flatten), (extra, at::extra_fields))
struct A7 { std::map<std::string, std::optional<int>> more; int b = 0; };
KL_REFLECT_STRUCT(A7, (more, at::extra_fields), (b, at::rename("bee")))
struct A8 { int top = 0; A7 in; };
KL_REFLECT_STRUCT(A8, (top, at::aliases("alt")), (in, at::flatten))
struct A9 { std::map<std::string, P> more; std::optional<int> k; };
KL_REFLECT_STRUCT(A9, (more, at::extra_fields, at::skip_if_empty), k)
struct Mid { int m = 0; In in; };
KL_REFLECT_STRUCT(Mid, (m, at::default_value(5)), (in, at::flatten))
struct A10 { Mid mid; int last = 0; };
KL_REFLECT_STRUCT(A10, (mid, at::flatten), (last, at::range(0, 1), at::default_value(9)))
struct A11 { int a = 0; int b = 0; };
KL_REFLECT_STRUCT(A11, (a, at::rename("b")), (b, at::rename("a")))
struct A12 { std::optional<P> op; std::optional<A1> oa; std::vector<A1> va; };
KL_REFLECT_STRUCT(A12, (op, at::emit_null), (oa, at::aliases("alias")), (va, at::skip_if_empty, at::allow_missing))
struct A13 : A11 { int c = 0; };
KL_REFLECT_STRUCT_DERIVED(A13, A11, (c, at::rename("sea"), at::aliases("c"), at::greater_equal(0)))
struct A14 { std::array<A1, 2> arr; std::pair<A4, A5> pr; };
KL_REFLECT_STRUCT(A14, arr, (pr, at::allow_missing))
// as many aliases as there can be, several validators on one field, names that contain each other
struct A15 { int a = 0; int n = 0; std::map<std::string, int> more; };
KL_REFLECT_STRUCT(A15, (a, at::rename("na"), at::aliases("a", "aa", "aaa", "a1", "a2", "nam", "name", "A"), at::default_value(4)), (n, at::greater_equal(0), at::less_equal(2), at::validate([](const int& v) { if (v == 1) throw kl::serialization::deserialize_error{"one"}; })), (more, at::extra_fields))

} // namespace zoo

namespace kl::serialization {
template <>
struct serializer<zoo::cust>
{
    static std::string str(const zoo::cust& c) { return "<" + std::to_string(c.v) + ">"; }
    template <typename C> static void dump(const zoo::cust& c, C& ctx) { kl::serialization::dump(str(c), ctx); }
    template <typename C> static auto serialize(const zoo::cust& c, C& ctx) { return kl::serialization::serialize(str(c), ctx); }
    template <typename V, typename C> static void deserialize(zoo::cust& out, const V& value, C& ctx)
    {
        std::string s;
        kl::serialization::deserialize(s, value, ctx);
        int v, n = -1;
        if (std::sscanf(s.c_str(), "<%d>%n", &v, &n) != 1 || n != (int)s.size())
            throw deserialize_error{"not a cust"};
        out.v = v;
    }
    template <typename V, typename C> static void patch(zoo::cust& out, const V& value, C& ctx)
    {
        zoo::cust c;
        deserialize(c, value, ctx);
        out.v += c.v;
    }
};
} // namespace kl::serialization

namespace sm {

template <typename T, typename = void> struct D;

inline std::shared_ptr<Schema> mk(Schema::kind k)
{
    auto s = std::make_shared<Schema>();
    s->k = k;
    return s;
}

template <> struct D<bool>
{
    static S schema() { return mk(Schema::Bool); }
    static J get(bool v) { return J::boolean(v); }
    static void set(bool& v, const J& m) { v = m.b; }
};
template <typename T> struct D<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static S schema()
    {
        auto s = mk(Schema::Int);
        s->lo = std::numeric_limits<T>::min();
        s->hi = std::numeric_limits<T>::max();
        return s;
    }
    static J get(T v) { return J::num(v); }
    static void set(T& v, const J& m) { v = (T)m.i; }
};
template <typename T> struct D<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static S schema() { return mk(sizeof(T) == 4 ? Schema::Flt : Schema::Dbl); }
    static J get(T v) { return J::dbl(v); }
    static void set(T& v, const J& m) { v = (T)m.d; }
};
template <> struct D<std::string>
{
    static S schema() { return mk(Schema::Str); }
    static J get(const std::string& v) { return J::str(v); }
    static void set(std::string& v, const J& m) { v = m.s; }
};
template <> struct D<zoo::cust>
{
    static S schema() { return mk(Schema::Custom); }
    static J get(const zoo::cust& v) { return J::num(v.v); }
    static void set(zoo::cust& v, const J& m) { v.v = (int)m.i; }
};
inline const std::vector<std::pair<zoo::col, std::string>> col_names = {{zoo::col::one, "one"}, {zoo::col::two, "two"}, {zoo::col::three, "three"}};
template <> struct D<zoo::col>
{
    static S schema()
    {
        auto s = mk(Schema::Enum);
        s->names = {"one", "two", "three"};
        return s;
    }
    static J get(zoo::col v)
    {
        for (auto& [c, n] : col_names)
            if (c == v)
                return J::str(n);
        return J::num((int)v);
    }
    static void set(zoo::col& v, const J& m)
    {
        for (auto& [c, n] : col_names)
            if (n == m.s)
                v = c;
    }
};
template <> struct D<zoo::plain_enum>
{
    static S schema()
    {
        auto s = mk(Schema::Enum);
        s->names = {"zero", "one", "second"};
        return s;
    }
    static J get(zoo::plain_enum v) { return J::str(v == zoo::zero_e ? "zero" : v == zoo::first_e ? "one" : v == zoo::second_e ? "second" : "?"); }
    static void set(zoo::plain_enum& v, const J& m) { v = m.s == "zero" ? zoo::zero_e : m.s == "one" ? zoo::first_e : zoo::second_e; }
};
template <> struct D<zoo::raw8>
{
    static S schema() { return D<std::int8_t>::schema(); }
    static J get(zoo::raw8 v) { return J::num((int)v); }
    static void set(zoo::raw8& v, const J& m) { v = (zoo::raw8)(int)m.i; }
};
template <> struct D<kl::enum_set<zoo::col>>
{
    static S schema()
    {
        auto s = mk(Schema::EnumSet);
        s->names = {"one", "two", "three"};
        return s;
    }
    static J get(kl::enum_set<zoo::col> v)
    {
        J r = J::arr();
        for (auto& [c, n] : col_names)
            if ((int)v.underlying_value() & (int)c)
                r.a.push_back(J::str(n));
        if (v.underlying_value() & ~7)
            r.a.push_back(J::num(v.underlying_value()));
        return r;
    }
    static void set(kl::enum_set<zoo::col>& v, const J& m)
    {
        int bits = 0;
        for (auto& e : m.a)
            for (auto& [c, n] : col_names)
                if (n == e.s)
                    bits |= (int)c;
        v = kl::enum_set<zoo::col>{(zoo::col)bits};
    }
};
template <typename T> struct D<std::optional<T>>
{
    static S schema()
    {
        auto s = mk(Schema::Opt);
        s->sub = {D<T>::schema()};
        return s;
    }
    static J get(const std::optional<T>& v) { return v ? D<T>::get(*v) : J::null(); }
    static void set(std::optional<T>& v, const J& m)
    {
        v.reset();
        if (m.k != J::Null)
            D<T>::set(v.emplace(), m);
    }
};
template <typename C> struct seq_d
{
    using T = typename C::value_type;
    static S schema()
    {
        auto s = mk(Schema::Vec);
        s->sub = {D<T>::schema()};
        return s;
    }
    static J get(const C& v)
    {
        J r = J::arr();
        for (const auto& e : v)
            r.a.push_back(D<T>::get(e));
        return r;
    }
    static void set(C& v, const J& m)
    {
        v.clear();
        for (auto& e : m.a)
        {
            T t{};
            D<T>::set(t, e);
            v.push_back(t);
        }
    }
};
template <typename T> struct D<std::vector<T>> : seq_d<std::vector<T>> {};
template <typename T> struct D<std::list<T>> : seq_d<std::list<T>> {};
template <typename T> struct D<std::deque<T>> : seq_d<std::deque<T>> {};
template <typename T, std::size_t N> struct D<std::array<T, N>>
{
    static S schema()
    {
        auto s = mk(Schema::Arr);
        s->sub = {D<T>::schema()};
        s->n = N;
        return s;
    }
    static J get(const std::array<T, N>& v)
    {
        J r = J::arr();
        for (auto& e : v)
            r.a.push_back(D<T>::get(e));
        return r;
    }
    static void set(std::array<T, N>& v, const J& m)
    {
        for (std::size_t n = 0; n < N; ++n)
            D<T>::set(v[n], m.a[n]);
    }
};
template <typename Tup, typename... Ts> struct tup_d
{
    static S schema()
    {
        auto s = mk(Schema::Tup);
        s->sub = {D<Ts>::schema()...};
        return s;
    }
    template <std::size_t... I> static J get_(const Tup& v, std::index_sequence<I...>) { return J::arr({D<Ts>::get(std::get<I>(v))...}); }
    template <std::size_t... I> static void set_(Tup& v, const J& m, std::index_sequence<I...>) { (D<Ts>::set(std::get<I>(v), m.a[I]), ...); }
    static J get(const Tup& v) { return get_(v, std::index_sequence_for<Ts...>{}); }
    static void set(Tup& v, const J& m) { set_(v, m, std::index_sequence_for<Ts...>{}); }
};
template <typename... Ts> struct D<std::tuple<Ts...>> : tup_d<std::tuple<Ts...>, Ts...> {};
template <typename A, typename B> struct D<std::pair<A, B>> : tup_d<std::pair<A, B>, A, B> {};
template <typename M, typename T> struct map_d
{
    static S schema()
    {
        auto s = mk(Schema::Map);
        s->sub = {D<T>::schema()};
        return s;
    }
    static J get(const M& v)
    {
        J r = J::obj();
        for (auto& [k, e] : v)
            set_map(r, k, D<T>::get(e));
        return r;
    }
    static void set(M& v, const J& m)
    {
        v.clear();
        for (auto& [k, e] : m.o)
            D<T>::set(v[k], e);
    }
};
template <typename T> struct D<std::map<std::string, T>> : map_d<std::map<std::string, T>, T> {};
template <typename T> struct D<std::unordered_map<std::string, T>> : map_d<std::unordered_map<std::string, T>, T> {};

// structs
template <typename C, typename Base, typename T> Field F(const char* name, T Base::*ptr, std::function<void(Field&)> attrs = {})
{
    Field f;
    f.name = f.wire = name;
    f.schema = D<T>::schema();
    f.get = [ptr](const void* o) { return D<T>::get(static_cast<const C*>(o)->*ptr); };
    f.set = [ptr](void* o, const J& m) { D<T>::set(static_cast<C*>(o)->*ptr, m); };
    if (attrs)
        attrs(f);
    return f;
}
template <typename C, typename Derived> struct struct_d
{
    static const S& schema()
    {
        static const S s = [] {
            auto x = mk(Schema::Struct);
            x->fields = Derived::fields();
            return x;
        }();
        return s;
    }
    static J get(const C& v)
    {
        J r = J::arr();
        for (auto& f : schema()->fields)
            r.a.push_back(f.get(&v));
        return r;
    }
    static void set(C& v, const J& m)
    {
        for (std::size_t n = 0; n < schema()->fields.size(); ++n)
            schema()->fields[n].set(&v, m.a[n]);
    }
};
using A = std::function<void(Field&)>;
inline const A skip = [](Field& f) { f.skip_ser = f.skip_de = true; };
inline const A skip_ser = [](Field& f) { f.skip_ser = true; };
inline const A skip_de = [](Field& f) { f.skip_de = true; };
inline const A emit_null = [](Field& f) { f.emit_null = true; };
inline const A skip_if_null = [](Field& f) { f.skip_if_null = true; };
inline const A skip_if_empty = [](Field& f) { f.skip_if_empty = true; };
inline const A allow_missing = [](Field& f) { f.allow_missing = true; };
inline const A flatten = [](Field& f) { f.flatten = true; };
inline const A extra = [](Field& f) { f.extra = true; };
inline A rename(std::string n) { return [n](Field& f) { f.wire = n; }; }
inline A aliases(std::vector<std::string> n) { return [n](Field& f) { f.aliases = n; }; }
inline A def(J v) { return [v](Field& f) { f.def = v; }; }
inline A valid(std::function<bool(const J&)> v) { return [v](Field& f) { f.valid = v; }; }
inline A operator+(A a, A b) { return [a, b](Field& f) { a(f); b(f); }; }

#define ZOO(T, ...) template <> struct D<zoo::T> : struct_d<zoo::T, D<zoo::T>> { using C = zoo::T; static std::vector<Field> fields() { return {__VA_ARGS__}; } }
#define FM(m, ...) F<C>(#m, &C::m, ##__VA_ARGS__)
ZOO(P, FM(i), FM(s), FM(o));
ZOO(N, FM(p), FM(op));
ZOO(Q, FM(vp), FM(mp));
ZOO(R, FM(a), FM(t), FM(c), FM(e));
ZOO(Der, FM(b1), FM(b2), FM(own));
ZOO(A1, FM(a, def(J::num(7))), FM(b, allow_missing), FM(d, def(J::num(3))), FM(e, allow_missing + def(J::str("dflt"))));
ZOO(A2, FM(r, valid([](const J& j) { return j.i >= 1 && j.i <= 2; })), FM(v, valid([](const J& j) { return j.k == J::Null || j.i != 2; })),
    FM(ge, valid([](const J& j) { return j.i >= 1; })), FM(le, valid([](const J& j) { return j.i <= 1; })));
ZOO(A3, FM(x, rename("X")), FM(y, aliases({"yy", "why"})), FM(z, rename("Z") + aliases({"zed"})), FM(w, rename("W") + skip_if_null));
ZOO(A4, FM(a), FM(hidden, skip), FM(out_only, skip_de), FM(in_only, skip_ser));
ZOO(A5, FM(e, emit_null), FM(n, skip_if_null), FM(plain), FM(se, skip_if_empty), FM(ve, skip_if_empty));
ZOO(In, FM(p, aliases({"q"})), FM(hid, skip), FM(oo));
ZOO(A6, FM(a), FM(in, flatten), FM(extra, sm::extra));
ZOO(A7, FM(more, extra), FM(b, rename("bee")));
ZOO(A8, FM(top, aliases({"alt"})), FM(in, flatten));
ZOO(A9, FM(more, extra + skip_if_empty), FM(k));
ZOO(Mid, FM(m, def(J::num(5))), FM(in, flatten));
ZOO(A10, FM(mid, flatten), FM(last, def(J::num(9)) + valid([](const J& j) { return j.i >= 0 && j.i <= 1; })));
ZOO(A11, FM(a, rename("b")), FM(b, rename("a")));
ZOO(A12, FM(op, emit_null), FM(oa, aliases({"alias"})), FM(va, skip_if_empty + allow_missing));
ZOO(A13, FM(a, rename("b")), FM(b, rename("a")), FM(c, rename("sea") + aliases({"c"}) + valid([](const J& j) { return j.i >= 0; })));
ZOO(A14, FM(arr), FM(pr, allow_missing));
ZOO(A15, FM(a, rename("na") + aliases({"a", "aa", "aaa", "a1", "a2", "nam", "name", "A"}) + def(J::num(4))), FM(n, valid([](const J& j) { return j.i == 0 || j.i == 2; })), FM(more, extra));
#undef ZOO
#undef FM

template <typename T> T make(const J& m)
{
    T t{};
    D<T>::set(t, m);
    return t;
}

} // namespace sm
