// C31 (struct reflection).
#include "mc.hpp"
#include "kl/ctti.hpp"
#include "kl/reflect_struct.hpp"

#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

namespace ct {

struct at0
{
    int v;
};
struct at1
{
    int v;
};
struct at1d : at1
{
    explicit constexpr at1d(int v) : at1{v} {}
};
struct at2
{
    std::string s;
};
inline int made = 0;   // how many counted attributes were created
struct atc
{
    int v;
    explicit atc(int v) : v{v} { ++made; }
};

struct flat
{
    int a;
    std::string b;
    double c;
    bool d;
};
KL_REFLECT_STRUCT(flat, a, b, c, d)

struct single
{
    int only;
};
KL_REFLECT_STRUCT(single, only)

struct reordered
{
    int x, y, z, hidden;
};
KL_REFLECT_STRUCT(reordered, z, x, y)

class hidden
{
    int p;
    std::string q;

public:
    hidden() : p{1}, q{"2"} {}
    const void* addr(int k) const { return k ? (const void*)&q : (const void*)&p; }
    KL_REFLECT_STRUCT_FRIEND(hidden, p, q)
};

struct one_base : flat
{
    int e;
};
KL_REFLECT_STRUCT_DERIVED(one_base, flat, e)

struct two_bases : single, reordered
{
    char own;
};
KL_REFLECT_STRUCT_DERIVED(two_bases, (single, reordered), own)

struct grandchild : two_bases, hidden
{
    std::unique_ptr<int> mo;
    std::vector<int> vec;
};
KL_REFLECT_STRUCT_DERIVED(grandchild, (two_bases, hidden), mo, vec)

struct derived_friend : single
{
    explicit derived_friend(int k) : secret{k} {}
    const void* addr() const { return &secret; }

private:
    int secret;
    KL_REFLECT_STRUCT_DERIVED_FRIEND(derived_friend, single, secret)
};

struct attrs
{
    int f0, f1, f2, f3, f4;
};
KL_REFLECT_STRUCT(attrs, f0, (f1, at0{11}), (f2, at1d{22}, at0{23}), (f3, at2{"three"}, at1{33}, at1d{34}), (f4, atc{44}))

// an attribute list containing commas inside braces and a repeated attribute
struct twice
{
    int g0, g1;
};
KL_REFLECT_STRUCT(twice, (g0, at0{1}, at0{2}, at1{3}), (g1, at1d{4}, at1{5}))

struct manual
{
    int raw;
    int& ref;
    flat inner;
    explicit manual() : raw{5}, ref{raw}, inner{1, "in", 2.5, true} {}
};
template <typename Factory, typename Visitor>
constexpr void reflect_struct_fields(Factory&& factory, Visitor&& vis, ::kl::ctti::record_class<manual>)
{
    vis(factory.template field<&manual::raw>("raw"));
    vis(KL_ACCESSOR_FIELD(ref));
    vis(KL_ACCESSOR_FIELD_NAMED("b_of_inner", object.inner.b));
    vis(factory.accessor("twice_raw", [](auto& object) { return object.raw * 2; }, [] { return at0{77}; }));
}
constexpr std::size_t reflect_num_fields(::kl::ctti::record_class<manual>) noexcept { return 4; }

// clang-format off
struct wide { int a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,b0,b1,b2,b3,b4,b5,b6,b7,b8,b9,c0,c1,c2,c3,c4,c5,c6,c7,c8,c9,d0,d1,d2,d3,d4,d5,d6,d7,d8,d9; };
KL_REFLECT_STRUCT(wide, a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,b0,b1,b2,b3,b4,b5,b6,b7,b8,b9,c0,c1,c2,c3,c4,c5,c6,c7,c8,c9,d0,d1,d2,d3,d4,d5,d6,d7,d8,d9)
// clang-format on

// attributes declared in bases only, six bases, and eight attributes on one field (the queried one last, or in the middle)
struct many
{
    int h0, h1, h2;
};
KL_REFLECT_STRUCT(many, (h0, at2{"1"}, at2{"22"}, at0{3}, at2{"4444"}, at1{5}, at0{6}, at2{"7777777"}, at1d{8}), h1, (h2, at1{1}, at1{2}, at1d{3}, at1d{4}, at1{5}, at1{6}, at1d{7}, at1{8}, at0{9}))
struct bare : many
{
    int own;
};
KL_REFLECT_STRUCT_DERIVED(bare, many, own)
struct q1 { int q1v; };
struct q2 { int q2v; };
struct q3 { int q3v; };
struct q4 { int q4v; };
struct q5 { int q5v; };
KL_REFLECT_STRUCT(q1, q1v)
KL_REFLECT_STRUCT(q2, (q2v, at0{2}))
KL_REFLECT_STRUCT(q3, q3v)
KL_REFLECT_STRUCT(q4, q4v)
KL_REFLECT_STRUCT(q5, (q5v, at1d{5}))
struct six : q1, q2, q3, q4, q5, single
{
    int last;
};
KL_REFLECT_STRUCT_DERIVED(six, (q1, q2, q3, q4, q5, single), (last, at2{"l"}))

struct not_reflected
{
    int a;
};
} // namespace ct

namespace {

using namespace ct;
struct field_ref
{
    std::string name;
    const void* address;
};
using expectation = std::vector<field_ref>;

template <typename T> expectation expected(const T& o)
{
    if constexpr (std::is_same_v<T, flat>)
        return {{"a", &o.a}, {"b", &o.b}, {"c", &o.c}, {"d", &o.d}};
    else if constexpr (std::is_same_v<T, single>)
        return {{"only", &o.only}};
    else if constexpr (std::is_same_v<T, reordered>)
        return {{"z", &o.z}, {"x", &o.x}, {"y", &o.y}};
    else if constexpr (std::is_same_v<T, hidden>)
        return {{"p", o.addr(0)}, {"q", o.addr(1)}};
    else if constexpr (std::is_same_v<T, one_base>)
    {
        auto e = expected<flat>(o);
        e.push_back({"e", &o.e});
        return e;
    }
    else if constexpr (std::is_same_v<T, two_bases>)
    {
        auto e = expected<single>(o);
        for (auto& x : expected<reordered>(o))
            e.push_back(x);
        e.push_back({"own", &o.own});
        return e;
    }
    else if constexpr (std::is_same_v<T, grandchild>)
    {
        auto e = expected<two_bases>(o);
        for (auto& x : expected<hidden>(o))
            e.push_back(x);
        e.push_back({"mo", &o.mo});
        e.push_back({"vec", &o.vec});
        return e;
    }
    else if constexpr (std::is_same_v<T, derived_friend>)
        return {{"only", &o.only}, {"secret", o.addr()}};
    else if constexpr (std::is_same_v<T, attrs>)
        return {{"f0", &o.f0}, {"f1", &o.f1}, {"f2", &o.f2}, {"f3", &o.f3}, {"f4", &o.f4}};
    else if constexpr (std::is_same_v<T, many>)
        return {{"h0", &o.h0}, {"h1", &o.h1}, {"h2", &o.h2}};
    else if constexpr (std::is_same_v<T, bare>)
        return {{"h0", &o.h0}, {"h1", &o.h1}, {"h2", &o.h2}, {"own", &o.own}};
    else if constexpr (std::is_same_v<T, six>)
        return {{"q1v", &o.q1v}, {"q2v", &o.q2v}, {"q3v", &o.q3v}, {"q4v", &o.q4v}, {"q5v", &o.q5v}, {"only", &o.only}, {"last", &o.last}};
    else if constexpr (std::is_same_v<T, twice>)
        return {{"g0", &o.g0}, {"g1", &o.g1}};
    else
    {
        expectation e;
        const int* p = &o.a0;
        for (char c : {'a', 'b', 'c', 'd'})
            for (char d = '0'; d <= '9'; ++d)
                e.push_back({std::string{c, d}, p++});
        return e;
    }
}

template <typename T> void visit_all(const char* tn, T& o)
{
    auto want = expected<std::remove_const_t<T>>(o);
    MC_CHECK(kl::ctti::num_fields<T>() == want.size() && kl::ctti::num_fields<const T&>() == want.size(), "%s: num_fields is %zu, %zu fields are declared", tn, kl::ctti::num_fields<T>(), want.size());
    std::size_t i = 0;
    auto check = [&](auto field) {
        MC_CHECK(i < want.size(), "%s: more fields than declared", tn);
        MC_CHECK(field.name() == want[i].name, "%s: field %zu is called %s, declared %s", tn, i, field.name(), want[i].name.c_str());
        MC_CHECK((const void*)&field.value() == want[i].address, "%s: field %s refers to another member", tn, field.name());
        auto again = field;
        MC_CHECK(&again.value() == &field.value(), "%s: a copied field refers elsewhere", tn);
        ++i;
        mc::transition();
    };
    kl::ctti::reflect_object(o, check);
    MC_CHECK(i == want.size(), "%s: %zu fields visited, %zu declared", tn, i, want.size());
    i = 0;
    kl::ctti::reflect_object(static_cast<const T&>(o), [&](auto field) {
        static_assert(std::is_const_v<std::remove_reference_t<decltype(field.value())>>, "a const object's fields are const");
        check(field);
    });
    MC_CHECK(i == want.size(), "%s (const): %zu fields visited, %zu declared", tn, i, want.size());
    i = 0;
    kl::ctti::reflect_type<T>([&](auto field) {
        MC_CHECK(i < want.size() && field.name() == want[i].name, "%s: reflect_type visits %s as number %zu", tn, field.name(), i);
        ++i;
        mc::transition();
    });
    MC_CHECK(i == want.size(), "%s: reflect_type visits %zu fields, %zu declared", tn, i, want.size());
    mc::trace();
}

template <typename X> void touch(X& x)
{
    if constexpr (std::is_same_v<X, int> || std::is_same_v<X, double> || std::is_same_v<X, char>)
        x = (X)(x + 1);
    else if constexpr (std::is_same_v<X, bool>)
        x = !x;
    else if constexpr (std::is_same_v<X, std::string>)
        x += "~";
    else if constexpr (std::is_same_v<X, std::vector<int>>)
        x.push_back(1);
    else
        x = std::make_unique<int>(x ? *x + 1 : 1);
}
template <typename X> std::string show(const X& x)
{
    if constexpr (std::is_same_v<X, std::string>)
        return x;
    else if constexpr (std::is_same_v<X, std::vector<int>>)
        return "v" + std::to_string(x.size());
    else if constexpr (std::is_same_v<X, std::unique_ptr<int>>)
        return x ? "p" + std::to_string(*x) : "null";
    else
        return std::to_string(x);
}
// Writing through any subset of the fields changes exactly those members.
template <typename T> void subsets(const char* tn, T& o)
{
    visit_all(tn, o);
    std::size_t n = expected(o).size();
    std::uint64_t mask = (std::uint64_t)mc::choose(n >= 12 ? 64 : 1 << n, "fields written");
    if (n >= 12)   // wide: one or two fields
        mask = (1ull << (mask % n)) | (1ull << ((mask * 7 + 3) % n));
    std::vector<std::string> before, after;
    auto snap = [&](std::vector<std::string>& v) { kl::ctti::reflect_object(o, [&](auto f) { v.push_back(show(f.value())); }); };
    snap(before);
    std::size_t i = 0;
    kl::ctti::reflect_object(o, [&](auto f) {
        if (mask >> i++ & 1)
            touch(f.value());
    });
    snap(after);
    for (i = 0; i < n; ++i)
        MC_CHECK((before[i] != after[i]) == (mask >> i & 1), "%s: writing fields %#llx %s field %zu", tn, (unsigned long long)mask, before[i] != after[i] ? "changes" : "does not change", i);
    visit_all(tn, o);
    mc::state(mc::hasher{}.s(tn).u(mask));
    mc::count("field subsets");
}
#define CT(T, ...) MC_SCENARIO("C31", "fields of " #T, [] { T o{__VA_ARGS__}; subsets<T>(#T, o); }, 1);
CT(flat, 1, "b", 2.5, true)
CT(single, 1)
CT(reordered, 1, 2, 3, 4)
CT(hidden)
CT(one_base, {1, "b", 2.5, true}, 5)
CT(two_bases, {1}, {1, 2, 3, 4}, 'c')
CT(derived_friend, 3)
CT(attrs, 0, 1, 2, 3, 4)
CT(twice, 0, 1)
CT(wide, 0)
CT(many, 0, 1, 2)
CT(bare, {0, 1, 2}, 3)
CT(six, {1}, {2}, {3}, {4}, {5}, {6}, 7)
MC_SCENARIO("C31", "fields of grandchild", [] { grandchild o{}; subsets<grandchild>("grandchild", o); }, 1);

// ---- attributes -----------------------------------------------------------------------------------
template <typename A, typename F> int first_of(const F& f)
{
    auto* p = f.template get<A>();
    MC_CHECK((p != nullptr) == f.template has<A>(), "get and has disagree");
    if (!p)
        return -1;
    if constexpr (std::is_same_v<A, at2>)
        return (int)p->s.size();
    else
        return p->v;
}
template <typename A, typename F> std::vector<int> all_of(const F& f)
{
    std::vector<int> v;
    f.template visit_attributes<A>([&](const auto& a) {
        if constexpr (std::is_same_v<std::decay_t<decltype(a)>, at2>)
            v.push_back((int)a.s.size());
        else
            v.push_back(a.v);
    });
    return v;
}
template <typename F> std::vector<int> every(const F& f)
{
    std::vector<int> v;
    f.visit_attributes([&](const auto& a) {
        if constexpr (std::is_same_v<std::decay_t<decltype(a)>, at2>)
            v.push_back((int)a.s.size());
        else
            v.push_back(a.v);
    });
    return v;
}
struct want_attr
{
    const char* name;
    std::vector<std::pair<int, int>> list;   // (kind, value), kinds: 0 at0, 1 at1, 2 at1d, 3 at2, 4 atc
};
const std::vector<want_attr> W_attrs{{"f0", {}}, {"f1", {{0, 11}}}, {"f2", {{2, 22}, {0, 23}}}, {"f3", {{3, 5}, {1, 33}, {2, 34}}}, {"f4", {{4, 44}}}};
const std::vector<want_attr> W_twice{{"g0", {{0, 1}, {0, 2}, {1, 3}}}, {"g1", {{2, 4}, {1, 5}}}};

const want_attr W_h0{"h0", {{3, 1}, {3, 2}, {0, 3}, {3, 4}, {1, 5}, {0, 6}, {3, 7}, {2, 8}}}, W_h2{"h2", {{1, 1}, {1, 2}, {2, 3}, {2, 4}, {1, 5}, {1, 6}, {2, 7}, {1, 8}, {0, 9}}};
const std::vector<want_attr> W_many{W_h0, {"h1", {}}, W_h2};
const std::vector<want_attr> W_bare{W_h0, {"h1", {}}, W_h2, {"own", {}}};
const std::vector<want_attr> W_six{{"q1v", {}}, {"q2v", {{0, 2}}}, {"q3v", {}}, {"q4v", {}}, {"q5v", {{2, 5}}}, {"only", {}}, {"last", {{3, 1}}}};

// kinds: which declared attributes a query for kind q finds (a base class finds derived attributes)
bool matches(int q, int k) { return q == k || (q == 1 && k == 2); }
std::vector<int> select(const want_attr& w, int q, int filter)
{
    std::vector<int> v;
    for (auto& [k, val] : w.list)
    {
        bool kept = filter < 0;
        for (int b = 0; b < 5; ++b)
            kept |= filter >= 0 && (filter >> b & 1) && matches(b, k);
        if (kept && (q < 0 || matches(q, k)))
            v.push_back(val);
    }
    return v;
}
template <typename F> void check_attrs(const F& f, const want_attr& w, int filter, const char* how)
{
    MC_CHECK(!std::strcmp(f.name(), w.name), "%s: field %s where %s is declared", how, f.name(), w.name);
    MC_CHECK(every(f) == select(w, -1, filter), "%s: %s carries the wrong attributes (filter %d)", how, w.name, filter);
    auto one = [&](int q, int first, const std::vector<int>& all) {
        auto s = select(w, q, filter);
        MC_CHECK(all == s && first == (s.empty() ? -1 : s[0]), "%s: %s: query for attribute kind %d (filter %d) finds %zu, expected %zu", how, w.name, q, filter, all.size(), s.size());
        mc::transition();
        mc::count(s.empty() ? "absent attributes" : "present attributes");
    };
    one(0, first_of<at0>(f), all_of<at0>(f));
    one(1, first_of<at1>(f), all_of<at1>(f));
    one(2, first_of<at1d>(f), all_of<at1d>(f));
    one(3, first_of<at2>(f), all_of<at2>(f));
    one(4, first_of<atc>(f), all_of<atc>(f));
}
template <typename T, typename Filter> void type_attrs(const std::vector<want_attr>& w, int filter)
{
    std::size_t i = 0;
    kl::ctti::reflect_type<T, Filter>([&](auto f) { check_attrs(f, w.at(i++), filter, "reflect_type"); });
    MC_CHECK(i == w.size(), "reflect_type visits %zu fields", i);
}
template <typename T> void attr_queries(const std::vector<want_attr>& w, T o)
{
    using kl::ctti::any_attribute_filter;
    std::size_t i = 0;
    made = 0;
    kl::ctti::reflect_object(o, [&](auto f) { check_attrs(f, w.at(i++), -1, "reflect_object"); });
    MC_CHECK(i == w.size(), "reflect_object visits %zu fields", i);
    type_attrs<T, kl::ctti::all_attributes_filter>(w, -1);
    made = 0;
    // every filter that does not ask for the counted attribute creates none of them
#define FI(mask, ...) type_attrs<T, any_attribute_filter<__VA_ARGS__>>(w, mask)
    FI(0);
    FI(1, at0);
    FI(2, at1);
    FI(3, at0, at1);
    FI(4, at1d);
    FI(5, at1d, at0);
    FI(6, at1, at1d);
    FI(7, at0, at1, at1d);
    FI(8, at2);
    FI(9, at2, at0);
    FI(10, at1, at2);
    FI(11, at0, at1, at2);
    FI(12, at1d, at2);
    FI(13, at0, at1d, at2);
    FI(14, at1, at1d, at2);
    FI(15, at0, at1, at1d, at2);
    MC_CHECK(made == 0, "filtering created %d attributes that were filtered out", made);
    FI(16, atc);
    FI(17, at0, atc);
    FI(31, at0, at1, at1d, at2, atc);
    auto any = [&](int mask) {
        for (auto& x : w)
            if (!select(x, -1, mask).empty())
                return true;
        return false;
    };
    using kl::ctti::has_any_attribute;
    made = 0;
    bool ok = has_any_attribute<T, at0>() == any(1) && has_any_attribute<T, at1>() == any(2) && has_any_attribute<T, at1d>() == any(4) && has_any_attribute<T, at2>() == any(8) &&
              has_any_attribute<T, at0, at2>() == any(9) && has_any_attribute<T, at1d, at2>() == any(12) && has_any_attribute<T, at1, at0>() == any(3);
    MC_CHECK(ok && made == 0, "has_any_attribute answers wrongly");
    MC_CHECK((has_any_attribute<T, atc>() == any(16)), "has_any_attribute<atc>");
    mc::trace();
}
MC_SCENARIO("C31", "attributes", [] {
    switch (mc::choose(5, "type"))
    {
    case 0: attr_queries(W_attrs, attrs{}); break;
    case 1: attr_queries(W_twice, twice{}); break;
    case 2: attr_queries(W_many, many{}); break;
    case 3: attr_queries(W_bare, bare{}); break;
    case 4: attr_queries(W_six, six{}); break;
    }
}, 1);
MC_SCENARIO("C31", "types without attributes", [] {
    MC_CHECK(!(kl::ctti::has_any_attribute<flat, at0>()) && !(kl::ctti::has_any_attribute<grandchild, at0, at1>()), "attributes found where none are declared");
    MC_CHECK(kl::ctti::is_reflectable_v<flat> && kl::ctti::is_reflectable_v<hidden> && kl::ctti::is_reflectable_v<manual> && !kl::ctti::is_reflectable_v<not_reflected> && !kl::ctti::is_reflectable_v<int>, "is_reflectable");
    MC_CHECK(kl::ctti::name<flat>() == "ct::flat" && kl::ctti::name<const grandchild&>() == "ct::grandchild", "ctti::name");
    mc::transition(3);
}, 1);

// ---- accessor fields --------------------------------------------------------------------------------
MC_SCENARIO("C31", "accessor fields", [] {
    manual o;
    o.raw = mc::choose(5, "value");
    bool cst = mc::choose(2, "const object");
    std::vector<std::string> names, types, tnames;
    int i = 0;
    auto vis = [&](auto f) {
        names.push_back(f.name());
        using X = std::decay_t<decltype(f.value())>;
        static_assert(std::is_same_v<X, typename decltype(f)::value_type>);
        if constexpr (std::is_same_v<X, std::string>)
            MC_CHECK(f.value() == o.inner.b, "an accessor for a nested member");
        else
        {
            int want = i == 3 ? 2 * o.raw : o.raw;
            MC_CHECK(f.value() == want, "accessor field %s is %d, expected %d", f.name(), (int)f.value(), want);
        }
        if constexpr (std::is_lvalue_reference_v<decltype(f.value())>)
        {
            const void* a = &f.value();
            MC_CHECK(a == (const void*)&o.raw || a == (const void*)&o.inner.b, "accessor field %s refers to a copy", f.name());
        }
        if (auto* p = f.template get<at0>())
            MC_CHECK(p->v == 77 && i == 3, "an accessor's attribute");
        else
            MC_CHECK(i != 3, "an accessor's attribute is lost");
        ++i;
        mc::transition();
    };
    if (cst)
        kl::ctti::reflect_object(static_cast<const manual&>(o), vis);
    else
    {
        kl::ctti::reflect_object(o, vis);
        kl::ctti::reflect_object(o, [&](auto f) {
            if constexpr (std::is_same_v<decltype(f.value()), std::string&>)
                f.value() = "written";
            else if constexpr (std::is_same_v<decltype(f.value()), int&>)
                f.value() += 100;
        });
        MC_CHECK(o.inner.b == "written" && o.raw >= 200 && &o.ref == &o.raw, "writing through accessor fields");
    }
    MC_CHECK((names == std::vector<std::string>{"raw", "ref", "b_of_inner", "twice_raw"}), "accessor fields are visited in another order");
    kl::ctti::reflect_type<manual>([&](auto f) {
        tnames.push_back(f.name());
        types.push_back(std::is_same_v<typename decltype(f)::value_type, std::string> ? "s" : std::is_same_v<typename decltype(f)::value_type, int> ? "i" : "?");
    });
    MC_CHECK(tnames == names && (types == std::vector<std::string>{"i", "i", "s", "i"}), "reflect_type of accessor fields");
    MC_CHECK(kl::ctti::num_fields<manual>() == 4, "num_fields of a manually reflected type");
    mc::state(mc::hasher{}.u(o.raw).u(cst));
});

// Visitors: passed by reference, and allowed to throw at any field
MC_SCENARIO("C31", "visitors", [] {
    int stop = mc::choose(6, "field that throws");
    one_base o{{1, "b", 2.5, true}, 5};
    int seen = 0;
    bool threw = false;
    try
    {
        kl::ctti::reflect_object(o, [&](auto) {
            if (seen == stop)
                throw 1;
            ++seen;
        });
    }
    catch (int)
    {
        threw = true;
    }
    MC_CHECK(threw == (stop < 5) && seen == std::min(stop, 5), "a visitor throwing at field %d saw %d fields", stop, seen);
    int count = 0;
    auto lv = [&](auto) { ++count; };
    kl::ctti::reflect_object(o, lv);
    kl::ctti::reflect_type<one_base>(lv);
    MC_CHECK(count == 10, "an lvalue visitor saw %d fields", count);
    // an unnamed object: the fields refer to it
    std::string read;
    kl::ctti::reflect_object(one_base{{stop, "tmp", 0.5, false}, 9}, [&](auto f) { read += show(f.value()) + ","; });
    MC_CHECK(read == std::to_string(stop) + ",tmp," + std::to_string(0.5) + ",0,9,", "reflecting an unnamed object reads %s", read.c_str());
    // a visitor that keeps its fields: they stay bound to their own object
    one_base p{{70, "p", 7.5, false}, 75};
    std::vector<std::function<void()>> later;
    std::vector<const void*> at;
    auto keep = [&](auto f) {
        later.push_back([f] { touch(f.value()); });
        at.push_back(&f.value());
    };
    kl::ctti::reflect_object(o, keep);
    kl::ctti::reflect_object(p, keep);
    for (auto& g : later)
        g();
    MC_CHECK(o.a == 2 && o.b == "b~" && o.c == 3.5 && !o.d && o.e == 6 && p.a == 71 && p.b == "p~" && p.c == 8.5 && p.d && p.e == 76, "fields kept by a visitor refer to another object");
    MC_CHECK(at.size() == 10 && at[0] == &o.a && at[5] == &p.a, "fields kept by a visitor have another address");
    mc::transition(2);
}, 1);

} // namespace
