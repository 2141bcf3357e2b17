// C26 (zipping, enumerating, counting, tuple helpers, ranges).
#include "mc.hpp"
#include "kl/range.hpp"
#include "kl/tuple.hpp"
#include "kl/zip.hpp"

#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace {

// A sequence whose iterators record how far they are moved and which positions are read.
struct log_t
{
    int furthest = 0;      // largest position an iterator was moved to
    std::vector<int> reads;
};
struct probe
{
    std::vector<int>* data;
    log_t* log;
    struct iterator
    {
        using iterator_category = std::input_iterator_tag;
        using value_type = int;
        using difference_type = std::ptrdiff_t;
        using reference = int&;
        using pointer = int*;
        std::vector<int>* data;
        log_t* log;
        int i;
        int& operator*() const
        {
            if (i < 0 || i >= (int)data->size())
                mc::fail("a sequence of %zu elements is read at position %d", data->size(), i);
            log->reads.push_back(i);
            return (*data)[i];
        }
        iterator& operator++()
        {
            ++i;
            if (i > (int)data->size())
                mc::fail("an iterator is moved past the end of a sequence of %zu elements", data->size());
            log->furthest = std::max(log->furthest, i);
            return *this;
        }
        friend bool operator!=(const iterator& a, const iterator& b) { return a.i != b.i; }
        friend bool operator==(const iterator& a, const iterator& b) { return a.i == b.i; }
    };
    iterator begin() const { return {data, log, 0}; }
    iterator end() const { return {data, log, (int)data->size()}; }
};

template <typename C> C make(int base, int n)
{
    C c;
    for (int i = 0; i < n; ++i)
        c.insert(c.end(), base + i);
    return c;
}
template <typename C> std::vector<const void*> addresses(C& c)
{
    std::vector<const void*> v;
    for (auto& x : c)
        v.push_back(&x);
    return v;
}
template <typename C> std::vector<int> contents(const C& c) { return std::vector<int>(std::begin(c), std::end(c)); }

template <typename A, typename B> void zip2(const char* what, int na, int nb)
{
    A a = make<A>(10, na);
    B b = make<B>(200, nb);
    auto aa = addresses(a);
    auto ab = addresses(b);
    int n = std::min(na, nb), i = 0;
    auto z = kl::zipped(a, b);
    for (auto&& t : z)
    {
        static_assert(std::is_same_v<decltype(std::get<0>(t)), std::tuple_element_t<0, std::remove_reference_t<decltype(t)>>&>);
        MC_CHECK(i < n, "%s (%d, %d): more than %d steps", what, na, nb, n);
        MC_CHECK(&std::get<0>(t) == aa[i] && &std::get<1>(t) == ab[i], "%s (%d, %d): step %d does not refer to the elements", what, na, nb, i);
        std::get<0>(t) += 1000;
        std::get<1>(t) += 1000;
        ++i;
        mc::transition();
    }
    MC_CHECK(i == n, "%s (%d, %d): %d steps, expected %d", what, na, nb, i, n);
    auto ca = contents(a), cb = contents(b);
    for (int k = 0; k < na; ++k)
        MC_CHECK(ca[k] == 10 + k + (k < n ? 1000 : 0), "%s (%d, %d): first sequence, element %d is %d afterwards", what, na, nb, k, ca[k]);
    for (int k = 0; k < nb; ++k)
        MC_CHECK(cb[k] == 200 + k + (k < n ? 1000 : 0), "%s (%d, %d): second sequence, element %d is %d afterwards", what, na, nb, k, cb[k]);
    // the range can be walked again, and through const sequences
    const A& constA = a;
    const B& constB = b;
    int j = 0;
    for (auto&& [x, y] : kl::zipped(constA, constB))
    {
        static_assert(std::is_const_v<std::remove_reference_t<decltype(x)>>);
        MC_CHECK(j < n && &x == aa[j] && &y == ab[j], "%s (%d, %d): const walk, step %d", what, na, nb, j);
        ++j;
    }
    MC_CHECK(j == n, "%s (%d, %d): const walk has %d steps", what, na, nb, j);
    j = 0;
    for (auto&& [x, y] : z)
    {
        (void)y;
        MC_CHECK(j < n && &x == aa[j], "%s (%d, %d): second walk, step %d", what, na, nb, j);
        ++j;
    }
    MC_CHECK(j == n, "%s (%d, %d): second walk has %d steps", what, na, nb, j);
    // enumerated: positions and elements
    std::size_t pos = 0;
    for (auto&& [idx, x] : kl::enumerated(a))
    {
        MC_CHECK(idx == pos && pos < (std::size_t)na && &x == aa[pos], "%s: enumerated step %zu", what, pos);
        ++pos;
    }
    MC_CHECK((int)pos == na, "%s: enumerated has %zu steps for %d elements", what, pos, na);
    pos = 0;
    for (auto&& [idx, x] : kl::enumerated(constB))
    {
        MC_CHECK(idx == pos && pos < (std::size_t)nb && &x == ab[pos], "%s: enumerated const step %zu", what, pos);
        ++pos;
    }
    MC_CHECK((int)pos == nb, "%s: enumerated const has %zu steps for %d elements", what, pos, nb);
    mc::trace();
    mc::state(mc::hasher{}.s(what).u(na).u(nb));
}
template <typename A> void zip2_all(const char* what, int kb, int na, int nb)
{
    switch (kb)
    {
    case 0: zip2<A, std::vector<int>>(what, na, nb); break;
    case 1: zip2<A, std::list<int>>(what, na, nb); break;
    case 2: zip2<A, std::deque<long>>(what, na, nb); break;
    }
}
MC_SCENARIO("C26", "two sequences of every kind and length", [] {
    int ka = mc::choose(3, "kind"), kb = mc::choose(3, "kind");
    int na = mc::choose(mc::thorough() ? 10 : 7, "length"), nb = mc::choose(mc::thorough() ? 10 : 7, "length");
    switch (ka)
    {
    case 0: zip2_all<std::vector<int>>("zipped(vector, .)", kb, na, nb); break;
    case 1: zip2_all<std::list<int>>("zipped(list, .)", kb, na, nb); break;
    case 2: zip2_all<std::deque<long>>("zipped(deque, .)", kb, na, nb); break;
    }
    if (na != nb)
        mc::count("unequal lengths");
});

MC_SCENARIO("C26", "long sequences", [] {
    static const int len[] = {15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000};
    int na = len[mc::choose(14, "length")], nb = len[mc::choose(14, "length")];
    zip2<std::vector<int>, std::list<int>>("zipped(vector, list)", na, nb);
    zip2<std::deque<long>, std::vector<int>>("zipped(deque, vector)", na, nb);
    if (na == 1000 && nb == 1000)
    {
        zip2<std::vector<int>, std::vector<int>>("zipped(vector, vector)", 70000, 70001);
        zip2<std::deque<long>, std::vector<int>>("zipped(deque, vector)", 65537, 65536);
    }
});

// Up to four sequences of probes: only positions below the shortest length are read, each and in
// order; nothing moves past an end.
template <typename... P> int walk_probes(std::vector<std::vector<int>>& d, std::vector<log_t>& l, P... p)
{
    int steps = 0;
    for (auto&& t : kl::zipped(p...))
    {
        int k = 0;
        bool ok = true;
        std::apply([&](auto&... x) { ((ok = ok && &x == &d[k][steps], ++k), ...); }, t);
        MC_CHECK(ok, "step %d refers to the wrong elements", steps);
        ++steps;
        mc::transition();
    }
    return steps;
}
MC_SCENARIO("C26", "up to four sequences, reads and moves", [] {
    int n = mc::choose(4, "sequences") + 1;
    std::vector<std::vector<int>> d(n);
    std::vector<log_t> l(n);
    int shortest = 99;
    for (int i = 0; i < n; ++i)
    {
        int len = mc::choose(mc::thorough() ? 6 : 5, "length");
        d[i].assign(len, i);
        shortest = std::min(shortest, len);
    }
    std::vector<probe> p;
    for (int i = 0; i < n; ++i)
        p.push_back({&d[i], &l[i]});
    int steps = n == 1 ? walk_probes(d, l, p[0]) : n == 2 ? walk_probes(d, l, p[0], p[1]) : n == 3 ? walk_probes(d, l, p[0], p[1], p[2]) : walk_probes(d, l, p[0], p[1], p[2], p[3]);
    MC_CHECK(steps == shortest, "%d sequences, shortest %d: %d steps", n, shortest, steps);
    for (int i = 0; i < n; ++i)
    {
        auto& rd = l[i].reads;
        rd.erase(std::unique(rd.begin(), rd.end()), rd.end());   // reading an element again is no fault
        MC_CHECK((int)rd.size() == shortest && l[i].furthest <= shortest, "sequence %d of length %zu: %zu reads, moved to %d, shortest is %d", i, d[i].size(), rd.size(), l[i].furthest, shortest);
        for (int k = 0; k < shortest; ++k)
            MC_CHECK(rd[k] == k, "sequence %d: read number %d is of position %d", i, k, rd[k]);
    }
    mc::count(shortest == 0 ? "empty zips" : "non-empty zips");
    mc::state(mc::hasher{}.u(n).u(shortest));
});

// Iterators are copyable values: a copy taken at any step keeps its place.
MC_SCENARIO("C26", "iterator copies", [] {
    std::vector<int> a{1, 2, 3, 4};
    std::list<int> b{5, 6, 7};
    auto z = kl::zipped(a, b);
    auto it = z.begin();
    auto keep = it;
    int pos = 0, kept = 0;
    for (int s = 0; s < 6; ++s)
    {
        int op = mc::choose(4, "operation");
        if (op == 0)
        {
            if (pos == 3)
                mc::skip();
            auto& r = ++it;
            MC_CHECK(&r == &it, "++ does not return the iterator");
            ++pos;
        }
        else if (op == 1)
            keep = it, kept = pos;
        else if (op == 2)
            it = keep, pos = kept;
        else
            break;
        mc::transition();
        MC_CHECK((it != z.end()) == (pos < 3) && (keep != z.end()) == (kept < 3), "at step %d the end is recognised wrongly", pos);
        if (pos < 3)
            MC_CHECK(&std::get<0>(*it) == &a[pos] && std::get<1>(*it) == 5 + pos, "the iterator lost its place at %d", pos);
        if (kept < 3)
            MC_CHECK(&std::get<0>(*keep) == &a[kept] && std::get<1>(*keep) == 5 + kept, "a copy lost its place at %d", kept);
    }
    mc::state(mc::hasher{}.u(pos).u(kept));
});

MC_SCENARIO("C26", "arrays, const arrays and unusual sequences", [] {
    int carr[3] = {1, 2, 3};
    const double darr[2] = {1.5, 2.5};
    std::array<std::string, 4> sarr{"a", "b", "c", "d"};
    std::vector<bool> bits{true, false, true};
    std::forward_list<int> fl{7, 8, 9, 10};
    std::vector<std::unique_ptr<int>> ptrs;
    for (int i = 0; i < 3; ++i)
        ptrs.push_back(std::make_unique<int>(i));
    int i = 0;
    for (auto&& [x, y, s] : kl::zipped(carr, darr, sarr))
    {
        MC_CHECK(&x == &carr[i] && &y == &darr[i] && &s == &sarr[i], "C arrays: step %d", i);
        ++i;
    }
    MC_CHECK(i == 2, "C arrays: %d steps", i);
    i = 0;
    for (auto&& [x, b, f, p] : kl::zipped(carr, bits, fl, ptrs))
    {
        MC_CHECK(&x == &carr[i] && bool(b) == (i != 1) && f == 7 + i && &p == &ptrs[i], "mixed sequences: step %d", i);
        b = !bool(b);
        ++i;
    }
    MC_CHECK(i == 3 && !bits[0] && bits[1] && !bits[2], "mixed sequences: %d steps, writes through vector<bool> references", i);
    i = 0;
    for (auto&& [n, x] : kl::zipped(kl::iota_range<int>{5, 8}, carr))
    {
        MC_CHECK(n == 5 + i && &x == &carr[i], "iota and array: step %d", i);
        ++i;
    }
    MC_CHECK(i == 3, "iota and array: %d steps", i);
    i = 0;
    for (auto&& [x, n] : kl::zipped(carr, kl::unbounded_iota_range<char>{'p'}))
    {
        MC_CHECK(n == 'p' + i && &x == &carr[i], "array and unbounded iota: step %d", i);
        ++i;
    }
    MC_CHECK(i == 3, "array and unbounded iota: %d steps", i);
    // nesting
    i = 0;
    auto inner = kl::zipped(carr, sarr);
    for (auto&& [idx, p] : kl::enumerated(inner))
    {
        MC_CHECK((int)idx == i && &std::get<0>(p) == &carr[i] && &std::get<1>(p) == &sarr[i], "enumerated(zipped): step %d", i);
        ++i;
    }
    MC_CHECK(i == 3, "enumerated(zipped): %d steps", i);
    mc::transition(17);
    mc::trace();
});

// Counting ranges: every interval of the 8-bit types
template <typename T> void iotas(const char* tn)
{
    int lo = mc::choose(256, "first") + std::numeric_limits<T>::min();
    for (int hi = lo; hi <= std::numeric_limits<T>::max(); ++hi)
    {
        int v = lo;
        for (auto x : kl::iota_range<T>{(T)lo, (T)hi})
        {
            MC_CHECK(v < hi && x == (T)v, "%s: iota(%d, %d) gives %d, expected %d", tn, lo, hi, (int)x, v);
            ++v;
            mc::transition();
        }
        MC_CHECK(v == hi, "%s: iota(%d, %d) ends at %d", tn, lo, hi, v);
        mc::trace();
    }
    int v = lo;
    for (auto x : kl::unbounded_iota_range<T>{(T)lo})
    {
        MC_CHECK(x == (T)v, "%s: unbounded iota from %d gives %d, expected %d", tn, lo, (int)x, v);
        if (++v > std::numeric_limits<T>::max())
            break;
    }
    MC_CHECK(v == std::numeric_limits<T>::max() + 1, "%s: unbounded iota from %d ended", tn, lo);
    for (auto x : kl::unbounded_iota_range<T>{})
    {
        MC_CHECK(x == 0, "%s: the default unbounded iota starts at %d", tn, (int)x);
        break;
    }
    mc::count("intervals");
}
MC_SCENARIO("C26", "iota int8", [] { iotas<std::int8_t>("int8"); }, 1);
MC_SCENARIO("C26", "iota uint8", [] { iotas<std::uint8_t>("uint8"); }, 1);
MC_SCENARIO("C26", "iota wide", [] {
    const long long starts[] = {0, -1, 1, (1ll << 31) - 3, (1ll << 32) - 3, -(1ll << 31) - 2, std::numeric_limits<long long>::max() - 5, std::numeric_limits<long long>::min()};
    long long lo = starts[mc::choose(8, "first")];
    int n = mc::choose(6, "length");
    long long v = lo;
    int k = 0;
    for (auto x : kl::iota_range<long long>{lo, lo + n})
    {
        MC_CHECK(k < n && x == v, "iota(%lld, +%d): element %d is %lld", lo, n, k, x);
        ++k;
        ++v;
        mc::transition();
    }
    MC_CHECK(k == n, "iota(%lld, +%d) has %d elements", lo, n, k);
    mc::state(mc::hasher{}.u((std::uint64_t)lo).u(n));
});

// Tuple helpers: order, value category, and short circuit
MC_SCENARIO("C26", "tuple helpers", [] {
    int m = mc::choose(32, "which components differ");
    bool d[4] = {bool(m & 1), bool(m & 2), bool(m & 4), bool(m & 8)};
    std::tuple<int, std::string, double, char> x{1, "s", 2.5, 'c'}, y{d[0] ? 2 : 1, d[1] ? "t" : "s", d[2] ? 3.5 : 2.5, d[3] ? 'd' : 'c'};
    bool all = d[0] && d[1] && d[2] && d[3];
    MC_CHECK(kl::tuple::not_equal_fn::call(x, y) == all, "not_equal of tuples differing in mask %d", m);
    const auto& cx = x;
    MC_CHECK(kl::tuple::not_equal_fn::call(cx, std::as_const(y)) == all, "not_equal of const tuples differing in mask %d", m);
    std::vector<const void*> seen, want{&std::get<0>(x), &std::get<1>(x), &std::get<2>(x), &std::get<3>(x)};
    kl::tuple::for_each_fn::call(x, [&](auto& e) { seen.push_back(&e); });
    MC_CHECK(seen == want, "for_each does not visit each component once, in order");
    seen.clear();
    kl::tuple::for_each_fn::call(cx, [&](const auto& e) { seen.push_back(&e); });
    MC_CHECK(seen == want, "for_each over a const tuple");
    int i = 5;
    std::string s = "v";
    std::vector<short> v{3, 4};
    std::tuple<int*, std::string*, std::vector<short>::const_iterator> it{&i, &s, v.cbegin() + 1};
    auto r = kl::tuple::transform_ref_fn::call(it);
    static_assert(std::is_same_v<decltype(r), std::tuple<int&, std::string&, const short&>>);
    MC_CHECK(&std::get<0>(r) == &i && &std::get<1>(r) == &s && &std::get<2>(r) == &v[1], "transform_ref refers to something else");
    std::get<0>(r) = 6;
    MC_CHECK(i == 6, "writing through transform_ref");
    mc::transition(6);
});

MC_SCENARIO("C26", "ranges over containers", [] {
    int n = mc::choose(6, "length");
    auto v = make<std::vector<int>>(0, n);
    auto l = make<std::list<int>>(0, n);
    const auto& cl = l;
    kl::range rv{v};
    kl::range rl{cl};
    kl::range rr{v.data(), v.data() + n};
    MC_CHECK((int)rv.size() == n && (int)rl.size() == n && (int)rr.size() == n, "size() of a range over %d elements", n);
    int i = 0;
    for (auto& x : rv)
        MC_CHECK(&x == &v[i++], "range over a vector: element %d", i);
    MC_CHECK(i == n, "range over a vector: %d steps", i);
    i = 0;
    for (auto& x : rl)
        MC_CHECK(x == i++, "range over a list: element %d", i);
    MC_CHECK(i == n, "range over a list: %d steps", i);
    i = 0;
    for (auto& x : rr)
        MC_CHECK(&x == &v[i++], "range over pointers: element %d", i);
    MC_CHECK(i == n, "range over pointers: %d steps", i);
    int a[4] = {1, 2, 3, 4};
    const int ca[2] = {1, 2};
    kl::range ra{a};
    kl::range rca{ca};
    MC_CHECK(ra.size() == 4 && ra.begin() == a && ra.end() == a + 4 && rca.size() == 2 && rca.begin() == ca && rca.end() == ca + 2, "range over arrays");
    kl::range<int*> empty;
    MC_CHECK(empty.size() == 0 && empty.begin() == empty.end(), "a default constructed range");
    mc::transition(6);
}, 1);

} // namespace
