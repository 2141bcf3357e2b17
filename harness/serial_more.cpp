// C17, C18, C20: exhaustive scalar sweeps, texts for parse, builders and extractors (-DWITH_YAML=0/1).
#include "serial_lib.hpp"
#include <bitset>
#include <cfloat>
#include <deque>
#include <list>

namespace {

const char* const W = WITH_YAML ? "C20" : "C17";   // writing
const char* const R = WITH_YAML ? "C20" : "C18";   // reading

template <typename Fn> bool refused(Fn&& fn)
{
    try { fn(); }
    catch (const kl::serialization::deserialize_error&) { return true; }
    return false;
}

// ---- every value of the small integer types, and all powers of two and their neighbours -------------
template <typename T> void write_int(i128 v)
{
    T x = (T)v;
    std::string t = lib::dump(x);
    if (t != dec(v)) mc::fail("dump of a %d-byte %s integer: %s, expected %s", (int)sizeof(T), std::is_signed_v<T> ? "signed" : "unsigned", show(t).c_str(), dec(v).c_str());
    J tr = tree(lib::serialize(x));
    if (!equal(J::num(v), tr)) mc::fail("serialize of a %d-byte integer %s: %s", (int)sizeof(T), dec(v).c_str(), text(tr).c_str());
    T back = (T)~x;
    auto d = parse(t);
    lib::deserialize(back, d);
    if (back != x) mc::fail("integer %s reads back as %s", dec(v).c_str(), dec(back).c_str());
    mc::transition(3);
    mc::trace();
}
template <typename T> void read_int(i128 v, const node& d)
{
    T out = 77;
    bool no = refused([&] { lib::deserialize(out, d); });
    bool fits = v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max();
    if (no == fits) mc::fail("%s into a %d-byte %s integer is %s", dec(v).c_str(), (int)sizeof(T), std::is_signed_v<T> ? "signed" : "unsigned", no ? "refused" : "accepted");
    if (fits && (i128)out != v) mc::fail("%s reads as %s", dec(v).c_str(), dec(out).c_str());
    if (no && out != 77) mc::count("refused but modified");
    mc::transition();
    mc::count(no ? "refused documents" : "accepted documents");
}
template <typename Fn> void each_int(i128 lo, i128 hi, Fn&& fn)
{
    for (i128 v = lo; v <= hi; ++v)
        fn(v);
}
std::vector<i128> powers()
{
    std::vector<i128> r;
    for (int k = 0; k <= 64; ++k)
        for (int d = -2; d <= 2; ++d)
            for (int neg = 0; neg < 2; ++neg)
            {
                i128 v = (i128(1) << k) + d;
                if (neg) v = -v;
                if (v >= -(i128(1) << 63) && v < (i128(1) << 64)) r.push_back(v);
            }
    return r;
}

MC_SCENARIO(W, "integers written", [] {
    auto all = [](auto zero) {
        using T = decltype(zero);
        if constexpr (sizeof(T) <= 2)
        {
            // a quarter of the range per work unit
            i128 lo = std::numeric_limits<T>::min(), n = ((i128)std::numeric_limits<T>::max() - lo + 1) / 4;
            int q = mc::choose(4, "quarter");
            each_int(lo + q * n, lo + q * n + n - 1, write_int<T>);
        }
        else
            for (i128 v : powers())
                if (v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max())
                    write_int<T>(v);
    };
    switch (mc::choose(8, "type"))
    {
    case 0: return all(std::int8_t{});
    case 1: return all(std::uint8_t{});
    case 2: return all(short{});
    case 3: return all((unsigned short)0);
    case 4: return all(0);
    case 5: return all(0u);
    case 6: return all(std::int64_t{});
    case 7: return all(std::uint64_t{});
    }
});

void read_all(i128 v)
{
    const node d = parse(dec(v));
    read_int<std::int8_t>(v, d);
    read_int<std::uint8_t>(v, d);
    read_int<short>(v, d);
    read_int<unsigned short>(v, d);
    read_int<int>(v, d);
    read_int<unsigned>(v, d);
    read_int<std::int64_t>(v, d);
    read_int<std::uint64_t>(v, d);
    mc::trace();
}
MC_SCENARIO(R, "integers read", [] {
    int part = mc::choose(9, "part");
    if (part == 8)
    {
        for (i128 v : powers()) read_all(v);
        return;
    }
    i128 lo = -66000 + part * 16500;
    each_int(lo, lo + 16499, read_all);
}, 1);

// ---- doubles: every exponent with boundary mantissas -------------------------------------------------
template <typename F, typename U> void sweep_floats(int exp_bits, int man_bits)
{
    const int slice = mc::choose(16, "slice");
    const int exps = 1 << exp_bits;
    for (int e = slice; e < exps - 1; e += 16)
        for (U m : {U(0), U(1), U(2), U((U(1) << man_bits) - 1), U(U(1) << (man_bits - 1)), U((U(1) << man_bits) / 3), U((U(1) << man_bits) / 7), U((U(1) << man_bits) / 11 * 10), U((U(1) << (man_bits / 2)) - 1)})
            for (int sign = 0; sign < 2; ++sign)
            {
                U bits = (U(sign) << (exp_bits + man_bits)) | (U(e) << man_bits) | m;
                F x, y = 77;
                std::memcpy(&x, &bits, sizeof x);
                std::string t = lib::dump(x);
                auto d = parse(t);
                lib::deserialize(y, d);
                U got;
                std::memcpy(&got, &y, sizeof y);
#if !WITH_YAML
                // What is written must denote the value exactly.  Reading the text back goes through
                // rapidjson's default number parsing, which is known to be up to 3 ULPs off for doubles
                // (KNOWN_FINDINGS.txt); nothing beyond that is tolerated.
                const F exact = sizeof(F) == 4 ? (F)std::strtof(t.c_str(), nullptr) : (F)std::strtod(t.c_str(), nullptr);
                if (std::memcmp(&exact, &x, sizeof x)) mc::fail("%s %.17g is written as %s", sizeof(F) == 4 ? "float" : "double", (double)x, t.c_str());
                if ((F)d.GetDouble() != y) mc::fail("%s is parsed as %.17g but read as %.17g", t.c_str(), d.GetDouble(), (double)y);
                if (sizeof(F) == 8 && got != bits && (got > bits ? got - bits : bits - got) <= 3)
                {
                    mc::count("doubles read back within 3 ULPs (known finding)");
                    got = bits;
                }
#endif
                if (got != bits) mc::fail("%s %.17g written as %s reads back as %.17g", sizeof(F) == 4 ? "float" : "double", (double)x, t.c_str(), (double)y);
                y = 77;
                lib::deserialize(y, lib::serialize(x));
                std::memcpy(&got, &y, sizeof y);
                if (got != bits) mc::fail("%s %.17g serialized reads back as %.17g", sizeof(F) == 4 ? "float" : "double", (double)x, (double)y);
                mc::transition(2);
                mc::trace();
            }
}
MC_SCENARIO(W, "floating point values, every exponent", [] {
    if (mc::choose(2, "type")) sweep_floats<double, std::uint64_t>(11, 52);
    else sweep_floats<float, std::uint32_t>(8, 23);
});

// ---- strings: every code point, every pair of ASCII characters ---------------------------------------
std::string utf8(std::uint32_t c)
{
    std::string r;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) (r += (char)(0xc0 | c >> 6)) += (char)(0x80 | (c & 63));
    else if (c < 0x10000) ((r += (char)(0xe0 | c >> 12)) += (char)(0x80 | (c >> 6 & 63))) += (char)(0x80 | (c & 63));
    else (((r += (char)(0xf0 | c >> 18)) += (char)(0x80 | (c >> 12 & 63))) += (char)(0x80 | (c >> 6 & 63))) += (char)(0x80 | (c & 63));
    return r;
}
void one_string(const std::string& s)
{
    std::string out = "?";
    std::string t = lib::dump(s);
    auto d = parse(t);
    lib::deserialize(out, d);
    if (out != s) mc::fail("string %s written as %s reads back as %s", show(s).c_str(), show(t).c_str(), show(out).c_str());
    if (lib::dump(std::string_view{s}) != t) mc::fail("the string_view %s is not written like the string", show(s).c_str());
    if (!equal(J::str(s), tree(lib::serialize(s)))) mc::fail("serialize of the string %s", show(s).c_str());
    if (!equal(J::str(s), tree(lib::serialize(std::string_view{s})))) mc::fail("serialize of the string_view %s", show(s).c_str());
    // as a key
    std::map<std::string, int> m{{s, 1}}, back;
    t = lib::dump(m);
    auto dm = parse(t);
    lib::deserialize(back, dm);
    if (back != m) mc::fail("the key %s is written as %s and does not read back", show(s).c_str(), show(t).c_str());
    mc::transition(5);
    mc::trace();
}
MC_SCENARIO(W, "strings: every code point", [] {
    // quick: the basic multilingual plane; thorough: everything
    const std::uint32_t block = mc::choose(mc::thorough() ? 0x110 : 0x10, "block of 4096") * 4096;
    const std::uint32_t sub = mc::choose(8, "512");
    for (std::uint32_t c = block + sub * 512; c < block + (sub + 1) * 512; ++c)
    {
        if (c >= 0xd800 && c < 0xe000) continue;
#if WITH_YAML
        if (c == 0xfffe || c == 0xffff || (c & 0xfffe) == 0xfffe) continue;   // non-characters are not YAML text
#endif
        one_string(utf8(c));
        mc::progress();
    }
});
MC_SCENARIO(W, "strings: every pair of ASCII characters", [] {
    const int a = mc::choose(128, "first");
    for (int b = 0; b < 128; ++b)
    {
        one_string(std::string{(char)a, (char)b});
        mc::progress();
    }
}, 1);
MC_SCENARIO(W, "views", [] {
    std::string_view views[] = {std::string_view{}, std::string_view{""}, std::string_view{"abc", 2}, std::string_view{"a\0b", 3}};
    const int n = mc::choose(4, "view");
    const std::string expect{views[n]};
    mc::note("view %d", n);
    std::string out = "?";
    auto d = parse(lib::dump(views[n]));
    lib::deserialize(out, d);
    if (out != expect) mc::fail("string_view %s reads back as %s", show(expect).c_str(), show(out).c_str());
    if (!equal(J::str(expect), tree(lib::serialize(views[n])))) mc::fail("serialize of the string_view %s", show(expect).c_str());
    std::string_view sv = "?";
    lib::deserialize(sv, d);
    if (sv != expect) mc::fail("string_view out %s", show(std::string(sv)).c_str());
    // a view of a document is written as the document it views
    const char* docs[] = {"{\"a\": [1, null, \"x\"], \"b\": {}}", "[]", "\"s\"", "-12"};
    auto doc = parse(docs[n]);
    lib::view v;
    lib::deserialize(v, doc);
    J want = tree(doc);
    auto again = parse(lib::dump(v));
    if (!same(want, tree(again))) mc::fail("dump of a view of %s: %s", docs[n], text(tree(again)).c_str());
    if (!same(want, tree(lib::serialize(v)))) mc::fail("serialize of a view of %s", docs[n]);
    mc::transition(6);
});

// ---- large and deep values: every length around the interesting ones, a fault at every position ------
const char* const PA = WITH_YAML ? "C20" : "C19";   // patching

const int lengths[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000};
constexpr int n_lengths = sizeof lengths / sizeof *lengths;
std::string name_of(int i) { return i % 5 == 4 ? "a long name, longer than a short string buffer " + std::to_string(i) : "k" + std::to_string(i); }

template <typename T> void large(const char* what, const T& v, const J& expect)
{
    mc::progress();
    const std::string t = lib::dump(v);
    const auto d = parse(t);
    if (!equal(expect, tree(d))) mc::fail("dump of %s: %s", what, show(t).substr(0, 300).c_str());
    if (!equal(expect, serialized(v, true))) mc::fail("serialize of %s differs from its dump", what);
    T back{};
    lib::deserialize(back, d);
    if (!(back == v)) mc::fail("%s does not read back", what);
    T over = v; // into a value that is not empty
    lib::deserialize(over, d);
    if (!(over == v)) mc::fail("%s does not read back over itself", what);
    mc::transition(4);
    mc::trace();
}
struct bush
{
    int v = 0;
    std::vector<bush> kids;
    bool operator==(const bush& o) const { return v == o.v && kids == o.kids; }
};
KL_REFLECT_STRUCT(bush, v, kids)
bush grown(int depth, int wide)
{
    bush b;
    b.v = depth;
    if (depth)
        for (int i = 0; i < (depth % 7 == 3 ? wide : 1); ++i)
            b.kids.push_back(i ? bush{i, {}} : grown(depth - 1, wide));
    return b;
}
J as_tree(const bush& b)
{
    J r = J::obj(), k = J::arr();
    for (auto& e : b.kids) k.a.push_back(as_tree(e));
    r.o.emplace_back("v", J::num(b.v));
    r.o.emplace_back("kids", k);
    return r;
}
MC_SCENARIO(W, "large values", [] {
    const int n = lengths[mc::choose(n_lengths, "length")];
    J nums = J::arr(), strs = J::arr(), rows = J::arr(), pairs = J::obj();
    std::vector<int> vi;
    std::vector<std::string> vs;
    std::vector<std::vector<int>> vv;
    std::map<std::string, int> m;
    std::vector<std::optional<int>> vo;
    J opts = J::arr();
    for (int i = 0; i < n; ++i)
    {
        vi.push_back(i * 7 - 50);
        nums.a.push_back(J::num(i * 7 - 50));
        vs.push_back(name_of(i));
        strs.a.push_back(J::str(vs.back()));
        vv.push_back(std::vector<int>(i % 4, i));
        J row = J::arr();
        for (int k = 0; k < i % 4; ++k) row.a.push_back(J::num(i));
        rows.a.push_back(row);
        m[name_of(i)] = i;
        vo.push_back(i % 3 ? std::optional<int>{i} : std::nullopt);
        opts.a.push_back(i % 3 ? J::num(i) : J::null());
    }
    for (auto& e : m) pairs.o.emplace_back(e.first, J::num(e.second));
    large("a vector", vi, nums);
    large("a list", std::list<int>(vi.begin(), vi.end()), nums);
    large("a deque", std::deque<int>(vi.begin(), vi.end()), nums);
    large("a vector of strings", vs, strs);
    large("a vector of vectors", vv, rows);
    large("a vector of optionals", vo, opts);
    large("a map", m, pairs);
    std::string text;
    for (int i = 0; i < n; ++i) text += (char)('a' + i % 26);
    large("a string", text, J::str(text));
    text += "\xc3\xa9\n\"";
    large("a string", text, J::str(text));
    large("a map with a long key", std::map<std::string, std::string>{{"k" + text, text}}, [&] { J o = J::obj(); o.o.emplace_back("k" + text, J::str(text)); return o; }());
    if (n <= 65)
    {
        const bush b = grown(n, 3);
        large("a tree", b, as_tree(b));
    }
}, 1);
// one element that does not fit, at every position
MC_SCENARIO(R, "one bad element", [] {
    const int n = lengths[1 + mc::choose(n_lengths - 2, "length")];
    for (int bad = 0; bad <= n; ++bad) // n: none
    {
        mc::progress();
        std::string seq = "[", map = "{", deep;
        for (int i = 0; i < n; ++i)
        {
            const std::string e = i == bad ? "[1]" : std::to_string(i);
            seq += (i ? ", " : "") + e;
            map += (i ? ", \"" : "\"") + name_of(i) + "\": " + e;
        }
        seq += "]";
        map += "}";
        const auto ds = parse(seq), dm = parse(map);
        auto verdict = [&](const char* what, auto out, const node& d) {
            const bool no = refused([&] { lib::deserialize(out, d); });
            if (no != (bad < n)) mc::fail("%s of %d elements with element %d ill-typed is %s", what, n, bad, no ? "refused" : "accepted");
            if (!no && (int)out.size() != n) mc::fail("%s of %d elements has %d", what, n, (int)out.size());
            mc::count(no ? "refused documents" : "accepted documents");
            mc::transition();
        };
        verdict("a vector", std::vector<int>{1, 2}, ds);
        verdict("a list", std::list<int>{}, ds);
        verdict("a map", std::map<std::string, int>{{"old", 1}}, dm);
        if (n <= 65)
        {
            // a tree of depth n with the fault at depth `bad`
            for (int i = n - 1; i >= 0; --i)
                deep = "{\"v\": " + std::string(i == bad ? "[1]" : "1") + ", \"kids\": [" + deep + "]}";
            bush b;
            const auto d = parse(deep);
            const bool no = refused([&] { lib::deserialize(b, d); });
            if (no != (bad < n)) mc::fail("a tree of depth %d with the fault at %d is %s", n, bad, no ? "refused" : "accepted");
            mc::transition();
        }
        mc::trace();
    }
}, 1);
// sequences and maps of any length are patched by sequences and maps of any length
MC_SCENARIO(PA, "large patches", [] {
    const int n = lengths[mc::choose(n_lengths - 1, "length")];
    const int k = lengths[mc::choose(n_lengths - 1, "length of the patch")];
    std::string seq = "[", map = "{";
    std::vector<int> before, after;
    std::map<std::string, int> mb, ma;
    for (int i = 0; i < n; ++i) before.push_back(i), mb[name_of(i)] = i;
    for (int i = 0; i < k; ++i)
    {
        after.push_back(-i);
        ma[name_of(i * 2)] = -i;
        seq += (i ? ", " : "") + std::to_string(-i);
        map += (i ? ", \"" : "\"") + name_of(i * 2) + "\": " + std::to_string(-i);
    }
    seq += "]";
    map += "}";
    auto v = before;
    lib::patch(v, parse(seq));
    if (v != after) mc::fail("patching a sequence of %d by one of %d elements", n, k);
    auto m = mb;
    lib::patch(m, parse(map));
    if (m != ma) mc::fail("patching a map of %d by one of %d entries", n, k);
    mc::transition(2);
});

// ---- builders ---------------------------------------------------------------------------------------
#if WITH_YAML
template <typename C> auto make_obj(C& c) { return lib::to_map(c); }
template <typename C> auto make_arr(C& c) { return lib::to_sequence(c); }
template <typename C> auto open_obj(const node& n, C& c) { return lib::from_map(n, c); }
template <typename C> auto open_arr(const node& n, C& c) { return lib::from_sequence(n, c); }
#else
template <typename C> auto make_obj(C& c) { return lib::to_object(c); }
template <typename C> auto make_arr(C& c) { return lib::to_array(c); }
template <typename C> auto open_obj(const rapidjson::Value& n, C& c) { return lib::from_object(n, c); }
template <typename C> auto open_arr(const rapidjson::Value& n, C& c) { return lib::from_array(n, c); }
#endif

template <typename Ctx> void build_program(Ctx& ctx)
{
    const bool object = mc::choose(2, "object");
    const int len = mc::choose(mc::thorough() ? 5 : 4, "length");
    J want = object ? J::obj() : J::arr();
    auto obj = make_obj(ctx);
    auto arr = make_arr(ctx);
    static const char* const names[] = {"n0", "n1", "n2", "n3"};
    for (int n = 0; n < len; ++n)
    {
        const int what = mc::choose(7, "value");
        auto put = [&](const auto& v, J model) {
            if (object)
            {
#if WITH_YAML
                obj.add(names[n], v);
#else
                if (mc::choose(2, "dynamic name"))
                {
                    std::string gone = names[n];
                    obj.add_dynamic_name(gone, v);
                    gone = "xx";
                }
                else
                    obj.add(names[n], v);
#endif
                want.o.emplace_back(names[n], model);
            }
            else
            {
                arr.add(v);
                want.a.push_back(model);
            }
        };
        switch (what)
        {
        case 0: put(7, J::num(7)); break;
        case 1: put(std::string("s"), J::str("s")); break;
        case 2: put(std::optional<int>{}, J::null()); break;
        case 3: put(std::vector<int>{1, 2}, J::arr({J::num(1), J::num(2)})); break;
        case 4: put(zoo::P{1, "p", {}}, J::obj({{"i", J::num(1)}, {"s", J::str("p")}})); break;
        case 5:
            // an already built tree is taken over as it is
            if (object)
            {
                obj.add(names[n], make_arr(ctx).add(true).done());
                want.o.emplace_back(names[n], J::arr({J::boolean(true)}));
            }
            else
            {
                arr.add(make_obj(ctx).add("k", col::two).done());
                want.a.push_back(J::obj({{"k", J::str("two")}}));
            }
            break;
        default: put(1.5, J::dbl(1.5, "1.5")); break;
        }
        mc::transition();
    }
    J got = object ? tree(obj.done()) : tree(arr.done());
    if (!equal(want, got)) mc::fail("built %s, expected %s", text(got).c_str(), text(want).c_str());
    mc::hasher h;
    h.s(text(want));
    mc::state(h);
}
MC_SCENARIO(W, "builders", [] {
#if WITH_YAML
    kl::yaml::serialize_context ctx;
    build_program(ctx);
#else
    if (mc::choose(2, "owning context"))
    {
        kl::json::owning_serialize_context ctx;
        build_program(ctx);
    }
    else
    {
        rapidjson::Document doc;
        kl::json::serialize_context ctx{doc};
        build_program(ctx);
    }
#endif
}, 4);

// ---- extractors -------------------------------------------------------------------------------------
J member(int c) { return c == 0 ? J::num(5) : c == 1 ? J::str("x") : c == 2 ? J::null() : J::arr({J::num(1), J::num(2)}); }
MC_SCENARIO(R, "extractors", [] {
    const int kind = mc::choose(4, "document");
    J d;
    if (kind == 0)
    {
        d = J::obj();
        for (const char* k : {"a", "b"})
            if (int c = mc::choose(5)) d.o.emplace_back(k, member(c - 1));
    }
    else if (kind == 1)
    {
        d = J::arr();
        for (int n = mc::choose(4); n > 0; --n) d.a.push_back(member(mc::choose(4)));
    }
    else
        d = kind == 2 ? J::null() : J::str("x");
    const bool object = mc::choose(2, "from_object");
    const node root = parse(text(d));
    lib::deserialize_context ctx;
    const bool fits = object ? d.k == J::Obj : d.k == J::Arr;
    auto program = [&](auto&& ex) {
        std::size_t index = 0;
        const int len = mc::choose(3, "length") + 1;
        for (int n = 0; n < len; ++n)
        {
            std::string token;
            const J* at = nullptr;
            static const J null;
            int name = 0, pos = 0;
            if (object)
            {
                name = mc::choose(3, "name");
                const char* key = name == 0 ? "a" : name == 1 ? "b" : "none";
                at = d.find(key);
                token = std::string("field ") + key;
            }
            else
            {
                pos = mc::choose(4, "position");   // 0: the next one
                if (pos) index = pos - 1;
                at = index < d.a.size() ? &d.a[index] : nullptr;
                token = "element " + std::to_string(index);
            }
            if (!at) at = &null;
            bool bad = false;
            auto take = [&](auto out) {
                using T = decltype(out);
                J want = D<T>::get(out);
                bool err = false;
                try { de(D<T>::schema(), *at, want, be); }
                catch (DeErr&) { err = true; }
                try
                {
                    if constexpr (std::is_same_v<std::decay_t<decltype(ex)>, decltype(open_obj(root, ctx))>)
                        ex.extract(name == 0 ? "a" : name == 1 ? "b" : "none", out);
                    else if (pos)
                        ex.extract(out, (unsigned)(pos - 1));
                    else
                        ex.extract(out);
                }
                catch (const kl::serialization::deserialize_error& e)
                {
                    if (!err) mc::fail("extract %s from %s is refused: %s", token.c_str(), text(d).c_str(), e.what());
                    if (!std::strstr(e.what(), token.c_str())) mc::fail("extract from %s: the error does not name %s: %s", text(d).c_str(), token.c_str(), e.what());
                    mc::count("refused documents");
                    bad = true;
                    return;
                }
                if (err) mc::fail("extract %s from %s is accepted", token.c_str(), text(d).c_str());
                if (!same(want, D<T>::get(out))) mc::fail("extract %s from %s gives %s, expected %s", token.c_str(), text(d).c_str(), text(D<T>::get(out)).c_str(), text(want).c_str());
                mc::count("accepted documents");
            };
            switch (mc::choose(4, "type"))
            {
            case 0: take(int{3}); break;
            case 1: take(std::string("old")); break;
            case 2: take(std::optional<int>{4}); break;
            case 3: take(std::vector<int>{9}); break;
            }
            mc::transition();
            if (bad) return;
            ++index;
        }
    };
    try
    {
        if (object) program(open_obj(root, ctx));
        else program(open_arr(root, ctx));
        if (!fits) mc::fail("an extractor accepts %s", text(d).c_str());
    }
    catch (const kl::serialization::deserialize_error& e)
    {
        if (fits) mc::fail("an extractor refuses %s: %s", text(d).c_str(), e.what());
        mc::count("refused documents");
    }
    mc::hasher h;
    h.s(text(d)).u(object);
    mc::state(h);
}, 4);

// at(): the member or element, and null when there is none
MC_SCENARIO(R, "at", [] {
    J d = mc::choose(2, "array") ? J::arr() : J::obj();
    for (const char* k : {"a", "b"})
        if (int c = mc::choose(5))
        {
            if (d.k == J::Obj) d.o.emplace_back(k, member(c - 1));
            else d.a.push_back(member(c - 1));
        }
    const node root = parse(text(d));
    auto check = [&](const J* want, const auto& got, const char* what) {
        if (!equal(want ? *want : J::null(), tree(got))) mc::fail("at(%s) of %s gives %s", what, text(d).c_str(), text(tree(got)).c_str());
        mc::transition();
    };
    if (d.k == J::Obj)
        for (const char* k : {"a", "b", "c", ""})
#if WITH_YAML
            check(d.find(k), lib::at(root, k), k);
#else
            check(d.find(k), lib::at(root.GetObject(), k), k);
#endif
    else
        for (unsigned n = 0; n < 4; ++n)
#if WITH_YAML
            check(n < d.a.size() ? &d.a[n] : nullptr, lib::at(root, (std::size_t)n), "index");
#else
            check(n < d.a.size() ? &d.a[n] : nullptr, lib::at(root.GetArray(), n), "index");
#endif
});

// ---- parse ------------------------------------------------------------------------------------------
#if !WITH_YAML
// RFC 8259, over exactly the characters of the text
struct reader
{
    const std::string& t;
    std::size_t p = 0;
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
    bool lit(const char* w, J v, J& out)
    {
        std::size_t n = std::strlen(w);
        if (t.compare(p, n, w)) return false;
        p += n;
        out = std::move(v);
        return true;
    }
    bool digit() const { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }
    bool number(J& out)
    {
        std::size_t s = p;
        bool integral = true;
        if (p < t.size() && t[p] == '-') ++p;
        if (!digit()) return false;
        if (t[p] == '0') ++p;
        else while (digit()) ++p;
        if (p < t.size() && t[p] == '.')
        {
            integral = false;
            ++p;
            if (!digit()) return false;
            while (digit()) ++p;
        }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E'))
        {
            integral = false;
            ++p;
            if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
            if (!digit()) return false;
            while (digit()) ++p;
        }
        std::string w = t.substr(s, p - s);
        out = integral ? J::num(std::strtoll(w.c_str(), nullptr, 10)) : J::dbl(std::strtod(w.c_str(), nullptr));
        return true;
    }
    bool string(std::string& out)
    {
        if (p >= t.size() || t[p] != '"') return false;
        for (++p; p < t.size(); ++p)
        {
            unsigned char c = t[p];
            if (c == '"') { ++p; return true; }
            if (c < 0x20) return false;
            if (c != '\\') { out += (char)c; continue; }
            if (++p >= t.size()) return false;
            static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
            const char* f = t[p] ? std::strchr(from, t[p]) : nullptr;
            if (!f) return false;      // \u is not in the alphabet
            out += to[f - from];
        }
        return false;
    }
    bool value(J& out)
    {
        ws();
        if (p >= t.size()) return false;
        switch (t[p])
        {
        case 'n': return lit("null", J::null(), out);
        case 't': return lit("true", J::boolean(true), out);
        case 'f': return lit("false", J::boolean(false), out);
        case '"': out = J::str(""); return string(out.s);
        case '[':
            out = J::arr();
            ++p;
            ws();
            if (p < t.size() && t[p] == ']') { ++p; return true; }
            for (;;)
            {
                J e;
                if (!value(e)) return false;
                out.a.push_back(e);
                ws();
                if (p < t.size() && t[p] == ']') { ++p; return true; }
                if (p >= t.size() || t[p] != ',') return false;
                ++p;
            }
        case '{':
            out = J::obj();
            ++p;
            ws();
            if (p < t.size() && t[p] == '}') { ++p; return true; }
            for (;;)
            {
                std::string k;
                J e;
                ws();
                if (!string(k)) return false;
                ws();
                if (p >= t.size() || t[p] != ':') return false;
                ++p;
                if (!value(e)) return false;
                out.o.emplace_back(k, e);
                ws();
                if (p < t.size() && t[p] == '}') { ++p; return true; }
                if (p >= t.size() || t[p] != ',') return false;
                ++p;
            }
        default: return number(out);
        }
    }
    bool document(J& out)
    {
        if (!value(out)) return false;
        ws();
        return p == t.size();
    }
};

void one_text(const std::string& t)
{
    J want;
    reader r{t};
    const bool ok = r.document(want);
    // the characters after the view belong to somebody else
    std::unique_ptr<char[]> exact{new char[t.size()]};
    std::memcpy(exact.get(), t.data(), t.size());
    std::string longer = t + "1]}\"";
    for (int n = 0; n < 2; ++n)
    {
        J got;
        bool accepted = true;
        try { got = tree(kl::json::parse(n ? std::string_view{longer}.substr(0, t.size()) : std::string_view{exact.get(), t.size()})); }
        catch (const kl::serialization::parse_error& e)
        {
            accepted = false;
            if (!*e.what()) mc::fail("the parse_error for %s says nothing", show(t).c_str());
        }
        if (ok != accepted) mc::fail("parse %s %s", accepted ? "accepts" : "refuses", show(t).c_str());
        if (ok && !same(want, got)) mc::fail("parse of %s gives %s, expected %s", show(t).c_str(), text(got).c_str(), text(want).c_str());
        mc::transition();
        mc::count(ok ? "accepted documents" : "refused documents");
    }
    mc::trace();
}
MC_SCENARIO(R, "every short text", [] {
    parsed_text tolerance{true};
    static const char* const tok[] = {"{", "}", "[", "]", "\"", ":", ",", "1", "0", "-", ".", "e", " ", "\\", "null", "\n", "\"k\":"};
    constexpr int N = sizeof tok / sizeof *tok;
    const int len = mc::choose(mc::thorough() ? 7 : 6, "length");
    std::string t;
    const int fixed_part = std::min(len, 3);
    for (int n = 0; n < fixed_part; ++n) t += tok[mc::choose(N)];
    // the rest in a loop: same enumeration, less bookkeeping
    std::vector<int> c(len - fixed_part, 0);
    for (;;)
    {
        std::string full = t;
        for (int k : c) full += tok[k];
        one_text(full);
        std::size_t n = 0;
        while (n < c.size() && ++c[n] == N) c[n++] = 0;
        if (n == c.size()) break;
    }
    mc::progress();
}, 4);
// every single-character edit of well-formed documents
MC_SCENARIO(R, "every one-character edit", [] {
    parsed_text tolerance{true};
    static const std::string base[] = {"{\"a\": [1, -2.5e1, true], \"b\": null}", "[false, \"x\\n\", {}, []]", "{\"a\":{\"a\":1}}", "-0.0", "\"\\\\\\\"\""};
    const std::string& b = base[mc::choose(5, "document")];
    const int at = mc::choose((int)b.size() + 1, "position");
    const int edit = mc::choose(3, "edit");
    if (edit == 0) return one_text(b.substr(0, at));
    for (int c = 1; c < 256; ++c)   // rapidjson takes a NUL for the end of the text: not judged
    {
        if (c == 'u') continue;   // \u escapes: rapidjson's business
        std::string t = b;
        if (edit == 1) t.insert(t.begin() + at, (char)c);
        else if (at < (int)b.size()) t[at] = (char)c;
        if (c >= 0x80 && (at == 0 || t.find('"') != t.npos)) continue;   // UTF-8 and byte order marks: rapidjson's business
        one_text(t);
    }
    if (edit == 2 && at < (int)b.size()) one_text(b.substr(0, at) + b.substr(at + 1));
}, 3);
#else
// Documents only YAML has: keys that are not plain strings, the spellings of null, quoted scalars.
MC_SCENARIO(R, "yaml documents", [] {
    // what each document is for a map<string,int>: the entries, or refused
    static const struct { const char* t; bool ok; std::map<std::string, int> m; } maps[] = {
        {"{[1]: 2}", false, {}}, {"{{a: 1}: 2}", false, {}}, {"{~: 1}", false, {}}, {"{null: 1}", false, {}}, {"{\"null\": 1}", true, {{"null", 1}}}, {"{'~': 1}", true, {{"~", 1}}},
        {"{1: 2}", true, {{"1", 2}}}, {"{true: 2}", true, {{"true", 2}}}, {"a: 1\nb: 2\n", true, {{"a", 1}, {"b", 2}}}, {"", false, {}}, {"~", false, {}}, {"a: ", false, {}}, {"a: \"1\"", true, {{"a", 1}}},
        {"- a", false, {}}, {"{}", true, {}}, {"[]", false, {}}, {"a: [1]", false, {}}, {"{a: 1, [2]: 3}", false, {}}, {"x: &y 4\nz: *y\n", true, {{"x", 4}, {"z", 4}}}, {"--- {a: 3}", true, {{"a", 3}}},
        {"{a: 1.5}", false, {}}, {"{a: 1 2}", false, {}}};
    static const struct { const char* t; bool null; } nulls[] = {{"~", true}, {"null", true}, {"", true}, {"Null", true}, {"NULL", true}, {"\"~\"", false}, {"\"null\"", false}, {"''", false}, {"nULL", false}, {"[]", false}};
    const int form = mc::choose(4, "form");
    if (form == 0)
    {
        auto& x = maps[mc::choose(sizeof maps / sizeof *maps, "document")];
        std::map<std::string, int> m{{"old", 1}};
        const bool patching = mc::choose(2, "patch");
        const bool no = refused([&] { auto d = parse(x.t); patching ? lib::patch(m, d) : lib::deserialize(m, d); });
        if (no == x.ok) mc::fail("%s into a map is %s", show(x.t).c_str(), no ? "refused" : "accepted");
        if (!no && m != x.m) mc::fail("%s into a map gives %zu entries", show(x.t).c_str(), m.size());
        mc::count(no ? "refused documents" : "accepted documents");
    }
    else if (form == 1)
    {
        auto& x = nulls[mc::choose(sizeof nulls / sizeof *nulls, "document")];
        std::optional<std::string> o{"old"};
        auto d = parse(x.t);
        const bool no = refused([&] { lib::deserialize(o, d); });
        if (x.null && (no || o)) mc::fail("%s is not read as null", show(x.t).c_str());
        if (!x.null && std::string(x.t) != "[]" && (no || !o)) mc::fail("%s is read as null", show(x.t).c_str());
        if (!x.null && std::string(x.t) == "[]" && !no) mc::fail("[] is read as a string");
        mc::count(no ? "refused documents" : "accepted documents");
    }
    else if (form == 2)
    {
        // members of a struct next to keys of any kind
        static const char* const odd[] = {"[1]: 2", "{a: 1}: 2", "~: 1", "1: 1", "true: 1", "? [i]\n: 1", "extra: 1"};
        const char* k = odd[mc::choose(7, "odd key")];
        const bool before = mc::choose(2, "before");
        const std::string known = "i: 4\ns: str\no: 5\n";
        const std::string t = before ? std::string(k) + "\n" + known : known + k + "\n";
        zoo::P p{1, "x", {}};
        const bool patching = mc::choose(2, "patch");
        const bool no = refused([&] { auto d = parse(t); patching ? lib::patch(p, d) : lib::deserialize(p, d); });
        if (no) mc::fail("%s into a struct is refused", show(t).c_str());
        if (p.i != 4 || p.s != "str" || p.o != 5) mc::fail("%s into a struct is misread", show(t).c_str());
        // with extra_fields the odd keys have to be strings
        zoo::A7 a;
        const std::string t2 = (before ? std::string(k) + "\nbee: 7\n" : "bee: 7\n" + std::string(k) + "\n");
        const bool no2 = refused([&] { auto d = parse(t2); patching ? lib::patch(a, d) : lib::deserialize(a, d); });
        const bool scalar = k[0] == '1' || k[0] == 't' || k[0] == 'e';
        if (no2 == scalar) mc::fail("%s into a struct with extra fields is %s", show(t2).c_str(), no2 ? "refused" : "accepted");
        if (!no2 && (a.b != 7 || a.more.size() != 1 || a.more.begin()->second != 1)) mc::fail("%s into a struct with extra fields is misread", show(t2).c_str());
        mc::count("accepted documents");
    }
    else
    {
        // integer keys
        static const struct { const char* t; bool ok; std::map<int, int> m; } ints[] = {{"{1: 2, -3: 4}", true, {{1, 2}, {-3, 4}}}, {"{a: 1}", false, {}}, {"{1: a}", false, {}}, {"{99999999999: 1}", false, {}}, {"{[1]: 1}", false, {}}, {"{1: 2, 2: ~}", false, {}}};
        auto& x = ints[mc::choose(6, "document")];
        std::map<int, int> m{{9, 9}};
        const bool no = refused([&] { auto d = parse(x.t); lib::deserialize(m, d); });
        if (no == x.ok) mc::fail("%s into map<int, int> is %s", x.t, no ? "refused" : "accepted");
        if (!no && m != x.m) mc::fail("%s into map<int, int> is misread", x.t);
        mc::count(no ? "refused documents" : "accepted documents");
    }
    mc::transition();
});
// every short text: parse succeeds or throws parse_error, and what it accepts can be read without surprises
MC_SCENARIO(R, "every short text", [] {
    static const char* const tok[] = {"{", "}", "[", "]", "\"", ":", ", ", "a", "1", "- ", " ", "\n", "? ", "&a ", "*a", "!!", "#", "|", "'", "%", "~"};
    constexpr int N = sizeof tok / sizeof *tok;
    const int len = mc::choose(mc::thorough() ? 6 : 5, "length");
    std::string t;
    const int fixed_part = std::min(len, 2);
    for (int n = 0; n < fixed_part; ++n) t += tok[mc::choose(N)];
    std::vector<int> c(len - fixed_part, 0);
    for (;;)
    {
        std::string full = t;
        for (int k : c) full += tok[k];
        bool ok = true;
        node d;
        if (mc::replaying()) mc::note("text %s", show(full).c_str());
        try { d = kl::yaml::parse(full.c_str()); }
        catch (const kl::serialization::parse_error&) { ok = false; }
        catch (const std::exception& e) { mc::fail("parse of %s throws %s", show(full).c_str(), e.what()); }
        mc::transition();
        mc::count(ok ? "accepted documents" : "refused documents");
        bool expect = true;
        try { YAML::Load(full); }
        catch (const YAML::Exception&) { expect = false; }
        if (ok != expect) mc::fail("parse of %s: %s, yaml-cpp %s", show(full).c_str(), ok ? "accepted" : "refused", expect ? "accepts" : "refuses");
        if (ok)
        {
            // any document into any of these types: a value or a deserialize_error
            auto into = [&](auto out) {
                try { lib::deserialize(out, d); }
                catch (const kl::serialization::deserialize_error&) {}
                catch (const std::exception& e) { mc::fail("deserializing %s throws %s", show(full).c_str(), e.what()); }
                try { lib::patch(out, d); }
                catch (const kl::serialization::deserialize_error&) {}
                catch (const std::exception& e) { mc::fail("patching with %s throws %s", show(full).c_str(), e.what()); }
                mc::transition(2);
            };
            into(int{});
            into(std::string{});
            into(std::vector<std::string>{});
            into(std::map<std::string, std::string>{});
            into(std::optional<std::string>{});
            into(zoo::A7{});
            into(zoo::P{});
        }
        mc::trace();
        std::size_t n = 0;
        while (n < c.size() && ++c[n] == N) c[n++] = 0;
        if (n == c.size()) break;
        mc::progress();
    }
}, 3);
#endif

} // namespace
