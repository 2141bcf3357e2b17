// C36: raw parts of documents: views, safe element access, literals (-DWITH_YAML=0/1).
#include "serial_lib.hpp"
#include <deque>
#include <list>

namespace {

#if WITH_YAML
using tnode = YAML::Node;
bool same_node(const tnode& a, const tnode& b) { return a.is(b); }
const tnode& value_of(const tnode& n) { return n; }
#else
using tnode = rapidjson::Value;
bool same_node(const tnode& a, const tnode& b) { return &a == &b; }
#endif

struct holder
{
    int before = 0;
    lib::view raw;
    std::vector<lib::view> list;
    std::map<std::string, lib::view> map;
    std::optional<lib::view> opt;
    std::tuple<int, lib::view> tup;
    std::array<lib::view, 2> arr;
    int after = 0;
    std::map<std::string, lib::view> rest;
};
namespace atr = kl::serialization::attributes;
KL_REFLECT_STRUCT(holder, before, (raw, atr::rename("data")), list, map, opt, tup, arr, after, (rest, atr::extra_fields))

// every document up to a depth; children of a container come from a smaller set
J any_doc(int depth)
{
    int n = mc::choose(depth > 0 ? 10 : 7, "document");
    switch (n)
    {
    case 0: return J::null();
    case 1: return J::boolean(true);
    case 2: return J::num(-5);
    case 3: return J::num(i128(1) << 63);
    case 4: return J::str("a b");
    case 5: return J::str("");
    case 6: return J::arr();
    case 7: return J::obj({{"k", any_doc(depth - 1)}});
    case 8: return J::arr({any_doc(depth - 1), any_doc(depth - 1)});
    default: return J::obj({{"k", any_doc(depth - 1)}, {"kk", any_doc(depth - 1)}});
    }
}
// a smaller set for the other positions
J some_doc(int n)
{
    switch (n)
    {
    case 0: return J::null();
    case 1: return J::num(7);
    case 2: return J::str("x");
    case 3: return J::arr({J::num(1), J::null(), J::str("")});
    default: return J::obj({{"a", J::arr()}, {"b", J::obj({{"c", J::boolean(false)}})}});
    }
}
void same_doc(const char* what, const J& want, const J& got)
{
    if (!equal(want, got)) mc::fail("%s: %s, expected %s", what, text(got).c_str(), text(want).c_str());
    mc::transition();
}
template <typename T> bool reads(T& out, const tnode& n)
{
    try { lib::deserialize(out, n); return true; }
    catch (const kl::serialization::deserialize_error&) { return false; }
}
template <typename T> void second_phase(const J& d, const tnode& direct, const lib::view& v)
{
    T a{}, b{};
    bool x = reads(a, direct), y = reads(b, v.value());
    if (x != y || (x && !(a == b))) mc::fail("reading through a view of %s %s", text(d).c_str(), x != y ? "is refused or accepted unlike reading directly" : "gives another value");
    mc::count(x ? "typed reads through a view" : "typed reads refused through a view");
    mc::transition(2);
}

void written(const char* what, const J& want, const lib::view& v)
{
    same_doc(what, want, tree(v.value()));
    same_doc(what, want, tree(*v));
    const tnode& conv = v;
    same_doc(what, want, tree(conv));
    same_doc("dump of a view", want, tree(parse(lib::dump(v))));
    same_doc("dump of a view (context)", want, tree(parse(dump(v, true))));
    same_doc("serialize of a view", want, serialized(v, true));
    same_doc("serialize of a view (document)", want, tree(lib::serialize(v)));
    mc::count("views written");
}

// ---- one view -----------------------------------------------------------------------------------------
MC_SCENARIO("C36", WITH_YAML ? "one view (YAML)" : "one view (JSON)", [] {
    J d = any_doc(mc::thorough() ? 3 : 2);
    node doc = parse(text(d));
    J src = tree(doc);
    if (!equal(d, src)) mc::fail("parse of %s gives %s", text(d).c_str(), text(src).c_str());
    if (mc::want_sample()) mc::sample("view of " + text(d));
    mc::note("view of %s", text(d).c_str());
    mc::state(mc::hasher().s(text(d)));
    lib::view v;
    lib::deserialize(v, doc);
    if (!same_node(v.value(), doc)) mc::fail("deserialize into a view: not the node that was read");
    if (!v) mc::fail("a view of %s says it is empty", text(d).c_str());
    lib::view w = lib::deserialize<lib::view>(doc), direct{doc};
    if (!same_node(w.value(), doc) || !same_node(direct.value(), doc)) mc::fail("a view is not of the node it was made from");
#if !WITH_YAML
    if (v.operator->() != &static_cast<const rapidjson::Value&>(doc)) mc::fail("view::operator-> is another node");
    if (lib::view{}) mc::fail("a default constructed view says it views something");
#else
    if (!v.operator->()->is(doc)) mc::fail("view::operator-> is another node");
#endif
    written("value of a view", d, v);
    second_phase<int>(d, doc, v);
    second_phase<std::string>(d, doc, v);
    second_phase<std::vector<std::string>>(d, doc, v);
    second_phase<std::map<std::string, int>>(d, doc, v);
    second_phase<std::optional<bool>>(d, doc, v);
    second_phase<std::vector<bool>>(d, doc, v);
    second_phase<std::vector<std::optional<std::string>>>(d, doc, v);
    second_phase<std::map<std::string, std::vector<int>>>(d, doc, v);
    second_phase<std::tuple<std::optional<std::uint64_t>, std::optional<std::int64_t>>>(d, doc, v);
    // patching: whatever the document, the view is of it
    node other = parse("[1]");
    lib::view p{other};
    lib::patch(p, doc);
    if (!same_node(p.value(), doc)) mc::fail("patch of a view: not the node of the patch");
#if !WITH_YAML
    // the serialized copy is independent of the source
    rapidjson::Document copy = lib::serialize(v);
    doc.SetNull();
    same_doc("serialized copy after its source changed", d, tree(copy));
#else
    same_doc("source after everything", d, tree(doc));
#endif
});

// ---- views inside a structure ---------------------------------------------------------------------------
MC_SCENARIO("C36", WITH_YAML ? "views in a structure (YAML)" : "views in a structure (JSON)", [] {
    // one field (or extra field) of nine at a time takes every document, the rest stay as they are
    int pos = mc::choose(9, "position");
    J x = mc::thorough() ? any_doc(2) : any_doc(1);
    int base = mc::choose(5, "others");
    bool skip = mc::choose(2, "skip null"), seq = mc::choose(2, "opt missing");
    auto X = [&](int p) { return p == pos ? x : some_doc((base + p) % 5); };
    std::vector<std::pair<std::string, J>> f;
    f.emplace_back("before", J::num(1));
    f.emplace_back("data", X(0));
    f.emplace_back("list", J::arr({X(1), X(2)}));
    f.emplace_back("map", J::obj({{"m", X(3)}}));
    bool has_opt = !seq && X(4).k != J::Null;
    if (!seq) f.emplace_back("opt", X(4));
    f.emplace_back("tup", J::arr({J::num(2), X(5)}));
    f.emplace_back("arr", J::arr({X(6), X(7)}));
    f.emplace_back("after", J::num(3));
    f.emplace_back("z", X(8));
    J d = J::obj(f);
    mc::note("%s", text(d).c_str());
    mc::state(mc::hasher().s(text(d)).u(skip));
    if (mc::want_sample()) mc::sample("structure read from " + text(d));
    node doc = parse(text(d));
    holder h;
    lib::deserialize(h, doc);
    if (h.before != 1 || h.after != 3 || std::get<0>(h.tup) != 2) mc::fail("a neighbour of a view was read wrongly");
    if (h.list.size() != 2 || h.map.size() != 1 || !h.map.count("m") || h.opt.has_value() != has_opt || h.rest.size() != 1 || !h.rest.count("z"))
        mc::fail("views of %s: the wrong number of them", text(d).c_str());
    auto own = [&](int p, const lib::view& v) { same_doc("a view in a structure", X(p), tree(v.value())); };
    own(0, h.raw);
    own(1, h.list[0]);
    own(2, h.list[1]);
    own(3, h.map["m"]);
    if (has_opt) own(4, *h.opt);
    own(5, std::get<1>(h.tup));
    own(6, h.arr[0]);
    own(7, h.arr[1]);
    own(8, h.rest["z"]);
#if !WITH_YAML
    if (&h.raw.value() != &doc["data"] || &h.list[1].value() != &doc["list"][1] || &h.map["m"].value() != &doc["map"]["m"] || &h.arr[0].value() != &doc["arr"][0] || &h.rest["z"].value() != &doc["z"])
        mc::fail("a view in a structure is a view of something else");
#endif
    // written again: the same document; an absent optional is skipped or null
    std::vector<std::pair<std::string, J>> g;
    for (auto& e : f)
        if (e.first != "opt") g.push_back(e);
        else if (has_opt) g.push_back(e);
    if (!has_opt && !skip) g.insert(g.begin() + 4, {"opt", J::null()});
    J back = J::obj(g);
    same_doc("dump of a structure of views", back, tree(parse(dump(h, skip))));
    same_doc("serialize of a structure of views", back, serialized(h, skip));
    mc::count("views written", 8);
    // a partial document changes only the views it names
    bool all = mc::choose(2, "patch all");
    node part = parse(text(J::obj(all ? std::vector<std::pair<std::string, J>>{{"data", J::num(50)}, {"z", J::str("new")}, {"list", J::arr({J::null()})}}
                                      : std::vector<std::pair<std::string, J>>{{"y", J::arr({J::num(4)})}})));
    lib::patch(h, part);
    if (all)
    {
        same_doc("patched view", J::num(50), tree(h.raw.value()));
        same_doc("patched extra view", J::str("new"), tree(h.rest["z"].value()));
        if (h.list.size() != 1 || h.rest.size() != 1) mc::fail("a patch left %d views in a list and %d extra ones", (int)h.list.size(), (int)h.rest.size());
    }
    else
    {
        own(0, h.raw);
        own(2, h.list[1]);
        own(8, h.rest["z"]);
        if (h.rest.size() != 2) mc::fail("an extra view was not added by a patch");
        same_doc("added extra view", J::arr({J::num(4)}), tree(h.rest["y"].value()));
    }
    own(3, h.map["m"]);
    own(6, h.arr[0]);
}, 3);

// ---- at() ---------------------------------------------------------------------------------------------
MC_SCENARIO("C36", WITH_YAML ? "element access (YAML)" : "element access (JSON)", [] {
    bool object = mc::choose(2, "object");
    int n = mc::choose(6, "size");
    if (object)
    {
        const char* keys[] = {"a", "ab", "b", "", "0"};
        int order = mc::choose(5, "order"), what = mc::choose(5, "values");
        std::vector<std::pair<std::string, J>> f;
        for (int i = 0; i < n && i < 5; ++i) f.emplace_back(keys[(order + i) % 5], some_doc((what + i) % 5));
        J d = J::obj(f);
        node doc = parse(text(d));
        for (const char* k : {"a", "ab", "b", "", "0", "abc", "A", "1", "a "})
        {
            const J* want = d.find(k);
#if WITH_YAML
            for (int how = 0; how < 2; ++how)
                same_doc("at(map, key)", want ? *want : J::null(), tree(how ? lib::at(doc, std::string(k)) : lib::at(doc, (const char*)k)));
#else
            const auto& got = lib::at(static_cast<const rapidjson::Value&>(doc).GetObject(), k);
            same_doc("at(object, key)", want ? *want : J::null(), tree(got));
            if (want && &got != &doc[k]) mc::fail("at(object, %s) is another node", k);
#endif
            mc::count(want ? "elements found" : "elements absent");
        }
        same_doc("the object after at()", d, tree(doc));
        if (mc::want_sample()) mc::sample("at over " + text(d));
        return;
    }
    int what = mc::choose(5, "values");
    J d = J::arr();
    for (int i = 0; i < n; ++i) d.a.push_back(some_doc((what + i) % 5));
    node doc = parse(text(d));
    std::vector<unsigned> idx;
    for (unsigned i = 0; i < 10; ++i) idx.push_back(i);
    for (int s = 8; s < 32; s += 8) for (int i = -1; i < 6; ++i) idx.push_back((1u << s) + i);
    for (int i = 0; i < 6; ++i) idx.push_back(0xffffffffu - i), idx.push_back(0x80000000u + i);
    for (unsigned i : idx)
    {
        bool there = i < (unsigned)n;
#if WITH_YAML
        same_doc("at(sequence, index)", there ? d.a[i] : J::null(), tree(lib::at(doc, (std::size_t)i)));
        same_doc("at(sequence, index)", there ? d.a[i] : J::null(), tree(lib::at(doc, ((std::size_t)i) | (there ? 0 : (std::size_t)1 << 40))));
#else
        const auto& got = lib::at(static_cast<const rapidjson::Value&>(doc).GetArray(), i);
        same_doc("at(array, index)", there ? d.a[i] : J::null(), tree(got));
        if (there && &got != &doc[i]) mc::fail("at(array, %u) is another node", i);
#endif
        mc::count(there ? "elements found" : "elements absent");
    }
    same_doc("the array after at()", d, tree(doc));
});

// ---- literals -----------------------------------------------------------------------------------------
MC_SCENARIO("C36", WITH_YAML ? "literals (YAML)" : "literals (JSON)", [] {
    // every text of up to five pieces: the literal is what parse() makes of it, a refusal included
    const char* pieces[] = {"{", "}", "[", "]", "\"a\"", ":", ",", "1", " ", "null"};
    int n = mc::choose(mc::thorough() ? 6 : 5, "length");
    std::string t;
    for (int i = 0; i < n; ++i) t += pieces[mc::choose(10, "piece")];
    auto run = [&](auto&& f) -> std::optional<J> {
        try { return tree(f()); }
        catch (const kl::serialization::parse_error&) { return std::nullopt; }
    };
    auto a = run([&] { return parse(t); });
#if WITH_YAML
    auto b = run([&] { return operator""_yaml(t.c_str(), t.size()); });
#else
    auto b = run([&] { return operator""_json(t.data(), t.size()); });
    // the length is what counts, not what follows the text
    std::string longer = t + "]x";
    auto c = run([&] { return operator""_json(longer.data(), t.size()); });
    if (c.has_value() != a.has_value() || (a && !equal(*a, *c))) mc::fail("the literal %s depends on what follows it", show(t).c_str());
#endif
    if (a.has_value() != b.has_value() || (a && !equal(*a, *b))) mc::fail("the literal %s is not what parse makes of it", show(t).c_str());
    mc::transition(2);
    mc::count(a ? "texts accepted" : "texts refused");
}, 3);

} // namespace
