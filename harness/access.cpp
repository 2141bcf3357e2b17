// C34: reaching into an object by path (visit_at_path, dump_at_path, serialize_at_path, deserialize_at_path), every
// address and near-address of every tree against the model's own addressing.
#include "access_app.hpp"

#include <yaml-cpp/yaml.h>

namespace {
const S s_int = make(S::INT), s_str = make(S::STR);
const S s_oint = make(S::OPT, &s_int), s_lint = make(S::VEC, &s_int), s_mint = make(S::MAP, &s_int);
S mk_plain() { S s = make(S::VEC, &s_int); s.indexed = false; return s; }
const S s_plain = mk_plain();
const S s_leaf = make({{"a", &s_int}, {"bee", &s_int, true}});
const S s_keyed = make({{"x", &s_int}, {"key", &s_str}, {"leaf", &s_leaf}});
const S s_num = make({{"w", &s_int}, {"key", &s_int}});
const S s_oleaf = make(S::OPT, &s_leaf), s_lleaf = make(S::VEC, &s_leaf), s_mleaf = make(S::MAP, &s_leaf), s_lkeyed = make(S::VEC, &s_keyed);
const S s_dol = make(S::VEC, &s_oleaf), s_mk = make(S::MAP, &s_keyed), s_omk = make(S::OPT, &s_mk), s_um = make(S::MAP, &s_lint);
S mk_nums() { S s = make(S::VEC, &s_num); s.hash_key = true; return s; }
const S s_nums = mk_nums();
S mk_arr() { S s = make(S::ARR, &s_int); s.n = 2; return s; }
const S s_arr = mk_arr();
const S s_tree = make({{"n", &s_int}, {"ro", &s_int, true}, {"s", &s_str}, {"l", &s_leaf}, {"rl", &s_leaf, true}, {"sl", &s_leaf, false, true},
                       {"ol", &s_oleaf}, {"oi", &s_oint}, {"li", &s_lint}, {"vl", &s_lleaf}, {"kl", &s_lkeyed, false, false, "key"},
                       {"rkl", &s_lkeyed, true, false, "key"}, {"skl", &s_lkeyed, false, true, "key"}, {"nums", &s_nums, false, false, "key"},
                       {"mi", &s_mint}, {"sml", &s_mleaf, false, true}, {"um", &s_um}, {"plain", &s_plain}, {"arr", &s_arr},
                       {"dol", &s_dol, false, true}, {"wire", &s_omk}});
const S s_ooleaf = make(S::OPT, &s_oleaf), s_mmleaf = make(S::MAP, &s_mleaf);
const S s_group = make({{"name", &s_str}, {"items", &s_lkeyed, false, false, "key"}, {"tm", &s_mint, false, true}, {"oo", &s_ooleaf}});
const S s_lgroup = make(S::VEC, &s_group), s_mgroup = make(S::MAP, &s_group);
const S s_more = make({{"tm", &s_mint, true}, {"mm", &s_mmleaf}, {"groups", &s_lgroup, false, false, "name"}, {"plain_groups", &s_lgroup, false, true}, {"by_name", &s_mgroup}});
const S s_list2 = make(S::VEC, &s_lint), s_okeyed = make(S::OPT, &s_keyed);

template <typename T> const S& schema();
template <> const S& schema<Tree>() { return s_tree; }
template <> const S& schema<More>() { return s_more; }
template <> const S& schema<Map>() { return s_mleaf; }
template <> const S& schema<List>() { return s_list2; }
template <> const S& schema<Opt>() { return s_okeyed; }
template <> const S& schema<int>() { return s_int; }
template <> const S& schema<std::string>() { return s_str; }

// two full trees with nothing in common but their shape, and an empty one
template <typename T> T tree(int k);
template <> Tree tree<Tree>(int k)
{
    Tree t;
    if (k == 2)
        return t;
    int b = k * 100;
    t.n = b + 1;
    t.ro = b + 2;
    t.s = k ? "other" : "str";
    t.l = {b + 3, b + 4};
    t.rl = {b + 5, b + 6};
    t.sl = {b + 7, b + 8};
    t.ol = Leaf{b + 9, b + 10};
    if (k)
        t.oi = b + 11;
    t.li = {b + 12, b + 13, b + 14};
    t.vl = {{b + 15, b + 16}, {b + 17, b + 18}};
    t.kl = {{b + 19, "p", {b + 20, b + 21}}, {b + 22, "0", {b + 23, b + 24}}, {b + 25, "a b", {b + 26, b + 27}}};
    t.rkl = {{b + 28, "q", {b + 29, b + 30}}};
    t.skl = {{b + 31, "q", {b + 32, b + 33}}, {b + 34, "qq", {b + 35, b + 36}}};
    t.nums = {{b + 37, 7}, {7, 8}};
    t.mi = {{"k", b + 38}, {"kk", b + 39}};
    t.sml = {{"n", {b + 40, b + 41}}, {"sml", {b + 42, b + 43}}};
    t.um = {{"u", {b + 44}}, {"v", {}}};
    t.plain = {b + 45, b + 46};
    t.arr = {b + 47, b + 48};
    t.dol = {Leaf{b + 49, b + 50}, std::nullopt};
    t.omk.emplace();
    (*t.omk)["w"] = {b + 51, "key", {b + 52, b + 53}};
    (*t.omk)["wire"] = {b + 54, "w", {b + 55, b + 56}};
    return t;
}
template <> More tree<More>(int k)
{
    More m;
    if (k == 2)
        return m;
    int b = k * 100;
    auto group = [&](const char* name, int n) {
        Group g;
        g.name = name;
        g.items = {{n, "p", {n + 1, n + 2}}, {n + 3, name, {n + 4, n + 5}}};
        g.tm = {{"k", n + 6}};
        if (n % 20 == 0)
            g.oo = std::optional<Leaf>{Leaf{n + 7, n + 8}};
        return g;
    };
    m.tm = {{"k", b + 1}, {"kk", b + 2}, {"tm", b + 3}};
    m.mm = {{"k", {{"k", {b + 4, b + 5}}, {"mm", {b + 6, b + 7}}}}, {"e", {}}};
    m.groups = {group("g", b + 10), group("items", b + 20)};
    m.plain_groups = {group("0", b + 30), group("1", b + 40)};
    m.by_name = {{"x", group("y", b + 50)}, {"y", group("x", b + 60)}};
    return m;
}
template <> Map tree<Map>(int k) { return k == 2 ? Map{} : Map{{"a", {k + 1, k + 2}}, {"b", {k + 3, k + 4}}, {"bee", {k + 5, k + 6}}}; }
template <> List tree<List>(int k)
{
    if (k == 2)
        return {};
    List l(12);
    for (int i = 0; i < 12; ++i)
        l[i].assign(i % 4, 100 * k + i);
    return l;
}
template <> Opt tree<Opt>(int k) { return k == 2 ? Opt{} : Opt{Keyed{k + 1, k ? "one" : "zero", {k + 2, k + 3}}}; }
template <> int tree<int>(int k) { return k * 3; }
template <> std::string tree<std::string>(int k) { return std::string(k, 's'); }

// every address of the trees, and what looks like one
template <typename T>
const std::vector<std::string>& targets()
{
    static const std::vector<std::string> all = [] {
        std::set<std::string> s{"", "/", "/nosuch"};
        for (int k = 0; k < 3; ++k)
        {
            std::vector<std::string> at;
            addresses(schema<T>(), conv(tree<T>(k)), "", "", at);
            s.insert(at.begin(), at.end());
        }
        const auto real = s;
        for (auto& a : real)
        {
            for (auto t : {"/0", "/1", "/00", "/2", "/9", "/10", "/99", "/+1", "/-1", "/a", "/b", "/bee", "/key", "/id", "/x", "/q", "/#7", "/18446744073709551616", "/w"})
                s.insert(a + t);
            if (a.size() > 1)
            {
                s.insert(a + "x");
                s.insert(a.substr(0, a.size() - 1));
            }
        }
        s.insert({"/omk", "/kl/1", "/nums/7", "/nums/0", "/plain/0", "/b", "/l/b", "/N", "/kl/A b", "/li/01", "/li/1 "});
        std::vector<std::string> v;
        for (auto& a : s)
            if (a == "/" || a.empty() || (a.back() != '/' && a.find("//") == a.npos))
                v.push_back(a);
        return v;
    }();
    return all;
}
std::string encode(const std::string& a)
{
    std::string r;
    for (char c : a)
        r += c == ' ' ? std::string("%20") : c == '#' ? std::string("%23") : std::string(1, c);
    return r;
}

V sorted(V v)
{
    for (auto& e : v.l)
        e = sorted(e);
    for (auto& e : v.o)
        e.second = sorted(e.second);
    std::stable_sort(v.o.begin(), v.o.end(), [](auto& a, auto& b) { return a.first < b.first; });
    return v;
}
V without_nulls(V v)
{
    for (auto& e : v.l)
        e = without_nulls(e);
    std::vector<std::pair<std::string, V>> keep;
    for (auto& e : v.o)
        if (e.second.k != V::NUL)
            keep.emplace_back(e.first, without_nulls(e.second));
    v.o = keep;
    return v;
}
V stringly(V v)   // YAML scalars carry no type
{
    if (v.k == V::INT)
        return vstr(std::to_string(v.i));
    for (auto& e : v.l)
        e = stringly(e);
    for (auto& e : v.o)
        e.second = stringly(e.second);
    return v;
}
V from_yaml(const YAML::Node& n)
{
    if (!n || n.IsNull())
        return {};
    if (n.IsScalar())
        return vstr(n.Scalar());
    V v;
    if (n.IsSequence())
    {
        v = vlist();
        for (auto e : n)
            v.l.push_back(from_yaml(e));
        return v;
    }
    v = vobj();
    for (auto e : n)
        v.o.emplace_back(e.first.Scalar(), from_yaml(e.second));
    return v;
}

struct want_t
{
    int rc = 0;
    place p;
};
template <typename T>
want_t expected(V& tree, const segs& at, std::size_t count)
{
    want_t w;
    try
    {
        w.p = resolve(tree, schema<T>(), at, count);
    }
    catch (const not_traversable&)
    {
        w.rc = 2;
    }
    catch (const not_found&)
    {
        w.rc = 1;
    }
    return w;
}
const char* const rc_name[] = {"done", "path_segment_not_found_error", "path_not_traversable_error", "deserialize_error"};

// the same segments behind and before others that are dropped again
struct views
{
    kl::path plain, front, back, both;
    std::vector<kl::path_view> all;
    explicit views(const std::string& a)
        : plain{encode(a)}, front{"/x/li" + encode(a)}, back{encode(a) + "/l/0/a"}, both{"/n" + encode(a) + "/n"}
    {
        all = {plain.view(), front.view().drop_front().drop_front(), back.view().drop_back().drop_back().drop_back(),
               both.view().drop_front().drop_back()};
    }
};

template <typename T>
void reads()
{
    const int k = mc::choose(3, "tree");
    const auto& all = targets<T>();
    const auto& a = all[mc::choose((int)all.size(), "address")];
    views vs{a};
    const segs at = a == "/" ? segs{} : split_path(a);
    const T object = tree<T>(k);
    V model = conv(object);
    for (auto view : vs.all)
    {
        MC_CHECK(view.size() == at.size(), "a view of %s has %zu segments", a.c_str(), view.size());
        for (std::size_t stop = 0; stop <= at.size(); ++stop)
        {
            auto w = expected<T>(model, at, at.size() - stop);
            std::string left;
            for (std::size_t i = at.size() - stop; i < at.size(); ++i)
                left += "/" + at[i];
            for (int how = 0; how < 4; ++how)
            {
                const bool plain = how & 1, constant = how & 2;
                if (plain && stop)
                    continue;
                seen s;
                T copy = object;
                int rc = constant ? reach<T>::visit_const(object, view, stop, plain, s) : reach<T>::visit(copy, view, stop, plain, s);
                mc::transition();
                MC_CHECK(rc == w.rc, "visiting %s (%zu left): %s, expected %s", a.c_str(), stop, rc_name[rc], rc_name[w.rc]);
                MC_CHECK(s.calls == (rc ? 0 : 1), "visiting %s: the visitor was called %d times", a.c_str(), s.calls);
                MC_CHECK(text(conv(copy)) == text(model), "visiting %s changes the object", a.c_str());
                if (rc)
                {
                    mc::count("addresses that do not exist");
                    continue;
                }
                mc::count("addresses reached");
                MC_CHECK(s.value == text(*w.p.v), "visiting %s (%zu left) gives %s, expected %s", a.c_str(), stop, s.value.c_str(), text(*w.p.v).c_str());
                MC_CHECK(s.remaining == left, "visiting %s: %s is left, expected %s", a.c_str(), s.remaining.c_str(), left.c_str());
                const bool ro = w.p.ro || w.p.inherited;
                MC_CHECK(s.ro == ro && s.child_ro == (ro || w.p.sro), "visiting %s (%zu left): read-only is %d/%d, expected %d/%d", a.c_str(), stop, s.ro,
                         s.child_ro, ro, ro || w.p.sro);
                MC_CHECK(s.is_const == constant, "visiting %s: constness", a.c_str());
            }
        }
        auto w = expected<T>(model, at, at.size());
        for (int skip = 0; skip < 2; ++skip)
        {
            V want = w.rc ? V{} : sorted(skip ? without_nulls(*w.p.v) : *w.p.v);
            std::string out;
            auto same = [&](int rc, const char* what, bool yaml, bool stream) {
                mc::transition();
                MC_CHECK(rc == w.rc, "%s of %s: %s, expected %s", what, a.c_str(), rc_name[rc], rc_name[w.rc]);
                if (rc)
                {
                    MC_CHECK(!stream || out.empty(), "%s of %s: something was written before the address was refused", what, a.c_str());
                    out.clear();
                    return;
                }
                V got = sorted(yaml ? from_yaml(YAML::Load(out)) : parse(out));
                V exp = yaml ? stringly(want) : want;
                MC_CHECK(got == exp, "%s of %s is %s, expected %s", what, a.c_str(), text(got).c_str(), text(exp).c_str());
                out.clear();
            };
            same(reach<T>::json_serialize(object, view, skip, out), "serialize_at_path (JSON)", false, false);
            same(reach<T>::json_dump(object, view, skip, out), "dump_at_path (JSON)", false, true);
            same(reach<T>::yaml_serialize(object, view, skip, out), "serialize_at_path (YAML)", true, false);
            same(reach<T>::yaml_dump(object, view, skip, out), "dump_at_path (YAML)", true, true);
        }
    }
    mc::hasher h;
    h.u(k).s(a).s(text(model));
    mc::state(h);
    mc::outcome(h);
}

// takes the node `at` of `model`, and what is in its place in `got`, out of both
bool mask(V& model, V& got, const V* at)
{
    if (&model == at)
    {
        model = got = V{};
        return true;
    }
    for (std::size_t i = 0; i < model.l.size() && i < got.l.size(); ++i)
        if (mask(model.l[i], got.l[i], at))
            return true;
    for (std::size_t i = 0; i < model.o.size() && i < got.o.size(); ++i)
        if (mask(model.o[i].second, got.o[i].second, at))
            return true;
    return false;
}

const char* const payloads[] = {"7", "-1", "\"x\"", "\"7\"", "null", "true", "1.5", "[]", "[5,6]", "[5,\"x\"]", "{}", "{\"a\":8,\"bee\":9}", "{\"bee\":9,\"a\":\"x\"}",
                                "{\"x\":1,\"key\":\"new\",\"leaf\":{\"a\":2,\"bee\":3}}", "{\"k\":4,\"n\":5}", "{\"p\":{\"a\":1,\"bee\":2}}", "[{\"a\":1,\"bee\":2}]"};
constexpr int n_payloads = 17;

// one write: the addressed node becomes what the document says and nothing else changes
template <typename T>
void write(T& object, const std::string& a, int payload, bool yaml, int flavour)
{
    const segs at = a == "/" ? segs{} : split_path(a);
    views vs{a};
    V model = conv(object);
    auto w = expected<T>(model, at, at.size());
    std::string doc;
    bool bad = false;
    V put;
    if (payload < n_payloads)
    {
        doc = payloads[payload];
        if (!w.rc)
            try
            {
                put = mdeserialize(*w.p.s, parse(doc));
            }
            catch (const bad_payload&)
            {
                bad = true;
            }
    }
    else if (!w.rc)
    {
        // what another tree holds at the same address
        V other = conv(tree<T>(payload - n_payloads));
        auto ow = expected<T>(other, at, at.size());
        put = ow.rc ? mdefault(*w.p.s) : *ow.p.v;
        doc = text(put);
    }
    else
        doc = "7";
    T after = object;
    int rc = yaml ? reach<T>::yaml_deserialize(after, vs.all[flavour], doc) : reach<T>::json_deserialize(after, vs.all[flavour], doc);
    mc::transition();
    const int want = w.rc ? w.rc : bad ? 3 : 0;
    MC_CHECK(rc == want, "deserialize_at_path %s %s: %s, expected %s", a.c_str(), doc.c_str(), rc_name[rc], rc_name[want]);
    V got = conv(after);
    if (w.rc)
        MC_CHECK(text(got) == text(model), "deserialize_at_path %s changed the object although the address does not exist", a.c_str());
    else
    {
        if (bad)
        {
            // what became of the node itself is not promised, but everything else is
            V masked = got;
            mask(model, masked, w.p.v);
            MC_CHECK(text(masked) == text(model), "deserialize_at_path %s %s: a refused document changed something else", a.c_str(), doc.c_str());
            mc::count("documents refused");
        }
        else
        {
            *w.p.v = put;
            MC_CHECK(text(got) == text(model), "deserialize_at_path %s %s gives %s, expected %s", a.c_str(), doc.c_str(), text(got).c_str(), text(model).c_str());
            mc::count("documents accepted");
        }
    }
    object = after;
}

template <typename T>
void writes()
{
    const int k = mc::choose(3, "tree");
    const auto& all = targets<T>();
    const auto& a = all[mc::choose((int)all.size(), "address")];
    T object = tree<T>(k);
    const int n = n_payloads + 3;
    const int p = mc::choose(n, "document");
    for (int f = 0; f < 4; ++f)
    {
        if (p < n_payloads && !mc::thorough() && f != (p & 3))
            continue;
        T o = object;
        write(o, a, p, false, f);
        if (p >= n_payloads)
        {
            T y = object;
            write(y, a, p, true, f);
            MC_CHECK(text(conv(o)) == text(conv(y)), "JSON and YAML differ at %s", a.c_str());
        }
    }
    mc::hasher h;
    h.s(a).u(p).u(k);
    mc::state(h);
    mc::outcome(h);
}

// two writes, one after the other: addresses created or removed by the first
void write_pairs()
{
    static const std::vector<std::string> few = {"", "/n", "/s", "/l", "/l/a", "/l/bee", "/ol", "/ol/a", "/oi", "/li", "/li/0", "/li/2", "/vl", "/vl/0", "/vl/1/a", "/kl",
                                                 "/kl/p", "/kl/new", "/kl/new/leaf/a", "/kl/p/key", "/kl/0/leaf", "/rkl/q/x", "/skl/qq/leaf/bee", "/nums/#7", "/nums/#8/key",
                                                 "/mi", "/mi/k", "/mi/n", "/sml/n/a", "/um", "/um/u/0", "/plain", "/plain/0", "/arr", "/arr/1", "/dol/0", "/dol/1", "/dol/1/a",
                                                 "/wire", "/wire/w", "/wire/p", "/wire/w/leaf/a"};
    const int n = n_payloads + 3;
    Tree object = tree<Tree>(mc::thorough() ? mc::choose(3, "tree") : 0);
    for (int step = 0; step < 2; ++step)
    {
        const auto& a = few[mc::choose((int)few.size(), "address")];
        const int p = mc::choose(n, "document");
        const V before = conv(object);
        write(object, a, p, false, (step + p) & 3);
        if (step == 0 && text(conv(object)) == text(before))
            mc::skip();
    }
    mc::hasher h;
    h.s(text(conv(object)));
    mc::state(h);
    mc::outcome(h);
    mc::progress();
}

MC_SCENARIO("C34", "reads of the structure", reads<Tree>, 2);
MC_SCENARIO("C34", "reads of nested collections", reads<More>, 2);
MC_SCENARIO("C34", "reads of a map", reads<Map>, 2);
MC_SCENARIO("C34", "reads of a list", reads<List>, 2);
MC_SCENARIO("C34", "reads of an optional", reads<Opt>, 2);
MC_SCENARIO("C34", "reads of a number", reads<int>, 2);
MC_SCENARIO("C34", "reads of a string", reads<std::string>, 2);
MC_SCENARIO("C34", "writes to the structure", writes<Tree>, 2);
MC_SCENARIO("C34", "writes to nested collections", writes<More>, 2);
MC_SCENARIO("C34", "writes to a map", writes<Map>, 2);
MC_SCENARIO("C34", "writes to a list", writes<List>, 2);
MC_SCENARIO("C34", "writes to an optional", writes<Opt>, 2);
MC_SCENARIO("C34", "writes to a number", writes<int>, 2);
MC_SCENARIO("C34", "writes to a string", writes<std::string>, 2);
MC_SCENARIO("C34", "two writes", write_pairs, 2);
} // namespace
