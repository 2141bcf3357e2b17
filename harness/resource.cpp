// Resource trees (C05..C09): explicit-state exploration of the real verbs against an
// interpretive reference model (resource_model.hpp).
#include "resource_app.hpp"
#define RESOURCE_ROOT app::Root
#include "resource_model.hpp"

int app::fuse = 0;
int app::fuse_hits = 0;

namespace {

using app::Root;
using namespace app;

// ------------------------------------------------------------------ the schema of app::Root
void v_inner(const V& v, bool, rules_t& bad)
{
    if (v.find("a")->i < 0) bad.insert("inner: negative");
    if (v.find("a")->i == 13) bad.insert(FOREIGN);
}
void v_item(const V& v, bool, rules_t& bad)
{
    if (v.find("v")->i < 0) bad.insert("item: negative");
}
void v_guard(const V&, bool veto, rules_t& bad)
{
    if (veto) bad.insert("veto");
}
void v_root(const V& v, bool, rules_t& bad)
{
    if (v.find("n")->i < static_cast<long long>(v.find("list")->l.size())) bad.insert("root: list too long");
    else if (v.find("items")->l.empty()) bad.insert("root: no items");
    else if (!v.find("ints")->find("k1")) bad.insert("root: k1 missing");
    else if (v.find("oin")->k != V::NUL && v.find("oint")->k == V::NUL) bad.insert("root: oin needs oint");
    else if (v.find("nums")->l.size() > 2) bad.insert("root: too many nums");
}

const S s_int = make(S::INT), s_str = make(S::STR);
const S s_oint = make(S::OPT, &s_int), s_lint = make(S::VEC, &s_int), s_mint = make(S::MAP, &s_int);
const S s_inner = make({{"a", &s_int}, {"s", &s_str}}, v_inner);
const S s_olist = make(S::OPT, &s_lint), s_grid = make(S::VEC, &s_lint);
const S s_oin = make(S::OPT, &s_inner), s_linner = make(S::VEC, &s_inner), s_minner = make(S::MAP, &s_inner);
const S s_item = make({{"id", &s_str}, {"v", &s_int}, {"tags", &s_lint}, {"note", &s_oint}}, v_item);
const S s_litem = make(S::VEC, &s_item);
const S s_num = make({{"w", &s_int}, {"key", &s_int}});
S mk_lnum() { S s = make(S::VEC, &s_num); s.hash_key = true; return s; }
const S s_lnum = mk_lnum();
const S s_guard = make({{"g", &s_int}}, v_guard);
const S s_oguard = make(S::OPT, &s_guard);
const S s_box = make({{"in", &s_inner}, {"ro", &s_int, true}, {"rl", &s_lint, true}});
S mk_arr() { S s = make(S::ARR, &s_int); s.n = 2; s.deletable = false; return s; }
const S s_arr = mk_arr();
const S s_root = make({{"n", &s_int},
                       {"ro", &s_int, true},
                       {"in", &s_inner},
                       {"sub", &s_box, false, true},
                       {"fixed", &s_box, true},
                       {"oin", &s_oin},
                       {"oint", &s_oint},
                       {"roopt", &s_oint, true},
                       {"guard", &s_oguard},
                       {"list", &s_lint},
                       {"structs", &s_linner},
                       {"items", &s_litem, false, false, "id"},
                       {"ints", &s_mint},
                       {"objs", &s_minner},
                       {"slist", &s_lint, false, true},
                       {"ritems", &s_litem, true, false, "id"},
                       {"sitems", &s_litem, false, true, "id"},
                       {"nums", &s_lnum, false, false, "key"},
                       {"arr", &s_arr},
                       {"olist", &s_olist},
                       {"grid", &s_grid},
                       {"wireName", &s_str}},
                      v_root);

const S& root_schema = s_root;

// ------------------------------------------------------------------ real tree -> model tree
applied apply(resource& r, const oper& o)
{
    applied a;
    op_context ctx;
    ctx.veto = o.veto;
    try
    {
        kl::resources::operation_result res{};
        const rapidjson::Value& val = o.doc;
        switch (o.what)
        {
        case PUT: res = run_root<PUT>(r, o.kpath, val, ctx); break;
        case PATCH: res = run_root<PATCH>(r, o.kpath, val, ctx); break;
        case POST: res = run_root<POST>(r, o.kpath, val, ctx); break;
        case DELETE_: res = run_root<DELETE_>(r, o.kpath, val, ctx); break;
        }
        a.status = static_cast<int>(res.status);
        a.body = res.body;
    }
    catch (const foreign_failure&)
    {
        a.threw = true;
    }
    return a;
}

kl::resources::operation_result read_at(const resource& r, const kl::path& at) { return read_root(r, at); }

V conv(const app::Inner&);
V conv(const app::Item&);
V conv(const app::Num&);
V conv(const app::Guarded&);
V conv(int x) { return vint(x); }
V conv(const std::string& x) { return vstr(x); }
template <typename T> V conv(const std::optional<T>& x) { return x ? conv(*x) : V{}; }
V conv(const app::Inner& x)
{
    auto v = vobj();
    v.o = {{"a", conv(x.a)}, {"s", conv(x.s)}};
    return v;
}
template <typename R> V conv_list(const R& r)
{
    auto v = vlist();
    for (auto& e : r)
        v.l.push_back(conv(e));
    return v;
}
template <typename T> V conv_map(const std::map<std::string, T>& m)
{
    auto v = vobj();
    for (auto& e : m)
        v.o.emplace_back(e.first, conv(e.second));
    return v;
}
V conv(const app::Item& x)
{
    auto v = vobj();
    v.o = {{"id", conv(x.id)}, {"v", conv(x.v)}, {"tags", conv_list(x.tags)}, {"note", conv(x.note)}};
    return v;
}
V conv(const app::Num& x)
{
    auto v = vobj();
    v.o = {{"w", conv(x.w)}, {"key", conv(x.key)}};
    return v;
}
V conv(const app::Guarded& x)
{
    auto v = vobj();
    v.o = {{"g", conv(x.g)}};
    return v;
}
V conv(const app::Box& x)
{
    auto v = vobj();
    v.o = {{"in", conv(x.in)}, {"ro", conv(x.ro)}, {"rl", conv_list(x.rl)}};
    return v;
}
V conv(const Root& r)
{
    auto v = vobj();
    v.o = {{"n", conv(r.n)},
           {"ro", conv(r.ro)},
           {"in", conv(r.in)},
           {"sub", conv(r.sub)},
           {"fixed", conv(r.fixed)},
           {"oin", conv(r.oin)},
           {"oint", conv(r.oint)},
           {"roopt", conv(r.roopt)},
           {"guard", conv(r.guard)},
           {"list", conv_list(r.list)},
           {"structs", conv_list(r.structs)},
           {"items", conv_list(r.items)},
           {"ints", conv_map(r.ints)},
           {"objs", conv_map(r.objs)},
           {"slist", conv_list(r.slist)},
           {"ritems", conv_list(r.ritems)},
           {"sitems", conv_list(r.sitems)},
           {"nums", conv_list(r.nums)},
           {"arr", conv_list(r.arr)},
           {"olist", r.olist ? conv_list(*r.olist) : V{}},
           {"grid", vlist()},
           {"wireName", conv(r.cpp_name)}};
    for (auto& row : r.grid)
        v.find("grid")->l.push_back(conv_list(row));
    return v;
}

Root initial()
{
    Root r;
    r.n = 3;
    r.ro = 5;
    r.in = {1, "in"};
    r.sub = {{2, "sub"}, 21, {1}};
    r.fixed = {{3, "fixed"}, 31, {1, 2}};
    r.oin = app::Inner{4, "oin"};
    r.oint = 6;
    r.roopt = 7;
    r.guard = app::Guarded{1};
    r.list = {10, 20};
    r.structs = {{1, "s0"}, {2, "s1"}};
    r.items = {{"a", 1, {1}, std::nullopt}, {"b", 2, {}, 9}};
    r.ints = {{"k1", 1}, {"k2", 2}};
    r.objs = {{"m", {5, "m"}}, {"n", {6, "n"}}};
    r.slist = {1, 2};
    r.ritems = {{"x", 1, {}, 3}};
    r.sitems = {{"y", 1, {4}, 2}, {"z", 2, {}, std::nullopt}};
    r.nums = {{1, 7}};
    r.arr = {{1, 2}};
    r.olist = std::vector<int>{1, 2};
    r.grid = {{1, 2}, {3}};
    r.cpp_name = "wire";
    return r;
}

void build_ops()
{
    const std::vector<std::string> leaf = {"7", "-1", "\"x\"", "null"};
    const std::vector<std::string> leaf_all = {"0",   "7",    "-1",  "13", "2147483648", "-2147483649",
                                               "1.5", "true", "\"x\"", "null", "[1]", "{}"};
    const std::vector<std::string> strs = {"\"x\"", "\"\"", "7", "null"};
    const std::vector<std::string> inner = {"{\"a\":7,\"s\":\"t\"}", "{\"a\":-1,\"s\":\"t\"}",
                                            "{\"a\":13,\"s\":\"t\"}", "{\"a\":8}", "{\"s\":\"u\"}",
                                            "{\"a\":9,\"s\":5}", "{\"s\":\"v\",\"a\":\"bad\"}",
                                            "{}", "null", "[3,\"seq\"]", "[3]", "7"};
    const std::vector<std::string> inner_few = {"{\"a\":7,\"s\":\"t\"}", "{\"a\":-1,\"s\":\"t\"}",
                                                "{\"s\":\"u\"}", "{\"a\":9,\"s\":5}", "null"};
    const std::vector<std::string> lint = {"[]", "[5,6,7]", "[5,\"x\"]", "[5,6,7,8]", "{}", "null"};
    auto item = [](const std::string& id, int v) {
        return "{\"id\":\"" + id + "\",\"v\":" + std::to_string(v) + ",\"tags\":[3]}";
    };

    // scalars
    write("/n", leaf_all);
    op(PUT, "/n", "1");
    op(PUT, "/n", "4");
    write("/ro", leaf);
    write("/wireName", strs);
    write("/cpp_name", {"\"x\""});
    op(DELETE_, "/n");
    op(DELETE_, "/ro");
    op(POST, "/n", "1");
    op(DELETE_, "");
    op(POST, "", "{}");
    op(POST, "/in", "1");
    for (auto p : {"/nosuch", "/n/x", "/in/zz", "/in/a/0", "/list/0/x", "/items/a/v/0", "/wireName/0"})
    {
        op(PUT, p, "7");
        op(PATCH, p, "7");
        op(POST, p, "7");
        op(DELETE_, p);
    }
    // nested structures and access attributes
    write("/in", inner);
    write("/in/a", leaf_all);
    write("/in/s", strs);
    op(DELETE_, "/in");
    op(DELETE_, "/in/a");
    for (std::string b : {"/sub", "/fixed"})
    {
        write(b, {"{\"in\":{\"a\":7,\"s\":\"t\"},\"ro\":1,\"rl\":[]}", "{\"ro\":2}",
                  "{\"in\":{\"a\":-1,\"s\":\"t\"},\"ro\":1,\"rl\":[]}", "{\"in\":{\"a\":40},\"ro\":\"bad\"}", "null"});
        write(b + "/in", inner_few);
        write(b + "/in/a", leaf);
        write(b + "/ro", {"7"});
        write(b + "/rl", {"[]", "[9]"});
        write(b + "/rl/0", {"7", "\"x\""});
        op(POST, b + "/rl", "4");
        op(DELETE_, b + "/rl/0");
        op(DELETE_, b + "/rl");
        op(DELETE_, b);
    }
    // optionals
    write("/oin", inner);
    write("/oin/a", leaf);
    write("/oin/s", strs);
    op(DELETE_, "/oin");
    op(DELETE_, "/oin/a");
    write("/oint", leaf_all);
    op(DELETE_, "/oint");
    write("/roopt", leaf);
    op(DELETE_, "/roopt");
    write("/guard", {"{\"g\":2}", "null", "{\"g\":\"bad\"}"});
    write("/guard/g", {"3"});
    op(DELETE_, "/guard");
    op(DELETE_, "/guard", "", true);
    op(PUT, "/n", "5", true);
    op(POST, "/list", "5", true);
    op(DELETE_, "/list/0", "", true);
    op(DELETE_, "/ints/k2", "", true);
    op(DELETE_, "/items/b", "", true);
    op(PATCH, "/guard", "{\"g\":4}", true);
    op(PUT, "/guard", "null", true);
    // plain sequences
    write("/list", lint);
    for (auto i : {"/list/0", "/list/1", "/list/2"})
    {
        write(i, leaf);
        op(DELETE_, i);
    }
    for (auto i : {"/list/00", "/list/+0", "/list/-0", "/list/0x0", "/list/18446744073709551616", "/list/99", "/list/a",
                   "/list/-", "/list/1.0", "/list/%200"})
    {
        op(PUT, i, "7");
        op(DELETE_, i);
    }
    for (auto p : {"30", "\"x\"", "null", "13"})
        op(POST, "/list", p);
    op(POST, "/list/0", "1");
    op(DELETE_, "/list");
    write("/structs", {"[]", "[{\"a\":7,\"s\":\"t\"}]", "[{\"a\":7,\"s\":\"t\"},{\"a\":-1,\"s\":\"t\"}]",
                       "[{\"a\":7,\"s\":\"t\"},{\"a\":13,\"s\":\"t\"}]", "[{\"a\":7,\"s\":\"t\"},{\"a\":7}]"});
    write("/structs/1", inner_few);
    write("/structs/0/a", leaf);
    write("/structs/0/s", {"\"q\""});
    for (auto& p : inner)
        op(POST, "/structs", p);
    op(DELETE_, "/structs/0");
    op(DELETE_, "/structs/1");
    op(DELETE_, "/structs/2");
    op(DELETE_, "/structs/0/a");
    write("/slist", lint);
    write("/slist/0", {"7"});
    op(POST, "/slist", "4");
    op(DELETE_, "/slist/0");
    op(DELETE_, "/slist/7");
    write("/arr", {"[3,4]", "[3]", "[3,4,5]", "[3,\"x\"]", "[]", "null"});
    write("/arr/0", leaf);
    write("/arr/1", {"8"});
    write("/arr/2", {"8"});
    op(POST, "/arr", "1");
    op(DELETE_, "/arr/0");
    op(DELETE_, "/arr");
    write("/olist", {"[]", "[3,4]", "[3,\"x\"]", "null", "{}"});
    write("/olist/0", {"7", "\"x\""});
    write("/olist/2", {"7"});
    op(DELETE_, "/olist");
    write("/grid", {"[]", "[[1],[2,3]]", "[[1],2]"});
    write("/grid/0", {"[]", "[8]", "[\"x\"]", "7"});
    write("/grid/0/1", {"7", "null"});
    write("/grid/1/1", {"7"});
    op(POST, "/grid", "[5]");
    op(POST, "/grid", "5");
    op(POST, "/grid/0", "5");
    op(POST, "/grid/1", "\"x\"");
    op(POST, "/grid/0/0", "5");
    op(DELETE_, "/grid/0");
    op(DELETE_, "/grid/0/1");
    op(DELETE_, "/grid/1/1");
    op(DELETE_, "/grid/0/01");
    // keyed sequences
    for (std::string c : {"/items", "/ritems", "/sitems"})
    {
        const std::string k0 = c == "/items" ? "a" : c == "/ritems" ? "x" : "y";
        const std::string k1 = c == "/items" ? "b" : c == "/ritems" ? "nosuch" : "z";
        write(c, {"[]", "[" + item("a", 1) + "," + item("c", 2) + "]", "[" + item("a", 1) + "," + item("a", 2) + "]",
                  "[" + item("a", -1) + "]", "[" + item("q", 1) + "," + item("a", 3) + "," + item("q", 2) + "]", "{}"});
        for (auto& id : {k0, k1})
        {
            const std::string e = c + "/" + id;
            write(e, {item(id, 5), item("zz", 5), item(id, -1), item(k1, 6), item(k0, 6), "{\"v\":11}", "{\"id\":\"" + id + "\"}",
                      "{\"id\":\"other\"}", "{\"tags\":[1,2]}", "{\"v\":12,\"tags\":\"bad\"}", "null"});
            write(e + "/id", {"\"new\"", "\"" + id + "\""});
            write(e + "/v", leaf);
            write(e + "/note", {"1", "null", "\"x\""});
            op(DELETE_, e + "/note");
            op(DELETE_, e + "/id");
            write(e + "/tags", {"[]", "[8,9]"});
            write(e + "/tags/0", {"8"});
            op(POST, e + "/tags", "6");
            op(DELETE_, e + "/tags/0");
            op(DELETE_, e);
        }
        for (auto& p : {item("c", 3), item(k0, 3), item("d", -1), std::string("{\"id\":\"e\"}"), std::string("null")})
            op(POST, c, p);
        op(PUT, c + "/0", item("a", 1));
        op(DELETE_, c + "/0");
    }
    write("/nums", {"[]", "[{\"w\":1,\"key\":7},{\"w\":2,\"key\":8}]", "[{\"w\":1,\"key\":7},{\"w\":2,\"key\":7}]",
                    "[{\"w\":1,\"key\":1},{\"w\":2,\"key\":2},{\"w\":3,\"key\":3}]"});
    write("/nums/#7", {"{\"w\":3,\"key\":7}", "{\"w\":7,\"key\":3}", "{\"w\":7}", "{\"key\":9}"});
    write("/nums/#7/w", {"7", "8"});
    write("/nums/#7/key", {"7", "8"});
    op(POST, "/nums", "{\"w\":1,\"key\":8}");
    op(POST, "/nums", "{\"w\":1,\"key\":7}");
    op(POST, "/nums", "{\"w\":7,\"key\":9}");
    op(DELETE_, "/nums/#7");
    op(DELETE_, "/nums/#8");
    op(DELETE_, "/nums/7");
    op(DELETE_, "/nums/0");
    // maps
    write("/ints", {"{\"k1\":5}", "{\"k3\":5}", "{\"k1\":1,\"k2\":\"x\"}", "{}", "[]", "null"});
    write("/ints/k1", leaf);
    write("/ints/k2", {"5"});
    write("/ints/k3", {"5"});
    op(POST, "/ints", "5");
    op(POST, "/ints/k1", "5");
    op(DELETE_, "/ints/k1");
    op(DELETE_, "/ints/k2");
    op(DELETE_, "/ints/k3");
    op(DELETE_, "/ints");
    write("/objs", {"{\"m\":{\"a\":7,\"s\":\"t\"}}", "{\"m\":{\"a\":7,\"s\":\"t\"},\"o\":{\"a\":-1,\"s\":\"t\"}}",
                    "{\"m\":{\"a\":13,\"s\":\"t\"}}", "{}", "{\"m\":{\"a\":7}}"});
    write("/objs/m", inner_few);
    write("/objs/m/a", leaf);
    write("/objs/n/s", {"\"q\""});
    op(DELETE_, "/objs/m");
    op(DELETE_, "/objs/m/a");
    op(DELETE_, "/objs/nosuch");
    // the root
    auto full = [](const std::string& n, const std::string& list, const std::string& items, const std::string& last) {
        return "{\"n\":" + n +
               ",\"ro\":1,\"in\":{\"a\":1,\"s\":\"r\"},\"sub\":{\"in\":{\"a\":1,\"s\":\"r\"},\"ro\":1,\"rl\":[]},"
               "\"fixed\":{\"in\":{\"a\":1,\"s\":\"r\"},\"ro\":1,\"rl\":[1]},\"guard\":{\"g\":5},\"list\":" +
               list + ",\"structs\":[],\"items\":" + items +
               ",\"ints\":{\"k1\":1},\"objs\":{\"p\":{\"a\":1,\"s\":\"r\"}},\"slist\":[7],\"ritems\":[],"
               "\"sitems\":[{\"id\":\"y\",\"v\":3,\"tags\":[]}],\"nums\":[],\"arr\":[8,9],\"grid\":[],\"wireName\":" +
               last + "}";
    };
    write("", {full("3", "[1]", "[" + item("a", 1) + "]", "\"w\""), full("0", "[1]", "[" + item("a", 1) + "]", "\"w\""),
               full("3", "[1]", "[" + item("a", 1) + "," + item("a", 2) + "]", "\"w\""),
               full("3", "[1]", "[" + item("a", 1) + "]", "17"), full("3", "[1]", "[]", "\"w\""), "null", "[]", "7"});
    for (auto p : {"{\"n\":2}", "{\"n\":1}", "{\"n\":1,\"list\":[1]}", "{\"in\":{\"a\":55},\"ro\":66}",
                   "{\"in\":{\"a\":55},\"wireName\":1}", "{\"oin\":null,\"oint\":null}", "{\"oint\":null}",
                   "{\"oin\":{\"a\":3}}", "{\"items\":[]}", "{\"ints\":{}}", "{\"unknown\":1}", "{}", "{\"structs\":[{\"a\":-1,\"s\":\"\"}]}",
                   "{\"sub\":{\"in\":{\"s\":\"deep\"}}}", "{\"guard\":null,\"n\":4}"})
        op(PATCH, "", p);
}

void setup()
{
    if (!ops.empty())
        return;
    build_ops();
    std::set<std::string> w;
    for (auto& o : ops)
        w.insert(o->path);
    w.insert({"/inx", "/i", "/items/a/tags/1", "/items/c", "/items/c/v", "/list/3", "/list/4", "/structs/2/a", "/objs/o/a",
              "/nums/#8", "/nums/#9/w", "/ints/k4", "/lis", "/list2", "/olist/1", "/olist/3", "/grid/0/2", "/grid/2", "/oin/a/b"});
    watch.assign(w.begin(), w.end());
}

// Breadth-first exploration below one first operation.
void histories()
{
    static const bool once = gates();
    (void)once;
    setup();
    node_state root;
    root.r = kl::resources::make_resource(initial());
    observe(root);
    const int first = mc::choose(static_cast<int>(ops.size()), "first operation");
    if (first == 0 && c06)
        check_reads(root);

    node_state one;
    const bool changed = step(root, *ops[first], one);
    mc::state(hash_of(one, c08));
    mc::outcome(hash_of(one, c08));
    if (mc::want_sample())
        mc::sample(show(*ops[first]) + " => " + text(one.tree).substr(0, 120));
    if (c06 && changed)
        check_reads(one);
    // A failed or void operation leads back to the explored initial state.
    if (!changed && num(one.r.state.modifications.current()) == num(root.r.state.modifications.current()))
        return;
    // Two first operations leading to one state: explore it from the first of them only.
    static std::unordered_map<std::uint64_t, int>* owners = [] {
        auto m = new std::unordered_map<std::uint64_t, int>;
        node_state r0;
        r0.r = kl::resources::make_resource(initial());
        observe(r0);
        for (int i = 0; i < static_cast<int>(ops.size()); ++i)
        {
            node_state t;
            t.r = r0.r;
            apply(t.r, *ops[i]);
            observe(t);
            m->emplace(hash_of(t, true), i);
        }
        return m;
    }();
    if ((*owners)[hash_of(one, true)] != first)
        return;

    node_state two, three;
    std::unordered_set<std::uint64_t> seen;
    for (auto& o2 : ops)
    {
        mc::progress();
        const bool ch = step(one, *o2, two);
        mc::trace();
        if (ch)
        {
            const auto h = hash_of(two, true);
            mc::state(hash_of(two, c08));
            if (!seen.insert(h).second)
                continue;
            if (c06 && mc::thorough())
                check_reads(two);
            if (!mc::thorough())
                continue;
            for (auto& o3 : ops)
            {
                if (step(two, *o3, three))
                    mc::state(hash_of(three, c08));
                mc::trace();
            }
        }
    }
}

MC_SCENARIO("C05", "histories", histories, 1, true, 300);
MC_SCENARIO("C06", "histories", histories, 1, true, 300);
MC_SCENARIO("C07", "histories", histories, 1, true, 300);
MC_SCENARIO("C08", "histories", histories, 1, true, 300);
MC_SCENARIO("C09", "histories", histories, 1, true, 300);

// ------------------------------------------------------------------ C05: values whose copy/move may throw
V conv(const Brittle& b)
{
    auto v = vobj();
    v.o = {{"id", vstr(b.id)}, {"v", vint(b.v)}, {"data", conv_list(b.data)}};
    return v;
}
V conv(const Shelf& s)
{
    auto v = vobj();
    v.o = {{"one", conv(s.one)},
           {"maybe", s.maybe ? conv(*s.maybe) : V{}},
           {"many", V{}},
           {"keyed", V{}},
           {"named", V{}}};
    for (auto& b : s.many)
        v.o[2].second.l.push_back(conv(b));
    for (auto& b : s.keyed)
        v.o[3].second.l.push_back(conv(b));
    for (auto& b : s.named)
        v.o[4].second.o.emplace_back(b.first, conv(b.second));
    return v;
}

void throwing_values()
{
    static const struct { verb w; const char* path; const char* payload; } table[] = {
        {PUT, "/one", "{\"id\":\"n\",\"v\":9,\"data\":[7]}"},
        {PUT, "/one", "{\"id\":\"n\",\"v\":-9,\"data\":[7]}"},
        {PATCH, "/one", "{\"v\":9}"},
        {PATCH, "/one", "{\"v\":-9}"},
        {PUT, "/maybe", "{\"id\":\"n\",\"v\":9,\"data\":[7]}"},
        {PUT, "/maybe", "{\"id\":\"n\",\"v\":-9,\"data\":[7]}"},
        {PUT, "/maybe", "null"},
        {PATCH, "/maybe", "{\"v\":9}"},
        {DELETE_, "/maybe", ""},
        {PUT, "/many", "[{\"id\":\"n\",\"v\":9,\"data\":[7]}]"},
        {PUT, "/many", "[{\"id\":\"n\",\"v\":9,\"data\":[7]},{\"id\":\"m\",\"v\":-9,\"data\":[7]}]"},
        {PUT, "/many/1", "{\"id\":\"n\",\"v\":9,\"data\":[7]}"},
        {PATCH, "/many/1", "{\"id\":\"n\"}"},
        {POST, "/many", "{\"id\":\"n\",\"v\":9,\"data\":[7]}"},
        {POST, "/many", "{\"id\":\"n\",\"v\":-9,\"data\":[7]}"},
        {DELETE_, "/many/0", ""},
        {DELETE_, "/many/1", ""},
        {PUT, "/keyed/a", "{\"id\":\"a\",\"v\":9,\"data\":[7]}"},
        {PUT, "/keyed/a", "{\"id\":\"a\",\"v\":-9,\"data\":[7]}"},
        {POST, "/keyed", "{\"id\":\"n\",\"v\":9,\"data\":[7]}"},
        {POST, "/keyed", "{\"id\":\"a\",\"v\":9,\"data\":[7]}"},
        {DELETE_, "/keyed/a", ""},
        {PUT, "/named/k", "{\"id\":\"n\",\"v\":9,\"data\":[7]}"},
        {PUT, "/named", "{\"k\":{\"id\":\"n\",\"v\":9,\"data\":[7]}}"},
        {DELETE_, "/named/k", ""},
        {PATCH, "", "{\"one\":{\"v\":8},\"maybe\":{\"v\":-1}}"},
        {PATCH, "", "{\"one\":{\"v\":8},\"maybe\":null}"},
    };
    const int which = mc::choose(static_cast<int>(std::size(table)), "operation");
    const int spare = mc::choose(2, "spare capacity");
    auto& t = table[which];
    int points = 0;
    for (int n = 0;; ++n)
    {
        fuse = 0;
        Shelf s;
        s.one = Brittle("one", 1);
        s.maybe = Brittle("maybe", 2);
        if (spare)
        {
            s.many.reserve(8);
            s.keyed.reserve(8);
        }
        for (int i = 0; i < 3; ++i)
        {
            s.many.push_back(Brittle("m" + std::to_string(i), i));
            s.keyed.push_back(Brittle(std::string(1, char('a' + i)), i));
        }
        s.named.emplace("k", Brittle("k", 4));
        s.named.emplace("l", Brittle("l", 5));
        kl::resources::resource<Shelf> r{std::move(s), {}};
        const V before = conv(r.value);
        rapidjson::Document doc;
        doc.Parse(*t.payload ? t.payload : "null");
        kl::path at{t.path};
        int status = 0;
        fuse_hits = 0;
        fuse = n;
        try
        {
            kl::resources::operation_result res{};
            switch (t.w)
            {
            case PUT: res = run_shelf<PUT>(r, at, doc); break;
            case PATCH: res = run_shelf<PATCH>(r, at, doc); break;
            case POST: res = run_shelf<POST>(r, at, doc); break;
            case DELETE_: res = run_shelf<DELETE_>(r, at, doc); break;
            }
            status = static_cast<int>(res.status);
        }
        catch (const fuse_blown&)
        {
        }
        const bool blown = fuse_hits != 0;
        fuse = 0;
        mc::transition();
        mc::trace();
        if (n && !blown)
            break; // every copy/move of this operation has been failed once
        points += blown;
        const bool success = status >= 200 && status < 300;
        mc::note("%s %s %s with throw at copy/move #%d: status %d", verb_name[t.w], t.path, t.payload, n, status);
        if (!success)
            MC_CHECK(conv(r.value) == before, "%s %s %s with copy/move #%d throwing changed the tree\n  before %s\n  after  %s",
                     verb_name[t.w], t.path, t.payload, n, text(before).c_str(), text(conv(r.value)).c_str());
        if (!success)
            MC_CHECK(num(r.state.modifications.current()) == 1, "failed operation reported a modification");
        mc::state(mc::hasher{}.u(which).u(spare).u(n));
    }
    mc::count("throwing copies/moves", points);
}
MC_SCENARIO("C05", "throwing_values", throwing_values, 2);

// ------------------------------------------------------------------ C08: the tracker by itself
void tracker()
{
    static const std::vector<std::string> paths = {"", "/a", "/ab", "/a/b", "/a/b/c", "/b", "/a/bc", "/a/b/c/d", "/a%2Eb",
                                                   "/a.b", "/a/b!/c", "/a!/b"};
    static std::vector<kl::path> kp = [] {
        std::vector<kl::path> r;
        for (auto& p : paths)
            r.emplace_back(p);
        return r;
    }();
    static std::vector<segs> sp = [] {
        std::vector<segs> r;
        for (auto& p : paths)
        {
            auto q = p;
            auto x = q.find("%2E");
            if (x != std::string::npos)
                q.replace(x, 3, ".");
            r.push_back(split_path(q));
        }
        return r;
    }();
    modification_tracker t;
    struct event { int path; bool subtree; std::uint64_t gen; };
    std::vector<event> events;
    const int depth = mc::thorough() ? 5 : 4;
    std::uint64_t last = num(t.current());
    for (int d = 0; d < depth; ++d)
    {
        const int c = mc::choose(static_cast<int>(paths.size()) * 2 + 1, "notification");
        if (c == 0)
            break;
        const int p = (c - 1) / 2;
        const bool sub = (c - 1) % 2;
        const auto g = d % 2 ? t.notify_changed(kp[p], sub) : t.notify_changed(kp[p].view(), sub);
        mc::note("notify %s subtree=%d -> %llu", paths[p].c_str(), sub, (unsigned long long)num(g));
        mc::transition();
        MC_CHECK(num(g) > last, "generation did not advance");
        MC_CHECK(g == t.current(), "returned generation is not the current one");
        last = num(g);
        events.push_back({p, sub, last});
    }
    mc::hasher h;
    for (std::size_t q = 0; q < paths.size(); ++q)
    {
        std::uint64_t want = 0;
        for (auto& e : events)
            if (is_prefix(sp[q], sp[e.path]) || (e.subtree && is_prefix(sp[e.path], sp[q])))
                want = e.gen;
        const auto got = num(t.changed_at(kp[q]));
        MC_CHECK(got == want, "changed_at(%s) = %llu, expected %llu", paths[q].c_str(), (unsigned long long)got,
                 (unsigned long long)want);
        h.u(got);
        for (std::uint64_t g = 0; g <= last; ++g)
            MC_CHECK(t.changed_since(kp[q], modification_tracker::generation{g}) == (want > g), "changed_since(%s, %llu) wrong",
                     paths[q].c_str(), (unsigned long long)g);
    }
    mc::state(h);
    mc::outcome(h);
}
MC_SCENARIO("C08", "tracker", tracker, 2);

} // namespace

