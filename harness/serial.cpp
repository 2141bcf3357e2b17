// C17-C21.  Compiled with -DWITH_YAML=0/1 and -DGROUP=n (the types of one group per translation unit).
#include "serial_lib.hpp"

namespace {

void sort_keys(J& j)
{
    for (auto& e : j.a) sort_keys(e);
    for (auto& e : j.o) sort_keys(e.second);
    std::sort(j.o.begin(), j.o.end(), [](auto& a, auto& b) { return a.first < b.first; });
}

void remember(const J& a, const J& b, int tag)
{
    mc::hasher h;
    h.u(tag).s(text(a)).s(text(b));
    mc::state(h);
    mc::outcome(h);
}

bool has_unordered_or_lossy(const S& s, bool skip_null)
{
    if (s->k == Schema::Map && skip_null && s->sub[0]->k == Schema::Opt) return true;
    for (auto& f : s->fields)
        if (f.skip_ser || f.skip_de || f.extra || f.def || f.valid || f.skip_if_empty || f.skip_if_null || has_unordered_or_lossy(f.schema, skip_null))
            return true;
    for (auto& x : s->sub)
        if (has_unordered_or_lossy(x, skip_null)) return true;
    return false;
}

// ---- one value: every way of writing it, and reading it back ----------------------------------------
template <typename T> void value_case()
{
    const S s = D<T>::schema();
    constexpr bool unordered = std::is_same_v<T, std::unordered_map<std::string, int>>;
    budget = GROUP < 3 ? 1 << 30 : mc::thorough() ? 5 : 4;
    from_largest = GROUP < 3 ? false : mc::choose(2, "largest");
    const J m = gen(s, 0);
    const T obj = make<T>(m);
    if (!same(m, D<T>::get(obj)))
        mc::fail("harness: value %s of %s does not survive the bridge", text(m).c_str(), type_label(s).c_str());
    for (int skip = 0; skip < 2; ++skip)
    {
        J expect;
        bool logic = false;
        try { expect = ser(s, m, skip); }
        catch (LogicErr&) { logic = true; }

        auto attempt = [&](const char* how, auto&& fn) -> std::optional<J> {
            mc::transition();
            J got;
            try { got = fn(); }
            catch (const std::logic_error& e)
            {
                if (!logic)
                    mc::fail("%s of %s (value %s) throws logic_error: %s", how, type_label(s).c_str(), text(m).c_str(), e.what());
                return std::nullopt;
            }
            catch (const std::exception& e)
            {
                mc::fail("%s of %s (value %s) throws %s", how, type_label(s).c_str(), text(m).c_str(), e.what());
            }
            if (logic)
                mc::fail("%s of %s writes %s although an extra field collides with a reflected one", how, type_label(s).c_str(), text(got).c_str());
            if (unordered) { sort_keys(got); sort_keys(expect); }
            parsed_text tolerance{!WITH_YAML && std::strstr(how, "dump")};
            if (!equal(expect, got))
                mc::fail("%s (skip_null=%d) of %s: wrote %s, expected %s", how, skip, type_label(s).c_str(), show(text(got)).c_str(), show(text(expect)).c_str());
            return got;
        };
        std::string out;
        auto parsed = [&](std::string t) {
            out = t;
            try { return tree(parse(t)); }
            catch (const kl::serialization::parse_error& e) { mc::fail("dump of %s is not well-formed: %s (%s)", type_label(s).c_str(), show(t).c_str(), e.what()); }
        };
        attempt("serialize", [&] { return serialized(obj, skip); });
        auto dumped = attempt("dump", [&] { return parsed(dump(obj, skip)); });
        std::string compact = out;
        if (skip)
        {
            attempt("dump(obj)", [&] { return parsed(lib::dump(obj)); });
            if (!logic && out != compact)
                mc::fail("dump(obj) differs from dump with a context: %s / %s", show(out).c_str(), show(compact).c_str());
            attempt("serialize(obj)", [&] { return tree(lib::serialize(obj)); });
#if !WITH_YAML
            attempt("pretty_dump(obj)", [&] { return parsed(lib::pretty_dump(obj)); });
#endif
        }
        mc::count(logic ? "colliding values refused" : "values written");
        if (!dumped)
            continue;
        // round trip
        J want = blank(s);
        std::optional<DeErr> err;
        bool unspec = false;
        try { de(s, expect, want, be); }
        catch (DeErr& e) { err = e; }
        catch (Unspec&) { unspec = true; }
        if (unspec)
            continue;
        if (!err && !has_unordered_or_lossy(s, skip) && !same(m, want))
            mc::fail("harness: the model does not round-trip %s of %s", text(m).c_str(), type_label(s).c_str());
        auto back = [&](const char* how, auto&& fn) {
            mc::transition();
            T r{};
            try { fn(r); }
            catch (const kl::serialization::deserialize_error& e)
            {
                if (!err)
                    mc::fail("%s: %s written as %s cannot be read back: %s", how, type_label(s).c_str(), show(compact).c_str(), e.what());
                return;
            }
            if (err)
                mc::fail("%s: %s written as %s is read back although a validator or missing field forbids it", how, type_label(s).c_str(), show(compact).c_str());
            J got = D<T>::get(r);
            parsed_text tolerance{!WITH_YAML && !std::strcmp(how, "text")};
            if (!same(want, got))
                mc::fail("%s: %s written as %s reads back as %s, expected %s", how, type_label(s).c_str(), show(compact).c_str(), show(text(got)).c_str(), show(text(want)).c_str());
            mc::count("round trips");
        };
        back("text", [&](T& r) { auto d = parse(compact); lib::deserialize(r, d); });
        if (skip)
            back("tree", [&](T& r) { r = lib::template deserialize<T>(lib::serialize(obj)); });
    }
    remember(m, J::null(), 1);
    if (mc::want_sample())
        mc::sample(type_label(s) + " " + show(text(m)));
}

// ---- one document: what it means for a value ---------------------------------------------------------
template <typename T> void document_case(bool patching)
{
    const S s = D<T>::schema();
    const int initial = mc::choose(patching ? 3 : 2, "initial value");
    const J start = initial == 0 ? blank(s) : fixed(s, initial == 1);
    budget = GROUP < 3 ? 1 << 30 : mc::thorough() ? 4 : 3;
    const J d = doc(s, 0, be);
    J want = start;
    std::optional<DeErr> err;
    bool unspec = false;
    try
    {
        if (patching) pat(s, d, want, be);
        else de(s, d, want, be);
    }
    catch (DeErr& e) { err = e; }
    catch (Unspec&) { unspec = true; }

    const std::string t = text(d);
    if (mc::replaying())
        mc::note("%s %s from %s: expect %s", patching ? "patch" : "deserialize", show(t).c_str(), show(text(start)).c_str(), unspec ? "anything" : err ? "an error" : show(text(want)).c_str());
    auto run = [&](const char* how, T obj, auto&& fn) {
        mc::transition();
        try { fn(obj); }
        catch (const kl::serialization::deserialize_error& e)
        {
            if (unspec) return;
            if (!err)
                mc::fail("%s of %s from %s is refused (%s), expected %s", how, type_label(s).c_str(), show(t).c_str(), e.what(), show(text(want)).c_str());
            const std::string msg = e.what();
            std::size_t at = 0;
            for (auto& tok : err->path)
            {
                auto p = msg.find(tok, at);
                if (p == msg.npos)
                    mc::fail("%s of %s from %s: the error does not name \"%s\" in its place: %s", how, type_label(s).c_str(), show(t).c_str(), show(tok).c_str(), show(msg).c_str());
                at = p + tok.size();
            }
            mc::count("refused documents");
            return;
        }
        catch (const std::exception& e)
        {
            mc::fail("%s of %s from %s throws something else than deserialize_error: %s", how, type_label(s).c_str(), show(t).c_str(), e.what());
        }
        if (unspec) return;
        J got = D<T>::get(obj);
        if (err)
            mc::fail("%s of %s accepts %s and gives %s", how, type_label(s).c_str(), show(t).c_str(), show(text(got)).c_str());
        if (!same(want, got))
            mc::fail("%s of %s from %s onto %s gives %s, expected %s", how, type_label(s).c_str(), show(t).c_str(), show(text(start)).c_str(), show(text(got)).c_str(), show(text(want)).c_str());
        mc::count("accepted documents");
    };
    const node root = parse(t);
    parsed_text tolerance{!WITH_YAML};
    if (patching)
    {
        run("patch", make<T>(start), [&](T& o) { lib::patch(o, root); });
        return remember(d, start, 3);
    }
    run("deserialize", make<T>(start), [&](T& o) { lib::deserialize(o, root); });
    if (initial == 0)
        run("deserialize<T>", make<T>(start), [&](T& o) { o = lib::template deserialize<T>(root); });
    remember(d, start, 2);
    if (mc::want_sample())
        mc::sample(type_label(s) + " from " + show(t));
}

struct entry
{
    void (*value)();
    void (*document)(bool);
};
template <typename... T> std::vector<entry> table() { return {entry{&value_case<T>, &document_case<T>}...}; }

std::string group_name(const char* what) { return std::string(what) + " " + (WITH_YAML ? "yaml" : "json") + " group " + std::to_string(GROUP); }

template <typename Table> void reg(const char* prop_values, const char* prop_docs, const char* prop_patch, Table tab)
{
    auto values = [tab] { tab[mc::choose((int)tab.size(), "type")].value(); };
    auto docs = [tab] { tab[mc::choose((int)tab.size(), "type")].document(false); };
    auto patches = [tab] { tab[mc::choose((int)tab.size(), "type")].document(true); };
    mc::add(prop_values, mc::scenario{group_name("values"), values, 4, true, 40});
    mc::add(prop_docs, mc::scenario{group_name("documents"), docs, 3, true, 40});
    mc::add(prop_patch, mc::scenario{group_name("patches"), patches, 3, true, 40});
}

using str = std::string;
template <typename T> using opt = std::optional<T>;
template <typename T> using vec = std::vector<T>;
template <typename T> using smap = std::map<std::string, T>;

int registered = [] {
    const char* v = WITH_YAML ? "C20" : "C17";
    const char* d = WITH_YAML ? "C20" : "C18";
    const char* p = WITH_YAML ? "C20" : "C19";
#if GROUP == 0
    reg(v, d, p, table<bool, std::int8_t, std::uint8_t, short, unsigned short, int, unsigned, std::int64_t, std::uint64_t, float, double, str, col, zoo::plain_enum, zoo::raw8, kl::enum_set<col>, zoo::cust,
                       opt<int>, opt<bool>, opt<double>, opt<str>, opt<col>>());
#elif GROUP == 1
    reg(v, d, p, table<vec<int>, vec<bool>, vec<str>, vec<opt<int>>, vec<vec<int>>, std::list<str>, std::deque<std::uint8_t>, opt<vec<int>>, vec<col>, vec<zoo::cust>,
                       std::array<int, 2>, std::array<opt<str>, 2>, std::array<vec<int>, 2>, std::tuple<>, std::tuple<int>, std::tuple<int, str, opt<int>>, std::tuple<std::tuple<bool, int>, vec<int>>, std::pair<bool, opt<int>>, std::pair<str, col>>());
#elif GROUP == 2
    reg(v, d, p, table<smap<int>, smap<str>, smap<opt<int>>, smap<vec<int>>, smap<smap<int>>, opt<smap<int>>, std::unordered_map<str, int>, smap<std::pair<int, int>>, smap<kl::enum_set<col>>, smap<zoo::cust>, vec<smap<opt<int>>>>());
#elif GROUP == 3
    reg(v, d, p, table<zoo::P, zoo::N, zoo::Q, zoo::R, zoo::Der, opt<zoo::P>, vec<zoo::P>, smap<zoo::P>, std::array<zoo::P, 2>, std::pair<zoo::P, int>, vec<opt<zoo::P>>>());
#elif GROUP == 4
    reg("C21", "C21", "C21", table<zoo::A1, zoo::A2, zoo::A3, zoo::A4, zoo::A5, zoo::A11, zoo::A13, zoo::A15>());
#elif GROUP == 5
    reg("C21", "C21", "C21", table<zoo::A6, zoo::A7, zoo::A8, zoo::A9, zoo::A10, zoo::Mid, zoo::A12, zoo::A14, vec<zoo::A6>, opt<zoo::A8>, smap<zoo::A4>>());
#endif
    return 0;
}();

} // namespace
