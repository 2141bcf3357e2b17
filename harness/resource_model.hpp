// The reference model of the resource verbs (schema as data, own value tree, own JSON reader) and
// the check of one transition of the real code against it.
#pragma once
#include "mc.hpp"
#include "resource_values.hpp"

#include "kl/json.hpp"
#include "kl/path.hpp"
#include "kl/resource.hpp"
#include "kl/resource_op.hpp"

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct applied
{
    int status = 0;
    std::string body;
    bool threw = false;
};

namespace {
extern const S& root_schema; // of the harness that includes this
place resolve(V& root, const segs& path, std::size_t count) { return resolve(root, root_schema, path, count); }

// ------------------------------------------------------------------ model verbs
const char* const verb_name[] = {"PUT", "PATCH", "POST", "DELETE"};

struct oper
{
    verb what;
    std::string path;
    segs at;
    std::string payload; // JSON text
    V json;
    rapidjson::Document doc;
    bool veto = false;
    kl::path kpath;
};

struct expectation
{
    std::set<int> status;        // acceptable status codes
    std::set<std::string> bad;   // violated rules (validators, unique keys)
    bool read_only = false;
    V after;
};

expectation model(const V& before, const oper& op)
{
    expectation e;
    e.after = before;
    V tree = before;
    auto refuse = [&](int code) { e.status = {code}; e.after = before; return e; };
    auto locked = [&] { e.read_only = true; return refuse(405); };
    auto commit = [&](int code) {
        mvalidate(root_schema, tree, "", op.veto, e.bad);
        if (!e.bad.empty())
            return refuse(409);
        e.status = {code};
        e.after = tree;
        return e;
    };
    try
    {
        switch (op.what)
        {
        case PUT:
        case PATCH:
        {
            auto p = resolve(tree, op.at, op.at.size());
            if (p.ro || p.inherited)
                return locked();
            V cand = op.what == PUT ? mdeserialize(*p.s, op.json) : mpatch(*p.s, *p.v, op.json);
            if (!p.identity.empty() && *cand.find(p.identity) != *p.v->find(p.identity))
                return locked();
            *p.v = cand;
            return commit(200);
        }
        case POST:
        {
            auto p = resolve(tree, op.at, op.at.size());
            if (p.ro || p.sro || p.inherited)
                return locked();
            if (p.s->k != S::VEC)
                return refuse(405);
            p.v->l.push_back(mdeserialize(*p.s->elem, op.json));
            return commit(201);
        }
        case DELETE_:
        {
            if (!op.at.empty())
            {
                auto c = resolve(tree, op.at, op.at.size() - 1);
                if (c.s->k == S::VEC || c.s->k == S::MAP || c.s->k == S::ARR)
                {
                    bool missing = false;
                    try { resolve(tree, op.at, op.at.size()); }
                    catch (const not_found&) { missing = true; }
                    const bool lock = c.ro || c.sro || c.inherited;
                    if (missing)
                    {
                        e.status = {404};
                        // An absent position of an immutable (or fixed-size) collection may be
                        // reported either way; nothing can be deleted in both cases.
                        if (lock || !c.s->deletable)
                            e.status.insert(405);
                        return e;
                    }
                    if (lock)
                        return locked();
                    if (!c.s->deletable)
                        return refuse(405);
                    auto last = op.at.back();
                    if (c.s->k == S::MAP)
                    {
                        for (std::size_t i = 0; i < c.v->o.size(); ++i)
                            if (c.v->o[i].first == last)
                            {
                                c.v->o.erase(c.v->o.begin() + i);
                                break;
                            }
                    }
                    else if (!c.key.empty())
                    {
                        for (std::size_t i = 0; i < c.v->l.size(); ++i)
                            if (key_segment(*c.s, *c.v->l[i].find(c.key)) == last)
                            {
                                c.v->l.erase(c.v->l.begin() + i);
                                break;
                            }
                    }
                    else
                    {
                        std::size_t idx = 0;
                        parse_index(last, idx);
                        c.v->l.erase(c.v->l.begin() + idx);
                    }
                    return commit(204);
                }
            }
            auto p = resolve(tree, op.at, op.at.size());
            if (p.ro || p.inherited)
                return locked();
            if (p.s->k != S::OPT)
                return refuse(405);
            if (p.v->k != V::NUL)
                mvalidate(*p.s->elem, *p.v, "", op.veto, e.bad); // current value may veto
            *p.v = V{};
            return commit(204);
        }
        }
    }
    catch (const not_found&)
    {
        return refuse(404);
    }
    catch (const bad_payload&)
    {
        return refuse(400);
    }
    return e;
}

// ------------------------------------------------------------------ operation alphabet
std::vector<std::unique_ptr<oper>> ops;
std::vector<std::string> watch; // addresses probed in the tracker besides the existing ones

void op(verb w, const std::string& path, const std::string& payload = "", bool veto = false)
{
    auto o = std::make_unique<oper>();
    o->what = w;
    o->path = path;
    o->at = split_path(path);
    o->payload = payload;
    if (w != DELETE_)
    {
        o->json = parse(payload);
        o->doc.Parse(payload.c_str());
        if (o->doc.HasParseError())
            mc::fail("harness: payload %s", payload.c_str());
    }
    o->veto = veto;
    o->kpath.set(path);
    ops.push_back(std::move(o));
}

void write(const std::string& path, std::vector<std::string> payloads)
{
    for (auto& p : payloads)
    {
        op(PUT, path, p);
        op(PATCH, path, p);
    }
}

// ------------------------------------------------------------------ one checked transition
using resource = kl::resources::resource<RESOURCE_ROOT>;
// from the harness
V conv(const RESOURCE_ROOT&);
applied apply(resource&, const oper&);
kl::resources::operation_result read_at(const resource&, const kl::path&);

using kl::resources::modification_tracker;

kl::path& kpath_of(const std::string& p)
{
    static std::unordered_map<std::string, kl::path> cache;
    auto it = cache.find(p);
    if (it == cache.end())
        it = cache.emplace(p, kl::path{p}).first;
    return it->second;
}

std::uint64_t num(modification_tracker::generation g) { return static_cast<std::uint64_t>(g); }

bool is_prefix(const segs& a, const segs& b)
{
    return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
}

const segs& segs_of(const std::string& p)
{
    static std::unordered_map<std::string, segs> cache;
    auto it = cache.find(p);
    if (it == cache.end())
        it = cache.emplace(p, split_path(p)).first;
    return it->second;
}

std::string show(const oper& o)
{
    return std::string(verb_name[o.what]) + " " + (o.path.empty() ? "/" : o.path) + (o.veto ? " (veto)" : "") + " " + o.payload;
}

bool c05, c06, c07, c08, c09;
bool gates()
{
    c05 = mc::deciding("C05");
    c06 = mc::deciding("C06");
    c07 = mc::deciding("C07");
    c08 = mc::deciding("C08");
    c09 = mc::deciding("C09");
    return true;
}

bool all_generations = false;

struct node_state
{
    resource r;
    V tree;
    std::vector<std::uint64_t> gens; // changed_at of every watched address
};

void observe(node_state& n)
{
    n.tree = conv(n.r.value);
    n.gens.clear();
    if (!(c05 || c08 || all_generations))
        return;
    for (auto& p : watch)
        n.gens.push_back(num(n.r.state.modifications.changed_at(kpath_of(p))));
}

// Declarative access rule, independent of how a verb is carried out: an immutable value may only
// change when the operation was addressed at something that legitimately contains it.
void check_immutables(const V& before, const V& after, const oper& o)
{
    const bool whole = o.what == PUT || o.what == PATCH || o.what == DELETE_;
    V b = before, a = after;
    // deleting an element renumbers its siblings
    segs renumbered;
    bool has_renumbered = false;
    if (o.what == DELETE_ && !o.at.empty())
    {
        renumbered.assign(o.at.begin(), o.at.end() - 1);
        const place c = resolve(b, renumbered, renumbered.size());
        has_renumbered = !c.ro && !c.sro && !c.inherited;
    }
    std::vector<std::string> all;
    addresses(root_schema, b, "", "", all);
    for (auto& path : all)
    {
        const auto& at = segs_of(path);
        const place pb = resolve(b, at, at.size());
        if (pb.ro || pb.sro || !pb.key.empty())
        {
            V* bv = pb.v;
            V* av;
            try { av = resolve(a, at, at.size()).v; }
            catch (const not_found&) { av = nullptr; }
            if (av && *bv == *av)
                continue;
            // a replaced or deleted ancestor
            if (o.at.size() < at.size() && whole && is_prefix(o.at, at))
                continue;
            if (has_renumbered && renumbered.size() < at.size() && is_prefix(renumbered, at))
                continue;
            MC_CHECK(av != nullptr, "%s removed %s", show(o).c_str(), path.c_str());
            if (pb.sro)
                // values below may change only through the field itself or something above it
                MC_CHECK(whole && o.at == at, "%s changed values below %s: %s -> %s", show(o).c_str(), path.c_str(),
                         text(*bv).c_str(), text(*av).c_str());
            if (pb.ro)
            {
                // the field itself stays; its parts may change
                MC_CHECK(o.at.size() > at.size() && is_prefix(at, o.at), "%s changed read-only %s: %s -> %s",
                         show(o).c_str(), path.c_str(), text(*bv).c_str(), text(*av).c_str());
                MC_CHECK(bv->k == av->k && bv->l.size() == av->l.size() && bv->o.size() == av->o.size(),
                         "%s changed the membership of read-only %s", show(o).c_str(), path.c_str());
            }
            if (!pb.key.empty())
            {
                // identity of keyed elements
                std::vector<std::string> kb, ka;
                for (auto& e : bv->l)
                    kb.push_back(text(*e.find(pb.key)));
                for (auto& e : av->l)
                    ka.push_back(text(*e.find(pb.key)));
                if (kb == ka)
                    continue;
                const bool element_delete = o.what == DELETE_ && o.at.size() == at.size() + 1 && is_prefix(at, o.at) &&
                                            ka.size() + 1 == kb.size();
                MC_CHECK(o.at == at || element_delete, "%s changed element keys of %s", show(o).c_str(), path.c_str());
                if (o.what == POST)
                    MC_CHECK(ka.size() == kb.size() + 1 && std::equal(kb.begin(), kb.end(), ka.begin()),
                             "%s disturbed keys of %s", show(o).c_str(), path.c_str());
            }
        }
    }
}

const V* value_at(V& tree, const std::string& p)
{
    const auto& at = segs_of(p);
    try
    {
        auto q = resolve(tree, at, at.size());
        return q.v;
    }
    catch (const not_found&)
    {
        return nullptr;
    }
}

// Applies op to a copy of `from`; checks the transition; returns true when the tree was modified.
bool step(const node_state& from, const oper& o, node_state& to)
{
    const auto want = model(from.tree, o);
    to.r = from.r;
    mc::note("%s", show(o).c_str());
    const applied got = apply(to.r, o);
    observe(to);
    mc::transition();

    const bool success = !got.threw && got.status >= 200 && got.status < 300;
    const auto g0 = num(from.r.state.modifications.current());
    const auto g1 = num(to.r.state.modifications.current());
    mc::note("  -> %s %d '%s'", got.threw ? "exception" : "status", got.status, got.body.c_str());

    if (c05 && !success)
    {
        mc::count("failed operations");
        MC_CHECK(to.tree == from.tree, "%s failed (%d) but changed the tree\n  before %s\n  after  %s", show(o).c_str(),
                 got.status, text(from.tree).c_str(), text(to.tree).c_str());
        MC_CHECK(g0 == g1 && from.gens == to.gens, "%s failed (%d) but reported a modification", show(o).c_str(), got.status);
    }
    if (c06)
    {
        const bool rejected_foreign = want.bad.count(FOREIGN) != 0;
        if (got.threw)
            MC_CHECK(rejected_foreign, "%s let an unexpected exception escape", show(o).c_str());
        else
        {
            MC_CHECK(want.status.count(got.status), "%s on %s: status %d, expected %d", show(o).c_str(),
                     text(from.tree).c_str(), got.status, *want.status.begin());
            if (got.status == 409)
                MC_CHECK(want.bad.count(got.body), "%s: conflict body '%s'", show(o).c_str(), got.body.c_str());
            else
                MC_CHECK(got.body.empty(), "%s: unexpected body '%s'", show(o).c_str(), got.body.c_str());
        }
        MC_CHECK(to.tree == want.after, "%s on %s\n  gave     %s\n  expected %s", show(o).c_str(), text(from.tree).c_str(),
                 text(to.tree).c_str(), text(want.after).c_str());
        if (success)
            mc::count("successful operations");
        else
            mc::count("refused operations");
    }
    if (c07)
    {
        if (want.read_only)
        {
            mc::count("writes to immutable nodes");
            MC_CHECK(!got.threw && got.status == 405, "%s addressed an immutable node: status %d", show(o).c_str(), got.status);
            MC_CHECK(to.tree == from.tree, "%s addressed an immutable node and changed the tree", show(o).c_str());
        }
        if (to.tree != from.tree)
            check_immutables(from.tree, to.tree, o);
    }
    if (c08)
    {
        if (!success)
        {
            MC_CHECK(g0 == g1 && from.gens == to.gens, "%s failed (%d) but reported a modification", show(o).c_str(), got.status);
        }
        else
        {
            mc::count("tracked modifications");
            MC_CHECK(g1 > g0, "%s succeeded without advancing the generation", show(o).c_str());
            V b = from.tree, a = to.tree;
            // target of the change: a deleted element changes its collection
            segs target = o.at;
            if (o.what == DELETE_)
            {
                auto c = resolve(b, o.at, o.at.size() - 1);
                if (c.s->k == S::VEC || c.s->k == S::MAP)
                    target.pop_back();
            }
            std::vector<std::string> probe = watch;
            addresses(root_schema, a, "", "", probe);
            addresses(root_schema, b, "", "", probe);
            auto& now = to.r.state.modifications;
            auto& old = from.r.state.modifications;
            const auto since = old.current();
            for (auto& p : probe)
            {
                const auto& ps = segs_of(p);
                const auto& kp = kpath_of(p);
                const V* vb = value_at(b, p);
                const V* va = value_at(a, p);
                const bool differs = (vb == nullptr) != (va == nullptr) || (vb && *vb != *va);
                const bool reported = now.changed_since(kp, since);
                MC_CHECK(reported == (num(now.changed_at(kp)) > g0), "changed_since disagrees with changed_at for %s", p.c_str());
                MC_CHECK(num(now.changed_at(kp)) <= g1, "%s reported changed in the future", p.c_str());
                MC_CHECK(num(now.changed_at(kp)) >= num(old.changed_at(kp)), "%s: generation of %s went back", show(o).c_str(),
                         p.c_str());
                if (differs)
                    MC_CHECK(reported, "%s changed %s without reporting it", show(o).c_str(), p.c_str());
                if (is_prefix(ps, target))
                    MC_CHECK(reported, "%s was not reported at %s", show(o).c_str(), p.c_str());
                if (!is_prefix(ps, target) && !is_prefix(target, ps))
                    MC_CHECK(!reported && now.changed_at(kp) == old.changed_at(kp), "%s was reported at unrelated %s",
                             show(o).c_str(), p.c_str());
            }
        }
    }
    if (c09)
    {
        std::set<std::string> bad;
        mvalidate(root_schema, to.tree, "", false, bad);
        MC_CHECK(bad.empty(), "%s on %s left a tree violating '%s': %s", show(o).c_str(), text(from.tree).c_str(),
                 bad.empty() ? "" : bad.begin()->c_str(), text(to.tree).c_str());
        if (!want.bad.empty())
        {
            mc::count("vetoed operations");
            if (got.threw)
                MC_CHECK(want.bad.count(FOREIGN), "%s let an unexpected exception escape", show(o).c_str());
            else
            {
                MC_CHECK(got.status == 409, "%s breaks '%s' but got status %d", show(o).c_str(), want.bad.begin()->c_str(),
                         got.status);
                MC_CHECK(want.bad.count(got.body), "%s: reason '%s' is not a violated rule", show(o).c_str(), got.body.c_str());
            }
            MC_CHECK(to.tree == from.tree, "%s was vetoed but changed the tree", show(o).c_str());
        }
        else
            MC_CHECK(!got.threw && got.status != 409, "%s was vetoed (%s) although every rule holds", show(o).c_str(),
                     got.body.c_str());
    }
    return to.tree != from.tree;
}

std::string dumper_text(const V& v, const S& s)
{
    // canonical JSON of a model value, empty optionals as null
    switch (s.k)
    {
    case S::OPT: return v.k == V::NUL ? "null" : dumper_text(v, *s.elem);
    case S::VEC:
    case S::ARR:
    {
        std::string r = "[";
        for (auto& e : v.l)
            r += (r.size() > 1 ? "," : "") + dumper_text(e, *s.elem);
        return r + "]";
    }
    case S::MAP:
    {
        std::string r = "{";
        for (auto& e : v.o)
        {
            if (s.elem->k == S::OPT && e.second.k == V::NUL)
                continue;
            r += (r.size() > 1 ? "," : "") + ("\"" + e.first + "\":") + dumper_text(e.second, *s.elem);
        }
        return r + "}";
    }
    case S::STRUCT:
    {
        std::string r = "{";
        for (std::size_t i = 0; i < s.f.size(); ++i)
        {
            auto& e = v.o[i];
            if (s.f[i].type->k == S::OPT && e.second.k == V::NUL)
                continue;
            r += (r.size() > 1 ? "," : "") + ("\"" + e.first + "\":") + dumper_text(e.second, *s.f[i].type);
        }
        return r + "}";
    }
    default: return text(v);
    }
}

// GET of every existing address (and of the other watched ones) returns exactly that part of the tree.
void check_reads(const node_state& n)
{
    V tree = n.tree;
    std::vector<std::string> probe = watch;
    addresses(root_schema, tree, "", "", probe);
    for (auto& p : probe)
    {
        const auto& at = segs_of(p);
        std::string want;
        int status = 200;
        try
        {
            auto q = resolve(tree, at, at.size());
            want = dumper_text(*q.v, *q.s);
        }
        catch (const not_found&)
        {
            status = 404;
        }
        auto got = read_at(n.r, kpath_of(p));
        MC_CHECK(static_cast<int>(got.status) == status, "GET %s of %s: status %d", p.c_str(), text(n.tree).c_str(),
                 static_cast<int>(got.status));
        MC_CHECK(got.body == want, "GET %s: got %s expected %s", p.c_str(), got.body.c_str(), want.c_str());
        mc::count("reads");
    }
    MC_CHECK(conv(n.r.value) == n.tree, "reading changed the tree");
}

std::uint64_t hash_of(const node_state& n, bool with_tracker)
{
    mc::hasher h;
    h.s(text(n.tree));
    if (with_tracker)
    {
        // only the relative order of the generations matters
        std::set<std::uint64_t> order(n.gens.begin(), n.gens.end());
        for (auto g : n.gens)
            h.u(std::distance(order.begin(), order.find(g)));
    }
    return h;
}


} // namespace
