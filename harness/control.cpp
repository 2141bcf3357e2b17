// C27 (exception_info), C30 (deferred actions), C32 (matching on variants).
#include "mc.hpp"
#include "kl/defer.hpp"
#include "kl/exception_info.hpp"
#include "kl/match.hpp"

#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

// ---- allocation faults ------------------------------------------------------------------
namespace {
int alloc_fail_at = -1;   // fail the k-th allocation while armed
int alloc_seen = 0;
bool alloc_failed = false;
} // namespace
static void* allocate(std::size_t n)
{
    if (alloc_fail_at >= 0 && alloc_seen++ == alloc_fail_at)
    {
        alloc_failed = true;
        throw std::bad_alloc{};
    }
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void* operator new(std::size_t n) { return allocate(n); }
void* operator new[](std::size_t n) { return allocate(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

// ---- C27 --------------------------------------------------------------------------------
namespace xi {

struct tracked
{
    static int live;
    static int throw_in;   // throw in the n-th copy/move from now
    int v;
    explicit tracked(int v) : v{v} { ++live; }
    tracked(const tracked& o) : v{o.v}
    {
        if (throw_in > 0 && --throw_in == 0)
            throw std::range_error("copy");
        ++live;
    }
    tracked(tracked&& o) : v{o.v}
    {
        if (throw_in > 0 && --throw_in == 0)
            throw std::range_error("move");
        ++live;
    }
    ~tracked() { --live; }
    friend std::ostream& operator<<(std::ostream& os, const tracked& t) { return os << "t" << t.v; }
};
int tracked::live = 0;
int tracked::throw_in = 0;

struct raw
{
    unsigned char a, b;
};
// clang-format off
struct A { using type = int; };
struct B { using type = std::string; };
struct C { using type = raw; };
struct T { using type = tracked; };
struct A2 { using type = int; };
// clang-format on
} // namespace xi

namespace {

struct cell
{
    int tag;
    int value;
};
using list = std::vector<std::shared_ptr<cell>>;   // newest last
struct model
{
    list items;
    int loc = 0;   // 0: none, 1/2: two locations
};
const char* const files[] = {nullptr, "file_one.cpp", "b.cpp"};
const int lines[] = {0, 12, 345};
const char* const funcs[] = {nullptr, "void f()", "g"};

kl::exception_info fresh(int loc) { return loc ? kl::exception_info{files[loc], lines[loc], funcs[loc]} : kl::exception_info{}; }
constexpr int n_tags = 5;
const char* const names[] = {"xi::A", "xi::B", "xi::C", "xi::T", "xi::A2"};

std::string value_text(int tag, int v)
{
    char b[32];
    switch (tag)
    {
    case 1: return "s" + std::to_string(v);
    case 2:
        std::snprintf(b, sizeof b, "[%02X %02X]", v & 0xff, 0xA5);
        return b;
    case 3: return "t" + std::to_string(v);
    }
    return std::to_string(v);
}
std::string ref_diag(const model& m)
{
    std::string s = m.loc ? std::string(files[m.loc]) + "(" + std::to_string(lines[m.loc]) + ")" : "<unknown-file>";
    s += ": throw_with_info in function ";
    s += m.loc ? funcs[m.loc] : "<unknown-function>";
    s += "\n";
    for (auto i = m.items.rbegin(); i != m.items.rend(); ++i)
        s += std::string(names[(*i)->tag]) + " = " + value_text((*i)->tag, (*i)->value) + "\n";
    return s;
}
const cell* ref_find(const model& m, int tag)
{
    for (auto i = m.items.rbegin(); i != m.items.rend(); ++i)
        if ((*i)->tag == tag)
            return i->get();
    return nullptr;
}
void do_set(kl::exception_info& x, int tag, int v, bool rvalue)
{
    switch (tag)
    {
    case 0: rvalue ? x.set<xi::A>(int(v)) : x.set<xi::A>(static_cast<const int&>(v)); break;
    case 1:
    {
        std::string s = "s" + std::to_string(v);
        rvalue ? x.set<xi::B>(std::move(s)) : x.set<xi::B>(s);
        break;
    }
    case 2:
    {
        xi::raw r{(unsigned char)v, 0xA5};
        rvalue ? x.set<xi::C>(xi::raw(r)) : x.set<xi::C>(r);
        break;
    }
    case 3:
    {
        xi::tracked t{v};
        rvalue ? x.set<xi::T>(std::move(t)) : x.set<xi::T>(t);
        break;
    }
    case 4: rvalue ? x.set<xi::A2>(int(v)) : x.set<xi::A2>(static_cast<const int&>(v)); break;
    }
}
void do_unset(kl::exception_info& x, int tag)
{
    kl::exception_info* r = nullptr;
    switch (tag)
    {
    case 0: r = &x.unset<xi::A>(); break;
    case 1: r = &x.unset<xi::B>(); break;
    case 2: r = &x.unset<xi::C>(); break;
    case 3: r = &x.unset<xi::T>(); break;
    case 4: r = &x.unset<xi::A2>(); break;
    }
    MC_CHECK(r == &x, "unset does not return the object");
}
template <typename X> std::optional<std::string> do_get(X& x, int tag)
{
    switch (tag)
    {
    case 0:
        if (auto p = x.template get<xi::A>())
            return std::to_string(*p);
        break;
    case 1:
        if (auto p = x.template get<xi::B>())
            return *p;
        break;
    case 2:
        if (auto p = x.template get<xi::C>())
            return value_text(2, p->a) + (p->b == 0xA5 ? "" : "?");
        break;
    case 3:
        if (auto p = x.template get<xi::T>())
            return "t" + std::to_string(p->v);
        break;
    case 4:
        if (auto p = x.template get<xi::A2>())
            return std::to_string(*p);
        break;
    }
    return {};
}

void verify(const kl::exception_info& cx, const model& m, const char* when)
{
    auto& x = const_cast<kl::exception_info&>(cx);
    for (int t = 0; t < n_tags; ++t)
    {
        auto c = ref_find(m, t);
        auto g1 = do_get(cx, t);
        auto g2 = do_get(x, t);
        mc::transition();
        MC_CHECK(g1 == g2, "%s: const and mutable get disagree for %s", when, names[t]);
        MC_CHECK(g1.has_value() == (c != nullptr), "%s: %s is %s", when, names[t], g1 ? "found though it is not set" : "not found though it is set");
        if (c)
            MC_CHECK(*g1 == value_text(t, c->value), "%s: %s is %s, expected %s", when, names[t], g1->c_str(), value_text(t, c->value).c_str());
    }
    auto d = cx.diagnostic_info(), want = ref_diag(m);
    MC_CHECK(d == want, "%s: diagnostic_info is\n%s, expected\n%s", when, d.c_str(), want.c_str());
    auto same = [](const char* a, const char* b) { return a == b || (a && b && !std::strcmp(a, b)); };
    MC_CHECK(same(cx.file(), files[m.loc]) && cx.line() == lines[m.loc] && same(cx.function(), funcs[m.loc]), "%s: the location changed", when);
}

struct err : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// Programs on two exception_infos
void info_programs()
{
    MC_CHECK(xi::tracked::live == 0, "values leaked by an earlier history");
    {
        std::optional<kl::exception_info> x[2];
        model m[2];
        m[0].loc = 1;
        x[0].emplace(fresh(1));
        x[1].emplace(fresh(0));
        int next = 1;
        int depth = mc::thorough() ? 5 : 4;
        for (int s = 0; s < depth; ++s)
        {
            // the last step only looks at slot 0 and its relation to 1, which is symmetric by then
            int op = mc::choose(13, "operation");
            if (op == 0)
                break;
            int i = mc::choose(2, "object");
            char when[64];
            std::snprintf(when, sizeof when, "after step %d (operation %d on %d)", s, op, i);
            const int quick_tags[] = {0, 3, 1, 2, 4};
            if (op <= 4)   // set A, T, B|C|A2 by lvalue/rvalue
            {
                int t = op == 1 ? 0 : op == 2 ? 3 : op == 3 ? 1 : (s % 2 ? 2 : 4);
                int v = next++;
                do_set(*x[i], t, v, (s + op) % 2);
                m[i].items.push_back(std::make_shared<cell>(cell{t, v}));
            }
            else if (op <= 7)   // unset
            {
                int t = op == 5 ? 0 : op == 6 ? 3 : quick_tags[2 + s % 3];
                do_unset(*x[i], t);
                for (auto k = m[i].items.size(); k-- > 0;)
                    if (m[i].items[k]->tag == t)
                    {
                        m[i].items.erase(m[i].items.begin() + k);
                        break;
                    }
            }
            else if (op == 8)   // copy i into the other, by assignment or construction
            {
                if (s % 2)
                    *x[1 - i] = *x[i];
                else
                    x[1 - i].emplace(static_cast<const kl::exception_info&>(*x[i]));
                m[1 - i] = m[i];
            }
            else if (op == 9)   // move i into the other; the source gets a new value
            {
                if (s % 2)
                    *x[1 - i] = std::move(*x[i]);
                else
                {
                    kl::exception_info tmp{std::move(*x[i])};
                    x[1 - i].emplace(std::move(tmp));
                }
                m[1 - i] = m[i];
                x[i].emplace(fresh(2));
                m[i] = model{};
                m[i].loc = 2;
            }
            else if (op == 10)   // self assignment
            {
                auto& self = *x[i];
                *x[i] = self;
            }
            else if (op == 11)   // throw it, catch it, and take the caught one; the original stays
            {
                try
                {
                    kl::throw_with_info(err{"what"}, static_cast<const kl::exception_info&>(*x[i]));
                }
                catch (err& e)
                {
                    auto* p = kl::get_exception_info(e);
                    MC_CHECK(p, "%s: no info on the caught exception", when);
                    verify(*p, m[i], "on the caught exception");
                    MC_CHECK(!std::strcmp(e.what(), "what"), "%s: the exception lost its message", when);
                    // changes made on the caught exception do not reach the original
                    p->set<xi::A>(-7);
                    verify(*x[i], m[i], "the original after the caught one was extended");
                    p->unset<xi::A>();
                    *x[1 - i] = *p;
                }
                m[1 - i] = m[i];
            }
            else   // change a value in place, when no copy shares it
            {
                auto c = const_cast<cell*>(ref_find(m[i], 0));
                bool shared = false;
                for (auto& k : m[1 - i].items)
                    shared |= k.get() == c;
                if (!c || shared)
                    mc::skip();
                *x[i]->get<xi::A>() = c->value = 1000 + s;
            }
            verify(*x[0], m[0], when);
            verify(*x[1], m[1], when);
            std::set<const cell*> t;
            for (auto& q : m)
                for (auto& k : q.items)
                    if (k->tag == 3)
                        t.insert(k.get());
            MC_CHECK(xi::tracked::live == (int)t.size(), "%s: %d values are alive, %zu are reachable", when, xi::tracked::live, t.size());
            mc::state(mc::hasher{}.s(ref_diag(m[0])).s(ref_diag(m[1])));
        }
    }
    MC_CHECK(xi::tracked::live == 0, "%d values leaked", xi::tracked::live);
    mc::count("histories");
}
MC_SCENARIO("C27", "programs on two infos", info_programs);

// Programs on one info whose list gets long: every tag, every order of set and unset.
MC_SCENARIO("C27", "deep lists", [] {
    {
        kl::exception_info x = fresh(2);
        kl::exception_info snapshot = x;
        model m, ms;
        m.loc = ms.loc = 2;
        int depth = mc::thorough() ? 6 : 5, next = 1;
        for (int s = 0; s < depth; ++s)
        {
            int op = mc::choose(2 * n_tags + 2, "operation");
            if (op == 2 * n_tags + 1)
                break;
            if (op < n_tags)
            {
                do_set(x, op, next, s % 2);
                m.items.push_back(std::make_shared<cell>(cell{op, next++}));
            }
            else if (op < 2 * n_tags)
            {
                do_unset(x, op - n_tags);
                for (auto k = m.items.size(); k-- > 0;)
                    if (m.items[k]->tag == op - n_tags)
                    {
                        m.items.erase(m.items.begin() + k);
                        break;
                    }
            }
            else
            {
                snapshot = x;
                ms = m;
            }
            verify(x, m, "deep list");
            verify(snapshot, ms, "the snapshot");
        }
        mc::state(mc::hasher{}.s(ref_diag(m)));
    }
    MC_CHECK(xi::tracked::live == 0, "%d values leaked", xi::tracked::live);
});

// Every allocation and every value copy of set / unset / copy fails once: nothing changes, nothing leaks.
MC_SCENARIO("C27", "failing allocations and copies", [] {
    {
        kl::exception_info x = fresh(1);
        model m;
        m.loc = 1;
        int n = mc::choose(4, "items");
        for (int k = 0; k < n; ++k)
        {
            int t = mc::choose(3, "tag") ? (k % 2 ? 0 : 3) : 1;
            do_set(x, t, k, false);
            m.items.push_back(std::make_shared<cell>(cell{t, k}));
        }
        kl::exception_info other = x;
        model mo = m;
        int op = mc::choose(5, "operation");
        int k = mc::choose(8, "failing step");
        bool copies = mc::choose(2, "kind of fault");
        bool threw = false;
        xi::tracked t{99};
        int live0 = xi::tracked::live;
        if (copies)
            xi::tracked::throw_in = k + 1;
        else
        {
            alloc_seen = 0;
            alloc_failed = false;
            alloc_fail_at = k;
        }
        try
        {
            switch (op)
            {
            case 0: x.set<xi::T>(t); break;
            case 1: x.set<xi::T>(std::move(t)); break;
            case 2: x.unset<xi::T>(); break;
            case 3: x.unset<xi::B>(); break;
            case 4: x = other; break;
            }
        }
        catch (const std::bad_alloc&)
        {
            threw = true;
        }
        catch (const std::range_error&)
        {
            threw = true;
        }
        alloc_fail_at = -1;
        xi::tracked::throw_in = 0;
        if (!threw)
        {
            if (op <= 1)
                m.items.push_back(std::make_shared<cell>(cell{3, 99}));
            else if (op <= 3)
                for (auto q = m.items.size(); q-- > 0;)
                    if (m.items[q]->tag == (op == 2 ? 3 : 1))
                    {
                        m.items.erase(m.items.begin() + q);
                        break;
                    }
        }
        verify(x, m, threw ? "after the fault" : "without fault");
        verify(other, mo, "the copy");
        MC_CHECK(xi::tracked::live == live0 + (!threw && op <= 1), "operation %d: %d values alive, %d before", op, xi::tracked::live, live0);
        mc::count(threw ? "faults" : "no fault");
    }
    MC_CHECK(xi::tracked::live == 0, "%d values leaked", xi::tracked::live);
});

} // namespace

namespace xe {
// clang-format off
struct plain_std : std::runtime_error { using std::runtime_error::runtime_error; };
// (the state of a virtual base cannot be carried over by any wrapper that does not know it: out of scope)
struct base_v : std::exception { const char* what() const noexcept override { return "base_v"; } };
struct virt1 : virtual base_v { const char* what() const noexcept override { return "virt"; } };
struct virt2 : virtual base_v {};
struct both : virt1, virt2 { int n; explicit both(int k) : n{k} {} const char* what() const noexcept override { return "both"; } };
struct poly { int n; explicit poly(int n) : n{n} {} virtual ~poly() = default; };
struct nonpoly { int n; };
// clang-format on
} // namespace xe

namespace {

template <typename E> int payload(const E& e)
{
    if constexpr (std::is_base_of_v<std::runtime_error, E>)
        return std::atoi(e.what());
    else
        return e.n;
}
template <typename E> E build()
{
    if constexpr (std::is_base_of_v<std::runtime_error, E>)
        return E{"42"};
    else
        return E{42};
}
template <typename E> void thrower(int how, kl::exception_info& xi)
{
    E e = build<E>();
    const E ce = build<E>();
    switch (how)
    {
    case 0: kl::throw_with_info(build<E>(), xi);
    case 1: kl::throw_with_info(e, xi);
    case 2: kl::throw_with_info(ce, xi);
    case 3: kl::throw_with_info(std::move(e), std::move(xi));
    case 4: kl::throw_with_info(e, std::move(xi));
    case 5: kl::throw_with_info(build<E>(), static_cast<const kl::exception_info&>(xi));
    case 6: kl::throw_with_info(build<E>());
    }
}
template <typename E> void throwing(const char* tn)
{
    int how = mc::choose(7, "way to throw"), nitems = mc::choose(3, "items"), loc = mc::choose(3, "location"), grab = mc::choose(5, "way to catch");
    {
        kl::exception_info x = fresh(loc);
        model m;
        m.loc = loc;
        for (int k = 0; k < nitems; ++k)
        {
            do_set(x, k ? 0 : 3, k, false);
            m.items.push_back(std::make_shared<cell>(cell{k ? 0 : 3, k}));
        }
        model orig = m;
        if (how == 6)
            m = model{};
        std::string head = std::string("dynamic exception type: ") + tn + "\n";
        std::string what;
        if constexpr (std::is_base_of_v<std::exception, E>)
            what = std::string("what: ") + build<E>().what() + "\n";
        bool caught = false;
        std::exception_ptr ptr;
        try
        {
            try
            {
                thrower<E>(how, x);
            }
            catch (...)
            {
                ptr = std::current_exception();
                if (grab == 4)
                {
                    // through an exception_ptr, caught again later
                    throw;
                }
                throw;
            }
        }
        catch (const E& e)
        {
            caught = true;
            MC_CHECK(payload(e) == 42, "%s: the exception's own data is %d", tn, payload(e));
            const void* pe = &e;
            (void)pe;
            if constexpr (std::is_polymorphic_v<E>)
            {
                auto* p = kl::get_exception_info(e);
                MC_CHECK(p, "%s: thrown with info, but get_exception_info finds none", tn);
                verify(*p, m, tn);
                auto d = kl::exception_diagnostic_info(e);
                MC_CHECK(d == head + what + ref_diag(m), "%s: exception_diagnostic_info is\n%sexpected\n%s", tn, d.c_str(), (head + what + ref_diag(m)).c_str());
            }
            else
                MC_CHECK(kl::exception_diagnostic_info(e) == head, "%s: exception_diagnostic_info of a plain type", tn);
        }
        MC_CHECK(caught, "%s: not caught as the type that was thrown", tn);
        auto viaptr = kl::exception_diagnostic_info(ptr);
        MC_CHECK(viaptr == head + what + ref_diag(m), "%s: exception_diagnostic_info(exception_ptr) is\n%sexpected\n%s", tn, viaptr.c_str(), (head + what + ref_diag(m)).c_str());
        caught = false;
        try
        {
            std::rethrow_exception(ptr);
        }
        catch (kl::exception_info& i)
        {
            caught = true;
            verify(i, m, "caught as exception_info");
            if (grab == 1)
            {
                kl::exception_info copy = i;
                verify(copy, m, "sliced copy");
            }
            MC_CHECK(kl::exception_diagnostic_info(i) == head + what + ref_diag(m), "%s: diagnostics through exception_info", tn);
            // information added while it propagates is seen further up
            if (grab == 2)
            {
                i.set<xi::B>("s5");
                m.items.push_back(std::make_shared<cell>(cell{1, 5}));
            }
        }
        MC_CHECK(caught, "%s: not caught as exception_info", tn);
        if constexpr (std::is_base_of_v<std::exception, E>)
        {
            try
            {
                std::rethrow_exception(ptr);
            }
            catch (std::exception& e)
            {
                auto* p = kl::get_exception_info(e);
                MC_CHECK(p, "%s: no info through std::exception", tn);
                verify(*p, m, "caught as std::exception");
                MC_CHECK(std::string(e.what()) == build<E>().what(), "%s: what() through std::exception", tn);
                MC_CHECK(kl::exception_diagnostic_info(e) == head + what + ref_diag(m), "%s: diagnostics through std::exception", tn);
            }
        }
        if (how < 3 || how == 5 || how == 6)
            verify(x, orig, "the info passed by reference");
        mc::transition(4);
        mc::state(mc::hasher{}.s(tn).u(how).u(nitems).u(loc).u(grab));
    }
    MC_CHECK(xi::tracked::live == 0, "%d values leaked", xi::tracked::live);
    mc::count("throws");
}
MC_SCENARIO("C27", "throwing a std exception", [] { throwing<xe::plain_std>("xe::plain_std"); });
MC_SCENARIO("C27", "throwing with virtual bases", [] { throwing<xe::both>("xe::both"); });
MC_SCENARIO("C27", "throwing a polymorphic type", [] { throwing<xe::poly>("xe::poly"); });
MC_SCENARIO("C27", "throwing a plain type", [] { throwing<xe::nonpoly>("xe::nonpoly"); });
MC_SCENARIO("C27", "exceptions without info", [] {
    int k = mc::choose(5, "exception");
    auto run = [&](auto e, const std::string& want, const std::string& viaptr) {
        using E = decltype(e);
        if constexpr (std::is_polymorphic_v<E>)
        {
            const E& ce = e;
            MC_CHECK(!kl::get_exception_info(ce) && !kl::get_exception_info(e), "info found on an exception thrown without");
        }
        auto g = kl::exception_diagnostic_info(e);
        MC_CHECK(g == want, "exception_diagnostic_info is\n%s, expected\n%s", g.c_str(), want.c_str());
        auto p = kl::exception_diagnostic_info(std::make_exception_ptr(e));
        MC_CHECK(p == viaptr, "exception_diagnostic_info(ptr) is\n%s, expected\n%s", p.c_str(), viaptr.c_str());
        mc::transition();
    };
    const std::string unk = "dynamic exception type: <unknown-exception>\n";
    switch (k)
    {
    case 0: run(xe::plain_std{"w"}, "dynamic exception type: xe::plain_std\nwhat: w\n", "dynamic exception type: xe::plain_std\nwhat: w\n"); break;
    case 1: run(xe::both{1}, "dynamic exception type: xe::both\nwhat: both\n", "dynamic exception type: xe::both\nwhat: both\n"); break;
    case 2: run(xe::poly{1}, "dynamic exception type: xe::poly\n", unk); break;
    case 3: run(xe::nonpoly{1}, "dynamic exception type: xe::nonpoly\n", unk); break;
    case 4: MC_CHECK(kl::exception_diagnostic_info(std::exception_ptr{}) == "no exception", "a null exception_ptr"); break;
    }
}, 1);
kl::exception_info make_here(int& line)
{
    line = __LINE__ + 1;
    return KL_MAKE_EXCEPTION_INFO();
}
MC_SCENARIO("C27", "the location macro", [] {
    int line;
    auto x = make_here(line);
    MC_CHECK(x.line() == line && x.file() && std::strstr(x.file(), "control.cpp") && x.function() && std::strstr(x.function(), "make_here"), "KL_MAKE_EXCEPTION_INFO records %s(%d) %s", x.file(), x.line(), x.function());
}, 1);

// ---- C30 --------------------------------------------------------------------------------
struct unwinding {};
std::vector<int> ran;
std::map<int, int> times;
int ids, budget;

void record(int id)
{
    ran.push_back(id);
    ++times[id];
    mc::transition();
}
// Declared right before a deferred action, so destroyed right after it: the action must have run by now,
// exactly once, and as the last one.
struct watch
{
    int id;
    explicit watch(int id) : id{id} {}
    ~watch()
    {
        if (times[id] != 1)
            mc::fail("deferred action %d ran %d times by the end of its scope", id, times[id]);
        if (ran.empty() || ran.back() != id)
            mc::fail("deferred action %d ran out of order (last was %d)", id, ran.empty() ? -1 : ran.back());
    }
};
void not_yet(int id)
{
    if (times[id])
        mc::fail("deferred action %d ran before the end of its scope", id);
}
void body();
struct dtor_user   // uses a deferred action inside a destructor that may run while an exception is in flight
{
    ~dtor_user()
    {
        int id = ids++;
        watch w{id};
        KL_DEFER(record(id));
        not_yet(id);
    }
};
int early(int how)
{
    int id = ids++;
    watch w{id};
    KL_DEFER(record(id));
    if (how == 1)
        return 1;
    not_yet(id);
    int id2 = ids++;
    watch w2{id2};
    KL_DEFER(record(id2));
    if (how == 2)
        return 2;
    if (how == 3)
        throw unwinding{};
    if (how == 4)
    {
        // out of two nested scopes and a loop, forwards
        for (int k = 0; k < 2; ++k)
        {
            int id3 = ids++;
            watch w3{id3};
            KL_DEFER(record(id3));
            {
                int id4 = ids++;
                watch w4{id4};
                KL_DEFER(record(id4));
                if (k == 1)
                    goto out;
                not_yet(id4);
            }
            not_yet(id3);
        }
    }
out:
    if (how == 5)
    {
        // backwards, over the statement itself: it is reached again
        int turns = 0;
    again:
        int id5 = ids++;
        watch w5{id5};
        KL_DEFER(record(id5));
        not_yet(id5);
        if (++turns < 3)
            goto again;
        not_yet(id5);
    }
    not_yet(id);
    not_yet(id2);
    return how == 4 || how == 5 ? how : 0;
}
void body()
{
    while (budget > 0)
    {
        --budget;
        switch (mc::choose(12, "statement"))
        {
        case 0: return;
        case 1: throw unwinding{};
        case 2:   // one action, then the rest of the body inside its scope
        {
            int id = ids++;
            watch w{id};
            KL_DEFER(record(id));
            body();
            not_yet(id);
            break;
        }
        case 3:   // two actions in one scope
        {
            int id = ids++, id2 = ids++;
            watch w{id};
            KL_DEFER(record(id));
            watch w2{id2};
            KL_DEFER(record(id2));
            body();
            not_yet(id);
            not_yet(id2);
            break;
        }
        case 4:   // loops: per iteration, left by continue or break
        {
            int how = mc::choose(3, "loop exit");
            for (int k = 0; k < 2; ++k)
            {
                int id = ids++;
                watch w{id};
                KL_DEFER(record(id));
                if (how == 1)
                    continue;
                if (how == 2)
                    break;
                not_yet(id);
            }
            break;
        }
        case 5:
            try
            {
                body();
            }
            catch (const unwinding&)
            {
                mc::count("actions run by unwinding");
            }
            break;
        case 6:
        case 7:
        case 8:
        {
            int how = mc::choose(6, "function exit");
            try
            {
                MC_CHECK(early(how) == how, "a function with deferred actions returned another value");
            }
            catch (const unwinding&)
            {
                MC_CHECK(how == 3, "unexpected exception");
                if (budget % 2)
                    throw;
            }
            break;
        }
        case 9:   // inside a destructor
        {
            dtor_user d;
            body();
            break;
        }
        case 10:   // the action sees the variables as they are at the end of the scope
        {
            int id = ids++, var = 1, seen = 0;
            {
                KL_DEFER(seen = var; ++var; record(id));
                var = 5;
            }
            MC_CHECK(seen == 5 && var == 6 && times[id] == 1, "a deferred action saw %d and left %d", seen, var);
            break;
        }
        case 11:   // several statements and commas
        {
            std::map<int, int> mm;
            std::vector<int> order;
            {
                KL_DEFER(std::pair<int, int> p{1, 2}; mm.insert(p); order.push_back(3));
                KL_DEFER(order.push_back(2));
                KL_DEFER(order.push_back(1));
            }
            MC_CHECK((order == std::vector<int>{1, 2, 3}) && mm.size() == 1, "three actions on consecutive lines ran out of order");
            break;
        }
        }
    }
}
MC_SCENARIO("C30", "programs with deferred actions", [] {
    ran.clear();
    times.clear();
    ids = 0;
    budget = mc::thorough() ? 6 : 5;
    try
    {
        body();
    }
    catch (const unwinding&)
    {
        mc::count("programs left by an exception");
    }
    for (int i = 0; i < ids; ++i)
        MC_CHECK(times[i] == 1, "deferred action %d ran %d times", i, times[i]);
    mc::hasher h;
    for (int r : ran)
        h.u(r);
    mc::outcome(h);
    mc::state(h);
});

// Long runs of actions: up to 70 nested scopes, each left in its own way, and a loop of up to 300 rounds.
void nest(int left, int bad, std::vector<int>& log)
{
    int id = left;
    KL_DEFER(log.push_back(id));
    if (left == bad)
        throw unwinding{};
    if (left > 0)
        nest(left - 1, bad, log);
}
MC_SCENARIO("C30", "many actions", [] {
    static const int sizes[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 70};
    int n = sizes[mc::choose(13, "scopes")], bad = mc::choose(n + 2, "scope left by an exception") - 1;
    std::vector<int> log;
    bool thrown = false;
    try
    {
        nest(n, bad, log);
    }
    catch (const unwinding&)
    {
        thrown = true;
    }
    MC_CHECK(thrown == (bad >= 0), "an exception thrown between deferred actions %s", thrown ? "appeared" : "was lost");
    int first = bad >= 0 ? bad : 0;
    MC_CHECK((int)log.size() == n - first + 1, "%zu of %d nested deferred actions ran", log.size(), n - first + 1);
    for (int i = 0; i < (int)log.size(); ++i)
        MC_CHECK(log[i] == first + i, "nested deferred actions ran out of order: number %d is %d", i, log[i]);
    log.clear();
    int rounds = n * 4, skip = mc::choose(3, "round left by continue") * n;
    for (int k = 0; k < rounds; ++k)
    {
        KL_DEFER(log.push_back(k));
        MC_CHECK((int)log.size() == k, "round %d starts after %zu actions", k, log.size());
        if (k == skip)
            continue;
        // an action that itself has a deferred action, and one that runs a loop
        KL_DEFER(KL_DEFER(log.pop_back()); log.push_back(-1); MC_CHECK((int)log.size() == k + 1, "an action inside an action ran too early"));
        KL_DEFER(for (int z = 0; z < 3; ++z) { KL_DEFER(log.pop_back()); log.push_back(-2); });
    }
    MC_CHECK((int)log.size() == rounds, "%zu actions ran in %d rounds", log.size(), rounds);
    mc::transition(n + 3 * rounds);
    mc::state(mc::hasher{}.u(n).u(bad).u(skip));
    mc::count("long runs of actions");
}, 1);

// ---- C32 --------------------------------------------------------------------------------
struct counted
{
    static int copies;
    int v;
    explicit counted(int v) : v{v} {}
    counted(const counted& o) : v{o.v} { ++copies; }
    counted(counted&& o) : v{o.v} { ++copies; }
    counted& operator=(const counted& o)
    {
        v = o.v;
        ++copies;
        return *this;
    }
};
int counted::copies = 0;
struct thrower_on_copy
{
    thrower_on_copy() = default;
    thrower_on_copy(const thrower_on_copy&) { throw 1; }
};
std::string f_int(int i) { return "f_int:" + std::to_string(i); }
std::string f_double(double d) { return "f_double:" + std::to_string((int)d); }
std::string f_cstr(const std::string& s) { return "f_cstr:" + s; }
std::string f_mstr(std::string& s)
{
    s += "!";
    return "f_mstr:" + s;
}
std::string f_counted(counted c) { return "f_counted:" + std::to_string(c.v); }

#ifdef MC_BASIC   // for libraries that cannot match variants that cannot be copied: the rest is still explored
using own_ptr = std::shared_ptr<int>;
#else
using own_ptr = std::unique_ptr<int>;
#endif
using V = std::variant<int, double, std::string, counted, own_ptr, char>;
V make_v(int alt)
{
    switch (alt)
    {
    case 0: return V{std::in_place_index<0>, 7};
    case 1: return V{std::in_place_index<1>, 2.0};
    case 2: return V{std::in_place_index<2>, "str"};
    case 3: return V{std::in_place_index<3>, 9};
    case 4: return V{std::in_place_index<4>, own_ptr{new int{11}}};
    }
    return V{std::in_place_index<5>, 'c'};
}
const char* const expect_exact[] = {"int7", "double2", "str", "counted9", "ptr11", "charc"};

MC_SCENARIO("C32", "every alternative, every set of handlers", [] {
    int alt = mc::choose(6, "alternative"), order = mc::choose(3, "handler order"), cat = mc::choose(3, "value category");
    V v = make_v(alt);
    counted::copies = 0;
    auto h0 = [](int i) { return "int" + std::to_string(i); };
    auto h1 = [](double d) { return "double" + std::to_string((int)d); };
    auto h2 = [](const std::string& s) { return s; };
    auto h3 = [](const counted& c) { return "counted" + std::to_string(c.v); };
    auto h4 = [](const own_ptr& p) { return "ptr" + std::to_string(*p); };
    auto h5 = [](char c) { return std::string("char") + c; };
    auto go = [&](auto&& vv) {
        using VV = decltype(vv);
        switch (order)
        {
        case 0: return kl::match(std::forward<VV>(vv), h0, h1, h2, h3, h4, h5);
        case 1: return kl::match(std::forward<VV>(vv), h5, h4, h3, h2, h1, h0);
        }
        return kl::match(std::forward<VV>(vv), h3, h0, h5, h1, h4, h2);
    };
    std::string got = cat == 0 ? go(v) : cat == 1 ? go(static_cast<const V&>(v)) : go(std::move(v));
    mc::transition();
    MC_CHECK(got == expect_exact[alt], "alternative %d went to \"%s\"", alt, got.c_str());
    MC_CHECK(counted::copies == 0, "matching copied the value %d times", counted::copies);
    // with a catch-all: exact handlers win, the rest goes to the generic one
    int mask = mc::choose(8, "handlers present");
    auto any = [](const auto&) { return std::string("any"); };
    std::string want = "any";
    if (((mask & 1) && alt == 0) || ((mask & 2) && alt == 2) || ((mask & 4) && alt == 3))
        want = expect_exact[alt];
    auto hi = [&](const int& i) { return h0(i); };
    V w = make_v(alt);
    const V& cw = w;
    counted::copies = 0;
    std::string g2;
    switch (mask)
    {
    case 0: g2 = kl::match(cw, any); break;
    case 1: g2 = kl::match(cw, hi, any); break;
    case 2: g2 = kl::match(cw, any, h2); break;
    case 3: g2 = kl::match(cw, hi, any, h2); break;
    case 4: g2 = kl::match(cw, h3, any); break;
    case 5: g2 = kl::match(cw, any, h3, hi); break;
    case 6: g2 = kl::match(cw, h2, h3, any); break;
    case 7: g2 = kl::match(cw, hi, h2, h3, any); break;
    }
    MC_CHECK(g2 == want, "alternative %d with handlers %d went to \"%s\", expected \"%s\"", alt, mask, g2.c_str(), want.c_str());
    MC_CHECK(counted::copies == 0, "matching copied the value");
    mc::state(mc::hasher{}.u(alt).u(order).u(cat).u(mask));
    mc::count("matches", 2);
});

MC_SCENARIO("C32", "handlers that write, and functions as handlers", [] {
    int alt = mc::choose(6, "alternative"), how = mc::choose(4, "handlers");
    V v = make_v(alt);
    counted::copies = 0;
    if (how == 0)   // writing through references
    {
        int called = 0;
        kl::match(v, [&](int& i) { i = 70; ++called; }, [&](double& d) { d = 20; ++called; }, [&](std::string& s) { s = "new"; ++called; },
                  [&](counted& c) { c.v = 90; ++called; }, [&](own_ptr& p) { *p = 110; ++called; }, [&](char& c) { c = 'd'; ++called; });
        MC_CHECK(called == 1, "%d handlers were called", called);
        MC_CHECK(v.index() == (std::size_t)alt, "matching changed the alternative");
        bool ok = alt == 0 ? std::get<0>(v) == 70 : alt == 1 ? std::get<1>(v) == 20 : alt == 2 ? std::get<2>(v) == "new" : alt == 3 ? std::get<3>(v).v == 90 : alt == 4 ? *std::get<4>(v) == 110 : std::get<5>(v) == 'd';
        MC_CHECK(ok, "a handler's write to alternative %d is lost", alt);
        MC_CHECK(counted::copies == 0, "matching copied the value");
    }
    else if (how == 1)   // free functions
    {
        auto got = kl::match(v, kl::func_overload{&f_int}, kl::func_overload{&f_double}, kl::func_overload{&f_cstr}, kl::func_overload{&f_counted},
                             [](const own_ptr&) { return std::string("ptr"); }, [](const char&) { return std::string("chr"); });
        const char* want[] = {"f_int:7", "f_double:2", "f_cstr:str", "f_counted:9", "ptr", "chr"};
        MC_CHECK(got == want[alt], "alternative %d went to \"%s\"", alt, got.c_str());
        MC_CHECK(counted::copies <= 1, "a function taking a value got %d copies", counted::copies);
    }
    else if (how == 2)   // a function that changes its argument
    {
        auto got = kl::match(v, kl::func_overload{&f_mstr}, [](const auto&) { return std::string("other"); });
        MC_CHECK(got == (alt == 2 ? "f_mstr:str!" : "other"), "alternative %d went to \"%s\"", alt, got.c_str());
        MC_CHECK(alt != 2 || std::get<2>(v) == "str!", "the function's change is lost");
    }
    else   // overloader used directly
    {
        auto o = kl::overloader{[](int i) { return i + 1; }, [](const std::string& s) { return (int)s.size(); }, kl::func_overload{+[](double d) { return (int)d * 10; }}};
        MC_CHECK(o(4) == 5 && o(std::string("abc")) == 3 && o(2.0) == 20, "overloader picks the wrong function");
    }
    mc::transition();
    mc::state(mc::hasher{}.u(alt).u(how).u(77));
});

// Twenty alternatives, handlers that can only be moved, results that can only be moved, handlers with state.
template <int N> struct tag
{
    int v = N;
};
using wide_v = std::variant<tag<0>, tag<1>, tag<2>, tag<3>, tag<4>, tag<5>, tag<6>, tag<7>, tag<8>, tag<9>, tag<10>, tag<11>, tag<12>, tag<13>, tag<14>, tag<15>, tag<16>, tag<17>, tag<18>, tag<19>>;
template <int... I> wide_v make_wide(int alt, std::integer_sequence<int, I...>)
{
    wide_v v;
    ((alt == I ? (void)v.emplace<I>() : void()), ...);
    return v;
}
template <int... I> int match_wide(wide_v& v, int& calls, bool reversed, std::integer_sequence<int, I...>)
{
    auto h = [&](auto n) {
        return [&calls](tag<decltype(n)::value>& t) {
            ++calls;
            t.v += 100;
            return decltype(n)::value;
        };
    };
    return reversed ? kl::match(v, h(std::integral_constant<int, 19 - I>{})...) : kl::match(v, h(std::integral_constant<int, I>{})...);
}
struct counter_handler
{
    int n = 0;
    int operator()(int i) { return n += i; }
    int operator()(char) { return -1; }
};
MC_SCENARIO("C32", "many alternatives, unusual handlers", [] {
    int alt = mc::choose(20, "alternative"), how = mc::choose(6, "how");
    std::make_integer_sequence<int, 20> seq;
    mc::transition();
    if (how < 2)
    {
        wide_v v = make_wide(alt, seq);
        int calls = 0;
        int got = match_wide(v, calls, how == 1, seq);
        int left = std::visit([](auto& t) { return t.v; }, v);
        MC_CHECK(got == alt && calls == 1 && (int)v.index() == alt && left == alt + 100, "alternative %d of 20 went to handler %d (%d calls), leaving %d", alt, got, calls, left);
    }
    else if (how == 2)   // handlers and results that can only be moved
    {
        std::variant<int, std::string> v;
        if (alt % 2)
            v = std::string(alt, 'q');
        else
            v = alt;
#ifdef MC_BASIC
        auto own = std::make_shared<int>(1000);
#else
        auto own = std::make_unique<int>(1000);
#endif
        auto got = kl::match(v, [own = std::move(own)](int i) { return std::make_unique<std::string>(std::to_string(*own + i)); },
                             [](const std::string& s) { return std::make_unique<std::string>(s); });
        MC_CHECK(got && *got == (alt % 2 ? std::string(alt, 'q') : std::to_string(1000 + alt)), "a move-only result is \"%s\"", got ? got->c_str() : "null");
    }
    else if (how == 3)   // an unnamed variant, and handlers that take their argument by value
    {
        int copies0 = counted::copies;
        auto got = kl::match(std::variant<counted, std::string>{std::in_place_index<0>, alt}, [](const counted& c) { return &c != nullptr ? c.v : -1; }, [](const std::string&) { return -2; });
        MC_CHECK(got == alt, "an unnamed variant holding %d gave %d", alt, got);
        MC_CHECK(counted::copies == copies0, "matching an unnamed variant copied it");
        std::variant<int, std::string> w = std::string(alt + 20, 'w');
        auto s = kl::match(w, [](int) { return std::string(); }, [](std::string x) { x += "!"; return x; });
        MC_CHECK(s == std::string(alt + 20, 'w') + "!" && std::get<1>(w) == std::string(alt + 20, 'w'), "a handler taking a copy changed the variant's own value");
    }
    else if (how == 4)   // a function object with several overloads, together with others
    {
        std::variant<int, char, double> v;
        if (alt % 3 == 0)
            v = alt;
        else if (alt % 3 == 1)
            v = 'c';
        else
            v = 0.5 + alt;
        int got = kl::match(v, counter_handler{5}, [](double d) mutable { return (int)(d * 2); });
        int want = alt % 3 == 0 ? 5 + alt : alt % 3 == 1 ? -1 : 2 * alt + 1;
        MC_CHECK(got == want, "a function object among the handlers gave %d, expected %d", got, want);
        MC_CHECK(alt % 3 == 0 ? std::get<0>(v) == alt : alt % 3 == 1 ? std::get<1>(v) == 'c' : std::get<2>(v) == 0.5 + alt, "matching changed the variant");
    }
    else   // the same type twice: both go to the one handler, which sees the right value
    {
        std::variant<int, int, std::string> v;
        if (alt % 2)
            v.emplace<1>(alt + 40);
        else
            v.emplace<0>(alt);
        const int* seen = nullptr;
        int got = kl::match(v, [&](const int& i) { seen = &i; return i; }, [](const std::string&) { return -1; });
        const int* own = alt % 2 ? &std::get<1>(v) : &std::get<0>(v);
        MC_CHECK(got == *own && seen == own && got == alt + alt % 2 * 40, "one of two alternatives of one type gave %d", got);
    }
    mc::state(mc::hasher{}.u(alt).u(how).u(78));
    mc::count("matches");
});

MC_SCENARIO("C32", "exceptions and empty variants", [] {
    int k = mc::choose(3, "case");
    if (k == 0)   // a handler's exception passes through
    {
        std::variant<int, std::string> v = "x";
        bool caught = false;
        try
        {
            kl::match(v, [](int) {}, [](const std::string&) { throw unwinding{}; });
        }
        catch (const unwinding&)
        {
            caught = true;
        }
        MC_CHECK(caught && std::get<1>(v) == "x", "a handler's exception is lost");
    }
    else if (k == 1)   // a variant without value is refused
    {
        std::variant<int, thrower_on_copy> v = 1;
        thrower_on_copy t;
        try
        {
            v.emplace<1>(t);
        }
        catch (int)
        {
        }
        MC_CHECK(v.valueless_by_exception(), "harness: the variant should be empty");
        int called = 0;
        bool refused = false;
        try
        {
            kl::match(v, [&](int) { ++called; }, [&](const thrower_on_copy&) { ++called; });
        }
        catch (const std::bad_variant_access&)
        {
            refused = true;
        }
        MC_CHECK(refused && !called, "a variant without a value reached a handler");
    }
    else   // stateful lvalue handlers
    {
        std::variant<int, char> v = 'x';
        std::string log;
        auto f = [&log](int i) { log += "i" + std::to_string(i); };
        auto g = [&log](char c) { log += c; };
        kl::match(v, f, g);
        v = 3;
        kl::match(v, f, g);
        MC_CHECK(log == "xi3", "handlers reused for two matches recorded \"%s\"", log.c_str());
    }
    mc::transition();
}, 1);

} // namespace
