// C01 (single-threaded emission semantics, every reentrant program), C03 (lifetime of slots, sequential
// part under ASan), C04 (connection / scoped_connection / blocker handles, signal move and swap).
#include "mc.hpp"
#include "kl/signal.hpp"

#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <unordered_set>

namespace {

constexpr int max_slots = 24;

// ================================================================================================
// C01 / C03: every program of at most `budget` actions, each executed at top level, inside any slot
// invocation or inside the destructor of a slot's captured state.  The reference model runs along.
// ================================================================================================
struct m_slot
{
    bool connected = false;
    int blocks = 0;
    int sig = 0;
    bool forward = false; // forwards to signal 1
};
struct m_frame
{
    int sig;
    std::vector<int> snapshot; // slots in order when the emission started
    std::size_t pos = 0;
    bool stopped = false;
    bool threw = false;
    bool over = false;
    int value = 0;
    int running = -1;
};

struct slot_error
{
    int who;
};

enum action
{
    A_CONN_BACK,
    A_CONN_FRONT,
    A_DISC0,
    A_DISC1,
    A_DISC2,
    A_DISC_NEW,
    A_DISC_ALL,
    A_EMIT,
    A_EMIT_B,
    A_BLOCK0,
    A_BLOCK1,
    A_BLOCK2,
    A_UNBLOCK,
    A_FORWARD,
    A_CONN_B,
    A_DISC_ALL_B,
    n_top_actions,
    // only inside a slot
    A_SELF_DISC = n_top_actions,
    A_STOP,
    A_THROW,
    A_EMIT_UNCAUGHT,
    A_SELF_BLOCK,
    n_slot_actions
};
const char* action_name(int a)
{
    static const char* n[] = {"connect-back", "connect-front", "disconnect 0", "disconnect 1", "disconnect 2",
                              "disconnect newest", "disconnect all", "emit A", "emit B", "block 0", "block 1",
                              "block 2", "unblock oldest", "connect A->B", "connect to B", "disconnect all B",
                              "disconnect self", "stop emission", "throw", "emit A, exception passes through",
                              "block self"};
    return n[a];
}

struct world
{
    kl::signal<void(int, std::string, const std::string&)> sig[2];
    kl::connection con[max_slots];
    std::vector<std::pair<int, kl::connection::blocker>> blockers;
    // model
    m_slot slots[max_slots];
    std::vector<int> list[2];
    std::vector<m_frame> frames;
    int n = 0;
    int newest = -1;
    int budget = 0;
    int emission_value = 0;
    int depth = 0;
    bool dtor_actions = false;
    int first[2] = {-1, -1}; // codes of the first two actions, chosen up front (work units)
    int used = 0;
    int live[max_slots] = {};
    int running[max_slots] = {};
    std::string log;
    std::uint64_t obs = 0;
    void mark(const char* what, int id)
    {
        if (depth < 0)
            return;
        obs = mc::hasher{}.u(obs).u(id).s(what);
        mc::transition();
        if (mc::replaying())
            mc::note("%*s%s %d", (int)frames.size() * 2, "", what, id);
        if (log.size() < 400)
            log += std::string(what) + " " + std::to_string(id) + "; ";
    }
};
world* W;
void act(bool in_slot, int self, const char* where);

int pick(int n, const char* where)
{
    try
    {
        return mc::choose(n, where);
    }
    catch (...)
    {
        W->depth = -1; // execution abandoned by the engine: destructors stay passive
        throw;
    }
}
[[noreturn]] void abandon()
{
    W->depth = -1;
    mc::skip();
}
void do_emit(int s, bool catches);

struct token
{
    int id;
    bool act_on_death;
    token(int id, bool a) : id(id), act_on_death(a) { ++W->live[id]; }
    token(const token& o) : id(o.id), act_on_death(o.act_on_death) { ++W->live[id]; }
    ~token()
    {
        --W->live[id];
        MC_CHECK(W->live[id] >= 0, "captured state of slot %d destroyed twice", id);
        if (W->live[id] == 0)
        {
            MC_CHECK(!W->running[id], "captured state of slot %d destroyed while the slot is running", id);
            MC_CHECK(!W->slots[id].connected || W->depth < 0,
                     "captured state of slot %d destroyed although it is still connected", id);
            W->mark("destroyed", id);
            if (act_on_death && W->depth >= 0)
            {
                mc::count("actions in destructor");
                // only non-throwing actions here
                auto cur = kl::this_signal::current_connection();
                int expect = W->frames.empty() ? -1 : W->frames.back().running;
                int outer = -1;
                for (auto& f : W->frames)
                    outer = f.running >= 0 ? f.running : outer;
                MC_CHECK(outer >= 0 || cur == kl::connection{},
                         "current_connection inside a destructor outside of any slot is not empty");
                MC_CHECK(outer < 0 || W->con[outer] == kl::connection{} || cur == W->con[outer],
                         "current_connection inside a destructor is not the slot being executed");
                cur = {};
                if (!W->frames.empty() && expect < 0)
                    W->frames.back().over = true; // its traversal is finished
                act(false, -1, "in destructor");
            }
        }
    }
    token& operator=(const token&) = delete;
};

constexpr const char* long_text = "a string longer than any small-string buffer";

// the next slot the model expects for the innermost emission, or -1
int expected_next(m_frame& f)
{
    if (f.stopped || f.threw)
        return -1;
    while (f.pos < f.snapshot.size())
    {
        int s = f.snapshot[f.pos];
        if (W->slots[s].connected && W->slots[s].blocks == 0)
            return s;
        ++f.pos;
    }
    return -1;
}

void invoked(int id, int value, std::string& text, const std::string& ref)
{
    MC_CHECK(!W->frames.empty(), "slot %d invoked outside of any emission", id);
    const std::size_t level = W->frames.size() - 1;
    int want = expected_next(W->frames[level]);
    MC_CHECK(!W->frames[level].over, "slot %d invoked after the emission began to destroy slots", id);
    W->mark("slot", id);
    MC_CHECK(want == id, "slot %d invoked, expected %d [%s]", id, want, W->log.c_str());
    MC_CHECK(value == W->frames[level].value && text == long_text && ref == "by reference",
             "slot %d received wrong arguments (%d, \"%s\", \"%s\")", id, value, mc::printable(text).c_str(),
             mc::printable(ref).c_str());
    text += "modified"; // its own copy: must not be visible to the next slot
    std::string moved = std::move(text);
    W->frames[level].running = id;
    ++W->running[id];
    struct leave
    {
        int id;
        std::size_t level;
        ~leave()
        {
            --W->running[id];
            W->frames[level].running = -1;
        }
    } l{id, level};
    ++W->frames[level].pos;
    mc::count("slot invocations");
    auto cur = kl::this_signal::current_connection();
    MC_CHECK(cur.connected(), "current_connection inside slot %d is not connected", id);
    MC_CHECK(!(W->con[id] == kl::connection{}) ? cur == W->con[id] : true,
             "current_connection inside slot %d refers to another slot", id);
    cur = {};
    act(true, id, "in slot");
    MC_CHECK(W->frames.size() == level + 1, "emission nesting broken");
}

struct callable
{
    std::shared_ptr<token> tok; // shared by all copies std::function makes
    int id;
    callable(int id) : tok(std::make_shared<token>(id, W->dtor_actions)), id(id) {}
    void operator()(int v, std::string text, const std::string& ref) const { invoked(id, v, text, ref); }
};

int connect(int s, kl::connect_position at)
{
    if (W->n >= max_slots)
        abandon();
    int id = W->n++;
    W->mark(at == kl::at_front ? "connect-front" : "connect-back", id);
    // the model first: destructors running inside connect() see it
    W->slots[id] = {true, 0, s, false};
    if (at == kl::at_front)
        W->list[s].insert(W->list[s].begin(), id);
    else
        W->list[s].push_back(id);
    W->con[id] = W->sig[s].connect(callable{id}, at);
    MC_CHECK(W->con[id].connected(), "fresh connection %d is not connected", id);
    return id;
}

void m_disconnect(int id)
{
    auto& l = W->list[W->slots[id].sig];
    W->slots[id].connected = false;
    l.erase(std::remove(l.begin(), l.end(), id), l.end());
}

void check_counts()
{
    for (int s = 0; s < 2; ++s)
    {
        MC_CHECK(W->sig[s].num_slots() == W->list[s].size(), "num_slots of signal %d is %zu, expected %zu [%s]", s,
                 W->sig[s].num_slots(), W->list[s].size(), W->log.c_str());
        MC_CHECK(W->sig[s].empty() == W->list[s].empty(), "empty() of signal %d is wrong", s);
    }
    for (int i = 0; i < W->n; ++i)
        MC_CHECK(!W->con[i].connected() || W->slots[i].connected, "connection %d still reports connected", i);
}

void disconnect(int id)
{
    if (id < 0 || id >= W->n)
        return;
    W->mark("disconnect", id);
    if (W->slots[id].connected)
        m_disconnect(id);
    kl::connection c = std::move(W->con[id]);
    c.disconnect();
    MC_CHECK(!c.connected(), "disconnected handle %d reports connected", id);
}

void do_emit(int s, bool catches)
{
    if (W->frames.size() > 6)
        abandon();
    m_frame f;
    f.sig = s;
    f.snapshot = W->list[s];
    f.value = ++W->emission_value;
    W->mark(s ? "emit B" : "emit A", f.value);
    W->frames.push_back(f);
    const std::string ref = "by reference";
    int outer = W->frames.size() > 1 ? W->frames[W->frames.size() - 2].running : -1;
    bool threw = false;
    struct pop
    {
        ~pop() { W->frames.pop_back(); }
    };
    {
        pop p;
        try
        {
            W->sig[s](f.value, long_text, ref);
        }
        catch (slot_error&)
        {
            threw = true;
            auto& top = W->frames.back();
            MC_CHECK(top.threw, "an exception left the emission although none of its slots threw");
            if (!catches)
            {
                top.threw = true;
                if (W->frames.size() > 1)
                    W->frames[W->frames.size() - 2].threw = true;
                throw;
            }
        }
        auto& top = W->frames.back();
        MC_CHECK(threw == top.threw, "the exception thrown by a slot did not reach the emitter");
        int missing = expected_next(top);
        MC_CHECK(missing < 0 || top.over, "emission %d ended without invoking slot %d [%s]", f.value, missing, W->log.c_str());
    }
    // the context of the outer slot is back
    auto cur = kl::this_signal::current_connection();
    if (outer < 0)
        MC_CHECK(cur == kl::connection{}, "current_connection is not empty outside of a slot");
    else if (!(W->con[outer] == kl::connection{}))
        MC_CHECK(cur == W->con[outer], "after a nested emission current_connection is not the outer slot");
}

void act(bool in_slot, int self, const char* where)
{
    while (W->budget > 0)
    {
        const int n = in_slot ? n_slot_actions : n_top_actions;
        int a;
        if (W->used < 2)
        {
            a = W->first[W->used];
            if (a >= n)
                return; // needs a slot around it
            if (pick(2, where) == 0)
                return;
        }
        else
        {
            a = pick(n + 1, where);
            if (a == 0)
                return;
            --a;
        }
        ++W->used;
        --W->budget;
        if (mc::replaying())
            mc::note("%*s%s: %s", (int)W->frames.size() * 2, "", where, action_name(a));
        switch (a)
        {
        case A_CONN_BACK: W->newest = connect(0, kl::at_back); break;
        case A_CONN_FRONT: W->newest = connect(0, kl::at_front); break;
        case A_DISC0:
        case A_DISC1:
        case A_DISC2: disconnect(a - A_DISC0); break;
        case A_DISC_NEW: disconnect(W->newest); break;
        case A_DISC_ALL:
        case A_DISC_ALL_B:
        {
            int s = a == A_DISC_ALL_B;
            W->mark("disconnect all", s);
            for (int id : std::vector<int>(W->list[s]))
                m_disconnect(id);
            W->sig[s].disconnect_all_slots();
            break;
        }
        case A_EMIT: do_emit(0, true); break;
        case A_EMIT_UNCAUGHT: do_emit(0, false); break;
        case A_EMIT_B: do_emit(1, true); break;
        case A_BLOCK0:
        case A_BLOCK1:
        case A_BLOCK2:
        {
            int id = a - A_BLOCK0;
            if (!W->con[id].connected())
                break;
            W->mark("block", id);
            W->blockers.emplace_back(id, W->con[id].get_blocker());
            ++W->slots[id].blocks;
            break;
        }
        case A_SELF_BLOCK:
        {
            auto c = kl::this_signal::current_connection();
            W->mark("block self", self);
            W->blockers.emplace_back(self, c.get_blocker());
            ++W->slots[self].blocks;
            break;
        }
        case A_UNBLOCK:
            if (!W->blockers.empty())
            {
                auto b = std::move(W->blockers.front());
                W->blockers.erase(W->blockers.begin());
                W->mark("unblock", b.first);
                --W->slots[b.first].blocks;
            }
            break;
        case A_FORWARD:
        {
            // A forwards to B: modelled as a slot of A whose invocation is a nested emission of B
            if (W->n >= max_slots)
                abandon();
            int id = W->n++;
            W->mark("connect A->B", id);
            W->slots[id] = {true, 0, 0, true};
            W->list[0].push_back(id);
            W->newest = id;
            auto tok = std::make_shared<token>(id, false);
            W->con[id] = W->sig[0].connect([id, tok](int v, std::string text, const std::string& ref) {
                auto level = W->frames.size() - 1;
                int want = expected_next(W->frames[level]);
                W->mark("forward", id);
                MC_CHECK(want == id, "forwarding slot %d invoked, expected %d", id, want);
                MC_CHECK(v == W->frames[level].value && text == long_text, "forwarding slot: wrong arguments");
                ++W->frames[level].pos;
                W->frames[level].running = id;
                ++W->running[id];
                struct leave
                {
                    int id;
                    std::size_t level;
                    ~leave()
                    {
                        --W->running[id];
                        W->frames[level].running = -1;
                    }
                } l{id, level};
                do_emit(1, true);
            });
            break;
        }
        case A_CONN_B: connect(1, kl::at_back); break;
        case A_SELF_DISC:
        {
            auto c = kl::this_signal::current_connection();
            if (W->slots[self].connected)
            {
                MC_CHECK(c.connected(), "current connection of slot %d is not connected", self);
                m_disconnect(self);
            }
            W->mark("disconnect self", self);
            c.disconnect();
            MC_CHECK(!c.connected(), "self-disconnected handle reports connected");
            break;
        }
        case A_STOP:
            W->mark("stop", self);
            kl::this_signal::stop_emission();
            W->frames.back().stopped = true;
            break;
        case A_THROW:
            W->mark("throw", self);
            W->frames.back().threw = true;
            throw slot_error{self};
        }
        check_counts();
    }
}

void check_released()
{
    // no emission is running: a disconnected slot nobody holds a handle to is gone
    for (int i = 0; i < W->n; ++i)
        if (!W->slots[i].connected && W->slots[i].blocks == 0)
        {
            W->con[i] = {};
            MC_CHECK(W->live[i] == 0,
                     "slot %d is disconnected, no emission is running and no handle is left, but its captured "
                     "state is still alive [%s]", i, W->log.c_str());
            mc::count("released");
        }
}

void program(int n_slots, int budget, bool dtor_actions, bool released)
{
    world w;
    W = &w;
    struct passive
    {
        ~passive() { W->depth = -1; }
    } at_exit; // runs before ~world
    w.dtor_actions = dtor_actions;
    for (int i = 0; i < n_slots; ++i)
        connect(0, kl::at_back);
    while (w.n < 3)
    {
        w.n++; // ids 0..2 are the initial slots of A; absent ones stay disconnected
    }
    connect(1, kl::at_back); // id 3
    w.first[0] = mc::choose(n_slot_actions, "action 1");
    w.first[1] = mc::choose(n_slot_actions, "action 2");
    w.budget = budget;
    act(false, -1, "before"); // possibly nothing
    do_emit(0, true);
    if (released)
        check_released();
    act(false, -1, "between");
    do_emit(0, true);
    w.budget = 0;
    if ((w.used < 1 && w.first[0]) || (w.used < 2 && w.first[1]))
        abandon(); // shorter programs are counted once
    do_emit(1, true);
    check_counts();
    if (released)
        check_released();
    w.obs = mc::hasher{}.u(w.obs).u(w.list[0].size());
    mc::outcome(w.obs);
    mc::state(w.obs);
    if (mc::want_sample())
        mc::sample(w.log);
    w.depth = -1;
    w.blockers.clear();
    for (auto& c : w.con)
        c = {};
    for (int s = 0; s < 2; ++s)
        w.sig[s].disconnect_all_slots();
    for (int i = 0; released && i < w.n; ++i)
        MC_CHECK(w.live[i] == 0, "captured state of slot %d leaked (%d copies)", i, w.live[i]);
}

MC_SCENARIO("C01", "programs of 3 actions, 3 slots", [] { program(3, 3, false, false); }, 2);
MC_SCENARIO("C01", "programs of 3 actions, 1 slot", [] { program(1, 3, false, false); }, 2);
MC_SCENARIO("C01", "programs of 3 actions, no slot", [] { program(0, 3, false, false); }, 2);
MC_SCENARIO("C01", "programs of 4 actions, 1 slot", [] { program(1, 4, false, false); }, 2);
MC_SCENARIO("C01", "programs of 4 actions, 2 slots", [] { program(2, 4, false, false); }, 2, false);
MC_SCENARIO("C03", "programs of 3 actions, 2 slots, lifetime", [] { program(2, 3, false, true); }, 2);
MC_SCENARIO("C03", "programs of 3 actions, reentrant destructors", [] { program(2, 3, true, true); }, 2);
MC_SCENARIO("C03", "programs of 4 actions, reentrant destructors", [] { program(2, 4, true, true); }, 2, false);

// ---- C01 / C03: many slots and deep nesting: two actions at any two places of a long list --------------
namespace crowd {
struct frame
{
    std::vector<int> snapshot;
    std::size_t pos = 0;
    bool stopped = false, threw = false;
};
struct plan
{
    int where = 0, level = 1, what = 0, target = 0;
    bool done = false;
};
enum
{
    DISC,
    BLOCK,
    DISC_TAIL,
    SELF,
    FRONT,
    BACK,
    ALL,
    NEST,
    STOP,
    THROW,
    n_what
};
const char* const what_name[] = {"disconnect", "block", "disconnect everything from", "disconnect self", "connect at front", "connect at back",
                                 "disconnect all", "emit", "stop", "throw"};
struct world
{
    kl::signal<void(int)> sig;
    std::vector<kl::connection> con;
    std::vector<kl::connection::blocker> blockers;
    std::vector<std::weak_ptr<int>> state;
    std::vector<char> on, blocked;
    std::vector<int> order;
    std::vector<frame> frames;
    plan plans[2];
    int depth = 0; // nested emissions that every first slot starts
};
world* C;
int expected(frame& f)
{
    for (; !f.stopped && !f.threw && f.pos < f.snapshot.size(); ++f.pos)
        if (C->on[f.snapshot[f.pos]] && !C->blocked[f.snapshot[f.pos]])
            return f.snapshot[f.pos];
    return -1;
}
void gone(int id)
{
    C->on[id] = 0;
    C->order.erase(std::remove(C->order.begin(), C->order.end(), id), C->order.end());
}
void emit();
void connect(kl::connect_position at)
{
    const int id = (int)C->con.size();
    auto tok = std::make_shared<int>(id);
    C->state.push_back(tok);
    C->on.push_back(1);
    C->blocked.push_back(0);
    C->order.insert(at == kl::at_front ? C->order.begin() : C->order.end(), id);
    C->con.emplace_back();
    C->con[id] = C->sig.connect(
        [id, tok = std::move(tok)](int level) {
            MC_CHECK(*tok == id, "captured state of slot %d is damaged", id);
            MC_CHECK(!C->frames.empty() && level == (int)C->frames.size(), "slot %d: wrong argument %d", id, level);
            const int want = expected(C->frames[level - 1]);
            mc::note("%*sslot %d", level * 2, "", id);
            MC_CHECK(want == id, "slot %d of %zu invoked, expected %d", id, C->con.size(), want);
            MC_CHECK(kl::this_signal::current_connection() == C->con[id], "current_connection is not slot %d", id);
            ++C->frames[level - 1].pos;
            mc::count("slot invocations");
            for (plan& p : C->plans)
                if (!p.done && p.where == id && p.level == level)
                {
                    p.done = true;
                    mc::note("%*s%s %d", level * 2 + 1, "", what_name[p.what], p.target);
                    switch (p.what)
                    {
                    case DISC:
                        if (C->on[p.target]) gone(p.target);
                        C->con[p.target].disconnect();
                        break;
                    case BLOCK:
                        if (C->on[p.target])
                        {
                            C->blocked[p.target] = 1;
                            C->blockers.push_back(C->con[p.target].get_blocker());
                        }
                        break;
                    case DISC_TAIL:
                        for (int i = p.target; i < (int)C->con.size(); ++i)
                        {
                            if (C->on[i]) gone(i);
                            C->con[i].disconnect();
                        }
                        break;
                    case SELF:
                        if (C->on[id]) gone(id);
                        kl::this_signal::current_connection().disconnect();
                        break;
                    case FRONT: connect(kl::at_front); break;
                    case BACK: connect(kl::at_back); break;
                    case ALL:
                        for (auto& c : C->on) c = 0;
                        C->order.clear();
                        C->sig.disconnect_all_slots();
                        break;
                    case NEST: emit(); break;
                    case STOP:
                        C->frames[level - 1].stopped = true;
                        kl::this_signal::stop_emission();
                        break;
                    case THROW: C->frames[level - 1].threw = true; throw slot_error{id};
                    }
                }
            if (level <= C->depth && C->frames[level - 1].snapshot.front() == id)
            {
                emit();
                MC_CHECK(!C->on[id] || kl::this_signal::current_connection() == C->con[id], "after a nested emission current_connection is not slot %d", id);
            }
        },
        at);
}
void emit()
{
    frame f;
    f.snapshot = C->order;
    C->frames.push_back(f);
    bool threw = false;
    mc::transition();
    try { C->sig((int)C->frames.size()); }
    catch (const slot_error&) { threw = true; }
    frame& top = C->frames.back();
    MC_CHECK(threw == top.threw, "an exception did not reach the emitter, or came from nowhere");
    const int missing = expected(top);
    MC_CHECK(missing < 0, "the emission at depth %zu ended without invoking slot %d of %zu", C->frames.size(), missing, C->con.size());
    C->frames.pop_back();
    MC_CHECK(C->sig.num_slots() == C->order.size() && C->sig.empty() == C->order.empty(), "num_slots is %zu, expected %zu", C->sig.num_slots(), C->order.size());
}
void check(bool lifetime)
{
    for (std::size_t i = 0; i < C->con.size(); ++i)
    {
        MC_CHECK(C->con[i].connected() == (bool)C->on[i], "handle of slot %zu is wrong", i);
        if (!lifetime) continue;
        if (C->on[i])
            MC_CHECK(!C->state[i].expired(), "the connected slot %zu has lost its state", i);
        else
        {
            C->con[i] = {};
            if (C->blocked[i]) continue; // its blocker still refers to it
            MC_CHECK(C->state[i].expired(), "the state of the disconnected slot %zu of %zu is still alive", i, C->con.size());
        }
    }
}
void run(bool lifetime, bool deep)
{
    world w;
    C = &w;
    const int n = deep ? 1 + mc::choose(3, "slots") : std::array{5, 9, 17, 40, 130}[mc::choose(5, "slots")];
    const int build = mc::choose(3, "built");
    w.depth = deep ? 3 + mc::choose(4, "depth") : 0;
    for (int i = 0; i < n; ++i)
        connect(build == 0 || (build == 2 && i % 2) ? kl::at_back : kl::at_front);
    std::vector<int> places;
    for (int i = 0; i < n; ++i)
        if (n <= 5 || i == 0 || i == n - 1 || i == n / 2 || (n < 40 && (i == 1 || i == n - 2 || i == n / 2 - 1)))
            places.push_back(i);
    const int m = (int)places.size(), codes = m * (3 * m + n_what - 3);
    for (plan& p : w.plans)
    {
        int c = mc::choose(codes, "action");
        p.where = places[c % m];
        c /= m;
        p.what = c < 3 * m ? c / m : c - 3 * m + 3;
        p.target = c < 3 * m ? places[c % m] : 0;
        if (deep) p.level = 1 + mc::choose(w.depth + 1, "level");
    }
    emit();
    for (plan& p : w.plans)
        if (!p.done) mc::count("actions not reached");
    emit();
    w.depth = 0;
    check(lifetime);
    emit();
    w.blockers.clear();
    for (auto& b : w.blocked) b = 0;
    emit();
    check(lifetime);
    mc::hasher h;
    for (int i : w.order) h.u(i);
    mc::outcome(h);
    w.con.clear();
    w.blockers.clear();
    w.sig.disconnect_all_slots();
    for (std::size_t i = 0; i < w.state.size(); ++i)
        MC_CHECK(w.state[i].expired(), "the state of slot %zu leaked", i);
}
} // namespace crowd
MC_SCENARIO("C01", "two actions among many slots", [] { crowd::run(false, false); }, 3);
MC_SCENARIO("C01", "two actions in deep nests", [] { crowd::run(false, true); }, 3);
MC_SCENARIO("C03", "two actions among many slots", [] { crowd::run(true, false); }, 3);
MC_SCENARIO("C03", "two actions in deep nests", [] { crowd::run(true, true); }, 3);

// ---- C01: argument passing, by value, by reference, move-only-unfriendly types --------------------
struct counted
{
    static int copies, live;
    int v;
    explicit counted(int v) : v(v) { ++live; }
    counted(const counted& o) : v(o.v) { ++copies, ++live; }
    counted(counted&& o) noexcept : v(std::exchange(o.v, -1)) { ++live; }
    ~counted() { --live; }
};
int counted::copies = 0, counted::live = 0;

void arguments()
{
    int n = 1 + mc::choose(4, "slots");
    int consumer = mc::choose(5, "which slot consumes"); // 4 = none
    int kind = mc::choose(5, "signature");
    mc::transition(n);
    if (kind == 0) // by value: every slot gets an intact copy
    {
        kl::signal<void(std::string, counted)> s;
        std::vector<std::string> seen;
        for (int i = 0; i < n; ++i)
            s.connect([&, i](std::string t, counted c) {
                MC_CHECK(t == long_text && c.v == 7, "slot %d did not receive the emitted value", i);
                seen.push_back(t);
                if (i == consumer)
                {
                    auto t2 = std::move(t);
                    auto c2 = std::move(c);
                }
            });
        std::string mine = long_text;
        s(mine, counted{7});
        MC_CHECK((int)seen.size() == n && mine == long_text, "emitter's value changed");
    }
    else if (kind == 1) // rvalue-taking slots
    {
        kl::signal<void(std::string)> s;
        int calls = 0;
        for (int i = 0; i < n; ++i)
            s.connect([&, i](std::string&& t) {
                MC_CHECK(t == long_text, "slot %d did not receive the emitted value", i);
                ++calls;
                if (i == consumer)
                    std::string t2 = std::move(t);
            });
        s(long_text);
        MC_CHECK(calls == n, "%d of %d slots invoked", calls, n);
    }
    else if (kind == 2) // lvalue reference: shared with the emitter and between the slots
    {
        kl::signal<void(int&)> s;
        for (int i = 0; i < n; ++i)
            s.connect([&, i](int& v) {
                MC_CHECK(v == (i <= consumer ? i : i + 10), "slot %d sees %d through the reference", i, v);
                v = v + (i == consumer ? 11 : 1);
            });
        int v = 0;
        s(v);
        MC_CHECK(v == (consumer < n ? n + 10 : n), "the emitter sees %d", v);
    }
    else if (kind == 3) // const reference: no copies
    {
        kl::signal<void(const counted&)> s;
        int calls = 0;
        counted c{5};
        for (int i = 0; i < n; ++i)
            s.connect([&](const counted& r) {
                MC_CHECK(&r == &c && r.v == 5, "const reference does not refer to the emitted object");
                ++calls;
            });
        s(c);
        MC_CHECK(calls == n, "%d of %d slots invoked", calls, n);
    }
    else // shared ownership through forwarding
    {
        kl::signal<void(std::shared_ptr<int>)> a, b;
        int calls = 0;
        for (int i = 0; i < n; ++i)
        {
            a.connect(b);
            a.connect([&](std::shared_ptr<int> p) {
                MC_CHECK(p && *p == 3, "shared pointer lost");
                ++calls;
                p.reset();
            });
        }
        b.connect([&](std::shared_ptr<int> p) {
            MC_CHECK(p && *p == 3, "shared pointer lost");
            ++calls;
        });
        auto p = std::make_shared<int>(3);
        a(p);
        MC_CHECK(calls == 2 * n && p.use_count() == 1, "%d calls, %ld owners left", calls, p.use_count());
    }
    mc::outcome(mc::hasher{}.u(n).u(consumer).u(kind));
    mc::state(mc::hasher{}.u(n).u(consumer).u(kind));
}
MC_SCENARIO("C01", "argument passing", arguments, 1);

// ================================================================================================
// C04: handles
// ================================================================================================
namespace c4 {
using sig_t = kl::signal<void(std::vector<int>&)>;
struct h_world
{
    std::unique_ptr<sig_t> sig[2];
    std::optional<kl::connection> con[2];
    std::optional<kl::scoped_connection> sc[2];
    std::optional<kl::connection::blocker> bl[2];
    // model
    struct mslot
    {
        int sig = -1;
    };
    std::vector<mslot> slots;
    std::vector<int> list[2];
    int mcon[2] = {-1, -1}, msc[2] = {-1, -1}, mbl[2] = {-1, -1};
    std::vector<std::weak_ptr<int>> alive;
};
h_world* H;

int add_slot(int s, kl::connect_position at, kl::connection& out)
{
    int id = (int)H->slots.size();
    auto tok = std::make_shared<int>(id);
    H->alive.push_back(tok);
    H->slots.push_back({s});
    if (at == kl::at_front)
        H->list[s].insert(H->list[s].begin(), id);
    else
        H->list[s].push_back(id);
    out = H->sig[s]->connect([tok](std::vector<int>& r) { r.push_back(*tok); }, at);
    return id;
}
void m_disc(int id)
{
    if (id < 0 || H->slots[id].sig < 0)
        return;
    auto& l = H->list[H->slots[id].sig];
    l.erase(std::remove(l.begin(), l.end(), id), l.end());
    H->slots[id].sig = -1;
}
int blocks(int id)
{
    return (H->mbl[0] == id) + (H->mbl[1] == id);
}

void check(bool emit)
{
    auto& h = *H;
    for (int s = 0; s < 2; ++s)
    {
        MC_CHECK(h.sig[s]->num_slots() == h.list[s].size(), "signal %d has %zu slots, expected %zu", s,
                 h.sig[s]->num_slots(), h.list[s].size());
        MC_CHECK(h.sig[s]->empty() == h.list[s].empty(), "empty() wrong");
        if (emit)
        {
            std::vector<int> got, want;
            (*h.sig[s])(got);
            for (int id : h.list[s])
                if (!blocks(id))
                    want.push_back(id);
            std::string a, b;
            for (int i : got)
                a += " " + std::to_string(i);
            for (int i : want)
                b += " " + std::to_string(i);
            MC_CHECK(got == want, "signal %d invoked%s, expected%s", s, a.c_str(), b.c_str());
        }
    }
    auto conn = [&](int id) { return id >= 0 && h.slots[id].sig >= 0; };
    for (int i = 0; i < 2; ++i)
    {
        MC_CHECK(h.con[i]->connected() == conn(h.mcon[i]), "connection %d: connected() is %d, expected %d", i,
                 h.con[i]->connected(), conn(h.mcon[i]));
        MC_CHECK(h.sc[i]->get().connected() == conn(h.msc[i]), "scoped connection %d: connected() is %d", i,
                 h.sc[i]->get().connected());
        MC_CHECK(h.bl[i]->blocking() == (h.mbl[i] >= 0), "blocker %d: blocking() is %d", i, h.bl[i]->blocking());
    }
    MC_CHECK((*h.con[0] == *h.con[1]) == (h.mcon[0] == h.mcon[1]), "connections compare wrongly");
    if (*h.con[0] == *h.con[1])
        MC_CHECK(std::hash<kl::connection>{}(*h.con[0]) == h.con[1]->hash() && !(*h.con[0] < *h.con[1]) &&
                     !(*h.con[1] < *h.con[0]),
                 "equal connections differ in hash or order");
    else
        MC_CHECK((*h.con[0] < *h.con[1]) != (*h.con[1] < *h.con[0]), "connections are not totally ordered");
    for (int i = 0; i < 2; ++i)
        MC_CHECK((h.sc[i]->get() == *h.con[0]) == (h.msc[i] == h.mcon[0]), "scoped connection refers to another slot");
    for (std::size_t id = 0; id < h.slots.size(); ++id)
    {
        bool referred = h.slots[id].sig >= 0;
        for (int i = 0; i < 2; ++i)
            referred = referred || h.mcon[i] == (int)id || h.msc[i] == (int)id || h.mbl[i] == (int)id;
        MC_CHECK(referred || h.alive[id].expired(), "slot %zu is disconnected and unreferenced but still alive", id);
        MC_CHECK(h.slots[id].sig < 0 || !h.alive[id].expired(), "connected slot %zu was destroyed", id);
    }
}

enum
{
    H_CONN_BACK, H_CONN_FRONT, H_CONN_B, H_COPY, H_COPY_CTOR, H_MOVE, H_SWAP, H_SELF, H_DISC0, H_DISC1, H_RESET,
    H_SC_TAKE, H_SC_MOVE, H_SC_RELEASE, H_SC_DROP, H_SC_SWAP, H_SC_MOVECTOR,
    H_BLOCK0, H_BLOCK1, H_BL_COPY, H_BL_COPYCTOR, H_BL_MOVE, H_BL_DROP, H_BL_SWAP, H_BL_SELF,
    H_SIG_SWAP, H_SIG_MOVE, H_SIG_MOVECTOR, H_SIG_DESTROY, H_CLEAR, H_SC_FRESH, H_SC_RELDROP, H_SIG_SELF,
    H_EMPTY_SLOT,
    n_ops
};
const char* names[] = {"c0 = A.connect(back)", "c0 = A.connect(front)", "c0 = B.connect", "c1 = c0", "c1(c0)",
                       "c1(move c0)", "swap(c0,c1)", "c0 = c0", "c0.disconnect", "c1.disconnect", "c0 = {}",
                       "s0 = scoped(c0)", "s1 = move(s0)", "c1 = s0.release()", "destroy s0", "swap(s0,s1)",
                       "s1(move s0)", "b0 = c0.block", "b1 = c1.block", "b1 = b0", "b1(b0)", "b1 = move(b0)",
                       "destroy b0", "swap(b0,b1)", "b0 = b0", "swap(A,B)", "B = move(A)", "A2(move A)", "destroy A",
                       "A.disconnect_all", "s0 = scoped(A += f)", "s0.release() dropped", "A = move(A)",
                       "connect(null)"};
static_assert(sizeof names / sizeof *names == n_ops);

void m_swap_signals()
{
    auto& h = *H;
    std::swap(h.list[0], h.list[1]);
    for (auto& s : h.slots)
        if (s.sig >= 0)
            s.sig = 1 - s.sig;
}

void op(int o)
{
    auto& h = *H;
    mc::note("%s", names[o]);
    mc::transition();
    switch (o)
    {
    case H_CONN_BACK:
    case H_CONN_FRONT:
    case H_CONN_B:
    {
        kl::connection c;
        h.mcon[0] = add_slot(o == H_CONN_B, o == H_CONN_FRONT ? kl::at_front : kl::at_back, c);
        *h.con[0] = std::move(c);
        break;
    }
    case H_COPY: *h.con[1] = *h.con[0]; h.mcon[1] = h.mcon[0]; break;
    case H_COPY_CTOR:
    {
        kl::connection t{*h.con[0]};
        h.con[1].reset();
        h.con[1].emplace(t);
        h.mcon[1] = h.mcon[0];
        break;
    }
    case H_MOVE:
        h.con[1].reset();
        h.con[1].emplace(std::move(*h.con[0]));
        h.con[0].reset();
        h.con[0].emplace();
        h.mcon[1] = std::exchange(h.mcon[0], -1);
        break;
    case H_SWAP: swap(*h.con[0], *h.con[1]); std::swap(h.mcon[0], h.mcon[1]); break;
    case H_SELF:
    {
        auto& a = *h.con[0];
        a = a;
        break;
    }
    case H_DISC0:
    case H_DISC1:
    {
        int i = o - H_DISC0;
        h.con[i]->disconnect();
        m_disc(h.mcon[i]);
        h.mcon[i] = -1;
        break;
    }
    case H_RESET: *h.con[0] = kl::connection{}; h.mcon[0] = -1; break;
    case H_SC_TAKE:
    {
        kl::scoped_connection t{*h.con[0]};
        *h.sc[0] = std::move(t); // swap: t now destroys what s0 owned
        m_disc(h.msc[0]);
        h.msc[0] = h.mcon[0];
        break;
    }
    case H_SC_FRESH:
    {
        kl::connection c;
        int id = (int)h.slots.size();
        auto tok = std::make_shared<int>(id);
        h.alive.push_back(tok);
        h.slots.push_back({0});
        h.list[0].push_back(id);
        {
            kl::scoped_connection t{*h.sig[0] += [tok](std::vector<int>& r) { r.push_back(*tok); }};
            swap(t, *h.sc[0]);
        }
        m_disc(h.msc[0]);
        h.msc[0] = id;
        break;
    }
    case H_SC_MOVE:
    {
        kl::scoped_connection t{std::move(*h.sc[0])};
        *h.sc[1] = std::move(t);
        m_disc(h.msc[1]);
        h.msc[1] = std::exchange(h.msc[0], -1);
        break;
    }
    case H_SC_MOVECTOR:
        h.sc[1].reset();
        m_disc(h.msc[1]);
        h.sc[1].emplace(std::move(*h.sc[0]));
        h.sc[0].reset(); // destroying the moved-from object must not disconnect
        h.sc[0].emplace();
        h.msc[1] = std::exchange(h.msc[0], -1);
        break;
    case H_SC_RELEASE:
    {
        kl::connection c = h.sc[0]->release();
        *h.con[1] = std::move(c);
        h.mcon[1] = std::exchange(h.msc[0], -1);
        break;
    }
    case H_SC_RELDROP:
        h.sc[0]->release();
        h.msc[0] = -1;
        break;
    case H_SC_DROP:
        h.sc[0].reset();
        h.sc[0].emplace();
        m_disc(h.msc[0]);
        h.msc[0] = -1;
        break;
    case H_SC_SWAP: swap(*h.sc[0], *h.sc[1]); std::swap(h.msc[0], h.msc[1]); break;
    case H_BLOCK0:
    case H_BLOCK1:
    {
        int i = o - H_BLOCK0;
        h.bl[i].reset();
        h.bl[i].emplace(h.con[i]->get_blocker());
        h.mbl[i] = h.mcon[i];
        break;
    }
    case H_BL_COPY: *h.bl[1] = *h.bl[0]; h.mbl[1] = h.mbl[0]; break;
    case H_BL_COPYCTOR:
        h.bl[1].reset();
        h.bl[1].emplace(*h.bl[0]);
        h.mbl[1] = h.mbl[0];
        break;
    case H_BL_MOVE:
    {
        kl::connection::blocker t{std::move(*h.bl[0])};
        *h.bl[1] = std::move(t);
        h.mbl[1] = std::exchange(h.mbl[0], -1);
        break;
    }
    case H_BL_DROP:
        h.bl[0].reset();
        h.bl[0].emplace();
        h.mbl[0] = -1;
        break;
    case H_BL_SWAP: swap(*h.bl[0], *h.bl[1]); std::swap(h.mbl[0], h.mbl[1]); break;
    case H_BL_SELF:
    {
        auto& b = *h.bl[0];
        b = b;
        break;
    }
    case H_SIG_SWAP: swap(*h.sig[0], *h.sig[1]); m_swap_signals(); break;
    case H_SIG_MOVE:
    {
        // B takes A's slots; what B had before is dropped together with the moved-from object
        sig_t t{std::move(*h.sig[0])};
        {
            sig_t gone{std::move(*h.sig[1])};
            for (int id : std::vector<int>(h.list[1]))
                m_disc(id);
        }
        *h.sig[1] = std::move(t);
        for (int id : h.list[0])
            h.slots[id].sig = 1;
        h.list[1] = std::exchange(h.list[0], {});
        break;
    }
    case H_SIG_SELF:
    {
        auto& s = *h.sig[0];
        s = std::move(s);
        break;
    }
    case H_SIG_MOVECTOR:
    {
        auto n = std::make_unique<sig_t>(std::move(*h.sig[0]));
        MC_CHECK(h.sig[0]->empty(), "a moved-from signal still has slots");
        h.sig[0] = std::move(n);
        break;
    }
    case H_SIG_DESTROY:
        for (int id : std::vector<int>(h.list[0]))
            m_disc(id);
        h.sig[0].reset();
        h.sig[0] = std::make_unique<sig_t>();
        break;
    case H_CLEAR:
        for (int id : std::vector<int>(h.list[0]))
            m_disc(id);
        h.sig[0]->disconnect_all_slots();
        break;
    case H_EMPTY_SLOT:
    {
        auto c = h.sig[0]->connect(sig_t::slot_type{});
        MC_CHECK(!c.connected(), "connecting an empty function produced a connection");
        break;
    }
    }
}

void body(int depth, int n_initial)
{
    h_world h;
    H = &h;
    for (int i = 0; i < 2; ++i)
    {
        h.sig[i] = std::make_unique<sig_t>();
        h.con[i].emplace();
        h.sc[i].emplace();
        h.bl[i].emplace();
    }
    for (int i = 0; i < n_initial; ++i)
    {
        kl::connection c;
        h.mcon[i & 1] = add_slot(0, kl::at_back, c);
        *h.con[i & 1] = std::move(c);
    }
    for (int i = 0; i < depth; ++i)
    {
        op(mc::choose(n_ops, "op"));
        check(i == depth - 1);
    }
    mc::hasher hs;
    for (int s = 0; s < 2; ++s)
        for (int id : hs.u(7), h.list[s])
            hs.u(id);
    for (int i = 0; i < 2; ++i)
        hs.u(h.mcon[i]).u(h.msc[i]).u(h.mbl[i]);
    mc::state(hs);
    mc::outcome(hs);
    // teardown in either order
    if (mc::choose(2, "teardown"))
    {
        h.sig[0].reset();
        h.sig[1].reset();
        for (int i = 0; i < 2; ++i)
            MC_CHECK(!h.con[i]->connected() && !h.sc[i]->get().connected(),
                     "a handle reports connected after the signal is gone");
    }
    for (int i = 0; i < 2; ++i)
    {
        h.con[i].reset();
        h.sc[i].reset();
        h.bl[i].reset();
    }
    h.sig[0].reset();
    h.sig[1].reset();
    for (auto& a : h.alive)
        MC_CHECK(a.expired(), "captured state leaked");
}
MC_SCENARIO("C04", "handle programs, 2 initial slots", [] { body(mc::thorough() ? 5 : 4, 2); }, 2);
MC_SCENARIO("C04", "handle programs, empty signal", [] { body(mc::thorough() ? 4 : 3, 0); }, 2);
MC_SCENARIO("C04", "handle programs, 4 initial slots", [] { body(mc::thorough() ? 4 : 3, 4); }, 2);

// many handles on one slot: counts around every width a counter could be truncated to
void many_handles()
{
    static const int counts[] = {1, 2, 127, 128, 129, 255, 256, 257, 512, 32767, 32768, 65535, 65536, 65537, 131072};
    const int n = counts[mc::choose(15, "handles")];
    const int kind = mc::choose(5, "kind");
    const int target = mc::choose(3, "slot");
    const int order = mc::choose(3, "release order");
    sig_t s;
    std::shared_ptr<int> tok[3];
    kl::connection con[3];
    for (int i = 0; i < 3; ++i)
    {
        tok[i] = std::make_shared<int>(i);
        con[i] = s.connect([t = tok[i]](std::vector<int>& r) { r.push_back(*t); });
    }
    auto expect = [&](bool without, const char* when) {
        std::vector<int> got, want;
        s(got);
        for (int i = 0; i < 3; ++i)
            if (!(without && i == target))
                want.push_back(i);
        MC_CHECK(got == want, "%d handles, %s: %zu slots called, expected %zu", n, when, got.size(), want.size());
        mc::transition();
    };
    auto release = [&](auto& v, auto each) {
        // front to back, back to front, from the middle outwards
        const int k = (int)v.size();
        for (int i = 0; i < k; ++i)
        {
            int at = order == 0 ? i : order == 1 ? k - 1 - i : (k / 2 + i) % k;
            v[at].reset();
            each(k - 1 - i);
        }
    };
    expect(false, "at the start");
    if (kind < 3)
    {
        std::vector<std::optional<kl::connection::blocker>> bl;
        bl.reserve(n);
        for (int i = 0; i < n; ++i)
        {
            if (kind == 0 || i == 0)
                bl.emplace_back(con[target].get_blocker());
            else if (kind == 1)
                bl.emplace_back(*bl[i - 1]);
            else
            {
                bl.emplace_back(kl::connection::blocker{});
                *bl.back() = *bl[0];
            }
            MC_CHECK(bl.back()->blocking(), "blocker %d does not block", i);
            if (i < 2 || ((i + 2) & 127) < 4)
                expect(true, "blocked");
        }
        expect(true, "all blockers exist");
        MC_CHECK(con[target].connected(), "a blocked slot is not connected");
        release(bl, [&](int left) {
            if (left < 3 || ((left + 2) & 127) < 4)
                expect(left > 0, "some blockers left");
        });
        expect(false, "no blocker left");
    }
    else
    {
        std::vector<std::optional<kl::connection>> cs;
        cs.reserve(n);
        for (int i = 0; i < n; ++i)
            cs.emplace_back(kind == 3 || i == 0 ? con[target] : *cs[i - 1]);
        expect(false, "copies exist");
        for (auto& c : cs)
            MC_CHECK(c->connected(), "a copy is not connected");
        if (kind == 4)
        {
            cs[n / 2]->disconnect();
            for (auto& c : cs)
                MC_CHECK(!c->connected(), "a copy is still connected");
            MC_CHECK(!con[target].connected(), "the original is still connected");
            expect(true, "disconnected through a copy");
        }
        release(cs, [](int) {});
        expect(kind == 4, "copies are gone");
        MC_CHECK(con[target].connected() == (kind == 3), "the original handle changed with its copies");
        con[target] = {};
        expect(kind == 4, "the last handle is gone");
        s.disconnect_all_slots();
        std::vector<int> got;
        s(got);
        MC_CHECK(got.empty() && s.empty(), "slots are left");
        for (auto& c : con)
            c = {};
        for (auto& t : tok)
            MC_CHECK(t.use_count() == 1, "captured state leaked");
    }
    mc::progress();
    mc::hasher h;
    h.u(n).u(kind).u(target).u(order);
    mc::state(h);
    mc::outcome(h);
}
MC_SCENARIO("C04", "many handles", many_handles, 3);

// ---- connect overloads ----------------------------------------------------------------------------
struct obj
{
    std::vector<int>* r;
    int id;
    int calls = 0;
    mutable std::shared_ptr<obj>* owner = nullptr; // let go of from inside the call
    void let_go() const
    {
        if (auto* o = std::exchange(owner, nullptr))
            o->reset();
    }
    void f(int v) { let_go(); r->push_back(id * 100 + v); ++calls; }
    void g(int v) const { let_go(); r->push_back(id * 100 + v); }
    int ret(int v) { r->push_back(id * 100 + v); return v; }
};
std::vector<int>* g_result;
void free_fn(int v) { g_result->push_back(9900 + v); }

void overloads()
{
    std::vector<int> got, want;
    g_result = &got;
    kl::signal<void(int)> s, t;
    t.connect([&](int v) { got.push_back(8800 + v); });
    std::vector<int> order; // expected ids in order
    std::vector<std::unique_ptr<obj>> objs;
    std::list<std::shared_ptr<obj>> shared;
    std::set<int> dead, dies_in_call;
    for (int i = 0; i < 2; ++i)
    {
        int k = mc::choose(12, "overload");
        auto at = mc::choose(2, "position") ? kl::at_front : kl::at_back;
        objs.push_back(std::make_unique<obj>(obj{&got, i + 1}));
        auto* o = objs.back().get();
        const obj& co = *o;
        std::shared_ptr<obj> sp{new obj{&got, i + 1}}; // not make_shared: the memory goes with the object
        int id = i + 1;
        kl::connection c;
        switch (k)
        {
        case 0: c = s.connect(&obj::f, o, at); break;
        case 1: c = s.connect(&obj::g, static_cast<const obj*>(o), at); break;
        case 2: c = s.connect(&obj::f, *o, at); break;
        case 3: c = s.connect(&obj::g, co, at); break;
        case 4: c = s.connect(&obj::f, sp, at); break;
        case 5: c = s.connect(&obj::g, std::shared_ptr<const obj>(sp), at); break;
        case 6:
        case 7:
            if (k == 6)
                c = s.connect(&obj::f, std::weak_ptr<obj>(sp), at);
            else
                c = s.connect(&obj::g, std::weak_ptr<const obj>(sp), at);
            switch (mc::choose(3, "alive, expired, let go by its own slot"))
            {
            case 1: dead.insert(id); break;
            case 2: dies_in_call.insert(id); [[fallthrough]];
            case 0:
                shared.push_back(sp);
                if (dies_in_call.count(id))
                    sp->owner = &shared.back();
            }
            break;
        case 8: c = s.connect(t, at); id = 88; break;
        case 9: c = s.connect(&free_fn, at); id = 99; break;
        case 10: c = s.connect([&got, i](int v) { got.push_back((i + 1) * 100 + v); }, at); break;
        case 11: c = s.connect(&obj::ret, o, at); break;
        }
        MC_CHECK(c.connected(), "overload %d returned an unconnected handle", k);
        sp.reset();
        if (at == kl::at_front)
            order.insert(order.begin(), id);
        else
            order.push_back(id);
    }
    mc::transition(2);
    for (int v = 1; v < 3; ++v)
    {
        s(v);
        for (int id : order)
            if (!dead.count(id))
                want.push_back(id * 100 + v);
        dead.insert(dies_in_call.begin(), dies_in_call.end());
    }
    std::string a, b;
    for (int i : got)
        a += " " + std::to_string(i);
    for (int i : want)
        b += " " + std::to_string(i);
    MC_CHECK(got == want, "invoked%s, expected%s", a.c_str(), b.c_str());
    mc::state(mc::hasher{}.s(b));
    mc::outcome(mc::hasher{}.s(b));
}
MC_SCENARIO("C04", "connect overloads", overloads, 1);
} // namespace c4
} // namespace
