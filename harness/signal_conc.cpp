// C02 (delivery guarantees under every interleaving), C03 (memory/lifetime safety, concurrent part).
#include "mc.hpp"
#include "sched.hpp"
#include "kl/signal.hpp"

#include <map>
#include <memory>
#include <optional>
#include <stdexcept>

namespace {

enum kind
{
    op_begin,   // a = op index, b = op code, c = slot
    op_end,     // a = op index, b = result
    inv_begin,  // a = emission id, b = slot id
    inv_end,
    nested_op,  // op executed inside a slot: same encoding as op_begin/op_end with a >= 100
};
const char* kind_name(int k)
{
    static const char* n[] = {"begin", "end", "slot-begin", "slot-end", "nested"};
    return n[k];
}

enum opcode
{
    EMIT,
    DISC, // disconnect slot `arg`
    CONN_BACK,
    CONN_FRONT,
    DISC_ALL,
    BLOCK, // block slot `arg`, scheduling point, unblock
    COUNT,
    SCOPED, // destroy a scoped_connection of slot `arg`
    BLOCK_EMIT, // block slot `arg`, emit, unblock
};

enum behaviour
{
    PLAIN,
    SELF_DISC,    // disconnects itself through the current connection
    CONNECTS,     // connects one more slot at the back (once)
    DISC_NEXT,    // disconnects slot id + 1
    STOPS,        // stops the emission
    THROWS,
    NESTED,       // emits the same signal once more from inside (once)
    CONNECTS_FRONT,
    CLEARS,       // disconnects all slots
    n_behaviours
};

constexpr int max_slots = 12;
constexpr int LIVE = 0, EXEC = 16, INVOKED = 32; // counter bases

struct world;
world* W;

// When objects die is C03's business, which slots are called is C02's
bool lifetimes() { return mc::deciding("C03"); }

// The state captured by a slot: created once, destroyed exactly once, never while it runs.
struct token
{
    int id;
    explicit token(int id) : id(id) { sched::counter_add(LIVE + id, 1); }
    token(const token& o) : id(o.id) { sched::counter_add(LIVE + id, 1); }
    token(token&& o) : id(o.id) { sched::counter_add(LIVE + id, 1); }
    ~token()
    {
        int left = sched::counter_add(LIVE + id, -1);
        MC_CHECK(left >= 0 || !lifetimes(), "captured state of slot %d destroyed twice", id);
        MC_CHECK(left > 0 || !lifetimes() || sched::counter_get(EXEC + id) == 0,
                 "captured state of slot %d destroyed while the slot is running", id);
        id = -1000;
    }
};

struct callable
{
    token tok;
    int behave;
    callable(int id, int b) : tok(id), behave(b) {}
    void operator()(int emission, std::string payload) const;
};

struct slot_error {}; // empty: the exception object lives in memory of the uninstrumented C++ runtime

struct world
{
    kl::signal<void(int, std::string)> sig;
    kl::connection con[max_slots];      // one handle per initial slot, used by main only at the end
    kl::connection handle[4][max_slots]; // per thread copies
    std::unique_ptr<kl::scoped_connection> scoped[4];
    kl::connection created[4][8];        // connections made by each thread
    int n_created[4] = {};
};

// ids given out in the order of the scheduler's decisions: deterministic per schedule
int next_slot_id;
int n_initial_slots;
int next_emission;
int nested_ops;
bool did_nested[max_slots];

__attribute__((noinline)) int fresh_slot();
__attribute__((noinline)) int fresh_emission();
__attribute__((noinline)) int fresh_nested();
} // namespace

// kept out of the instrumented code: harness bookkeeping only
__attribute__((no_sanitize("thread"))) static int bump_int(int* p) { return (*p)++; }
namespace {
int fresh_slot() { return bump_int(&next_slot_id); }
int fresh_emission() { return bump_int(&next_emission); }
int fresh_nested() { return 100 + bump_int(&nested_ops); }
__attribute__((no_sanitize("thread"))) bool first_time(int id)
{
    if (did_nested[id])
        return false;
    did_nested[id] = true;
    return true;
}

const char* payload() { return "a payload longer than any small-string buffer"; }

void do_emit(int op)
{
    int e = fresh_emission();
    sched::log(op_begin, op, EMIT, e);
    bool threw = false;
    try
    {
        W->sig(e, payload());
    }
    catch (const slot_error&)
    {
        threw = true;
    }
    sched::log(op_end, op, threw);
}

void do_connect(int op, bool front, int thread)
{
    int id = fresh_slot();
    sched::log(op_begin, op, front ? CONN_FRONT : CONN_BACK, id);
    auto c = W->sig.connect(callable{id, PLAIN}, front ? kl::at_front : kl::at_back);
    sched::log(op_end, op, 0);
    if (thread >= 0 && W->n_created[thread] < 8)
        W->created[thread][W->n_created[thread]++] = std::move(c);
}

void callable::operator()(int emission, std::string pl) const
{
    const int id = tok.id;
    MC_CHECK(id >= 0 && id < max_slots, "slot invoked after its captured state was destroyed");
    MC_CHECK(pl == payload(), "slot %d received a wrong argument %s", id, mc::printable(pl).c_str());
    sched::counter_add(EXEC + id, 1);
    struct leave
    {
        int id, e;
        ~leave()
        {
            sched::counter_add(EXEC + id, -1);
            sched::log(inv_end, e, id);
        }
    } l{id, emission};
    sched::log(inv_begin, emission, id);
    sched::yield_point("inside slot");
    switch (behave)
    {
    case PLAIN: break;
    case SELF_DISC:
    {
        int op = fresh_nested();
        sched::log(op_begin, op, DISC, id);
        kl::this_signal::current_connection().disconnect();
        sched::log(op_end, op, 0);
        break;
    }
    case DISC_NEXT:
    {
        if (id + 1 >= n_initial_slots)
            break;
        int op = fresh_nested();
        int t = sched::self();
        if (t < 0)
            t = 3;
        sched::log(op_begin, op, DISC, id + 1);
        kl::connection c = W->handle[t][id + 1];
        c.disconnect();
        sched::log(op_end, op, 0);
        break;
    }
    case CONNECTS:
    case CONNECTS_FRONT:
        if (first_time(id))
            do_connect(fresh_nested(), behave == CONNECTS_FRONT, -1);
        break;
    case STOPS: kl::this_signal::stop_emission(); break;
    case THROWS: throw slot_error{};
    case NESTED:
        if (first_time(id))
            do_emit(fresh_nested());
        break;
    case CLEARS:
    {
        int op = fresh_nested();
        sched::log(op_begin, op, DISC_ALL, 0);
        W->sig.disconnect_all_slots();
        sched::log(op_end, op, 0);
        break;
    }
    }
    MC_CHECK(tok.id == id, "captured state of slot %d changed while it was running", id);
}

struct op
{
    int code, arg;
};
const char* op_name(const op& o)
{
    static thread_local char buf[32];
    static const char* n[] = {"emit", "disconnect", "connect-back", "connect-front", "disconnect-all",
                              "block", "num_slots", "scoped-disconnect", "block+emit"};
    std::snprintf(buf, sizeof buf, "%s(%d)", n[o.code], o.arg);
    return buf;
}

void exec_op(const op& o, int index, int thread)
{
    switch (o.code)
    {
    case EMIT: do_emit(index); break;
    case DISC:
        sched::log(op_begin, index, DISC, o.arg);
        W->handle[thread][o.arg].disconnect();
        sched::log(op_end, index, 0);
        break;
    case CONN_BACK:
    case CONN_FRONT: do_connect(index, o.code == CONN_FRONT, thread); break;
    case DISC_ALL:
        sched::log(op_begin, index, DISC_ALL, 0);
        W->sig.disconnect_all_slots();
        sched::log(op_end, index, 0);
        break;
    case BLOCK:
    case BLOCK_EMIT:
    {
        // logged as: begin (about to block), nested_op 1 (blocked), nested_op 2 (about to unblock), end
        sched::log(op_begin, index, BLOCK, o.arg);
        {
            auto b = W->handle[thread][o.arg].get_blocker();
            sched::log(nested_op, index, 1, o.arg);
            if (o.code == BLOCK_EMIT)
                do_emit(fresh_nested());
            else
                sched::yield_point("blocked");
            sched::log(nested_op, index, 2, o.arg);
        }
        sched::log(op_end, index, 0);
        break;
    }
    case COUNT:
        sched::log(op_begin, index, COUNT, 0);
        sched::log(op_end, index, (int)W->sig.num_slots());
        break;
    case SCOPED:
        sched::log(op_begin, index, DISC, o.arg);
        W->scoped[thread].reset();
        sched::log(op_end, index, 0);
        break;
    }
}

// ---- the oracle: the delivery rules, evaluated on the complete event log -------------------------
struct interval
{
    int b = -1, e = 1 << 30;
};
struct slot_rec
{
    interval conn;
    bool front = false;
    bool known = false;
    std::vector<interval> disc;
    std::vector<interval> blocked_may;  // [begin, end]
    std::vector<interval> blocked_must; // [blocked, about to unblock]
};
struct inv_rec
{
    int slot, b, e;
};
struct emission_rec
{
    interval iv;
    bool threw = false;
    int thread = -1;
    std::vector<inv_rec> inv;
};

int check_log(int n_initial, const int* behave)
{
    std::map<int, slot_rec> slots;
    std::map<int, emission_rec> em;
    std::map<int, std::pair<int, int>> open; // op -> (code, arg)
    struct pending
    {
        int op;
        interval iv;
        int result;
    };
    std::vector<pending> counts;
    std::vector<interval> clears;
    std::map<int, int> count_begin;
    for (int i = 0; i < n_initial; ++i)
    {
        slots[i].known = true;
        slots[i].conn = {-1, -1};
    }
    const int N = (int)sched::log_size();
    std::map<int, int> begin_at;
    std::map<int, int> emission_of_op;
    for (int t = 0; t < N; ++t)
    {
        auto ev = sched::log_at(t);
        switch (ev.kind)
        {
        case op_begin:
            open[ev.a] = {ev.b, ev.c};
            begin_at[ev.a] = t;
            if (ev.b == EMIT)
            {
                em[ev.c].iv.b = t;
                em[ev.c].thread = ev.thread;
                emission_of_op[ev.a] = ev.c;
            }
            if (ev.b == CONN_BACK || ev.b == CONN_FRONT)
            {
                slots[ev.c].known = true;
                slots[ev.c].conn.b = t;
                slots[ev.c].front = ev.b == CONN_FRONT;
            }
            break;
        case op_end:
        {
            auto [code, arg] = open[ev.a];
            interval iv{begin_at[ev.a], t};
            if (code == EMIT)
            {
                auto& e = em[emission_of_op[ev.a]];
                e.iv.e = t;
                e.threw = ev.b;
            }
            else if (code == DISC)
                slots[arg].disc.push_back(iv);
            else if (code == DISC_ALL)
                clears.push_back(iv);
            else if (code == CONN_BACK || code == CONN_FRONT)
                slots[arg].conn.e = t;
            else if (code == BLOCK)
                slots[arg].blocked_may.push_back(iv);
            else if (code == COUNT)
                counts.push_back({ev.a, iv, ev.b});
            break;
        }
        case nested_op:
            if (ev.b == 1)
                slots[ev.c].blocked_must.push_back({t, 1 << 30});
            else
                for (auto it = slots[ev.c].blocked_must.rbegin(); it != slots[ev.c].blocked_must.rend(); ++it)
                    if (it->e == 1 << 30)
                    {
                        // the matching one of this thread: intervals of one thread never nest here
                        it->e = t;
                        break;
                    }
            break;
        case inv_begin: em[ev.a].inv.push_back({ev.b, t, 1 << 30}); break;
        case inv_end:
            for (auto it = em[ev.a].inv.rbegin(); it != em[ev.a].inv.rend(); ++it)
                if (it->slot == ev.b && it->e == 1 << 30)
                {
                    it->e = t;
                    break;
                }
            break;
        }
    }
    // a slot affected by a clear: connected before it began -> certainly; overlapping -> maybe
    auto surely_disc_before = [&](const slot_rec& s, int t) {
        for (auto& d : s.disc)
            if (d.e < t)
                return true;
        for (auto& c : clears)
            if (c.e < t && s.conn.e < c.b)
                return true;
        return false;
    };
    auto maybe_disc_before = [&](const slot_rec& s, int t) {
        for (auto& d : s.disc)
            if (d.b < t)
                return true;
        for (auto& c : clears)
            if (c.b < t && s.conn.b < c.e)
                return true;
        return false;
    };
    auto surely_ordered = [&](int a, int b) {
        // slot a precedes slot b in the list whatever the interleaving
        const auto &x = slots[a], &y = slots[b];
        if (a < n_initial && b < n_initial)
            return a < b;
        if (y.conn.b > x.conn.e) // y connected after x was in place
            return !y.front;
        if (x.conn.b > y.conn.e)
            return x.front;
        return false;
    };
    int total = 0;
    for (auto& [id, e] : em)
    {
        int prev_end = e.iv.b;
        std::map<int, int> seen;
        for (std::size_t k = 0; k < e.inv.size(); ++k)
        {
            auto& iv = e.inv[k];
            ++total;
            auto& s = slots[iv.slot];
            MC_CHECK(s.known, "emission %d invoked unknown slot %d", id, iv.slot);
            MC_CHECK(!seen[iv.slot]++, "emission %d invoked slot %d twice", id, iv.slot);
            MC_CHECK(!surely_disc_before(s, prev_end),
                     "emission %d invoked slot %d although its disconnection had completed before the "
                     "slot's turn", id, iv.slot);
            MC_CHECK(e.inv[0].b > s.conn.b,
                     "emission %d invoked slot %d which was connected after the emission had started", id,
                     iv.slot);
            for (auto& bl : s.blocked_must)
                MC_CHECK(!(bl.b < prev_end && bl.e > iv.b),
                         "emission %d invoked slot %d while it was blocked", id, iv.slot);
            for (std::size_t j = 0; j < k; ++j)
                MC_CHECK(!surely_ordered(iv.slot, e.inv[j].slot),
                         "emission %d invoked slot %d before slot %d against the connection order", id,
                         e.inv[j].slot, iv.slot);
            prev_end = iv.e;
        }
        bool stopped = e.threw;
        if (!e.inv.empty() && e.inv.back().slot < n_initial && behave[e.inv.back().slot] == STOPS)
            stopped = true;
        for (std::size_t k = 0; k + 1 < e.inv.size(); ++k)
            MC_CHECK(!(e.inv[k].slot < n_initial && (behave[e.inv[k].slot] == STOPS ||
                                                     behave[e.inv[k].slot] == THROWS)),
                     "emission %d went on after slot %d stopped it", id, e.inv[k].slot);
        for (auto& [sid, s] : slots)
        {
            if (!s.known || seen.count(sid) && seen[sid])
                continue;
            if (!(s.conn.e < e.iv.b))
                continue; // was not certainly connected when the emission began
            // latest possible moment of this slot's turn
            int turn_end = e.iv.e;
            bool after_stop = false;
            for (auto& iv : e.inv)
                if (surely_ordered(sid, iv.slot))
                {
                    turn_end = iv.b;
                    break;
                }
            if (stopped)
            {
                // legitimately skipped when it may come after the stopping slot
                int last = e.inv.back().slot;
                after_stop = !surely_ordered(sid, last);
            }
            if (after_stop)
                continue;
            bool blocked = false;
            for (auto& b : s.blocked_may)
                blocked = blocked || (b.b < turn_end && b.e > e.iv.b);
            if (blocked)
                continue;
            MC_CHECK(maybe_disc_before(s, turn_end),
                     "emission %d did not invoke slot %d, connected before the emission began and neither "
                     "disconnected, blocked nor stopped", id, sid);
        }
    }
    for (auto& c : counts)
    {
        int lo = 0, hi = 0;
        for (auto& [sid, s] : slots)
        {
            if (!s.known)
                continue;
            if (s.conn.e < c.iv.b && !maybe_disc_before(s, c.iv.e))
                ++lo;
            if (s.conn.b < c.iv.e && !surely_disc_before(s, c.iv.b))
                ++hi;
        }
        MC_CHECK(c.result >= lo && c.result <= hi, "num_slots returned %d, possible values are %d..%d",
                 c.result, lo, hi);
    }
    return total;
}

// ---- one execution -----------------------------------------------------------------------------
std::uint64_t log_hash()
{
    mc::hasher h;
    for (std::size_t i = 0; i < sched::log_size(); ++i)
    {
        auto e = sched::log_at(i);
        h.u(e.kind * 1000003u + e.a * 10007u + e.b * 101u + e.c).u(e.thread);
    }
    return h;
}

void execute(const std::vector<std::vector<op>>& prog, const std::vector<int>& behave, int bound)
{
    sched::event_name = kind_name;
    next_slot_id = n_initial_slots = (int)behave.size();
    next_emission = 0;
    nested_ops = 0;
    std::fill(std::begin(did_nested), std::end(did_nested), false);
    sched::log_clear();
    sched::counters_clear();
    if (mc::replaying())
    {
        std::string s;
        for (std::size_t i = 0; i < behave.size(); ++i)
            s += " slot" + std::to_string(i) + "=" + std::to_string(behave[i]);
        mc::note("slots:%s", s.c_str());
        for (std::size_t t = 0; t < prog.size(); ++t)
            for (auto& o : prog[t])
                mc::note("thread %zu: %s", t, op_name(o));
    }
    sched::begin_execution();
    {
        auto holder = std::make_unique<world>();
        W = holder.get();
        const int n = (int)behave.size();
        for (int i = 0; i < n; ++i)
        {
            auto c = W->sig.connect(callable{i, behave[i]});
            for (int t = 0; t < 4; ++t)
                W->handle[t][i] = c;
            for (std::size_t t = 0; t < prog.size(); ++t)
                for (auto& o : prog[t])
                    if (o.code == SCOPED && o.arg == i && !W->scoped[t])
                        W->scoped[t] = std::make_unique<kl::scoped_connection>(c);
        }
        std::vector<std::function<void()>> bodies;
        for (std::size_t t = 0; t < prog.size(); ++t)
            bodies.push_back([&prog, t] {
                for (std::size_t k = 0; k < prog[t].size(); ++k)
                    exec_op(prog[t][k], (int)(t * 10 + k), (int)t);
            });
        sched::run(bodies, bound);

        // quiescent: what is left, and one more emission
        int ops_end = (int)sched::log_size();
        (void)ops_end;
        exec_op({COUNT, 0}, 60, 3);
        do_emit(61);
        exec_op({COUNT, 0}, 62, 3);
        int inv = check_log(n, behave.data());
        mc::transition(sched::steps());
        mc::count("slot invocations", inv);

        // connected() agrees with the final list, disconnected slots without handles are gone
        std::vector<bool> gone(max_slots, false);
        for (int i = 0; i < n; ++i)
        {
            bool connected = W->handle[3][i].connected();
            gone[i] = !connected;
        }
        std::size_t still = 0;
        for (int i = 0; i < n; ++i)
            still += !gone[i];
        for (int t = 0; t < 4; ++t)
        {
            for (int i = 0; i < max_slots; ++i)
                W->handle[t][i] = {};
            for (int i = 0; i < W->n_created[t]; ++i)
            {
                still += W->created[t][i].connected();
                W->created[t][i] = {};
            }
        }
        MC_CHECK(W->sig.num_slots() >= still, "num_slots is %zu but %zu handles report a connection",
                 W->sig.num_slots(), still);
        for (int i = 0; i < n; ++i)
            if (gone[i] && lifetimes())
            {
                MC_CHECK(sched::counter_get(LIVE + i) == 0,
                         "slot %d is disconnected, no emission is running and no handle is left, but its "
                         "captured state is still alive", i);
                mc::count("released before the signal");
            }
        // blocks must be balanced: a final emission must see every connected slot
        W->sig.disconnect_all_slots();
        MC_CHECK(W->sig.empty(), "slots left after disconnect_all_slots");
    }
    W = nullptr;
    for (int i = 0; i < max_slots; ++i)
        MC_CHECK(!lifetimes() || sched::counter_get(LIVE + i) == 0, "captured state of slot %d leaked (%d copies)", i,
                 sched::counter_get(LIVE + i));
    auto h = log_hash();
    mc::outcome(h);
    mc::state(h);
    sched::end_execution();
    if (mc::want_sample())
    {
        std::string s;
        for (std::size_t t = 0; t < prog.size(); ++t)
        {
            s += "T" + std::to_string(t) + ":";
            for (auto& o : prog[t])
                s += std::string(" ") + op_name(o);
            s += "; ";
        }
        s += "events:";
        for (std::size_t i = 0; i < sched::log_size() && i < 24; ++i)
        {
            auto e = sched::log_at(i);
            s += " T" + std::to_string(e.thread) + ":" + kind_name(e.kind) + std::to_string(e.a) + "/" +
                 std::to_string(e.b);
        }
        mc::sample(s);
    }
}

const std::vector<op>& alphabet()
{
    static const std::vector<op> a{{EMIT, 0},      {DISC, 0},     {DISC, 1},  {CONN_BACK, 0},
                                   {CONN_FRONT, 0}, {DISC_ALL, 0}, {BLOCK, 1}, {COUNT, 0},
                                   {SCOPED, 1},     {BLOCK_EMIT, 0}};
    return a;
}

void two_threads()
{
    // T0: two operations, T1: one operation; two plain slots
    auto& al = alphabet();
    int a = mc::choose((int)al.size(), "T0 op 1");
    int b = mc::choose((int)al.size(), "T0 op 2");
    int c = mc::choose((int)al.size(), "T1 op 1");
    std::vector<std::vector<op>> prog{{al[a], al[b]}, {al[c]}};
    execute(prog, {PLAIN, PLAIN}, mc::thorough() ? 3 : 2);
}

void two_threads_22()
{
    auto& al = alphabet();
    int n = (int)al.size();
    int a = mc::choose(n, "T0 op 1"), b = mc::choose(n, "T0 op 2");
    int c = mc::choose(n, "T1 op 1"), d = mc::choose(n, "T1 op 2");
    if (a * n + b > c * n + d)
        mc::skip(); // symmetric
    execute({{al[a], al[b]}, {al[c], al[d]}}, {PLAIN, PLAIN}, 2);
}

void three_threads()
{
    auto& al = alphabet();
    int n = (int)al.size();
    int a = mc::choose(n, "T0"), b = mc::choose(n, "T1"), c = mc::choose(n, "T2");
    if (a > b || b > c)
        mc::skip();
    if (!mc::thorough() && al[a].code != EMIT)
        mc::skip(); // quick: at least one emission
    execute({{al[a]}, {al[b]}, {al[c]}}, {PLAIN, PLAIN}, mc::thorough() ? 3 : 2);
}

void reentrant()
{
    // a slot that acts on the signal from inside, against every concurrent operation
    int k = 1 + mc::choose(n_behaviours - 1, "behaviour");
    auto& al = alphabet();
    int c = mc::choose((int)al.size(), "T1");
    int where = mc::choose(2, "position");
    std::vector<int> behave{PLAIN, PLAIN, PLAIN};
    behave[where] = k;
    execute({{{EMIT, 0}}, {al[c]}}, behave, mc::thorough() ? 4 : 3);
}

void emit_emit()
{
    // two emissions in flight, a third thread changes the list
    auto& al = alphabet();
    int k = mc::choose(n_behaviours, "behaviour");
    int c = mc::choose((int)al.size(), "T2");
    execute({{{EMIT, 0}}, {{EMIT, 0}}, {al[c]}}, {k, PLAIN}, mc::thorough() ? 3 : 2);
}

// ---- handles shared between threads: the last one to let go destroys the slot ---------------------
enum handle_op
{
    H_COPY,   // copy the handle and drop the copy
    H_ASSIGN, // overwrite the handle with a copy of itself made before
    H_QUERY,
    H_BLOCK,
    H_DISC,
    H_EMIT,
    H_CLEAR,
    H_SCOPED, // hand the handle over to a scoped_connection and destroy it
    n_handle_ops
};
constexpr int QUERY = 20;

void handles()
{
    // every thread owns handles of slot 0, nobody else does; each runs a short program and drops its handle
    const int initial = mc::choose(3, "initially connected, disconnected, signal gone");
    const int threads = 2;
    const int len = 2;
    std::vector<std::vector<int>> prog(threads + 1);
    for (int t = 0; t < threads; ++t)
        for (int k = 0; k < (t ? 1 : len); ++k)
            prog[t].push_back(mc::choose(n_handle_ops, "handle operation"));
    const bool third = mc::choose(2, "third thread that only drops its handle");
    if (initial == 2)
        for (auto& p : prog)
            for (int o : p)
                if (o == H_EMIT || o == H_CLEAR)
                    mc::skip();
    static const char* names[] = {"copy", "assign", "query", "block", "disconnect", "emit", "disconnect-all", "scoped"};
    if (mc::replaying())
    {
        mc::note("initially %s", initial == 0 ? "connected" : initial == 1 ? "disconnected" : "signal destroyed");
        for (int t = 0; t < threads; ++t)
            for (int o : prog[t])
                mc::note("thread %d: %s, then drop the handle", t, names[o]);
        if (third)
            mc::note("thread 2: drop the handle");
    }
    sched::event_name = kind_name;
    next_slot_id = n_initial_slots = 2;
    next_emission = nested_ops = 0;
    std::fill(std::begin(did_nested), std::end(did_nested), false);
    sched::log_clear();
    sched::counters_clear();
    sched::begin_execution();
    const int behave[] = {PLAIN, PLAIN};
    {
        auto holder = std::make_unique<world>();
        auto sig = std::make_unique<world>();
        W = sig.get(); // the signal in use; handles live in holder and can outlive it
        {
            auto c = W->sig.connect(callable{0, PLAIN});
            for (int t = 0; t < threads + third; ++t)
                holder->handle[t][0] = c;
        }
        W->sig.connect(callable{1, PLAIN});
        if (initial == 1)
        {
            sched::log(op_begin, 90, DISC, 0);
            auto c = holder->handle[0][0];
            c.disconnect();
            sched::log(op_end, 90, 0);
        }
        else if (initial == 2)
        {
            sched::log(op_begin, 90, DISC_ALL, 0);
            sig.reset();
            sched::log(op_end, 90, 0);
            W = nullptr;
        }
        auto* hs = &holder->handle;
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < threads + third; ++t)
            bodies.push_back([&prog, t, hs] {
                auto& h = (*hs)[t][0];
                for (std::size_t k = 0; k < prog[t].size(); ++k)
                {
                    const int index = t * 10 + (int)k;
                    switch (prog[t][k])
                    {
                    case H_COPY: { auto c = h; } break;
                    case H_ASSIGN: { auto c = h; h = c; } break;
                    case H_QUERY:
                        sched::log(op_begin, index, QUERY, 0);
                        sched::log(op_end, index, h.connected());
                        break;
                    case H_BLOCK:
                    {
                        sched::log(op_begin, index, BLOCK, 0);
                        {
                            auto b = h.get_blocker();
                            sched::log(nested_op, index, 1, 0);
                            sched::yield_point("blocked");
                            sched::log(nested_op, index, 2, 0);
                        }
                        sched::log(op_end, index, 0);
                        break;
                    }
                    case H_DISC:
                        if (!h.connected())
                            break; // also covers a handle emptied by an earlier disconnect
                        sched::log(op_begin, index, DISC, 0);
                        h.disconnect();
                        sched::log(op_end, index, 0);
                        break;
                    case H_EMIT: do_emit(index); break;
                    case H_CLEAR:
                        sched::log(op_begin, index, DISC_ALL, 0);
                        W->sig.disconnect_all_slots();
                        sched::log(op_end, index, 0);
                        break;
                    case H_SCOPED:
                        if (h == kl::connection{})
                            break;
                        sched::log(op_begin, index, DISC, 0);
                        {
                            kl::scoped_connection s{std::move(h)};
                        }
                        sched::log(op_end, index, 0);
                        break;
                    }
                }
                h = kl::connection{}; // move assignment swaps: the temporary drops the reference
            });
        sched::run(bodies, mc::thorough() ? 3 : 2);
        bool disc = false;
        std::vector<interval> queries;
        std::vector<int> answers;
        std::map<int, int> begin;
        for (int i = 0; i < (int)sched::log_size(); ++i)
        {
            auto e = sched::log_at(i);
            if (e.kind == op_begin)
            {
                disc = disc || e.b == DISC || e.b == DISC_ALL;
                if (e.b == QUERY)
                    begin[e.a] = i;
            }
            else if (e.kind == op_end && begin.count(e.a))
            {
                queries.push_back({begin[e.a], i});
                answers.push_back(e.b);
            }
        }
        for (std::size_t q = 0; q < queries.size(); ++q)
        {
            bool surely = false, maybe = false;
            std::map<int, int> at;
            for (int i = 0; i < (int)sched::log_size(); ++i)
            {
                auto e = sched::log_at(i);
                if (e.kind == op_begin && (e.b == DISC || e.b == DISC_ALL))
                {
                    at[e.a] = i;
                    maybe = maybe || i < queries[q].e;
                }
                if (e.kind == op_end && at.count(e.a))
                    surely = surely || i < queries[q].b;
            }
            MC_CHECK(!(answers[q] && surely), "connected() is true after the slot was disconnected");
            MC_CHECK(answers[q] || maybe, "connected() is false although nobody disconnected the slot");
        }
        if (W)
        {
            if (!disc)
            {
                MC_CHECK(W->sig.num_slots() == 2, "%zu slots left of two", W->sig.num_slots());
                MC_CHECK(!lifetimes() || sched::counter_get(LIVE) == 1, "%d copies of a connected slot's state", sched::counter_get(LIVE));
            }
            else
                MC_CHECK(!lifetimes() || sched::counter_get(LIVE) == 0,
                         "the slot is disconnected and its last handle dropped, but its captured state is still alive");
            do_emit(61);
        }
        else
            MC_CHECK(!lifetimes() || sched::counter_get(LIVE) + sched::counter_get(LIVE + 1) == 0, "a slot outlived its signal and its handles");
        mc::count("slot invocations", check_log(2, behave));
        mc::transition(sched::steps());
    }
    W = nullptr;
    for (int i = 0; i < 2; ++i)
        MC_CHECK(!lifetimes() || sched::counter_get(LIVE + i) == 0, "captured state of slot %d leaked (%d copies)", i, sched::counter_get(LIVE + i));
    auto h = log_hash();
    mc::outcome(h);
    mc::state(h);
    sched::end_execution();
    if (mc::want_sample())
    {
        std::string s = "initial " + std::to_string(initial) + ";";
        for (int t = 0; t < threads; ++t)
            for (int o : prog[t])
                s += " T" + std::to_string(t) + " " + names[o];
        mc::sample(s);
    }
}

#define BOTH(name, fn, depth, quick)                                                               \
    MC_SCENARIO("C02", name, fn, depth, quick);                                                    \
    MC_SCENARIO("C03", name, fn, depth, quick)

BOTH("2 threads, 2+1 operations", two_threads, 3, true);
BOTH("2 threads, reentrant slots", reentrant, 3, true);
BOTH("3 threads, 1 operation each", three_threads, 3, true);
BOTH("3 threads, two emissions in flight", emit_emit, 2, true);
BOTH("handles dropped by several threads", handles, 3, true);
BOTH("2 threads, 2+2 operations", two_threads_22, 4, false);
} // namespace
