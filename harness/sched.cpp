#include "sched.hpp"
#include "mc.hpp"

#include <algorithm>
#include <cerrno>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <time.h>

// ---------------------------------------------------------------------------------------------
// Everything below runs either in the main thread outside sched::run, or in the single controlled
// thread that currently holds the baton, so no locking is needed.
// ---------------------------------------------------------------------------------------------

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_sched_yield();
}

namespace {

constexpr int max_threads = 5; // controlled threads 0..3, main = 4
constexpr int main_id = 4;

// ---- allocator that the runtime's own containers use: never monitored -----------------------
template <typename T>
struct raw_alloc
{
    using value_type = T;
    raw_alloc() = default;
    template <typename U>
    raw_alloc(const raw_alloc<U>&) {}
    T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) { std::free(p); }
    template <typename U> bool operator==(const raw_alloc<U>&) const { return true; }
    template <typename U> bool operator!=(const raw_alloc<U>&) const { return false; }
};
template <typename K, typename V>
using raw_map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, raw_alloc<std::pair<const K, V>>>;
template <typename T>
using raw_vec = std::vector<T, raw_alloc<T>>;

struct vclock
{
    unsigned c[max_threads] = {};
    void join(const vclock& o)
    {
        for (int i = 0; i < max_threads; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

struct access
{
    unsigned clk = 0;
    unsigned char mask = 0;
    bool atomic = false;
};

struct shadow // one 8-byte granule
{
    access w[max_threads]; // last write per thread
    access r[max_threads]; // last read per thread
    bool freed = false;
    unsigned epoch = 0;
};

// Direct-mapped shadow: an open addressing table, cleared lazily through the epoch.
struct shadow_table
{
    static constexpr std::size_t size = 1 << 16;
    struct entry
    {
        std::uintptr_t key = 0;
        unsigned epoch = 0;
        shadow s;
    };
    entry* e = nullptr;
    unsigned epoch = 1;
    std::size_t used = 0;
    void init()
    {
        if (!e)
            e = static_cast<entry*>(std::calloc(size, sizeof(entry)));
    }
    void clear()
    {
        ++epoch;
        used = 0;
    }
    shadow& get(std::uintptr_t key)
    {
        std::size_t i = (key * 0x9E3779B97F4A7C15ull) >> 48 & (size - 1);
        for (;; i = (i + 1) & (size - 1))
        {
            if (e[i].epoch != epoch)
            {
                e[i].epoch = epoch;
                e[i].key = key;
                std::memset((void*)&e[i].s, 0, sizeof(shadow));
                if (++used > size * 3 / 4)
                {
                    std::fprintf(stderr, "sched: shadow table full\n");
                    _Exit(30);
                }
                return e[i].s;
            }
            if (e[i].key == key)
                return e[i].s;
        }
    }
};

struct loc_sync
{
    vclock rel;
    bool has = false;
};

struct lock_state
{
    int owner = -1;      // exclusive owner
    int depth = 0;       // recursive mutexes
    int readers[max_threads] = {};
    int n_readers = 0;
    vclock clk, rclk;
};

enum class st { ready, blocked_lock, blocked_cv, finished };

struct thread_info
{
    sem_t sem;
    st status = st::ready;
    const void* waiting = nullptr;
    bool want_shared = false;
    vclock clk, fence_acq, fence_rel;
    bool has_fence_rel = false;
    char* stack_lo = nullptr;
    char* stack_hi = nullptr;
    std::function<void()> body;
};

bool monitoring = false; // between begin_execution and end_execution
bool active = false;     // inside run()
thread_info th[max_threads];
int n_threads = 0;
int current = main_id;
int preemptions = 0, bound = 0;
int consecutive = 0;
int total_steps = 0;
unsigned long logical = 0;
sem_t main_sem;
shadow_table shadows;
raw_map<std::uintptr_t, loc_sync> syncs;
raw_map<std::uintptr_t, lock_state> locks;
raw_map<void*, std::size_t> allocs; // live blocks of this execution
raw_vec<std::pair<void*, std::size_t>> quarantine;
raw_map<void*, int> freed_blocks;
thread_local int tls_id = -1;
thread_local bool in_runtime = false;

struct runtime_guard
{
    bool prev;
    runtime_guard() : prev(in_runtime) { in_runtime = true; }
    ~runtime_guard() { in_runtime = prev; }
};

int me() { return tls_id >= 0 ? tls_id : main_id; }

const char* tname(int i)
{
    static const char* names[] = {"T0", "T1", "T2", "T3", "main"};
    return names[i];
}

// ---- scheduling ---------------------------------------------------------------------------------
bool runnable(int i)
{
    auto& t = th[i];
    if (t.status == st::ready)
        return true;
    if (t.status == st::blocked_lock)
    {
        auto& l = locks[(std::uintptr_t)t.waiting];
        if (t.want_shared)
            return l.owner < 0;
        return l.owner < 0 && l.n_readers == 0;
    }
    return false;
}

void hand_over(int from, int to)
{
    if (from == to)
        return;
    current = to;
    consecutive = 0;
    mc::note("    -- switch %s -> %s", tname(from), tname(to));
    sem_post(&th[to].sem);
    while (sem_wait(&th[from].sem) != 0) {}
}

int others(int self_, int* out)
{
    int n = 0;
    for (int k = 1; k < n_threads; ++k)
    {
        int i = (self_ + k) % n_threads;
        if (runnable(i))
            out[n++] = i;
    }
    std::sort(out, out + n);
    return n;
}

void check_steps()
{
    if (++total_steps > 20000)
        mc::fail("no termination: more than 20000 visible operations in one execution");
}

// before a visible operation of the running thread
void point(const char* what)
{
    if (!active || tls_id < 0)
        return;
    runtime_guard g;
    check_steps();
    int self_ = tls_id;
    int o[max_threads];
    int n = others(self_, o);
    if (n == 0)
        return;
    if (++consecutive > 400)
    {
        // fairness: a spinning thread lets the others run, at no cost
        int next = o[0];
        for (int i = 0; i < n; ++i)
            if (o[i] > self_)
            {
                next = o[i];
                break;
            }
        hand_over(self_, next);
        return;
    }
    if (preemptions < bound)
    {
        int c = mc::choose(1 + n, what);
        if (c > 0)
        {
            ++preemptions;
            hand_over(self_, o[c - 1]);
        }
    }
}

// the running thread cannot continue (blocked): hand over without cost
void reschedule_blocked(const char* what)
{
    int self_ = tls_id;
    for (;;)
    {
        if (runnable(self_))
            return;
        int o[max_threads];
        int n = others(self_, o);
        if (n == 0)
        {
            std::string s;
            for (int i = 0; i < n_threads; ++i)
                s += std::string(" ") + tname(i) + "=" +
                     (th[i].status == st::finished ? "finished"
                      : th[i].status == st::blocked_lock
                          ? (locks[(std::uintptr_t)th[i].waiting].owner == i ? "waits for a lock it already holds"
                                                                             : "waits for a lock")
                      : th[i].status == st::blocked_cv ? "waits for a notification"
                                                       : "ready");
            mc::fail("deadlock at %s:%s", what, s.c_str());
        }
        check_steps();
        int c = n > 1 ? mc::choose(n, "next (blocked)") : 0;
        hand_over(self_, o[c]);
    }
}

void yield_now()
{
    if (!active || tls_id < 0)
        return;
    runtime_guard g;
    check_steps();
    int o[max_threads];
    int n = others(tls_id, o);
    if (n == 0)
        return;
    int c = n > 1 ? mc::choose(n, "next (yield)") : 0;
    hand_over(tls_id, o[c]);
}

// ---- happens-before ------------------------------------------------------------------------------
bool monitored() { return monitoring && !in_runtime; }

void race(const char* a, int ta, const char* b, int tb, const void* p)
{
    mc::fail("data race: %s by %s and %s by %s are unordered (address %p)", a, tname(ta), b,
             tname(tb), p);
}

bool own_stack(const void* p)
{
    auto c = (const char*)p;
    auto& t = th[me()];
    return c >= t.stack_lo && c < t.stack_hi;
}

void access_bytes(const void* p, std::size_t n, bool write, bool atomic)
{
    if (!monitored() || n == 0)
        return;
    if (own_stack(p))
        return;
    runtime_guard g;
    const int self_ = me();
    auto& mine = th[self_].clk;
    std::uintptr_t a = (std::uintptr_t)p, end = a + n;
    while (a < end)
    {
        std::uintptr_t gran = a >> 3;
        std::uintptr_t next = std::min<std::uintptr_t>((gran + 1) << 3, end);
        unsigned char mask = 0;
        for (std::uintptr_t x = a; x < next; ++x)
            mask |= 1u << (x & 7);
        shadow& s = shadows.get(gran);
        if (s.freed)
            mc::fail("use after free: %s%s of freed memory by %s", atomic ? "atomic " : "",
                     write ? "write" : "read", tname(self_));
        for (int t = 0; t < max_threads; ++t)
        {
            if (t == self_)
                continue;
            auto& w = s.w[t];
            if ((w.mask & mask) && w.clk > mine.c[t] && !(w.atomic && atomic))
                race(w.atomic ? "atomic write" : "write", t,
                     write ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read"), self_, p);
            if (write)
            {
                auto& r = s.r[t];
                if ((r.mask & mask) && r.clk > mine.c[t] && !(r.atomic && atomic))
                    race(r.atomic ? "atomic read" : "read", t, atomic ? "atomic write" : "write", self_, p);
            }
        }
        auto& slot = write ? s.w[self_] : s.r[self_];
        // keep the stronger (plain) access of the current epoch
        if (slot.clk == mine.c[self_])
        {
            slot.mask |= mask;
            slot.atomic = slot.atomic && atomic;
        }
        else
        {
            slot.clk = mine.c[self_];
            slot.mask = mask;
            slot.atomic = atomic;
        }
        a = next;
    }
}

bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void sync_load(const void* p, int mo)
{
    if (!monitored())
        return;
    runtime_guard g;
    auto it = syncs.find((std::uintptr_t)p);
    if (it == syncs.end() || !it->second.has)
        return;
    auto& t = th[me()];
    if (is_acq(mo))
        t.clk.join(it->second.rel);
    else
        t.fence_acq.join(it->second.rel);
}
void sync_store(const void* p, int mo, bool rmw)
{
    if (!monitored())
        return;
    runtime_guard g;
    auto& t = th[me()];
    auto& s = syncs[(std::uintptr_t)p];
    if (!rmw)
        s = loc_sync{}; // a plain store heads a new release sequence
    if (is_rel(mo))
    {
        s.rel.join(t.clk);
        s.has = true;
    }
    else if (t.has_fence_rel)
    {
        s.rel.join(t.fence_rel);
        s.has = true;
    }
}
void bump()
{
    if (monitored())
        ++th[me()].clk.c[me()];
}

template <typename T, typename F>
T atomic_op(const volatile void* vp, const char* what, bool loads, bool stores, int mo, F f)
{
    const void* p = const_cast<const void*>(vp);
    point(what);
    if (loads)
        access_bytes(p, sizeof(T), false, true);
    if (stores)
        access_bytes(p, sizeof(T), true, true);
    if (loads)
        sync_load(p, mo);
    T r = f();
    if (stores)
    {
        sync_store(p, mo, loads);
        if (is_rel(mo))
            bump();
    }
    return r;
}

} // namespace

// ---- instrumentation entry points -----------------------------------------------------------------
extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                      \
    void __tsan_read##n(void* p) { access_bytes(p, n, false, false); }                             \
    void __tsan_write##n(void* p) { access_bytes(p, n, true, false); }                             \
    void __tsan_unaligned_read##n(void* p) { access_bytes(p, n, false, false); }                   \
    void __tsan_unaligned_write##n(void* p) { access_bytes(p, n, true, false); }                   \
    void __tsan_volatile_read##n(void* p) { access_bytes(p, n, false, false); }                    \
    void __tsan_volatile_write##n(void* p) { access_bytes(p, n, true, false); }                    \
    void __tsan_read##n##_pc(void* p, void*) { access_bytes(p, n, false, false); }                 \
    void __tsan_write##n##_pc(void* p, void*) { access_bytes(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access_bytes(p, n, false, false); }
void __tsan_write_range(void* p, unsigned long n) { access_bytes(p, n, true, false); }
void __tsan_vptr_update(void** p, void*) { access_bytes(p, 8, true, false); }
void __tsan_vptr_read(void** p) { access_bytes(p, 8, false, false); }

#define ATOMICS(bits, T)                                                                           \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo)                                      \
    {                                                                                              \
        return atomic_op<T>(a, "atomic load", true, false, mo, [&] { return *a; });                \
    }                                                                                              \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)                                   \
    {                                                                                              \
        atomic_op<T>(a, "atomic store", false, true, mo, [&] { *a = v; return v; });               \
    }                                                                                              \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo)                                   \
    {                                                                                              \
        return atomic_op<T>(a, "exchange", true, true, mo, [&] { T o = *a; *a = v; return o; });   \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo)                                  \
    {                                                                                              \
        return atomic_op<T>(a, "fetch_add", true, true, mo, [&] { T o = *a; *a = o + v; return o; }); \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo)                                  \
    {                                                                                              \
        return atomic_op<T>(a, "fetch_sub", true, true, mo, [&] { T o = *a; *a = o - v; return o; }); \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo)                                  \
    {                                                                                              \
        return atomic_op<T>(a, "fetch_and", true, true, mo, [&] { T o = *a; *a = o & v; return o; }); \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo)                                   \
    {                                                                                              \
        return atomic_op<T>(a, "fetch_or", true, true, mo, [&] { T o = *a; *a = o | v; return o; }); \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo)                                  \
    {                                                                                              \
        return atomic_op<T>(a, "fetch_xor", true, true, mo, [&] { T o = *a; *a = o ^ v; return o; }); \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo)                                 \
    {                                                                                              \
        return atomic_op<T>(a, "fetch_nand", true, true, mo, [&] { T o = *a; *a = ~(o & v); return o; }); \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo)   \
    {                                                                                              \
        point("compare_exchange");                                                                 \
        if (*a == *c)                                                                              \
        {                                                                                          \
            bool was = active;                                                                     \
            active = false; /* no second scheduling point */                                       \
            atomic_op<T>(a, "cas", true, true, mo, [&] { *a = v; return v; });                     \
            active = was;                                                                          \
            return 1;                                                                              \
        }                                                                                          \
        bool was = active;                                                                         \
        active = false;                                                                            \
        *c = atomic_op<T>(a, "cas", true, false, fmo, [&] { return *a; });                         \
        active = was;                                                                              \
        return 0;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)     \
    {                                                                                              \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                    \
    }                                                                                              \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)         \
    {                                                                                              \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                          \
        return c;                                                                                  \
    }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

void __tsan_atomic_thread_fence(int mo)
{
    if (!monitored())
        return;
    auto& t = th[me()];
    if (is_acq(mo))
        t.clk.join(t.fence_acq);
    if (is_rel(mo))
    {
        t.fence_rel = t.clk;
        t.has_fence_rel = true;
        bump();
    }
}
void __tsan_atomic_signal_fence(int) {}

// ---- locks ------------------------------------------------------------------------------------------
static bool mutex_recursive(pthread_mutex_t* m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

static void lock_acquired_ex(lock_state& l)
{
    l.owner = tls_id;
    l.depth = 1;
    th[me()].clk.join(l.clk);
    th[me()].clk.join(l.rclk);
}

static int ctl_lock_ex(void* m, bool try_, bool recursive)
{
    point(try_ ? "try_lock" : "lock");
    access_bytes(m, 1, false, true); // the lock's memory must be alive
    runtime_guard g;
    if (recursive && locks[(std::uintptr_t)m].owner == tls_id)
    {
        ++locks[(std::uintptr_t)m].depth;
        return 0;
    }
    {
        auto& l = locks[(std::uintptr_t)m];
        if (l.owner >= 0 || l.n_readers > 0)
        {
            if (try_)
                return EBUSY;
            th[tls_id].status = st::blocked_lock;
            th[tls_id].waiting = m;
            th[tls_id].want_shared = false;
            reschedule_blocked("lock");
            th[tls_id].status = st::ready;
        }
    }
    lock_acquired_ex(locks[(std::uintptr_t)m]);
    return 0;
}

static void ctl_unlock(void* m)
{
    runtime_guard g;
    auto& l = locks[(std::uintptr_t)m];
    auto& t = th[me()];
    if (l.owner == tls_id)
    {
        if (--l.depth > 0)
            return;
        l.owner = -1;
        l.clk = t.clk;
    }
    else if (l.readers[tls_id] > 0)
    {
        --l.readers[tls_id];
        --l.n_readers;
        l.rclk.join(t.clk);
    }
    else
        mc::fail("unlock of a lock that %s does not hold", tname(tls_id));
    ++t.clk.c[me()];
}

static int ctl_lock_sh(void* m, bool try_)
{
    point(try_ ? "try_lock_shared" : "lock_shared");
    access_bytes(m, 1, false, true);
    runtime_guard g;
    {
        auto& l = locks[(std::uintptr_t)m];
        if (l.owner >= 0)
        {
            if (try_)
                return EBUSY;
            th[tls_id].status = st::blocked_lock;
            th[tls_id].waiting = m;
            th[tls_id].want_shared = true;
            reschedule_blocked("lock_shared");
            th[tls_id].status = st::ready;
        }
    }
    auto& l = locks[(std::uintptr_t)m];
    ++l.readers[tls_id];
    ++l.n_readers;
    th[me()].clk.join(l.clk);
    return 0;
}

static bool controlled() { return active && tls_id >= 0 && !in_runtime; }

// A lock taken by the main thread outside run(): single threaded, so a lock that is already held
// can never be released.
static raw_map<std::uintptr_t, int> main_held;
static int main_lock(void* m, bool try_, bool recursive)
{
    runtime_guard g;
    if (monitoring)
    {
        int& h = main_held[(std::uintptr_t)m];
        if (h && !recursive)
        {
            if (try_)
                return EBUSY;
            mc::fail("deadlock: a thread waits for a lock it already holds");
        }
        ++h;
        auto it = locks.find((std::uintptr_t)m);
        if (it != locks.end())
        {
            th[main_id].clk.join(it->second.clk);
            th[main_id].clk.join(it->second.rclk);
        }
    }
    return 0;
}
static void main_unlock(void* m)
{
    runtime_guard g;
    if (monitoring)
    {
        int& h = main_held[(std::uintptr_t)m];
        if (!h)
            mc::fail("unlock of a lock that is not held");
        --h;
    }
}
static bool main_monitored() { return monitoring && !active && tls_id < 0 && !in_runtime; }

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (controlled())
        return ctl_lock_ex(m, false, mutex_recursive(m));
    if (main_monitored())
        return main_lock(m, false, mutex_recursive(m));
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (controlled())
        return ctl_lock_ex(m, true, mutex_recursive(m));
    if (main_monitored())
        return main_lock(m, true, mutex_recursive(m));
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (controlled())
    {
        ctl_unlock(m);
        return 0;
    }
    if (main_monitored())
    {
        main_unlock(m);
        return 0;
    }
    return __real_pthread_mutex_unlock(m);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (controlled())
        return ctl_lock_ex(m, false, false);
    if (main_monitored())
        return main_lock(m, false, false);
    return __real_pthread_rwlock_wrlock(m);
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (controlled())
        return ctl_lock_ex(m, true, false);
    if (main_monitored())
        return main_lock(m, true, false);
    return __real_pthread_rwlock_trywrlock(m);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (controlled())
        return ctl_lock_sh(m, false);
    if (main_monitored())
        return main_lock(m, false, true);
    return __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (controlled())
        return ctl_lock_sh(m, true);
    if (main_monitored())
        return main_lock(m, true, true);
    return __real_pthread_rwlock_tryrdlock(m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (controlled())
    {
        ctl_unlock(m);
        return 0;
    }
    if (main_monitored())
    {
        main_unlock(m);
        return 0;
    }
    return __real_pthread_rwlock_unlock(m);
}

int __wrap_sched_yield()
{
    if (controlled())
    {
        yield_now();
        return 0;
    }
    return __real_sched_yield();
}
int __real_nanosleep(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* a, timespec* b)
{
    if (controlled())
    {
        yield_now();
        return 0;
    }
    return __real_nanosleep(a, b);
}

// condition variables (both the libstdc++ class and the pthread level)
static int cv_wait(void* cv, pthread_mutex_t* m)
{
    point("cv wait");
    ctl_unlock(m);
    {
        runtime_guard g;
        th[tls_id].status = st::blocked_cv;
        th[tls_id].waiting = cv;
        reschedule_blocked("condition wait");
    }
    return ctl_lock_ex(m, false, false);
}
static void cv_notify(void* cv, bool all)
{
    point("cv notify");
    runtime_guard g;
    int w[max_threads], n = 0;
    for (int i = 0; i < n_threads; ++i)
        if (th[i].status == st::blocked_cv && th[i].waiting == cv)
            w[n++] = i;
    if (n == 0)
        return;
    if (all)
        for (int i = 0; i < n; ++i)
            th[w[i]].status = st::ready;
    else
        th[w[n > 1 ? mc::choose(n, "notified thread") : 0]].status = st::ready;
}
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    return controlled() ? cv_wait(c, m) : __real_pthread_cond_wait(c, m);
}
int __real_pthread_cond_signal(pthread_cond_t*);
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    if (!controlled())
        return __real_pthread_cond_signal(c);
    cv_notify(c, false);
    return 0;
}
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!controlled())
        return __real_pthread_cond_broadcast(c);
    cv_notify(c, true);
    return 0;
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*,
                                                                      std::unique_lock<std::mutex>&);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c,
                                                                      std::unique_lock<std::mutex>& l)
{
    if (controlled())
        cv_wait(c, l.mutex()->native_handle());
    else
        __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
}
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c)
{
    if (controlled())
        cv_notify(c, false);
    else
        __real__ZNSt18condition_variable10notify_oneEv(c);
}
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c)
{
    if (controlled())
        cv_notify(c, true);
    else
        __real__ZNSt18condition_variable10notify_allEv(c);
}
} // extern "C"

// ---- heap -------------------------------------------------------------------------------------------
static void* mon_new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc{};
    if (monitored())
    {
        runtime_guard g;
        allocs[p] = n;
    }
    return p;
}
static void mon_delete(void* p)
{
    if (!p)
        return;
    if (monitored())
    {
        auto it = allocs.find(p);
        if (it != allocs.end())
        {
            std::size_t n = it->second;
            access_bytes(p, n, true, false); // freeing conflicts with every unordered access
            runtime_guard g;
            allocs.erase(p);
            std::uintptr_t a = (std::uintptr_t)p >> 3, e = ((std::uintptr_t)p + n + 7) >> 3;
            for (; a < e; ++a)
                shadows.get(a).freed = true;
            freed_blocks[p] = 1;
            quarantine.push_back({p, n});
            return;
        }
        if (freed_blocks.count(p))
            mc::fail("double free by %s", tname(me()));
    }
    std::free(p);
}
void* operator new(std::size_t n) { return mon_new(n); }
void* operator new[](std::size_t n) { return mon_new(n); }
void operator delete(void* p) noexcept { mon_delete(p); }
void operator delete[](void* p) noexcept { mon_delete(p); }
void operator delete(void* p, std::size_t) noexcept { mon_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { mon_delete(p); }

// ---- public API -------------------------------------------------------------------------------------
namespace sched {

static void set_stack(int id)
{
    pthread_attr_t attr;
    pthread_getattr_np(pthread_self(), &attr);
    void* lo;
    std::size_t n;
    pthread_attr_getstack(&attr, &lo, &n);
    pthread_attr_destroy(&attr);
    th[id].stack_lo = (char*)lo;
    th[id].stack_hi = (char*)lo + n;
}

int self() { return tls_id; }
unsigned long now() { return ++logical; }
int steps() { return total_steps; }
void yield_point(const char* what) { point(what); }

void begin_execution()
{
    static bool once = false;
    if (!once)
    {
        once = true;
        shadows.init();
        sem_init(&main_sem, 0, 0);
        runtime_guard g;
        set_stack(main_id);
    }
    runtime_guard g;
    shadows.clear();
    syncs.clear();
    locks.clear();
    main_held.clear();
    allocs.clear();
    freed_blocks.clear();
    th[main_id].clk = vclock{};
    th[main_id].clk.c[main_id] = 1;
    th[main_id].fence_acq = vclock{};
    th[main_id].has_fence_rel = false;
    logical = 0;
    total_steps = 0;
    current = main_id;
    monitoring = true;
}

void end_execution()
{
    monitoring = false;
    for (auto& q : quarantine)
        std::free(q.first);
    quarantine.clear();
}

std::size_t live_allocations() { return allocs.size(); }

static raw_vec<event> log_;
void log(int kind, int a, int b, int c)
{
    runtime_guard g;
    log_.push_back(event{kind, a, b, c, tls_id});
    mc::note("  [%zu] %s: %s %d %d %d", log_.size() - 1, tname(me()), event_name(kind), a, b, c);
}
std::size_t log_size() { return log_.size(); }
event log_at(std::size_t i) { return log_[i]; }
void log_clear() { log_.clear(); }

static int counters_[64];
int counter_add(int i, int d) { return counters_[i] += d; }
int counter_get(int i) { return counters_[i]; }
void counters_clear() { std::memset(counters_, 0, sizeof counters_); }
const char* (*event_name)(int) = [](int) { return "event"; };

static void* thread_main(void* arg)
{
    int id = (int)(long)arg;
    th[id].stack_hi = (char*)__builtin_frame_address(0) + 256;
    th[id].stack_lo = th[id].stack_hi - 200 * 1024;
    while (sem_wait(&th[id].sem) != 0) {}
    tls_id = id;
    th[id].body();
    {
        runtime_guard g;
        th[id].status = st::finished;
        int o[max_threads];
        int n = others(id, o);
        if (n == 0)
        {
            for (int i = 0; i < n_threads; ++i)
                if (th[i].status != st::finished)
                    mc::fail("deadlock: %s can never continue", tname(i));
            tls_id = -1;
            current = main_id;
            sem_post(&main_sem);
            return nullptr;
        }
        int c = n > 1 ? mc::choose(n, "next (thread exit)") : 0;
        current = o[c];
        consecutive = 0;
        mc::note("    -- %s exits, switch to %s", tname(id), tname(o[c]));
        tls_id = -1;
        sem_post(&th[o[c]].sem);
    }
    return nullptr;
}

void run(std::vector<std::function<void()>> bodies, int preemption_bound)
{
    pthread_t tid[max_threads];
    {
        runtime_guard g;
        n_threads = (int)bodies.size();
        bound = preemption_bound;
        preemptions = 0;
        consecutive = 0;
        for (int i = 0; i < n_threads; ++i)
        {
            th[i].status = st::ready;
            th[i].waiting = nullptr;
            th[i].clk = th[main_id].clk;
            th[i].clk.c[i] = 1;
            th[i].fence_acq = vclock{};
            th[i].has_fence_rel = false;
            th[i].body = bodies[i];
            sem_init(&th[i].sem, 0, 0);
        }
        ++th[main_id].clk.c[main_id];
        pthread_attr_t attr;
        pthread_attr_init(&attr);
        pthread_attr_setstacksize(&attr, 256 * 1024);
        for (int i = 0; i < n_threads; ++i)
            if (pthread_create(&tid[i], &attr, thread_main, (void*)(long)i) != 0)
            {
                std::fprintf(stderr, "sched: pthread_create failed\n");
                _Exit(30);
            }
        pthread_attr_destroy(&attr);
    }
    int first;
    {
        runtime_guard g;
        first = n_threads > 1 ? mc::choose(n_threads, "first thread") : 0;
    }
    active = true;
    current = first;
    sem_post(&th[first].sem);
    while (sem_wait(&main_sem) != 0) {}
    active = false;
    {
        runtime_guard g;
        for (int i = 0; i < n_threads; ++i)
        {
            pthread_join(tid[i], nullptr);
            th[main_id].clk.join(th[i].clk);
            sem_destroy(&th[i].sem);
            th[i].body = nullptr;
        }
        n_threads = 0;
    }
}
} // namespace sched
