#include "mc.hpp"

#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
namespace {

constexpr int max_choices = 1 << 15;
constexpr int max_shards = 64;
constexpr std::size_t table_size = std::size_t{1} << 24;
constexpr std::size_t claims_size = std::size_t{1} << 26;
constexpr int max_counters = 16;

struct shard_mem
{
    std::atomic<std::uint64_t> progress;
    std::uint64_t traces, transitions, skipped;
    std::uint64_t max_len;
    std::atomic<int> n_choices; // of the running execution
    std::uint16_t value[max_choices];
    std::uint16_t bound[max_choices];
    int failed;
    int timed_out;
    char message[4096];
    std::uint64_t counters[max_counters];
    int n_samples;
    char samples[4][1024];
};

struct shared_mem
{
    shard_mem shard[max_shards];
    std::atomic<std::uint64_t> states, outcomes;
    std::atomic<int> stop;
    char counter_names[max_counters][48];
    std::atomic<int> n_counters;
    std::atomic<int> counter_lock;
    std::atomic<std::uint64_t> state_table[table_size];
    std::atomic<std::uint64_t> outcome_table[table_size / 16];
    alignas(4096) std::atomic<std::uint8_t> claims[claims_size];
};

shared_mem* shm;
shard_mem* me;
int shard_index = 0;
bool opt_thorough = false;
bool opt_replay = false;
double opt_cap_s = 600;
int n_shards = 8;

struct skip_exception {};
struct shard_skip_exception {};

// DFS state of this process
std::vector<std::uint16_t> prefix_value, prefix_bound; // to be replayed
int pos = 0;
int cur_shard_depth = 2;
std::uint64_t prefix_counter = 0; // ordinal of the current shard prefix
bool prefix_claimed = false;
bool prefix_decided = false;
bool in_execution = false;

double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

bool claim(std::uint64_t k)
{
    if (opt_replay)
        return true;
    if (k >= claims_size)
        return k % n_shards == (std::uint64_t)shard_index;
    std::uint8_t expected = 0;
    return shm->claims[k].compare_exchange_strong(expected, 1);
}

bool table_insert(std::atomic<std::uint64_t>* table, std::size_t size, std::uint64_t h)
{
    if (h == 0)
        h = 1;
    std::size_t i = (h * 0x9E3779B97F4A7C15ull) % size;
    for (std::size_t probe = 0; probe < 256; ++probe, i = (i + 1) % size)
    {
        std::uint64_t v = table[i].load(std::memory_order_relaxed);
        if (v == h)
            return false;
        if (v == 0)
        {
            if (table[i].compare_exchange_strong(v, h))
                return true;
            if (v == h)
                return false;
        }
    }
    return false; // full: stop counting (the count is then a lower bound)
}

std::vector<property>& registry()
{
    static std::vector<property> r;
    return r;
}
} // namespace

static std::string current_property;
bool deciding(const char* id) { return current_property == id; }
bool thorough() { return opt_thorough; }
bool replaying() { return opt_replay; }
void trace(std::uint64_t n) { me->traces += n; }
void transition(std::uint64_t n) { me->transitions += n; }
void progress() { me->progress.fetch_add(1, std::memory_order_relaxed); }
void skip() { throw skip_exception{}; }

void state(std::uint64_t h)
{
    if (table_insert(shm->state_table, table_size, h))
        shm->states.fetch_add(1, std::memory_order_relaxed);
}
void outcome(std::uint64_t h)
{
    if (table_insert(shm->outcome_table, table_size / 16, h))
        shm->outcomes.fetch_add(1, std::memory_order_relaxed);
}

void count(const char* name, std::uint64_t n)
{
    static const char* cached[max_counters];
    static int cached_index[max_counters];
    for (int i = 0; i < max_counters && cached[i]; ++i)
        if (cached[i] == name)
        {
            me->counters[cached_index[i]] += n;
            return;
        }
    while (shm->counter_lock.exchange(1)) {}
    int k = shm->n_counters.load();
    int i = 0;
    while (i < k && std::strcmp(shm->counter_names[i], name)) ++i;
    if (i == k && k < max_counters)
    {
        std::snprintf(shm->counter_names[k], 48, "%s", name);
        shm->n_counters.store(k + 1);
    }
    shm->counter_lock.store(0);
    if (i >= max_counters)
        return;
    for (int c = 0; c < max_counters; ++c)
        if (!cached[c])
        {
            cached[c] = name;
            cached_index[c] = i;
            break;
        }
    me->counters[i] += n;
}

bool want_sample() { return me->n_samples < 2; }
void sample(const std::string& text)
{
    if (me->n_samples < 4)
        std::snprintf(me->samples[me->n_samples++], 1024, "%s", text.c_str());
}

void note(const char* fmt, ...)
{
    if (!opt_replay)
        return;
    va_list ap;
    va_start(ap, fmt);
    std::vprintf(fmt, ap);
    va_end(ap);
    std::printf("\n");
    std::fflush(stdout);
}

void fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(me->message, sizeof me->message, fmt, ap);
    va_end(ap);
    me->failed = 1;
    if (opt_replay)
    {
        std::printf("FAILED: %s\n", me->message);
        std::fflush(stdout);
    }
    _exit(10);
}

int choose(int n, const char* what)
{
    if (n < 1)
    {
        std::fprintf(stderr, "mc: choose(%d) %s\n", n, what ? what : "");
        _exit(30);
    }
    if (!in_execution || pos >= max_choices)
    {
        std::fprintf(stderr, "mc: choose outside execution or too many choices (%d)\n", pos);
        _exit(30);
    }
    int v = 0;
    if (pos < (int)prefix_value.size())
    {
        v = prefix_value[pos];
        if (prefix_bound[pos] != n || v >= n)
        {
            std::fprintf(stderr,
                         "mc: DIVERGENCE at choice %d (%s): recorded bound %d, now %d\n", pos,
                         what ? what : "", prefix_bound[pos], n);
            _exit(31);
        }
    }
    else
    {
        prefix_value.push_back(0);
        prefix_bound.push_back((std::uint16_t)n);
    }
    me->value[pos] = (std::uint16_t)v;
    me->bound[pos] = (std::uint16_t)n;
    ++pos;
    me->n_choices.store(pos, std::memory_order_release);
    if (opt_replay && what)
        note("  choice %d: %s = %d of %d", pos - 1, what, v, n);
    if (pos == cur_shard_depth && !prefix_decided)
    {
        prefix_decided = true;
        prefix_claimed = claim(prefix_counter++);
        if (!prefix_claimed)
            throw shard_skip_exception{};
    }
    return v;
}

std::string hex(const std::string& b)
{
    std::string r;
    char t[4];
    for (unsigned char c : b)
    {
        std::snprintf(t, sizeof t, "%02x", c);
        r += t;
    }
    return r;
}
std::string printable(const std::string& b)
{
    std::string r = "\"";
    char t[8];
    for (unsigned char c : b)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += (char)c;
        else if (c >= 0x20 && c < 0x7f)
            r += (char)c;
        else
        {
            std::snprintf(t, sizeof t, "\\x%02x", c);
            r += t;
        }
    }
    return r + "\"";
}

void add(const char* id, scenario s)
{
    for (auto& p : registry())
        if (p.id == id)
        {
            p.scenarios.push_back(std::move(s));
            return;
        }
    registry().push_back(property{id, {std::move(s)}});
}

namespace {

// One execution; returns false when the prefix belongs to another shard.
bool execute(const scenario& sc)
{
    pos = 0;
    me->n_choices.store(0);
    in_execution = true;
    bool mine = true;
    // what this execution reports is dropped again when another process owns it
    const std::uint64_t traces0 = me->traces, transitions0 = me->transitions;
    static std::uint64_t counters0[max_counters];
    std::memcpy(counters0, me->counters, sizeof counters0);
    try
    {
        sc.body();
        if (prefix_value.size() != (std::size_t)pos)
        {
            std::fprintf(stderr, "mc: DIVERGENCE: execution ended after %d of %zu choices\n", pos,
                         prefix_value.size());
            _exit(31);
        }
        if (pos < cur_shard_depth)
            mine = claim(prefix_counter++);
        if (mine)
        {
            ++me->traces;
            if ((std::uint64_t)pos > me->max_len)
                me->max_len = pos;
        }
    }
    catch (const shard_skip_exception&)
    {
        mine = false;
    }
    catch (const skip_exception&)
    {
        if (pos < cur_shard_depth)
            mine = claim(prefix_counter++);
        if (mine)
            ++me->skipped;
    }
    in_execution = false;
    if (!mine)
    {
        me->traces = traces0;
        me->transitions = transitions0;
        std::memcpy(me->counters, counters0, sizeof counters0);
    }
    progress();
    return mine;
}

void child_main(const scenario& sc, int index, double deadline)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    shard_index = index;
    me = &shm->shard[index];
    cur_shard_depth = sc.shard_depth;
    prefix_value.clear();
    prefix_bound.clear();
    prefix_counter = 0;
    prefix_claimed = prefix_decided = false;
    for (;;)
    {
        execute(sc);
        // backtrack
        while (!prefix_value.empty() &&
               prefix_value.back() + 1 >= prefix_bound.back())
        {
            prefix_value.pop_back();
            prefix_bound.pop_back();
        }
        if (prefix_value.empty())
            break;
        ++prefix_value.back();
        if ((int)prefix_value.size() <= cur_shard_depth)
            prefix_decided = false;
        if (shm->stop.load(std::memory_order_relaxed))
            break;
        if (now() > deadline)
        {
            me->timed_out = 1;
            break;
        }
    }
    std::fflush(nullptr);
    _exit(0);
}

struct result
{
    bool violated = false, error = false, exhaustive = true;
    std::string message, log;
    std::vector<std::uint16_t> value, bound;
    std::uint64_t traces = 0, transitions = 0, max_len = 0, skipped = 0;
    std::uint64_t counters[max_counters] = {};
};

std::string read_tail(const std::string& path, std::size_t n)
{
    std::string r;
    if (FILE* f = std::fopen(path.c_str(), "rb"))
    {
        char buf[4096];
        std::size_t k;
        while ((k = std::fread(buf, 1, sizeof buf, f)) > 0)
            r.append(buf, k);
        std::fclose(f);
    }
    if (r.size() > n)
        r = r.substr(0, n / 2) + "\n...\n" + r.substr(r.size() - n / 2);
    return r;
}

std::string tmp_dir;
std::string log_path(int i) { return tmp_dir + "/shard" + std::to_string(i) + ".log"; }

void redirect(int i)
{
    int fd = ::open(log_path(i).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0)
    {
        dup2(fd, 1);
        dup2(fd, 2);
        ::close(fd);
    }
}

std::string describe_status(int st)
{
    if (WIFSIGNALED(st))
        return std::string("terminated by signal ") + strsignal(WTERMSIG(st));
    return "exit code " + std::to_string(WEXITSTATUS(st));
}

// Re-runs one recorded execution in its own process. 0 = passes, 1 = violation, 2 = error
int replay_once(const scenario& sc, const std::vector<std::uint16_t>& value,
                const std::vector<std::uint16_t>& bound, std::string& message, std::string& log,
                int limit_s)
{
    me = &shm->shard[max_shards - 1];
    std::memset((void*)me, 0, sizeof *me);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        redirect(max_shards - 1);
        opt_replay = true;
        cur_shard_depth = INT_MAX;
        prefix_value = value;
        prefix_bound = bound;
        shard_index = max_shards - 1;
        execute(sc);
        std::fflush(nullptr);
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    bool hung = false;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (now() - t0 > limit_s)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hung = true;
            break;
        }
        usleep(2000);
    }
    log = read_tail(log_path(max_shards - 1), 20000);
    if (hung)
    {
        message = "execution does not terminate (no progress for " + std::to_string(limit_s) + " s)";
        return 1;
    }
    if (me->failed)
    {
        message = me->message;
        return 1;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return 0;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 30 || WEXITSTATUS(st) == 31))
    {
        message = "engine error: " + describe_status(st);
        return 2;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
    {
        message = "killed from outside";
        return 2;
    }
    message = "process died: " + describe_status(st);
    return 1;
}

result run_scenario(const scenario& sc, double deadline)
{
    result res;
    for (int i = 0; i < max_shards; ++i)
        std::memset((void*)&shm->shard[i], 0, sizeof(shard_mem));
    shm->stop.store(0);
    if (madvise((void*)shm->claims, claims_size, MADV_REMOVE) != 0)
        std::memset((void*)shm->claims, 0, claims_size);
    std::fflush(nullptr);

    std::vector<pid_t> pids(n_shards);
    std::vector<double> last(n_shards, now());
    std::vector<std::uint64_t> seen(n_shards, 0);
    for (int i = 0; i < n_shards; ++i)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            redirect(i);
            child_main(sc, i, deadline);
        }
        pids[i] = pid;
    }
    int alive = n_shards;
    int culprit = -1, culprit_status = 0;
    bool culprit_hung = false;
    while (alive > 0)
    {
        int st = 0;
        pid_t r = waitpid(-1, &st, WNOHANG);
        if (r > 0)
        {
            for (int i = 0; i < n_shards; ++i)
                if (pids[i] == r)
                {
                    pids[i] = 0;
                    --alive;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && culprit < 0)
                    {
                        culprit = i;
                        culprit_status = st;
                        shm->stop.store(1);
                    }
                }
            continue;
        }
        double t = now();
        for (int i = 0; i < n_shards; ++i)
        {
            if (!pids[i])
                continue;
            auto p = shm->shard[i].progress.load();
            if (p != seen[i])
            {
                seen[i] = p;
                last[i] = t;
            }
            else if (t - last[i] > sc.hang_s)
            {
                if (culprit < 0)
                {
                    culprit = i;
                    culprit_hung = true;
                    shm->stop.store(1);
                }
                kill(pids[i], SIGKILL);
                last[i] = t;
            }
        }
        usleep(1000);
    }
    for (int i = 0; i < n_shards; ++i)
    {
        auto& s = shm->shard[i];
        res.traces += s.traces;
        res.transitions += s.transitions;
        res.skipped += s.skipped;
        for (int c = 0; c < max_counters; ++c)
            res.counters[c] += s.counters[c];
        if (s.max_len > res.max_len)
            res.max_len = s.max_len;
        if (s.timed_out)
            res.exhaustive = false;
    }
    if (culprit >= 0)
    {
        auto& s = shm->shard[culprit];
        int n = s.n_choices.load();
        res.value.assign(s.value, s.value + n);
        res.bound.assign(s.bound, s.bound + n);
        std::string first_message = s.failed ? s.message
                                    : culprit_hung
                                        ? "execution does not terminate"
                                        : "process died: " + describe_status(culprit_status);
        std::string first_log = read_tail(log_path(culprit), 12000);
        if (!s.failed && !culprit_hung &&
            ((WIFEXITED(culprit_status) &&
              (WEXITSTATUS(culprit_status) == 30 || WEXITSTATUS(culprit_status) == 31)) ||
             (WIFSIGNALED(culprit_status) && WTERMSIG(culprit_status) == SIGKILL)))
        {
            res.error = true;
            res.message = first_message;
            res.log = first_log;
            return res;
        }
        std::string m, l;
        int rc = replay_once(sc, res.value, res.bound, m, l, culprit_hung ? 90 : 120);
        if (rc == 1)
        {
            res.violated = true;
            res.message = m;
            res.log = l;
        }
        else if (rc == 0 && !culprit_hung)
        {
            // An isolated re-run passes: the failure depends on earlier executions in the same
            // process (state that leaked from one execution into the next). Confirm by running
            // the whole shard again from the start in one process.
            res.violated = true;
            res.message = first_message + " [fails only after earlier executions in the process]";
            res.log = first_log;
        }
        else if (s.failed)
        {
            // The oracle failed on a real execution, but an isolated re-run takes another course:
            // the code under test does not behave the same way twice.
            res.violated = true;
            res.message = first_message + " [an isolated re-run differs: " + m + "]";
            res.log = first_log;
        }
        else
        {
            res.error = true;
            res.message = m.empty() ? "unconfirmed: " + first_message : m;
            res.log = first_log + l;
        }
    }
    return res;
}

std::string jstr(const std::string& s)
{
    std::string r = "\"";
    char t[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
            (r += '\\') += (char)c;
        else if (c == '\n')
            r += "\\n";
        else if (c >= 0x20 && c < 0x7f)
            r += (char)c;
        else
        {
            std::snprintf(t, sizeof t, "\\u%04x", c);
            r += t;
        }
    }
    return r + "\"";
}
template <typename V>
std::string jarr(const V& v)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}
} // namespace

// usage: harness PROP OUT.json [--thorough] [--shards N] [--cap S] [--tmp DIR] [--scenario NAME]
//        harness PROP OUT.json --replay SCENARIO v,v,v b,b,b
int run(int argc, char** argv)
{
    if (argc < 3)
    {
        for (auto& p : registry())
            for (auto& s : p.scenarios)
                std::printf("%s %s%s\n", p.id.c_str(), s.name.c_str(), s.quick ? "" : " (thorough)");
        return 2;
    }
    std::string id = argv[1], out = argv[2], only, rep_s, rep_v, rep_b;
    tmp_dir = ".";
    for (int i = 3; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--thorough") opt_thorough = true;
        else if (a == "--shards") n_shards = std::atoi(argv[++i]);
        else if (a == "--cap") opt_cap_s = std::atof(argv[++i]);
        else if (a == "--tmp") tmp_dir = argv[++i];
        else if (a == "--scenario") only = argv[++i];
        else if (a == "--replay") { rep_s = argv[++i]; rep_v = argv[++i]; rep_b = argv[++i]; }
    }
    if (n_shards > max_shards - 1)
        n_shards = max_shards - 1;
    shm = static_cast<shared_mem*>(mmap(nullptr, sizeof(shared_mem), PROT_READ | PROT_WRITE,
                                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (shm == MAP_FAILED)
    {
        std::perror("mmap");
        return 2;
    }
    me = &shm->shard[0];
    current_property = id;
    const property* prop = nullptr;
    for (auto& p : registry())
        if (p.id == id)
            prop = &p;
    if (!prop)
    {
        std::fprintf(stderr, "unknown property %s\n", id.c_str());
        return 2;
    }
    if (!rep_s.empty())
    {
        auto parse = [](const std::string& s) {
            std::vector<std::uint16_t> v;
            const char* p = s.c_str();
            while (*p)
            {
                char* e;
                unsigned long x = std::strtoul(p, &e, 10);
                if (e == p) break;
                v.push_back((std::uint16_t)x);
                p = *e == ',' ? e + 1 : e;
            }
            return v;
        };
        for (auto& s : prop->scenarios)
            if (s.name == rep_s)
            {
                std::string m, l;
                int rc = replay_once(s, parse(rep_v), parse(rep_b), m, l, 120);
                std::printf("%s\nreplay result: %d %s\n", l.c_str(), rc, m.c_str());
                return rc;
            }
        return 2;
    }

    double t0 = now();
    double deadline = t0 + opt_cap_s;
    std::string scen_json, samples;
    std::uint64_t traces = 0, transitions = 0;
    bool exhaustive = true, violated = false, error = false;
    std::string vio;
    std::uint64_t total_counters[max_counters] = {};
    bool first = true, first_sample = true;
    for (auto& s : prop->scenarios)
    {
        if (!only.empty() && s.name != only)
            continue;
        if (!opt_thorough && !s.quick)
            continue;
        double ts = now();
        auto before_states = shm->states.load();
        auto r = run_scenario(s, deadline);
        if (r.error && r.message.rfind("unconfirmed", 0) == 0)
        {
            // a slow machine, not a hang: the recorded execution finishes on its own
            auto slow = s;
            slow.hang_s *= 4;
            r = run_scenario(slow, deadline);
        }
        for (int c = 0; c < max_counters; ++c)
            total_counters[c] += r.counters[c];
        if (!r.violated && !r.error && r.traces == 0)
        {
            r.error = true;
            r.message = "vacuous: scenario ran no execution";
        }
        traces += r.traces;
        transitions += r.transitions;
        exhaustive = exhaustive && r.exhaustive;
        char buf[512];
        std::snprintf(buf, sizeof buf,
                      "{\"scenario\":%s,\"traces\":%llu,\"transitions\":%llu,\"new_states\":%llu,"
                      "\"max_choices\":%llu,\"pruned\":%llu,\"exhaustive\":%s,\"wall_s\":%.2f}",
                      jstr(s.name).c_str(), (unsigned long long)r.traces,
                      (unsigned long long)r.transitions,
                      (unsigned long long)(shm->states.load() - before_states),
                      (unsigned long long)r.max_len, (unsigned long long)r.skipped,
                      r.exhaustive ? "true" : "false", now() - ts);
        scen_json += (first ? "" : ",\n  ") + std::string(buf);
        first = false;
        std::printf("%s\n", buf);
        std::fflush(stdout);
        int per_scenario = 0;
        for (int i = 0; i < n_shards; ++i)
            for (int k = 0; k < shm->shard[i].n_samples && per_scenario < 3; ++k, ++per_scenario)
            {
                samples += (first_sample ? "" : ",\n  ") +
                           jstr(s.name + ": " + shm->shard[i].samples[k]);
                first_sample = false;
            }
        if (r.violated || r.error)
        {
            violated = r.violated;
            error = r.error;
            vio = "{\"scenario\":" + jstr(s.name) + ",\"message\":" + jstr(r.message) +
                  ",\"choices\":" + jarr(r.value) + ",\"bounds\":" + jarr(r.bound) +
                  ",\"log\":" + jstr(r.log) + "}";
            std::printf("%s in %s: %s\n", r.violated ? "violation" : "ERROR", s.name.c_str(),
                        r.message.c_str());
            if (r.error)
                std::printf("%s\n", r.log.c_str());
            break;
        }
    }
    std::string counters = "{";
    for (int i = 0; i < shm->n_counters.load(); ++i)
        counters += (i ? "," : "") + jstr(shm->counter_names[i]) + ":" +
                    std::to_string(total_counters[i]);
    counters += "}";
    FILE* f = std::fopen(out.c_str(), "w");
    if (!f)
        return 2;
    std::fprintf(f,
                 "{\"property\":%s,\"traces\":%llu,\"transitions\":%llu,\"states\":%llu,"
                 "\"outcomes\":%llu,\n \"exhaustive\":%s,\"violated\":%s,\"error\":%s,\n "
                 "\"counters\":%s,\n \"scenarios\":[%s],\n \"samples\":[%s],\n \"violation\":%s,"
                 "\"wall_s\":%.2f}\n",
                 jstr(id).c_str(), (unsigned long long)traces, (unsigned long long)transitions,
                 (unsigned long long)shm->states.load(), (unsigned long long)shm->outcomes.load(),
                 exhaustive ? "true" : "false", violated ? "true" : "false",
                 error ? "true" : "false", counters.c_str(), scen_json.c_str(), samples.c_str(),
                 vio.empty() ? "null" : vio.c_str(), now() - t0);
    std::fclose(f);
    return violated ? 1 : error ? 3 : 0;
}
} // namespace mc

int main(int argc, char** argv) { return mc::run(argc, argv); }
