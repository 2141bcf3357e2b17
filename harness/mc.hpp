// Stateless explicit exploration core used by every harness in /verif.
//
// A scenario body is an ordinary function.  Every source of nondeterminism (which
// operation comes next, which argument, which thread runs, which system call
// fails) goes through mc::choose(n).  The engine runs the body once for every
// possible sequence of choices: depth-first, complete, no sampling.  Work is
// split over forked processes by claiming choice prefixes in a shared table, so
// a crash, a sanitizer report or a hang of one execution is caught by the parent
// together with the exact choice sequence that caused it.
#pragma once

#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// ---- used inside scenario bodies -------------------------------------------
int choose(int n, const char* what = nullptr);   // 0..n-1, enumerated exhaustively
bool deciding(const char* property_id);           // is this the property being decided?
bool thorough();                                  // tier selected on the command line
bool replaying();                                 // a single recorded case is being re-run
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // trace, replay only
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void transition(std::uint64_t n = 1);             // an implementation step compared with the model
void trace(std::uint64_t n = 1);                  // further complete cases inside one execution
void state(std::uint64_t hash);                   // canonical state / observation reached
void outcome(std::uint64_t hash);                 // distinct end-to-end observation of an execution
void sample(const std::string& text);             // keep a few written-out cases
bool want_sample();
void count(const char* name, std::uint64_t n = 1);  // named vacuity counters (max 16 names)
void progress();                                  // tell the watchdog a long body is alive
[[noreturn]] void skip();                         // abandon this execution (not counted as a trace)

#define MC_CHECK(cond, ...)                                                    \
    do {                                                                       \
        if (!(cond)) ::mc::fail(__VA_ARGS__);                                  \
    } while (0)

// FNV-1a based hashing helpers for canonical states (independent of the code under test)
struct hasher
{
    std::uint64_t h = 1469598103934665603ull;
    hasher& bytes(const void* p, std::size_t n)
    {
        auto c = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i < n; ++i)
            h = (h ^ c[i]) * 1099511628211ull;
        h ^= h >> 29;
        return *this;
    }
    hasher& u(std::uint64_t v) { return bytes(&v, sizeof v); }
    hasher& s(const std::string& v) { return u(v.size()).bytes(v.data(), v.size()); }
    operator std::uint64_t() const { return h; }
};
std::string hex(const std::string& bytes);
std::string printable(const std::string& bytes);

// ---- declaring scenarios ----------------------------------------------------
struct scenario
{
    std::string name;
    std::function<void()> body;
    int shard_depth = 2;      // number of leading choices used as work units
    bool quick = true;        // part of the quick tier
    int hang_s = 40;          // watchdog: no progress for that long is a hang
};
struct property
{
    std::string id;
    std::vector<scenario> scenarios;
};
void add(const char* property_id, scenario s);
int run(int argc, char** argv);

struct registrar
{
    registrar(const char* id, const char* name, std::function<void()> body, int shard_depth = 2,
              bool quick = true, int hang_s = 40)
    {
        add(id, scenario{name, std::move(body), shard_depth, quick, hang_s});
    }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(id, name, ...) \
    static ::mc::registrar MC_CAT(mc_reg_, __COUNTER__){id, name, __VA_ARGS__}

} // namespace mc
