// C28: file views against a fault-injecting system interface.
//
// The system calls a file view can make are routed (ld --wrap) through stand-ins that count live descriptors and
// mappings and can make the k-th call of a construction fail with a chosen errno.
#include "mc.hpp"
#include "kl/file_view.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <system_error>
#include <unistd.h>
#include <vector>

namespace sys {
bool active = false;
bool blind = false;   // inside a stand-in
int calls = 0;        // fallible calls since begin()
int fail_at = -1, fail_errno = 0;
int close_errno = 0;  // errno left behind by close (0: untouched); close always releases the descriptor
bool injected = false;
std::string injected_call;
std::set<int> fds;
std::map<char*, std::size_t> maps;

void begin(int k, int e)
{
    calls = 0;
    fail_at = k;
    fail_errno = e;
    injected = false;
    injected_call.clear();
    active = true;
}
bool inject(const char* name)
{
    if (!active)
        return false;
    mc::transition();
    if (calls++ == fail_at)
    {
        injected = true;
        injected_call = name;
        errno = fail_errno;
        return true;
    }
    return false;
}
int opened(int fd)
{
    if (active && fd >= 0)
        fds.insert(fd);
    return fd;
}
} // namespace sys

extern "C" {
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_openat(int, const char*, int, ...);
int __real_close(int);
int __real_fstat(int, struct stat*);
int __real_fstat64(int, struct stat64*);
int __real_stat(const char*, struct stat*);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
off_t __real_lseek(int, off_t, int);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_mmap64(void*, size_t, int, int, int, off64_t);
int __real_munmap(void*, size_t);

static int mode_arg(int flags, va_list ap) { return flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0; }
int __wrap_open(const char* p, int f, ...)
{
    va_list ap;
    va_start(ap, f);
    int m = mode_arg(f, ap);
    va_end(ap);
    return sys::inject("open") ? -1 : sys::opened(__real_open(p, f, m));
}
int __wrap_open64(const char* p, int f, ...)
{
    va_list ap;
    va_start(ap, f);
    int m = mode_arg(f, ap);
    va_end(ap);
    return sys::inject("open") ? -1 : sys::opened(__real_open64(p, f, m));
}
int __wrap_openat(int d, const char* p, int f, ...)
{
    va_list ap;
    va_start(ap, f);
    int m = mode_arg(f, ap);
    va_end(ap);
    return sys::inject("open") ? -1 : sys::opened(__real_openat(d, p, f, m));
}
int __wrap_close(int fd)
{
    if (sys::active)
    {
        if (!sys::fds.erase(fd))
            mc::fail("close(%d): not a descriptor the view has open", fd);
        mc::transition();
    }
    int r = __real_close(fd);
    if (sys::active && sys::close_errno)
    {
        errno = sys::close_errno;
        return -1;
    }
    return r;
}
static void need_fd(const char* what, int fd)
{
    if (sys::active && !sys::fds.count(fd))
        mc::fail("%s on descriptor %d, which the view does not have open", what, fd);
}
int __wrap_fstat(int fd, struct stat* s)
{
    need_fd("fstat", fd);
    return sys::inject("fstat") ? -1 : __real_fstat(fd, s);
}
int __wrap_fstat64(int fd, struct stat64* s)
{
    need_fd("fstat", fd);
    return sys::inject("fstat") ? -1 : __real_fstat64(fd, s);
}
int __wrap_stat(const char* p, struct stat* s) { return sys::inject("stat") ? -1 : __real_stat(p, s); }
ssize_t __wrap_read(int fd, void* b, size_t n)
{
    need_fd("read", fd);
    return sys::inject("read") ? -1 : __real_read(fd, b, n);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
{
    need_fd("pread", fd);
    return sys::inject("pread") ? -1 : __real_pread(fd, b, n, o);
}
off_t __wrap_lseek(int fd, off_t o, int w)
{
    need_fd("lseek", fd);
    return sys::inject("lseek") ? -1 : __real_lseek(fd, o, w);
}
static void* mapped(void* p, size_t n)
{
    if (sys::active && p != MAP_FAILED)
        sys::maps[static_cast<char*>(p)] = n;
    return p;
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o)
{
    if (!(fl & MAP_ANONYMOUS))
        need_fd("mmap", fd);
    return sys::inject("mmap") ? MAP_FAILED : mapped(__real_mmap(a, n, pr, fl, fd, o), n);
}
void* __wrap_mmap64(void* a, size_t n, int pr, int fl, int fd, off64_t o)
{
    if (!(fl & MAP_ANONYMOUS))
        need_fd("mmap", fd);
    return sys::inject("mmap") ? MAP_FAILED : mapped(__real_mmap64(a, n, pr, fl, fd, o), n);
}
int __wrap_munmap(void* p, size_t n)
{
    if (sys::active)
    {
        mc::transition();
        auto i = sys::maps.find(static_cast<char*>(p));
        // lengths are rounded up to whole pages by the system
        auto pages = [](std::size_t x) { return (x + 4095) / 4096; };
        if (i == sys::maps.end() || pages(i->second) != pages(n))
            mc::fail("munmap(%s, %zu): %s", i == sys::maps.end() ? "?" : "mapping", n, i == sys::maps.end() ? "no such mapping is live" : ("the mapping has " + std::to_string(i->second) + " bytes").c_str());
        sys::maps.erase(i);
    }
    return __real_munmap(p, n);
}
}

namespace {

std::string scratch()
{
    const char* s = std::getenv("KLMC_SCRATCH");
    static std::string dir = [s] {
        std::string d = (s ? std::string(s) : std::string("/tmp")) + "/fv." + std::to_string(getpid());
        mkdir(d.c_str(), 0700);
        return d;
    }();
    return dir;
}
const std::size_t sizes[] = {0, 1, 2, 4095, 4096, 4097, 8192, 8193, 65536, 100000};
constexpr int n_sizes = 10;

std::string pattern(std::size_t n, int salt)
{
    std::string s(n, 0);
    for (std::size_t i = 0; i < n; ++i)
        s[i] = (char)((i * 131 + i / 256 + salt * 17) & 0xff);
    return s;
}
std::string make_file(const std::string& name, const std::string& data)
{
    std::string p = scratch() + "/" + name;
    FILE* f = std::fopen(p.c_str(), "wb");
    if (!f)
    {
        std::fprintf(stderr, "cannot write %s\n", p.c_str());
        _exit(40);
    }
    std::fwrite(data.data(), 1, data.size(), f);
    std::fclose(f);
    return p;
}
std::string the_file(int k)   // created once per process
{
    static std::map<int, std::string> made;
    auto& p = made[k];
    if (p.empty())
        p = make_file("file" + std::to_string(k), pattern(sizes[k], k));
    return p;
}

int open_fds()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}
int maps_of(const std::string& path)
{
    int n = 0;
    FILE* f = std::fopen("/proc/self/maps", "r");
    char line[4096];
    while (f && std::fgets(line, sizeof line, f))
        if (std::strstr(line, path.c_str()))
            ++n;
    if (f)
        std::fclose(f);
    return n;
}

void check_bytes(const kl::file_view& v, const std::string& want, const char* when)
{
    auto b = v.get_bytes();
    MC_CHECK((std::size_t)b.size() == want.size(), "%s: the view has %zu bytes, the file %zu", when, (std::size_t)b.size(), want.size());
    MC_CHECK(want.empty() || std::memcmp(b.data(), want.data(), want.size()) == 0, "%s: the view's bytes are not the file's", when);
    mc::transition();
}
void nothing_left(const char* when)
{
    MC_CHECK(sys::fds.empty(), "%s: a file descriptor stays open", when);
    MC_CHECK(sys::maps.empty(), "%s: a mapping stays behind", when);
}

// One construction with (at most) one failing call: every call, several error codes, every file.
MC_SCENARIO("C28", "every system call fails", [] {
    static const int codes[] = {EACCES, EIO, ENOMEM, EMFILE, ENOENT, EAGAIN, EOVERFLOW, EINTR};
    int k = mc::choose(n_sizes, "file");
    int at = mc::choose(8, "failing call");
    int code = codes[mc::choose(8, "error")];
    int ce = mc::choose(2, "close fails") ? EBADF : 0;
    if (code == EINTR && at >= 0 && mc::replaying())
        mc::note("interrupted");
    std::string path = the_file(k);
    std::string want = pattern(sizes[k], k);
    int fds0 = open_fds(), maps0 = maps_of(path);
    sys::fds.clear();
    sys::maps.clear();
    sys::close_errno = ce;
    sys::begin(at, code);
    bool threw = false;
    try
    {
        kl::file_view v{path.c_str()};
        sys::fail_at = -1;
        mc::note("constructed after %d calls", sys::calls);
        // A failed call may only be survived if the view is right all the same (e.g. a retry).
        check_bytes(v, want, "after construction");
        MC_CHECK(sys::fds.empty(), "a constructed view keeps its descriptor");
    }
    catch (const std::system_error& e)
    {
        threw = true;
        MC_CHECK(sys::injected, "a file of %zu bytes is refused although no call failed: %s", sizes[k], e.what());
        MC_CHECK(e.code().value() == code && e.code().category() == std::system_category(), "%s failed with errno %d (close leaves %d), the exception says %d", sys::injected_call.c_str(), code, ce, e.code().value());
    }
    nothing_left(threw ? "after a failed construction" : "after destruction");
    sys::active = false;
    sys::close_errno = 0;
    MC_CHECK(open_fds() == fds0, "descriptors before %d, after %d", fds0, open_fds());
    MC_CHECK(maps_of(path) == maps0, "mappings of the file stay behind");
    if (sys::injected && !threw && sys::injected_call != "close" && code != EINTR && code != EAGAIN)
        mc::count("survived faults");
    mc::count(threw ? "failed constructions" : "successful constructions");
    mc::state(mc::hasher{}.u(k).s(sys::injected_call).u(code).u(ce));
    mc::outcome(mc::hasher{}.u(threw).s(sys::injected_call).u(k == 0));
});

// Histories of several views over several files, opened, closed, read, and with the files changed meanwhile.
MC_SCENARIO("C28", "several views", [] {
    constexpr int slots = 3;
    const int kinds[] = {0, 1, 4, 5};
    std::unique_ptr<kl::file_view> v[slots];
    int what[slots] = {-1, -1, -1};
    int fds0 = open_fds();
    sys::fds.clear();
    sys::maps.clear();
    sys::begin(-1, 0);
    int steps = mc::thorough() ? 6 : 5;
    for (int s = 0; s < steps; ++s)
    {
        int op = mc::choose(4, "operation");
        if (op == 3)
            break;
        int i = mc::choose(slots, "view");
        if (op == 0)
        {
            if (v[i])
                mc::skip();
            int k = kinds[mc::choose(4, "file")];
            v[i] = std::make_unique<kl::file_view>(the_file(k).c_str());
            what[i] = k;
        }
        else if (op == 1)
        {
            if (!v[i])
                mc::skip();
            v[i].reset();
            what[i] = -1;
        }
        else   // a refused construction in between
        {
            if (v[i])
                mc::skip();
            sys::begin(i, EIO);
            try
            {
                kl::file_view x{the_file(5).c_str()};
                mc::fail("call %d failed but the view was constructed", i);
            }
            catch (const std::system_error&)
            {
            }
            sys::begin(-1, 0);
        }
        mc::transition();
        for (int j = 0; j < slots; ++j)
            if (v[j])
                check_bytes(*v[j], pattern(sizes[what[j]], what[j]), "among other views");
        MC_CHECK(sys::fds.empty(), "a descriptor stays open");
        std::set<const void*> distinct;
        int live = 0;
        for (int j = 0; j < slots; ++j)
            if (v[j] && sizes[what[j]])
                distinct.insert(v[j]->get_bytes().data()), ++live;
        MC_CHECK((int)distinct.size() == live, "two live views share storage");
        MC_CHECK((int)sys::maps.size() <= live, "%zu mappings for %d views", sys::maps.size(), live);
        mc::state(mc::hasher{}.u(what[0]).u(what[1]).u(what[2]));
    }
    for (auto& x : v)
        x.reset();
    nothing_left("at the end");
    sys::active = false;
    MC_CHECK(open_fds() == fds0, "descriptors leak");
});

// Real files of every size around the page boundaries, and things that are not files.
MC_SCENARIO("C28", "file sizes", [] {
    int part = mc::choose(41, "size");
    std::size_t base = (part / 8) * 4096;
    std::size_t n = part == 40 ? 1 << 20 : base + (std::size_t[]){0, 1, 2, 3, 100, 2048, 4094, 4095}[part % 8];
    std::string data = pattern(n, part);
    std::string path = make_file("size", data);
    {
        kl::file_view v{path.c_str()};
        check_bytes(v, data, "a file of some size");
        // the view outlives the name of the file
        unlink(path.c_str());
        check_bytes(v, data, "after the file was removed");
        auto w = std::string(reinterpret_cast<const char*>(v.get_bytes().data()), v.get_bytes().size());
        MC_CHECK(w == data, "reading again");
    }
    mc::trace();
    mc::count("sizes");
}, 1);

// Files larger than any 16, 24, 31 or 32 bit size: sparse ones, with known bytes at places a truncated size would miss.
MC_SCENARIO("C28", "large files", [] {
    static const unsigned long long big[] = {65535, 65536, 65537, (1ull << 24) - 1, 1ull << 24, (1ull << 24) + 1, (1ull << 31) - 1, 1ull << 31,
                                             (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 4096, 5ull << 30};
    const unsigned long long n = big[mc::choose(14, "size")];
    std::string path = make_file("large", "");
    int fd = ::__real_open(path.c_str(), O_RDWR);
    std::vector<unsigned long long> marks{0, 1, 4095, 4096, n / 2, n - 2, n - 1};
    bool made = fd >= 0 && ::ftruncate(fd, (off_t)n) == 0;
    for (auto m : marks)
    {
        char c = char('A' + m % 23);
        made = made && ::pwrite(fd, &c, 1, (off_t)m) == 1;
    }
    if (fd >= 0)
        ::__real_close(fd);
    if (!made)
    {
        ::unlink(path.c_str());
        mc::count("large files the file system refuses");
        mc::skip();
    }
    int fds0 = open_fds();
    {
        std::optional<kl::file_view> v;
        sys::fds.clear();
        sys::maps.clear();
        sys::begin(-1, 0);
        try
        {
            v.emplace(path.c_str());
        }
        catch (const std::system_error&)
        {
            sys::active = false;
            // no room for it: an honest answer, but nothing may stay behind
            nothing_left("a large file was refused");
            MC_CHECK(n > (1ull << 31), "a file of %llu bytes was refused", n);
            mc::count("large files refused");
        }
        sys::active = false;
        ::unlink(path.c_str());
        if (v)
        {
            auto b = v->get_bytes();
            MC_CHECK((unsigned long long)b.size() == n, "the view has %zu bytes, the file %llu", (std::size_t)b.size(), n);
            for (auto m : marks)
                MC_CHECK((char)b[m] == char('A' + m % 23), "byte %llu of %llu is wrong", m, n);
            MC_CHECK(b[n / 3] == std::byte{} && b[n - 3] == std::byte{}, "bytes never written are not 0");
            sys::active = true;
            v.reset();
            nothing_left("a large file's view is gone");
            sys::active = false;
        }
    }
    MC_CHECK(maps_of(path) == 0, "a large mapping stays behind");
    MC_CHECK(open_fds() == fds0, "descriptors leak");
    mc::state(mc::hasher{}.u(n));
    mc::outcome(mc::hasher{}.u(n));
    mc::progress();
}, 1);

MC_SCENARIO("C28", "what cannot be viewed", [] {
    int k = mc::choose(6, "path");
    std::string missing = scratch() + "/missing", dir = scratch();
    std::string loop = scratch() + "/loop";
    symlink(loop.c_str(), loop.c_str());
    std::string link = scratch() + "/link";
    symlink(the_file(3).c_str(), link.c_str());
    struct
    {
        std::string path;
        int code;
    } c[] = {{missing, ENOENT}, {dir, -1}, {loop, ELOOP}, {"", ENOENT}, {the_file(1) + "/x", ENOTDIR}, {std::string(5000, 'x'), ENAMETOOLONG}};
    int fds0 = open_fds();
    bool threw = false;
    try
    {
        kl::file_view v{c[k].path.c_str()};
    }
    catch (const std::system_error& e)
    {
        threw = true;
        MC_CHECK(c[k].code < 0 || e.code().value() == c[k].code, "case %d: error %d, expected %d", k, e.code().value(), c[k].code);
    }
    MC_CHECK(threw, "case %d is viewed without complaint", k);
    {
        kl::file_view v{link.c_str()};
        check_bytes(v, pattern(sizes[3], 3), "through a symbolic link");
    }
    MC_CHECK(open_fds() == fds0, "descriptors leak");
    unlink(loop.c_str());
    unlink(link.c_str());
    mc::transition();
}, 1);

// Copies, if the type allows them, must not unmap the same range twice.
template <typename V> void copies()
{
    int k = mc::choose(2, "file") ? 5 : 0;
    sys::fds.clear();
    sys::maps.clear();
    sys::begin(-1, 0);
    {
        V v{the_file(k).c_str()};
        if constexpr (std::is_copy_constructible_v<V>)
        {
            V w{v};
            check_bytes(w, pattern(sizes[k], k), "a copy");
        }
        check_bytes(v, pattern(sizes[k], k), "the original after its copy is gone");
        if constexpr (std::is_move_constructible_v<V>)
        {
            V w{std::move(v)};
            check_bytes(w, pattern(sizes[k], k), "a moved view");
        }
        if constexpr (std::is_copy_assignable_v<V>)
        {
            V w{the_file(3).c_str()};
            w = v;
        }
    }
    nothing_left("after copies");
    sys::active = false;
    mc::trace();
}
MC_SCENARIO("C28", "copies and moves", copies<kl::file_view>, 1);

} // namespace
