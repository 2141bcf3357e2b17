// C25 (tokenizing and joining), C29 (hash functions).
#include "mc.hpp"
#include "kl/hash.hpp"
#include "kl/split.hpp"
#include "kl/stream_join.hpp"

#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace {

// ---------------------------------------------------------------------------- C25: tokens
using tokens = std::vector<std::string>;

// The maximal delimiter-free stretches between delimiters, the one after a trailing delimiter not counted.
tokens ref_tokens(const std::string& s, const std::string& delims)
{
    tokens out;
    std::string cur;
    bool open = false;
    for (char c : s)
    {
        bool is = false;
        for (char d : delims)
            is |= d == c;
        if (is)
        {
            out.push_back(cur);
            cur.clear();
            open = false;
        }
        else
        {
            cur += c;
            open = true;
        }
    }
    if (open)
        out.push_back(cur);
    return out;
}
std::string show(const tokens& t)
{
    std::string s = "{";
    for (auto& x : t)
        s += "\"" + mc::printable(x) + "\" ";
    return s + "}";
}

struct exact    // exactly sized copy without terminator
{
    explicit exact(const std::string& s) : p{new char[s.size()]}, n{s.size()} { std::memcpy(p.get(), s.data(), n); }
    std::string_view view() const { return {p.get(), n}; }
    std::unique_ptr<char[]> p;
    std::size_t n;
};

void check_split(const std::string& s, const std::string& d)
{
    tokens all = ref_tokens(s, d), some;
    for (auto& t : all)
        if (!t.empty())
            some.push_back(t);
    exact es{s}, ed{d};
    std::list<char> ls(s.begin(), s.end());
    std::vector<char> vd(d.begin(), d.end());
    struct
    {
        const char* how;
        tokens got;
        const tokens& want;
    } r[] = {
        {"split(string, string)", kl::split(s, d), some},
        {"split(view, view)", kl::split(es.view(), ed.view()), some},
        {"split(view, view, true)", kl::split(es.view(), ed.view(), true), some},
        {"split(view, view, false)", kl::split(es.view(), ed.view(), false), all},
        {"split(string, vector, false)", kl::split(s, vd, false), all},
        {"split(list, string)", kl::split(ls, d), some},
        {"split(list, list, false)", kl::split(ls, std::list<char>(d.begin(), d.end()), false), all},
    };
    for (auto& x : r)
    {
        mc::transition();
        MC_CHECK(x.got == x.want, "%s of \"%s\" by \"%s\": %s, expected %s", x.how, mc::printable(s).c_str(), mc::printable(d).c_str(), show(x.got).c_str(), show(x.want).c_str());
    }
    // for_each_token hands out the tokens' own positions, in order
    tokens got;
    const char* b = es.view().data();
    const char* last = b;
    kl::for_each_token(b, b + s.size(), ed.view().begin(), ed.view().end(), [&](const char* f, const char* l) {
        MC_CHECK(f >= last && l >= f && l <= b + s.size(), "for_each_token of \"%s\" by \"%s\" gives the range [%td, %td)", mc::printable(s).c_str(), mc::printable(d).c_str(), f - b, l - b);
        last = l;
        got.emplace_back(f, l);
    });
    mc::transition();
    MC_CHECK(got == all, "for_each_token of \"%s\" by \"%s\": %s, expected %s", mc::printable(s).c_str(), mc::printable(d).c_str(), show(got).c_str(), show(all).c_str());
    mc::trace();
    mc::count(all.size() != some.size() ? "texts with empty tokens" : "texts without empty tokens");
    mc::state(mc::hasher{}.s(s).s(d));
}

void split_texts()
{
    static const std::string delims[] = {",", ",;", ";,", "", " ", "a", ",,", std::string("\0", 1), std::string(",\0", 2), "\xff", "abc,; "};
    static const char alpha[] = {'a', ',', ';', 'b', '\0', '\xff', ' '};
    int nd = sizeof delims / sizeof delims[0];
    const std::string& d = delims[mc::choose(nd, "delimiters")];
    int na = 7;
    int c0 = mc::choose(na + 1, "first character");
    if (c0 == na)
    {
        check_split("", d);
        return;
    }
    std::string s(1, alpha[c0]);
    int maxlen = mc::thorough() ? 6 : 5;
    std::function<void()> rec = [&] {
        check_split(s, d);
        if ((int)s.size() == maxlen)
            return;
        for (int i = 0; i < na; ++i)
        {
            s.push_back(alpha[i]);
            rec();
            s.pop_back();
        }
    };
    rec();
}
MC_SCENARIO("C25", "split: all short texts", split_texts);

MC_SCENARIO("C25", "split: long texts of few characters", [] {
    static const std::string delims[] = {",", ",;"};
    const std::string& d = delims[mc::choose(2, "delimiters")];
    int hi = mc::choose(64, "leading characters");
    int rest = mc::thorough() ? 8 : 6;
    std::string s;
    for (int k = 0; k < 3; ++k)
        s += "a,;b"[(hi >> (2 * k)) & 3];
    std::function<void(int)> rec = [&](int left) {
        check_split(s, d);
        if (!left)
            return;
        for (char c : {'a', ',', ';'})
        {
            s.push_back(c);
            rec(left - 1);
            s.pop_back();
        }
    };
    rec(rest);
});

MC_SCENARIO("C25", "split: any byte as delimiter and as text", [] {
    int d = mc::choose(256, "delimiter byte");
    for (int c = 0; c < 256; ++c)
    {
        std::string s{(char)c, (char)d, (char)c, (char)c};
        check_split(s, std::string(1, (char)d));
        check_split(std::string{(char)d, (char)c}, std::string{(char)c, (char)d});
    }
}, 1);

MC_SCENARIO("C25", "split: many tokens, long tokens", [] {
    const int n = mc::choose(41, "tokens");
    const int count = n <= 20 ? n : (n - 20) * (n - 20);
    for (int len : {0, 1, 2, 15, 16, 17, 64, 300})
        for (int every : {1, 2, 3, 7, 1000})
            for (const char* d : {",", ",;", "\n\t ,;.", "abcdefgh,"})
            {
                std::string s;
                for (int i = 0; i < count; ++i)
                {
                    s += std::string(i % every ? len : 0, (char)('k' + i % 10));
                    s += i % 3 == 2 && d[1] ? d[1] : d[0];
                }
                check_split(s, d);
                check_split(s + "x", d);
            }
}, 1);

// ---------------------------------------------------------------------------- C25: joining
template <typename C> std::string via_join(const C& c, const char* delim, const char* empty)
{
    std::ostringstream os;
    auto j = kl::stream_join(c);
    if (delim)
        j.set_delimiter(delim);
    if (empty)
        j.set_empty_string(empty);
    auto& ret = (os << j);
    MC_CHECK(static_cast<std::ostream*>(&ret) == &os, "joining does not return the stream");
    std::string first = os.str();
    os << j;   // a joiner can be used again
    MC_CHECK(os.str() == first + first, "using a joiner twice: \"%s\" then \"%s\"", first.c_str(), os.str().c_str());
    return first;
}

template <typename D> void via_out(const tokens& t, D delim, const std::string& want)
{
    // plain use through the algorithm
    std::ostringstream os;
    std::copy(t.begin(), t.end(), kl::make_outstream_joiner(os, delim));
    MC_CHECK(os.str() == want, "outstream_joiner wrote \"%s\", expected \"%s\"", os.str().c_str(), want.c_str());
    // by hand, through * and both increments, and with the iterator copied half way
    std::ostringstream os2;
    auto it = kl::make_outstream_joiner(os2, delim);
    int cut = (int)t.size() / 2, i = 0;
    for (; i < cut; ++i)
    {
        *it = t[i];
        if (i % 2)
            ++it;
        else
            it++;
    }
    auto cp = it;
    for (; i < (int)t.size(); ++i)
        *cp++ = t[i];
    MC_CHECK(os2.str() == want, "outstream_joiner by hand wrote \"%s\", expected \"%s\"", os2.str().c_str(), want.c_str());
    // a second stream: an assigned joiner writes to the stream it was assigned from
    std::ostringstream os3, other;
    auto jt = kl::make_outstream_joiner(other, delim);
    jt = kl::make_outstream_joiner(os3, delim);
    std::copy(t.begin(), t.end(), jt);
    MC_CHECK(os3.str() == want && other.str().empty(), "an assigned outstream_joiner wrote \"%s\" and \"%s\"", os3.str().c_str(), other.str().c_str());
    mc::transition(3);
}

void joins()
{
    static const char* elems[] = {"", "a", ", ", "bc"};
    static const char* delims[] = {nullptr, ", ", "", "--", "a"};
    static const char* empties[] = {nullptr, ".", "", "none"};
    int n = mc::choose(mc::thorough() ? 7 : 6, "length");
    tokens t;
    for (int i = 0; i < n; ++i)
        t.push_back(elems[mc::choose(4, "element")]);
    for (auto delim : delims)
        for (auto empty : empties)
        {
            std::string want;
            std::string D = delim ? delim : ", ";
            if (t.empty())
                want = empty ? empty : ".";
            for (std::size_t i = 0; i < t.size(); ++i)
                want += (i ? D : "") + t[i];
            auto chk = [&](const std::string& got, const char* how) {
                mc::transition();
                MC_CHECK(got == want, "stream_join of a %s of %zu: \"%s\", expected \"%s\"", how, t.size(), got.c_str(), want.c_str());
            };
            chk(via_join(t, delim, empty), "vector");
            chk(via_join(std::list<std::string>(t.begin(), t.end()), delim, empty), "list");
            chk(via_join(std::forward_list<std::string>(t.begin(), t.end()), delim, empty), "forward_list");
            chk(via_join(std::deque<std::string>(t.begin(), t.end()), delim, empty), "deque");
            if (n == 3)
            {
                std::string arr[3] = {t[0], t[1], t[2]};
                chk(via_join(arr, delim, empty), "C array");
                chk(via_join(std::array<std::string, 3>{t[0], t[1], t[2]}, delim, empty), "std::array");
            }
            if (!empty)
            {
                std::string plain;
                for (std::size_t i = 0; i < t.size(); ++i)
                    plain += (i ? D : "") + t[i];
                via_out(t, std::string(D), plain);
                via_out(t, delim ? delim : ", ", plain);
                if (D.size() == 1)
                    via_out(t, D[0], plain);
            }
            mc::trace();
        }
    mc::count(t.empty() ? "empty sequences" : "joined sequences");
    mc::state(mc::hasher{}.s(show(t)));
    if (mc::want_sample())
        mc::sample(show(t));
}
MC_SCENARIO("C25", "joining all short sequences", joins);

MC_SCENARIO("C25", "joining long sequences", [] {
    const int n = mc::choose(41, "length");
    const int count = n <= 20 ? n : (n - 20) * (n - 20);
    tokens t;
    std::vector<int> nums;
    std::string want, want_nums;
    for (int i = 0; i < count; ++i)
    {
        t.push_back(i % 4 == 3 ? "" : std::string(i % 40, (char)('a' + i % 26)));
        nums.push_back(i * 31 - 100);
        want += (i ? "; " : "") + t.back();
        want_nums += (i ? "; " : "") + std::to_string(nums.back());
    }
    if (t.empty())
        want = want_nums = ".";
    mc::transition(4);
    MC_CHECK(via_join(t, "; ", nullptr) == want, "joining %d strings", count);
    MC_CHECK(via_join(std::list<std::string>(t.begin(), t.end()), "; ", nullptr) == want, "joining a list of %d strings", count);
    MC_CHECK(via_join(nums, "; ", nullptr) == want_nums, "joining %d numbers", count);
    if (!t.empty())
        via_out(t, std::string("; "), want);
    // and back
    tokens back = kl::split(want, std::string(";"), false);
    if (count > 1)
        MC_CHECK((int)back.size() == count, "%d joined tokens split into %zu", count, back.size());
}, 1);

// Two joiners on two streams, written to in every order: each keeps its own "first" state.
MC_SCENARIO("C25", "interleaved joiners", [] {
    std::ostringstream os[2];
    std::string want[2];
    auto j0 = kl::make_outstream_joiner(os[0], std::string("|"));
    auto j1 = kl::make_outstream_joiner(os[1], std::string("+"));
    int n = mc::thorough() ? 8 : 6;
    bool first[2] = {true, true};
    for (int k = 0; k < n; ++k)
    {
        int op = mc::choose(4, "operation");
        if (op == 3)
            break;
        int w = op == 1;
        if (op == 2)   // replace joiner 0 by a copy of itself
        {
            auto c = j0;
            j0 = std::move(c);
            continue;
        }
        (w ? (void)(*j1++ = k) : (void)(*j0++ = k));
        want[w] += (first[w] ? "" : w ? "+" : "|") + std::to_string(k);
        first[w] = false;
        mc::transition();
        for (int q = 0; q < 2; ++q)
            MC_CHECK(os[q].str() == want[q], "stream %d holds \"%s\", expected \"%s\"", q, os[q].str().c_str(), want[q].c_str());
    }
    mc::state(mc::hasher{}.s(want[0]).s(want[1]));
});

// ---------------------------------------------------------------------------- C29
// FNV-1a as published: 64-bit arithmetic reduced modulo 2^32.
std::uint32_t ref_fnv(const std::string& s)
{
    unsigned long long h = 2166136261ull;
    for (unsigned char c : s)
    {
        h ^= c;
        h = (h * 16777619ull) % 4294967296ull;
    }
    return (std::uint32_t)h;
}
// Paul Hsieh's SuperFastHash as published (get16bits in its portable form, tail bytes as signed char), written
// over a byte vector with 64-bit arithmetic reduced modulo 2^32.
std::uint32_t ref_hsieh(const std::string& s)
{
    using u = unsigned long long;
    auto m = [](u x) { return x & 0xFFFFFFFFull; };
    auto b = [&](std::size_t i) { return (u)(unsigned char)s[i]; };
    auto sb = [&](std::size_t i) {   // sign extended to 32 bits
        u x = b(i);
        return x >= 128 ? x + 0xFFFFFF00ull : x;
    };
    if (s.empty())
        return 0;
    u h = m(s.size());
    std::size_t i = 0;
    for (; i + 4 <= s.size(); i += 4)
    {
        h = m(h + (b(i) | b(i + 1) << 8));
        u t = m((b(i + 2) | b(i + 3) << 8) << 11) ^ h;
        h = m(h << 16) ^ t;
        h = m(h + (h >> 11));
    }
    switch (s.size() - i)
    {
    case 3:
        h = m(h + (b(i) | b(i + 1) << 8));
        h ^= m(h << 16);
        h ^= m(sb(i + 2) << 18);
        h = m(h + (h >> 11));
        break;
    case 2:
        h = m(h + (b(i) | b(i + 1) << 8));
        h ^= m(h << 11);
        h = m(h + (h >> 17));
        break;
    case 1:
        h = m(h + sb(i));
        h ^= m(h << 10);
        h = m(h + (h >> 1));
        break;
    }
    h ^= m(h << 3);
    h = m(h + (h >> 5));
    h ^= m(h << 4);
    h = m(h + (h >> 17));
    h ^= m(h << 25);
    h = m(h + (h >> 6));
    return (std::uint32_t)h;
}

void check_hash(const std::string& s)
{
    exact e{s};
    auto f = ref_fnv(s), h = ref_hsieh(s);
    mc::transition(4);
    MC_CHECK(kl::hash::fnv1a(e.view().data(), e.n) == f, "fnv1a of %s is %#x, expected %#x", mc::hex(s).c_str(), kl::hash::fnv1a(s.data(), s.size()), f);
    MC_CHECK(kl::hash::fnv1a(s) == f, "fnv1a(std::string) of %s", mc::hex(s).c_str());
    MC_CHECK(kl::hash::operators::operator""_h(e.view().data(), e.n) == f, "_h of %s", mc::hex(s).c_str());
    MC_CHECK(kl::hash::hsieh(e.view().data(), e.n) == h, "hsieh of %s is %#x, expected %#x", mc::hex(s).c_str(), kl::hash::hsieh(s.data(), s.size()), h);
    mc::trace();
}
MC_SCENARIO("C29", "all byte strings up to length 2 (3)", [] {
    int a = mc::choose(257, "first byte");
    if (a == 256)
    {
        check_hash("");
        MC_CHECK(kl::hash::hsieh(nullptr, 0) == 0 && kl::hash::fnv1a(static_cast<const char*>(nullptr), 0) == 2166136261u, "the empty string");
        return;
    }
    std::string s(1, (char)a);
    check_hash(s);
    for (int b = 0; b < 256; ++b)
    {
        std::string t = s + (char)b;
        check_hash(t);
        if (mc::thorough() || b % 16 == 0 || b == 255)
            for (int c = 0; c < 256; ++c)
                check_hash(t + (char)c);
    }
    mc::count("bytes swept");
}, 1);
MC_SCENARIO("C29", "all strings over six bytes", [] {
    static const char al[] = {'\0', 'a', '\x7f', '\x80', '\xff', '\x01'};
    std::string s;
    s += al[mc::choose(6, "byte")];
    s += al[mc::choose(6, "byte")];
    int maxlen = mc::thorough() ? 9 : 8;
    std::function<void()> rec = [&] {
        check_hash(s);
        mc::state(mc::hasher{}.s(s));
        if ((int)s.size() == maxlen)
            return;
        for (char c : al)
        {
            s.push_back(c);
            rec();
            s.pop_back();
        }
    };
    rec();
});
MC_SCENARIO("C29", "one interesting byte at every position of every length", [] {
    int len = mc::choose(65, "length");
    for (int fill : {0, 0x78, 0xff})
        for (int pos = 0; pos < len; ++pos)
            for (int c = 0; c < 256; ++c)
            {
                std::string s(len, (char)fill);
                s[pos] = (char)c;
                check_hash(s);
            }
    mc::count("lengths");
}, 1);
MC_SCENARIO("C29", "unaligned starts", [] {
    int off = mc::choose(16, "offset");
    std::vector<char> buf(64);
    for (int i = 0; i < 64; ++i)
        buf[i] = (char)(i * 37 + 11);
    for (int len = 0; len + off <= 64; ++len)
    {
        std::string s(buf.data() + off, len);
        std::unique_ptr<char[]> p{new char[off + len]};
        std::memcpy(p.get(), buf.data(), off + len);
        mc::transition(2);
        mc::trace();
        MC_CHECK(kl::hash::hsieh(p.get() + off, len) == ref_hsieh(s) && kl::hash::fnv1a(p.get() + off, len) == ref_fnv(s), "a string of %d bytes at offset %d", len, off);
    }
}, 1);
MC_SCENARIO("C29", "long strings", [] {
    const int i = mc::choose(330, "length");
    static const int big[] = {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 65538, 100003, 131071, 131072, 131073};
    const int len = i < 310 ? i : big[i - 310];
    for (int mul : {0, 1, 37, 255})
    {
        std::string s(len, 0);
        for (int k = 0; k < len; ++k)
            s[k] = (char)(k * mul + (k >> 8) + mul);
        check_hash(s);
        for (int cut = 1; cut < 4 && cut < len; ++cut)
            check_hash(s.substr(cut));
    }
}, 1);
// literals: the array overload, the user-defined literal, and what the compiler evaluates
void literals()
{
    using namespace kl::hash::operators;
#define LIT(x)                                                                                                          \
    {                                                                                                                   \
        constexpr std::uint32_t ch = x##_h;                                                                             \
        std::uint32_t cs = kl::hash::hsieh(x, sizeof(x) - 1);                                                           \
        std::string s(x, sizeof(x) - 1);                                                                                \
        mc::transition(4);                                                                                              \
        MC_CHECK(ch == ref_fnv(s) && cs == ref_hsieh(s) && kl::hash::fnv1a(x) == ref_fnv(s) &&      \
                     x##_h == ref_fnv(s),                                                                               \
                 "literal %s: compile time and run time disagree", mc::printable(s).c_str());                           \
    }
    LIT("") LIT("a") LIT("ab") LIT("abc") LIT("abcd") LIT("abcde") LIT("hello world") LIT("\xff") LIT("\x80\x81\x82")
    LIT("a\0b") LIT("\0") LIT("\0\0\0\0\xff") LIT("za\xc5\xbc\xc3\xb3\xc5\x82\xc4\x87")
#undef LIT
    char bad[3] = {'a', 'b', 'c'};
    bool threw = false;
    try
    {
        (void)kl::hash::fnv1a(bad);
    }
    catch (const std::logic_error&)
    {
        threw = true;
    }
    MC_CHECK(threw, "an unterminated array is accepted as a literal");
    // switch on hashes, the documented use
    auto sw = [](const std::string& s) {
        switch (kl::hash::fnv1a(s))
        {
        case "1"_h: return 1;
        case "2"_h: return 2;
        case "\xfe"_h: return 3;
        default: return 0;
        }
    };
    MC_CHECK(sw("1") == 1 && sw("2") == 2 && sw("\xfe") == 3 && sw("4") == 0, "switching on a string's hash");
}
MC_SCENARIO("C29", "literals", literals, 1);

} // namespace
