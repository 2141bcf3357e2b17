// C12 (encoding and round trip), C13 (decoder accepts exactly the language).
#include "mc.hpp"
#include "kl/base64.hpp"

#include <cstring>
#include <memory>
#include <set>
#include <vector>

namespace {

const char* alpha(bool url)
{
    return url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
               : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
}

// Reference encoder: bit by bit, straight from RFC 4648.
std::string ref_encode(const std::string& in, bool url)
{
    std::string out;
    std::size_t nbits = in.size() * 8;
    for (std::size_t b = 0; b < nbits; b += 6)
    {
        int v = 0;
        for (int k = 0; k < 6; ++k)
        {
            std::size_t i = b + k;
            int bit = i < nbits ? ((unsigned char)in[i / 8] >> (7 - i % 8)) & 1 : 0;
            v = v * 2 + bit;
        }
        out += alpha(url)[v];
    }
    if (!url)
        while (out.size() % 4)
            out += '=';
    return out;
}

// Reference decoder: the accepted language, spelled out.
//  standard: length multiple of four, at most two '=' and only at the very end
//  url     : at most two trailing '=' are ignored, the rest has no length restriction but 4k+1
bool ref_decode(std::string in, bool url, std::string& out)
{
    out.clear();
    if (!url && in.size() % 4 != 0)
        return false;
    int eq = 0;
    while (!in.empty() && in.back() == '=')
    {
        in.pop_back();
        if (++eq > 2)
            return false;
    }
    if (in.size() % 4 == 1)
        return false;
    unsigned acc = 0;
    int n = 0;
    for (char c : in)
    {
        const char* p = c ? std::strchr(alpha(url), c) : nullptr;
        if (!p)
            return false;
        acc = (acc << 6) | (unsigned)(p - alpha(url));
        n += 6;
        if (n >= 8)
        {
            n -= 8;
            out += (char)(acc >> n);
            acc &= (1u << n) - 1;
        }
    }
    return true;
}

// Input placed in an exactly sized heap block: any over-read is a sanitizer report.
struct block
{
    std::unique_ptr<char[]> p;
    std::size_t n;
    explicit block(const std::string& s) : p(new char[s.size() ? s.size() : 1]), n(s.size())
    {
        std::memcpy(p.get(), s.data(), n);
    }
};

void check_encode(const std::string& in)
{
    block b(in);
    for (int url = 0; url < 2; ++url)
    {
        gsl::span<const std::byte> sp{reinterpret_cast<const std::byte*>(b.p.get()), b.n};
        std::string enc = url ? kl::base64url_encode(sp) : kl::base64_encode(sp);
        std::string want = ref_encode(in, url);
        MC_CHECK(enc == want, "%s encoding of bytes %s is %s, RFC 4648 says %s",
                 url ? "url" : "standard", mc::hex(in).c_str(), mc::printable(enc).c_str(),
                 want.c_str());
        auto dec = url ? kl::base64url_decode(enc) : kl::base64_decode(enc);
        MC_CHECK(dec.has_value(), "%s: own encoding %s of %s is rejected", url ? "url" : "standard",
                 enc.c_str(), mc::hex(in).c_str());
        std::string back(reinterpret_cast<const char*>(dec->data()), dec->size());
        MC_CHECK(back == in, "%s round trip: %s -> %s -> %s", url ? "url" : "standard",
                 mc::hex(in).c_str(), enc.c_str(), mc::hex(back).c_str());
        mc::transition(2);
        if (in.size() != 3)
            mc::state(mc::hasher{}.u(url).s(enc));
    }
    mc::trace();
}

struct decoder_case
{
    std::unique_ptr<char[]> p;
    std::size_t n;
};

void check_decode(const std::string& in, int variants = 3)
{
    block b(in);
    for (int url = 0; url < 2; ++url)
    {
        if (!(variants & (1 << url)))
            continue;
        std::string want;
        bool ok = ref_decode(in, url, want);
        std::string_view sv{b.p.get(), b.n};
        auto got = url ? kl::base64url_decode(sv) : kl::base64_decode(sv);
        MC_CHECK(got.has_value() == ok, "%s decode of %s: %s, expected %s",
                 url ? "url" : "standard", mc::printable(in).c_str(),
                 got ? "accepted" : "rejected", ok ? "accepted" : "rejected");
        if (ok)
        {
            std::string g(reinterpret_cast<const char*>(got->data()), got->size());
            MC_CHECK(g == want, "%s decode of %s gives %s, expected %s", url ? "url" : "standard",
                     mc::printable(in).c_str(), mc::hex(g).c_str(), mc::hex(want).c_str());
            mc::state(mc::hasher{}.u(url).s(g));
            mc::count("accepted");
        }
        else
            mc::count("rejected");
        mc::transition();
    }
    mc::trace();
}

void once(const std::string& text)
{
    if (mc::want_sample())
        mc::sample(text);
}

void enc_short()
{
    // every byte string of length 0, 1, 2 and 3
    int a = mc::choose(257, "first byte");
    if (a == 256)
    {
        check_encode("");
        return;
    }
    check_encode(std::string(1, (char)a));
    for (int b = 0; b < 256; ++b)
    {
        check_encode(std::string{(char)a, (char)b});
        for (int c = 0; c < 256; ++c)
            check_encode(std::string{(char)a, (char)b, (char)c});
        mc::progress();
    }
    once("all strings starting with byte " + std::to_string(a));
}
MC_SCENARIO("C12", "all byte strings up to length 3", enc_short, 1);

void enc_long()
{
    // length 0..40, one position takes all 256 values on three backgrounds
    int len = mc::choose(mc::thorough() ? 100 : 41, "length");
    static const int fill[] = {0x00, 0xff, 0x5a, 0xa5};
    int bg = mc::choose(5, "background");
    std::string s(len, '\0');
    for (int i = 0; i < len; ++i)
        s[i] = bg == 4 ? (char)(i * 37 + 11) : (char)fill[bg];
    check_encode(s);
    for (int p = 0; p < len; ++p)
        for (int v = 0; v < 256; ++v)
        {
            std::string t = s;
            t[p] = (char)v;
            check_encode(t);
        }
    once("length " + std::to_string(len) + " background " + std::to_string(bg));
}
MC_SCENARIO("C12", "every byte value at every position up to length 40", enc_long, 2);

// lengths around every size at which an implementation could switch strategy
const std::vector<int>& big_lengths()
{
    static const std::vector<int> v = [] {
        std::set<int> s;
        for (int n = 41; n <= (mc::thorough() ? 1200 : 300); ++n)
            s.insert(n);
        for (int k = 9; k <= (mc::thorough() ? 18 : 16); ++k)
            for (int d = -4; d <= 4; ++d)
            {
                s.insert((1 << k) + d);
                s.insert(3 * (1 << (k - 2)) + d);
            }
        return std::vector<int>(s.begin(), s.end());
    }();
    return v;
}

void enc_big()
{
    int len = big_lengths()[mc::choose((int)big_lengths().size(), "length")];
    int bg = mc::choose(3, "background");
    std::string s(len, '\0');
    for (int i = 0; i < len; ++i)
        s[i] = bg == 0 ? '\0' : bg == 1 ? (char)0xff : (char)(i * 37 + (i >> 8) * 11 + 5);
    check_encode(s);
    for (int p : {0, 1, 2, len / 2, len - 3, len - 2, len - 1})
    {
        std::string t = s;
        t[p] = (char)~t[p];
        check_encode(t);
    }
    once("length " + std::to_string(len) + " background " + std::to_string(bg));
}
MC_SCENARIO("C12", "large lengths", enc_big, 2);

void dec_big()
{
    int len = big_lengths()[mc::choose((int)big_lengths().size(), "length")];
    int bg = mc::choose(2, "background");
    std::string s;
    for (int i = 0; i < len; ++i)
        s += bg == 0 ? 'A' : alpha(false)[(i * 29 + (i >> 6) + 7) % 62];
    check_decode(s);
    for (int p : {0, 1, len / 4, len / 3, len / 2, len - 5, len - 4, len - 3, len - 2, len - 1})
        for (char c : {'=', '+', '/', '-', '_', '!', '\0', '\x80', '\xff', '\n', '@', '[', '`', '{', ':'})
        {
            std::string t = s;
            t[p] = c;
            check_decode(t);
            if (p == len - 2)
            {
                t[len - 1] = '=';
                check_decode(t);
            }
        }
    once("length " + std::to_string(len));
}
MC_SCENARIO("C13", "large lengths", dec_big, 2);

void dec_short()
{
    int a = mc::choose(257, "first byte");
    if (a == 256)
    {
        check_decode("");
        return;
    }
    check_decode(std::string(1, (char)a));
    static const char rep[] = {'A', 'Q', 'z', '9', '+', '/', '-', '_', '=', '!', '@', '[', '`', '{',
                               '\0', ' ', '\n', '\x7f', '\x80', '\xff', '.', ':', ','};
    for (int b = 0; b < 256; ++b)
    {
        check_decode(std::string{(char)a, (char)b});
        for (char c : rep)
        {
            check_decode(std::string{(char)a, (char)b, c});
            check_decode(std::string{c, (char)a, (char)b});
            for (char d : {'A', '/', '_', '=', '!'})
            {
                check_decode(std::string{(char)a, (char)b, c, d});
                check_decode(std::string{c, d, (char)a, (char)b});
                check_decode(std::string{c, (char)a, d, (char)b});
            }
        }
        mc::progress();
    }
    once("strings of length <= 4 with byte " + std::to_string(a));
}
MC_SCENARIO("C13", "all strings up to length 2, class products up to 4", dec_short, 1);

void dec_classes()
{
    // every string over class representatives, all lengths up to the bound
    static const char rep[] = {'A', '/', '_', '=', '!', '\xc1'};
    int max = mc::thorough() ? 10 : 8;
    std::string s;
    int n0 = mc::choose(7, "class");
    if (n0 == 6)
        return;
    s += rep[n0];
    int n1 = mc::choose(7, "class");
    if (n1 == 6)
    {
        check_decode(s);
        return;
    }
    s += rep[n1];
    std::function<void()> rec = [&] {
        check_decode(s);
        if ((int)s.size() == max)
            return;
        for (char c : rep)
        {
            s.push_back(c);
            rec();
            s.pop_back();
        }
        if (s.size() == 4)
            mc::progress();
    };
    rec();
    once("all class strings starting " + mc::printable(s));
}
MC_SCENARIO("C13", "every class string up to length 8", dec_classes, 2);

void dec_full_quads()
{
    // complete 256^3 prefix space of a quad, last character over all values (thorough only)
    int a = mc::choose(256, "first");
    int b = mc::choose(256, "second");
    std::string s(4, 0);
    s[0] = (char)a;
    s[1] = (char)b;
    char buf[4];
    for (int c = 0; c < 256; ++c)
    {
        for (int d = 0; d < 256; ++d)
        {
            s[2] = (char)c;
            s[3] = (char)d;
            check_decode(s);
        }
    }
    once("all quads starting " + mc::printable(s.substr(0, 2)));
    (void)buf;
}
MC_SCENARIO("C13", "every quad over all 256 byte values", dec_full_quads, 2, false);

void dec_long()
{
    // valid texts of every length up to 64 (20 quick) characters with one or two positions replaced
    int len = mc::choose(mc::thorough() ? 65 : 41, "length");
    int bg = mc::choose(3, "background");
    std::string s;
    for (int i = 0; i < len; ++i)
        s += bg == 0 ? 'A' : bg == 1 ? '9' : alpha(false)[(i * 29 + 7) % 62];
    check_decode(s);
    static const char rep[] = {'A', '/', '_', '=', '!', '\x80'};
    for (int p = 0; p < len; ++p)
    {
        for (int v = 0; v < 256; ++v)
        {
            std::string t = s;
            t[p] = (char)v;
            check_decode(t);
        }
        for (int q = p + 1; q < len; ++q)
            for (char x : rep)
                for (char y : rep)
                {
                    std::string t = s;
                    t[p] = x;
                    t[q] = y;
                    check_decode(t);
                }
        mc::progress();
    }
    once("length " + std::to_string(len) + " around " + s);
}
MC_SCENARIO("C13", "one and two replaced positions, lengths up to 40", dec_long, 2);
} // namespace
