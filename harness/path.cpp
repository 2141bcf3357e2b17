// C10 (parsing and normalisation), C11 (path objects and views over any history).
#include "mc.hpp"
#include "kl/path.hpp"

#include <memory>
#include <optional>
#include <cstring>

namespace {

using segs = std::vector<std::string>;

int xdigit(char c)
{
    static const char lower[] = "0123456789abcdef", upper[] = "0123456789ABCDEF";
    for (int i = 0; i < 16; ++i)
        if (c == lower[i] || c == upper[i])
            return i;
    return -1;
}

// Reference parser; nullopt means the text is rejected.
std::optional<segs> ref_parse(const std::string& text)
{
    segs out;
    std::size_t i = 0;
    while (i <= text.size())
    {
        std::string raw;
        while (i < text.size() && text[i] != '/')
            raw += text[i++];
        ++i;
        if (raw.empty() || raw == ".")
            continue;
        if (raw == "..")
        {
            if (!out.empty())
                out.pop_back();
            continue;
        }
        std::string dec;
        for (std::size_t k = 0; k < raw.size(); ++k)
        {
            if (raw[k] != '%')
            {
                dec += raw[k];
                continue;
            }
            int hi = k + 1 < raw.size() ? xdigit(raw[k + 1]) : -1;
            int lo = k + 2 < raw.size() ? xdigit(raw[k + 2]) : -1;
            if (hi < 0 || lo < 0)
                return std::nullopt;
            char c = (char)(hi * 16 + lo);
            if (c == '/')
                return std::nullopt;
            dec += c;
            k += 2;
        }
        out.push_back(dec);
    }
    return out;
}

std::string join(const segs& s, std::size_t from, std::size_t to)
{
    std::string r;
    for (std::size_t i = from; i < to; ++i)
        r += (i > from ? "/" : "") + s[i];
    return r;
}

std::string show(const segs& s)
{
    std::string r = "[";
    for (auto& x : s)
        r += mc::printable(x) + " ";
    return r + "]";
}

void check_segments(const kl::path& p, const segs& want, const std::string& what)
{
    MC_CHECK(p.size() == want.size(), "%s: %zu segments, expected %s", what.c_str(), p.size(),
             show(want).c_str());
    MC_CHECK(p.empty() == want.empty(), "%s: empty() is %d with %zu segments", what.c_str(),
             (int)p.empty(), want.size());
    for (std::size_t i = 0; i < want.size(); ++i)
        MC_CHECK(std::string(p[i]) == want[i], "%s: segment %zu is %s, expected %s", what.c_str(), i,
                 mc::printable(std::string(p[i])).c_str(), mc::printable(want[i]).c_str());
}

// All observations through views and joins
void check_views(const kl::path& p, const segs& want, const std::string& what)
{
    check_segments(p, want, what);
    const std::size_t n = want.size();
    for (std::size_t k = 0; k <= n + 1; ++k)
    {
        std::string w = k < n ? join(want, k, n) : "";
        MC_CHECK(std::string(p.joined(k)) == w, "%s: joined(%zu) is %s, expected %s", what.c_str(), k,
                 mc::printable(std::string(p.joined(k))).c_str(), mc::printable(w).c_str());
    }
    for (std::size_t front = 0; front <= n; ++front)
    {
        kl::path_view v = p.view();
        for (std::size_t k = 0; k < front; ++k)
            v = v.drop_front();
        for (std::size_t back = 0;; ++back)
        {
            const std::size_t m = n - front - back;
            MC_CHECK(v.size() == m && v.empty() == (m == 0),
                     "%s: view without %zu front and %zu back segments has size %zu", what.c_str(),
                     front, back, v.size());
            for (std::size_t i = 0; i < m; ++i)
                MC_CHECK(std::string(v[i]) == want[front + i], "%s: view(%zu,%zu)[%zu] is %s",
                         what.c_str(), front, back, i, mc::printable(std::string(v[i])).c_str());
            if (m)
                MC_CHECK(std::string(v.front()) == want[front], "%s: view front", what.c_str());
            for (std::size_t c = 0; c <= m; ++c)
            {
                // the prefix always starts at the root of the whole path
                std::string w = c == 0 ? "" : join(want, 0, front + c);
                MC_CHECK(std::string(v.prefix(c)) == w, "%s: view(%zu,%zu).prefix(%zu) is %s, expected %s",
                         what.c_str(), front, back, c,
                         mc::printable(std::string(v.prefix(c))).c_str(), mc::printable(w).c_str());
            }
            mc::transition();
            if (m == 0)
                break;
            v = v.drop_back();
        }
    }
}

std::uint64_t hash_of(const std::optional<segs>& s)
{
    mc::hasher h;
    if (!s)
        return h.u(77);
    for (auto& x : *s)
        h.s(x);
    return h;
}

void check_parse(const std::string& text, bool views)
{
    // exactly sized, not null terminated
    std::unique_ptr<char[]> buf(new char[text.size() ? text.size() : 1]);
    std::memcpy(buf.get(), text.data(), text.size());
    std::string_view sv{buf.get(), text.size()};
    auto want = ref_parse(text);
    std::string what = "path " + mc::printable(text);
    try
    {
        kl::path p{sv};
        MC_CHECK(want.has_value(), "%s is accepted, it must be rejected", what.c_str());
        check_segments(p, *want, what);
        // the path owns its text
        std::memset(buf.get(), '#', text.size());
        if (views)
            check_views(p, *want, what);
        else
            check_segments(p, *want, what);
        mc::count("accepted");
    }
    catch (const kl::path_parse_error& e)
    {
        MC_CHECK(!want.has_value(), "%s is rejected (%s), expected %s", what.c_str(), e.what(),
                 show(*want).c_str());
        mc::count("rejected");
    }
    mc::transition();
    mc::trace();
    mc::state(hash_of(want));
}

template <typename Alphabet>
void enumerate(std::string& s, const Alphabet& alphabet, int left, bool views)
{
    check_parse(s, views);
    if (left == 0)
    {
        mc::progress();
        return;
    }
    for (char c : alphabet)
    {
        s.push_back(c);
        enumerate(s, alphabet, left - 1, views);
        s.pop_back();
    }
}

void chars()
{
    static const std::vector<char> alphabet{'/', '.', 'a', '%', '2', 'F', 'f', 'e', 'g'};
    std::string s;
    int c0 = mc::choose(10, "first char");
    if (c0 == 9)
    {
        check_parse("", false);
        return;
    }
    s += alphabet[c0];
    int c1 = mc::choose(10, "second char");
    if (c1 == 9)
    {
        check_parse(s, false);
        return;
    }
    s += alphabet[c1];
    if (mc::want_sample())
        mc::sample("every text starting with " + s);
    enumerate(s, alphabet, mc::thorough() ? 6 : 5, false);
}
MC_SCENARIO("C10", "every text up to length 7 over the syntax characters", chars, 2);

void escapes()
{
    // every two-byte escape in every surrounding
    int hi = mc::choose(256, "hi");
    static const char* around[][2] = {{"", ""},      {"/", ""},     {"/a/", "/b"}, {"a", "b"},
                                      {"/a/..", ""}, {"/a", "/.."}, {"/.", "."},   {"%41", "%42"}};
    for (int lo = 0; lo < 256; ++lo)
        for (auto& ar : around)
            check_parse(std::string(ar[0]) + "%" + (char)hi + (char)lo + ar[1], false);
    for (auto& ar : around)
    {
        check_parse(std::string(ar[0]) + "%" + (char)hi + ar[1], false);
        check_parse(std::string(ar[0]) + (char)hi + ar[1], false);
        check_parse(std::string(ar[0]) + "%4" + (char)hi + ar[1], false);
    }
    if (mc::want_sample())
        mc::sample("%XY with X = byte " + std::to_string(hi));
}
MC_SCENARIO("C10", "every percent escape in every context", escapes, 1);

void tokens()
{
    static const std::vector<std::string> tok{"a",   "..",  ".",     "",     "%2E%2E", "%2e", "b%3Ac",
                                              "...", "%2F", "%4",    "a%",   "0123456789abcdefghijklmnopqrstuvwxyz%41"};
    int n = mc::thorough() ? 7 : 6;
    int lead = mc::choose(2, "leading slash");
    std::string s = lead ? "/" : "";
    int first = mc::choose((int)tok.size(), "token");
    std::function<void(std::string, int)> rec = [&](std::string t, int left) {
        check_parse(t, left >= n - 3);
        if (!left)
            return;
        for (auto& k : tok)
            rec(t + "/" + k, left - 1);
        if (left == 3)
            mc::progress();
    };
    if (mc::want_sample())
        mc::sample("token sequences starting " + s + tok[first]);
    rec(s + tok[first], n - 2);
}
MC_SCENARIO("C10", "every sequence of up to 5 segment tokens", tokens, 2);

void deep()
{
    // many segments (past any inline capacity): a pushes, b pops, c pushes
    int a = mc::choose(40, "push"), b = mc::choose(42, "pop");
    for (int c = 0; c < 24; ++c)
    {
        std::string s;
        for (int i = 0; i < a; ++i)
            s += "/s" + std::to_string(i);
        for (int i = 0; i < b; ++i)
            s += "/..";
        for (int i = 0; i < c; ++i)
            s += "/t%3A" + std::to_string(i);
        check_parse(s, c == 5);
    }
}
MC_SCENARIO("C10", "deep paths, pops past the root", deep, 2);

// ---- C11 -----------------------------------------------------------------------------------
void views()
{
    static const std::vector<char> alphabet{'/', 'a', 'b', '.', '%', '4', '1'};
    std::string s;
    s += alphabet[mc::choose((int)alphabet.size(), "c0")];
    s += alphabet[mc::choose((int)alphabet.size(), "c1")];
    enumerate(s, alphabet, mc::thorough() ? 6 : 5, true);
    if (mc::want_sample())
        mc::sample("all views of every text starting with " + s);
}
MC_SCENARIO("C11", "all views of every text up to length 7", views, 2);

void histories()
{
    // two path objects, every operation sequence
    static const char* texts[] = {"/a/b/c",
                                  "",
                                  "/x%3Ay/../long-segment-longer-than-any-inline-string-buffer/z",
                                  "/a/b/%zz",
                                  "/p/q%2Fr",
                                  "/0/1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16/17",
                                  "%"};
    constexpr int n_texts = 7;
    kl::path p[2];
    segs model[2];
    const int depth = mc::thorough() ? 5 : 4;
    std::string hist;
    for (int step = 0; step < depth; ++step)
    {
        // ops: set text i on object 0 (n_texts), on object 1 (3), clear 0, copy 1=0, 0=1, move 1=0,
        //      0=move 1, swap, copy construct + destroy original, set from own joined text
        int op = mc::choose(n_texts + 3 + 8, "op");
        auto do_set = [&](int which, const char* t) {
            hist += std::string(" set") + char('0' + which) + "(" + t + ")";
            auto want = ref_parse(t);
            bool threw = false;
            try
            {
                p[which].set(t);
            }
            catch (const kl::path_parse_error&)
            {
                threw = true;
            }
            MC_CHECK(threw == !want, "history%s: set %s", hist.c_str(),
                     threw ? "rejected" : "accepted");
            if (want)
                model[which] = *want;
            else
                mc::count("failed set");
        };
        if (op < n_texts)
            do_set(0, texts[op]);
        else if (op < n_texts + 3)
            do_set(1, texts[op - n_texts + 2]);
        else
            switch (op - n_texts - 3)
            {
            case 0: hist += " clear0"; p[0].clear(); model[0].clear(); break;
            case 1: hist += " 1=0"; p[1] = p[0]; model[1] = model[0]; break;
            case 2: hist += " 0=1"; p[0] = p[1]; model[0] = model[1]; break;
            case 3:
                hist += " 1=move(0),0.clear";
                p[1] = std::move(p[0]);
                p[0].clear();
                model[1] = model[0];
                model[0].clear();
                break;
            case 4: hist += " swap"; std::swap(p[0], p[1]); std::swap(model[0], model[1]); break;
            case 5:
            {
                hist += " copy/destroy";
                auto owned = std::make_unique<kl::path>(p[0]);
                kl::path copy{*owned};
                owned->set("/overwritten");
                owned.reset();
                p[1] = std::move(copy);
                model[1] = model[0];
                break;
            }
            case 6:
            {
                hist += " 0.set(0.joined(1))";
                // decoded text must be re-encoded by the caller in general; these segments are plain
                bool plain = true;
                for (auto& s : model[0])
                    plain = plain && s.find('%') == std::string::npos;
                if (!plain)
                    mc::skip();
                p[0].set(p[0].joined(1));
                if (!model[0].empty())
                    model[0].erase(model[0].begin());
                mc::count("aliasing set");
                break;
            }
            case 7:
            {
                hist += " 0=0";
                auto& self = p[0];
                p[0] = self;
                break;
            }
            }
        check_views(p[0], model[0], "history" + hist + " object 0");
        check_views(p[1], model[1], "history" + hist + " object 1");
        mc::state(mc::hasher{}.u(hash_of(model[0])).u(hash_of(model[1])));
    }
    if (mc::want_sample())
        mc::sample(hist);
}
MC_SCENARIO("C11", "every history of set/clear/copy/move on two paths", histories, 2);
} // namespace
