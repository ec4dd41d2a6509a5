// P08: walking UTF-8 text by grapheme cluster visits exactly the UAX #29 clusters, and every counting interface agrees.
#include "ref.hpp"
#include <libunicode/capi.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <sstream>

using namespace unicode;
using ref::u32;
namespace
{
using It = utf8_grapheme_segmenter::iterator;

std::vector<u32> want_clusters(u32 const& s)
{
    auto b = ref::grapheme_bounds(s);
    std::vector<u32> r;
    for (size_t i = 0; i + 1 < b.size(); ++i)
        r.push_back(s.substr(b[i], b[i + 1] - b[i]));
    return r;
}
std::string show(std::vector<u32> const& v)
{
    std::string r;
    for (auto& c: v)
        r += "[" + h::hex(c) + "] ";
    return r;
}

void one(u32 const& s)
{
    auto const bytes = ref::to8(s);
    h::mark("utf8 clusters", bytes);
    h::exact<char> e(bytes);
    auto const want = want_clusters(s);
    auto bad = [&](char const* key, std::string const& d) { h::violation(key, h::hex(s), d + "; want " + show(want)); };

    utf8_grapheme_segmenter seg(e.view());
    std::vector<u32> got;
    std::vector<It> saved;
    bool const keep = s.size() <= 8;
    size_t guard = 0;
    for (It it = seg.begin(); it != seg.end(); ++it)
    {
        got.push_back(*it);
        if (it.value() != *it)
            bad("iterator/value", "value() differs from operator*");
        if (it == seg.end())
            bad("iterator/compare", "both != and == end");
        if (keep)
            saved.push_back(it);
        if (++guard > s.size() + 2)
        {
            bad("iterator/endless", "more clusters than characters");
            return;
        }
        h::count("clusters visited");
    }
    h::count("texts compared");
    if (got != want)
        bad("iterator/clusters", "got " + show(got));

    // Iterators are copies of a position: saved ones still hold their cluster and resume from there.
    for (size_t i = 0; i < saved.size(); ++i)
    {
        if (i < want.size() && *saved[i] != want[i])
            bad("iterator/copy", "copy " + std::to_string(i) + " changed to [" + h::hex(*saved[i]) + "]");
        for (size_t j = 0; j < saved.size(); ++j)
            if ((saved[i] == saved[j]) != (i == j))
                bad("iterator/equality", "positions " + std::to_string(i) + " and " + std::to_string(j));
        It it = saved[i];
        std::vector<u32> rest;
        while (it != seg.end() && rest.size() <= s.size())
        {
            It old = it++;
            if (!(old == saved[std::min(i + rest.size(), saved.size() - 1)]))
                bad("iterator/postincrement", "returned position is not the old one");
            rest.push_back(*old);
        }
        if (rest != std::vector<u32>(want.begin() + long(std::min(i, want.size())), want.end()))
            bad("iterator/resume", "from " + std::to_string(i) + " got " + show(rest));
        h::count("resumptions compared");
    }
    if (keep)
    { // a second pass, and a moved/assigned iterator
        std::vector<u32> again;
        It a = seg.begin();
        It b = std::move(a);
        It c = seg.end();
        c = b;
        for (; c != seg.end() && again.size() <= s.size(); ++c)
            again.push_back(*c);
        if (again != want)
            bad("iterator/second pass", "got " + show(again));
        utf8_grapheme_segmenter seg2 = seg;
        size_t n = 0;
        for (auto const& x: seg2)
        {
            (void) x;
            if (++n > s.size() + 2)
                break;
        }
        if (n != want.size())
            bad("iterator/range for", "visited " + std::to_string(n));
        if (!s.empty() && seg.begin() != seg.end())
        {
            std::ostringstream os;
            os << seg.begin();
            if (os.str() != "\"" + ref::to8(want[0]) + "\"")
                bad("iterator/print", os.str());
        }
    }
    // The counting interfaces.
    h::exact<uint32_t> w(s.size());
    for (size_t i = 0; i < s.size(); ++i)
        w.data()[i] = s[i];
    auto const n32 = u32_gc_count(w.data(), w.size());
    auto const n8 = u8_gc_count(e.data(), e.size());
    if (n32 != int(want.size()))
        bad("u32_gc_count", std::to_string(n32));
    if (n8 != int(want.size()))
        bad("u8_gc_count", std::to_string(n8));
    if (s.size() == 2)
    {
        auto const u = u32_grapheme_unbreakable(s[0], s[1]);
        if (u != int(want.size() == 1))
            bad("pair interfaces", std::to_string(u));
    }
    if (s.size() > want.size())
    {
        h::g.nontrivial++;
        h::seen("distinct texts with joined clusters", h::hash_str(s));
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 8, uint64_t(h::g.shard));
    one({});
    h::shard_loop(ref::graphemeTests.size(), [&](uint64_t i) {
        u32 s;
        for (auto c: ref::graphemeTests[i].text)
            s += ref::scalar(c) ? c : U'\uFFFD';
        one(s);
    });
    h::shard_loop(ref::emojiSeqs.size(), [&](uint64_t i) {
        auto const& s = ref::emojiSeqs[i].second;
        one(s);
        one(s + ref::emojiSeqs[(i * 7 + 1) % ref::emojiSeqs.size()].second);
    });
    // every scalar value on its own and attached to neighbours
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
            if (ref::scalar(c) && (h::g.thorough || c < 0x3000 || ref::GCB(c) != ref::gcb::Other_ || c % 7 == 0))
            {
                one({ c });
                one({ c, 0x301 });
                one({ U'a', c });
            }
    });
    h::shard_loop(h::tier(60000, 1500000), [&](uint64_t) { one(ref::gen_string(r, ref::gen_grapheme, 8)); });
    h::shard_loop(h::tier(40000, 1000000), [&](uint64_t) { one(ref::gen_emoji_text(r)); });
    h::shard_loop(h::tier(40000, 1000000), [&](uint64_t) { one(ref::gen_any_text(r, 20)); });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_emoji_text(r)));
    return 0;
}
