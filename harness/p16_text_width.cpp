// P16: every interface that measures text agrees: the width of a text is the sum over its grapheme clusters.
#include "ref.hpp"
#include <libunicode/capi.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/width.h>

using namespace unicode;
using ref::u32;
namespace
{
/// scan_text() treats controls as stops, takes ASCII characters one by one and counts DEL as one column.
bool scannable(u32 const& s)
{
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] < 0x20 || s[i] == 0x7F || !ref::scalar(s[i]) || (i && s[i] < 0x80 && !ref::grapheme_break(s, i)))
            return false;
    return true;
}
void one(u32 const& s)
{
    bool const wf = std::all_of(s.begin(), s.end(), ref::scalar);
    auto const bytes = wf ? ref::to8(s) : std::string();
    h::mark("text", s);
    auto const b = ref::grapheme_bounds(s);
    uint64_t total = 0, bases = 0;
    bool multi = false;
    h::exact<char32_t> e(s);
    for (size_t i = 0; i + 1 < b.size(); ++i)
    {
        auto c = s.substr(b[i], b[i + 1] - b[i]);
        multi |= c.size() > 1;
        total += ref::cluster_width(c);
        bases += ref::cp_width(c[0]);
    }
    auto check = [&](char const* who, uint64_t got, uint64_t want) {
        h::count("measurements compared");
        if (got != want)
            h::violation(who, h::hex(s), std::to_string(got) + " want " + std::to_string(want));
    };
    auto const* p32 = reinterpret_cast<u32_char_t const*>(e.data());
    check("u32_gc_width/modifiable", uint64_t(u32_gc_width(p32, e.size(), GC_WIDTH_MODE_MODIFIABLE)), total);
    check("u32_gc_width/non-modifiable", uint64_t(u32_gc_width(p32, e.size(), GC_WIDTH_MODE_NON_MODIFIABLE)), bases);
    // the sum over the library's own clusters
    uint64_t own = 0;
    for (grapheme_segmenter g(e.view()); !(*g).empty(); ++g)
        own += grapheme_cluster_width(*g);
    check("sum over clusters", own, total);
    if (wf)
    {
        h::exact<char> e8(bytes);
        check("grapheme_cluster_width(utf8)", grapheme_cluster_width(e8.view()), total);
        check("u8_gc_width/modifiable", uint64_t(u8_gc_width(e8.data(), e8.size(), GC_WIDTH_MODE_MODIFIABLE)), total);
        check("u8_gc_width/non-modifiable", uint64_t(u8_gc_width(e8.data(), e8.size(), GC_WIDTH_MODE_NON_MODIFIABLE)), bases);
        if (scannable(s))
        {
            h::fresh<scan_state> stFresh;
            auto& st = *stFresh;
            auto const res = scan_text(st, e8.view(), s.size() % 4 == 1 ? size_t(1) << 32 : s.size() % 4 == 2 ? size_t(-1) : s.size() % 4 == 3 ? size_t(1) << 31 : size_t(1) << 30);
            check("scan_text", res.count, total);
            if (res.start != e8.data() || res.end != e8.data() + e8.size() || st.next != res.end)
                h::violation("scan_text/extent", h::hex(s), "consumed " + std::to_string(res.end - res.start) + " of " + std::to_string(e8.size()));
            h::count("scans compared");
        }
    }
    if (multi)
    {
        h::g.nontrivial++;
        h::seen("distinct texts with joined clusters", h::hash_str(s));
    }
    // additivity at every cluster boundary
    if (b.size() > 2 && b.size() < 12 && wf)
        for (size_t i = 1; i + 1 < b.size(); ++i)
        {
            auto x = s.substr(0, b[i]), y = s.substr(b[i]);
            // the second part starts a text of its own; the boundary may fall elsewhere there only inside y
            if (ref::text_width(x) + ref::text_width(y) != total)
                continue;
            check("additivity", grapheme_cluster_width(std::string_view(ref::to8(x))) + grapheme_cluster_width(std::string_view(ref::to8(y))), total);
            h::count("splits compared");
        }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 16, uint64_t(h::g.shard));
    one({});
    h::shard_loop(ref::graphemeTests.size(), [&](uint64_t i) { one(ref::graphemeTests[i].text); });
    h::shard_loop(ref::emojiSeqs.size(), [&](uint64_t i) {
        auto const& a = ref::emojiSeqs[i].second;
        one(a);
        one(U"ab" + a + U"c" + ref::emojiSeqs[(i * 13 + 5) % ref::emojiSeqs.size()].second);
    });
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
            if (c < 0x3000 || ref::cp_width(c) != 1 || ref::GCB(c) != ref::gcb::Other_ || h::g.thorough || c % 16 == 0)
            {
                one({ c });
                one({ U'a', c, U'b', c });
                one({ c, 0x301, c, 0xFE0F });
                h::count("characters in context");
            }
    });
    h::shard_loop(h::tier(80000, 2500000), [&](uint64_t) { one(ref::gen_string(r, ref::gen_grapheme, 12)); });
    h::shard_loop(h::tier(60000, 1500000), [&](uint64_t) { one(ref::gen_emoji_text(r)); });
    h::shard_loop(h::tier(40000, 1000000), [&](uint64_t) { one(ref::gen_any_text(r, 24)); });
    h::shard_loop(h::tier(30000, 800000), [&](uint64_t) { // ASCII runs of vector length with clusters in between
        u32 s;
        for (uint32_t n = 1 + r.below(4); n-- > 0;)
        {
            for (uint32_t k = r.below(r.chance(1, 3) ? 80 : 20); k-- > 0;)
                s += char32_t(0x20 + r.below(95));
            s += ref::gen_string(r, ref::gen_grapheme, 4);
        }
        one(s);
    });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_string(r, ref::gen_grapheme, 12)));
    return 0;
}
