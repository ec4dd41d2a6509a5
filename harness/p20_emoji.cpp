// P20: emoji presentation segmentation follows the UTS #51 grammar and tiles the text into maximal runs of one style.
#include "seg_model.hpp"

using namespace unicode;
using ref::u32;
using segm::EmojiSeg;
namespace
{
std::string show(std::vector<EmojiSeg> const& v)
{
    std::string s;
    for (auto& x: v)
        s += (s.empty() ? "" : " ") + std::to_string(x.begin) + ".." + std::to_string(x.end) + (x.style == PresentationStyle::Emoji ? "E" : "T");
    return s;
}
bool same(std::vector<EmojiSeg> const& a, std::vector<EmojiSeg> const& b)
{
    return std::equal(a.begin(), a.end(), b.begin(), b.end(),
                      [](auto& x, auto& y) { return x.begin == y.begin && x.end == y.end && x.style == y.style; });
}
void one(u32 const& s, bool wholeEmoji = false)
{
    h::mark("emoji", s);
    auto want = segm::emoji_segments(s);
    if (wholeEmoji && !(want.size() == 1 && want[0].style == PresentationStyle::Emoji))
        h::violation("oracle-vs-emoji-data", h::hex(s), show(want));
    for (int flavour = 0; flavour < 2; ++flavour)
    {
        h::exact<char32_t> e(s);
        auto v = e.view();
        std::vector<EmojiSeg> got;
        emoji_segmenter seg = flavour ? emoji_segmenter(v) : emoji_segmenter(v.data(), v.size()), other;
        if (seg.buffer() != v.data() || seg.size() != v.size())
            h::violation("accessors/text", h::hex(s), "buffer()/size()");
        size_t last = 0;
        bool bad = false;
        for (;;)
        {
            size_t n = 0;
            auto st = PresentationStyle::Text;
            bool more = seg.consume(out(n), out(st));
            if (!more)
                break;
            if (n <= last || n > v.size())
            {
                h::violation("tiling", h::hex(s), "run end " + std::to_string(n) + " after " + std::to_string(last));
                bad = true;
                break;
            }
            if (seg.currentCursorBegin() != last || seg.currentCursorEnd() != n || seg.substr() != v.substr(last, n - last) || (*seg).data() != v.data() + last)
                h::violation("accessors/run", h::hex(s), "run " + std::to_string(last) + ".." + std::to_string(n) + " but accessors say "
                                                             + std::to_string(seg.currentCursorBegin()) + ".." + std::to_string(seg.currentCursorEnd()));
            if (seg.isEmoji() != (st == PresentationStyle::Emoji) || seg.isText() == seg.isEmoji())
                h::violation("accessors/style", h::hex(s), "run ending at " + std::to_string(n));
            got.push_back({ last, n, st });
            last = n;
            if (flavour)
            { // the state is a value: carry on in a copy
                other = seg;
                seg = emoji_segmenter(U"xyz", 3);
                std::swap(seg, other);
            }
        }
        if (bad)
            continue;
        for (int i = 0; i < 3; ++i)
        {
            size_t n = 0;
            auto st = PresentationStyle::Text;
            if (seg.consume(out(n), out(st)))
                h::violation("end", h::hex(s), "a run is reported behind the end");
        }
        h::count("segmentations compared");
        if (!same(got, want))
            h::violation(flavour ? "runs/moved" : "runs", h::hex(s), "got " + show(got) + " want " + show(want));
    }
    for (auto& w: want)
        h::count(w.style == PresentationStyle::Emoji ? "emoji runs" : "text runs");
    if (want.size() > 1)
        h::count("texts of several runs");
    if (s.size() > 1)
    {
        h::g.nontrivial++;
        h::seen("distinct texts", h::hash_str(s));
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    segm::classes();
    h::Rng r(h::g.seed, 20, uint64_t(h::g.shard));
    auto& K = segm::SC.byCat;
    auto const k = K.size();
    h::count("categories", h::g.shard == 0 ? k : 0);
    one({});
    {
        emoji_segmenter none;
        size_t n = 0;
        auto st = PresentationStyle::Text;
        if (none.consume(out(n), out(st)))
            h::violation("default", "", "a default-constructed segmenter reports a run");
    }
    // what the emoji data files call an emoji is one emoji run, alone and among text
    h::shard_loop(ref::emojiSeqs.size(), [&](uint64_t i) {
        auto& [kind, e] = ref::emojiSeqs[i];
        // (a lone skin tone modifier is no any_emoji in the grammar)
        bool whole = !(e.size() == 1 && (ref::EMO(e[0]) & ref::EMOD)) && kind != "unqualified" && kind != "minimally-qualified" && kind != "component";
        one(e, whole);
        one(U"a" + e + U"b");
        one(e + e);
        one(e + u32(1, 0xFE0E));
        for (size_t c = 1; c < e.size(); ++c)
            one(e.substr(0, c));
        h::count("emoji sequences");
    });
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            one({ c });
            h::count("code points alone");
            if (h::g.thorough || c % 16 == 0 || segm::category(c) != segm::Cat::Invalid)
            {
                for (char32_t f: { 0xFE0E, 0xFE0F, 0x200D, 0x20E3, 0x20E0, 0x1F3FB, 0x1F1E6, 0xE0061, 0xE007F })
                    one({ U'x', c, f, 0x1F600 });
                one({ 0x1F468, 0x200D, c, 0xFE0F });
                one({ 0x1F3F4, c, 0xE007F });
            }
        }
    });
    int const maxlen = h::g.thorough ? 6 : 5;
    for (int len = 1; len <= maxlen; ++len)
    {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i)
            n *= k;
        h::shard_loop(n, [&](uint64_t i) {
            u32 s;
            for (int j = 0; j < len; ++j, i /= k)
                s += ref::from(r, K[i % k]);
            one(s);
            h::count("category sequences");
        });
    }
    h::shard_loop(h::tier(100000, 4000000), [&](uint64_t) {
        u32 s;
        size_t a[4] = { r.below(uint32_t(k)), r.below(uint32_t(k)), r.below(uint32_t(k)), r.below(uint32_t(k)) };
        auto n = r.below(r.chance(1, 60) ? 300 : 14);
        for (uint32_t i = 0; i < n; ++i)
            s += ref::from(r, K[a[r.below(4)]]);
        one(s);
    });
    h::shard_loop(h::tier(100000, 4000000), [&](uint64_t) { one(r.chance(1, 2) ? ref::gen_emoji_text(r) : segm::gen_cat_text(r, 12)); });
    ref::stretched_sequences(r, k, [&](size_t i) { return ref::from(r, K[i]); }, [&](u32 const& s) { one(s); });
    h::shard_loop(h::tier(20000, 500000), [&](uint64_t) { one(ref::gen_any_text(r, 20)); });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_emoji_text(r)));
    return 0;
}
