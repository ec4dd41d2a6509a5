// P09: word boundaries are those of UAX #29, through the segmenter and the stateful API alike.
#include "ref.hpp"
#include <libunicode/word_segmenter.h>

using namespace unicode;
using ref::u32;
namespace
{
using Bounds = std::vector<size_t>;
std::vector<std::vector<char32_t>> classes;
void partition()
{
    std::map<std::tuple<int, bool>, std::vector<char32_t>> m;
    for (char32_t c = 0; c < ref::N; ++c)
        m[{ int(ref::WB(c)), ref::extpict(c) }].push_back(c);
    for (auto& [k, v]: m)
        classes.push_back(std::move(v));
}
void judge(char const* who, u32 const& s, Bounds const& got, Bounds const& want)
{
    h::count("segmentations compared");
    if (got != want)
        h::violation(who, h::hex(s), "boundaries " + h::list(got) + " want " + h::list(want));
}
void one(u32 const& s, Bounds const* suite = nullptr)
{
    h::mark("word", s);
    h::exact<char32_t> e(s);
    auto want = ref::word_bounds(s);
    if (suite)
    {
        h::count("conformance lines");
        if (want != *suite)
            h::violation("oracle-vs-conformance-suite", h::hex(s), "model " + h::list(want) + " suite " + h::list(*suite));
    }
    auto v = e.view();
    {
        Bounds b { 0 };
        size_t pos = 0;
        word_segmenter seg(v);
        for (;;)
        {
            auto c = *seg;
            if (c.empty())
                break;
            if (c.data() != v.data() + pos || b.size() > v.size())
            {
                h::violation("segmenter/tiling", h::hex(s), "segment does not start where the last one ended, at " + std::to_string(pos));
                return;
            }
            pos += c.size();
            b.push_back(pos);
            if (seg.codepointsAvailable() != (pos != v.size()))
                h::violation("segmenter/available", h::hex(s), "at " + std::to_string(pos));
            ++seg;
        }
        if (v.empty())
            b.clear();
        judge("segmenter", s, b, want);
    }
    if (v.empty())
        return;
    {
        Bounds b { 0 };
        h::fresh<word_segmenter_state> stFresh;
        auto& st = *stFresh;
        word_process_init(v[0], st);
        for (size_t i = 1; i < v.size(); ++i)
            if (word_process_breakable(v[i], v.data() + i + 1, v.size() - i - 1, st))
                b.push_back(i);
        b.push_back(v.size());
        judge("stateful/continuous", s, b, want);
    }
    {
        Bounds b { 0 };
        static word_segmenter_state st;
        word_process_init(v[0], st);
        for (size_t i = 1; i < v.size(); ++i)
        {
            auto copy = st;
            st = word_segmenter_state {};
            if (word_process_breakable(v[i], v.data() + i + 1, v.size() - i - 1, copy))
            {
                b.push_back(i);
                word_process_init(v[i], copy);
            }
            st = copy;
        }
        b.push_back(v.size());
        judge("stateful/reinitialised", s, b, want);
    }
    if (v.size() <= 12)
    { // copies keep their place, and compare equal exactly if they are at the same word (or both have nothing left)
        std::vector<word_segmenter> at;
        word_segmenter seg(v);
        for (size_t i = 0; i + 1 < want.size(); ++i, ++seg)
            at.push_back(seg);
        for (size_t i = 0; i < at.size(); ++i)
        {
            auto const c = *at[i];
            if (c.data() != v.data() + want[i] || c.size() != want[i + 1] - want[i])
                h::violation("segmenter/copy", h::hex(s), "copy " + std::to_string(i) + " has moved");
            auto other = word_segmenter(v.data() + want[i], v.data() + v.size());
            if (*other != c || !(other == at[i]))
                h::violation("segmenter/resumed", h::hex(s), "from " + std::to_string(want[i]));
            for (size_t j = 0; j < at.size(); ++j)
                if ((at[i] == at[j]) != (i == j))
                    h::violation("segmenter/equality", h::hex(s), std::to_string(i) + " and " + std::to_string(j));
            for (size_t k = want[i] + 1; k < want[i + 1]; ++k)
                if (auto inside = word_segmenter(v.data() + k, v.data() + v.size()); inside == at[i] && at[i].codepointsAvailable())
                    h::violation("segmenter/equality", h::hex(s), "from " + std::to_string(k) + " and " + std::to_string(want[i]));
        }
        h::count("segmenter copies compared", at.size());
    }
    if (v.size() > 1)
    {
        h::g.nontrivial++;
        h::seen("distinct strings", h::hash_str(s));
        h::seen("distinct boundary patterns", h::hash_bytes(want.data(), want.size() * sizeof(size_t)));
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    partition();
    auto const k = classes.size();
    h::count("property classes", h::g.shard == 0 ? k : 0);
    h::Rng r(h::g.seed, 9, uint64_t(h::g.shard));
    auto rep = [&](size_t i) { return ref::from(r, classes[i]); };
    h::shard_loop(ref::wordTests.size(), [&](uint64_t i) { one(ref::wordTests[i].text, &ref::wordTests[i].bounds); });
    one({});
    // every code point between members of the classes that make its own class matter
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            if (c >= 0x20000 && !h::g.thorough && c % 16 && ref::WB(c) == ref::wb::Other_)
                continue;
            one({ U'a', c, U'b' });
            one({ U'1', c, U'2' });
            one({ 0x5D0, c, 0x5D0 });
            one({ 0x1F1E6, c, 0x1F1E7, 0x1F1E8 });
            one({ 0x30A2, c, 0x200D, 0x1F600 });
            h::count("code points in context");
        }
    });
    int const maxlen = h::g.thorough ? 5 : 4;
    for (int len = 1; len <= maxlen; ++len)
    {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i)
            n *= k;
        h::shard_loop(n, [&](uint64_t i) {
            u32 s;
            for (int j = 0; j < len; ++j, i /= k)
                s += rep(i % k);
            one(s);
            h::count("class sequences");
        });
    }
    h::shard_loop(h::tier(40000, 1500000), [&](uint64_t) {
        u32 s;
        size_t a[4] = { r.below(uint32_t(k)), r.below(uint32_t(k)), r.below(uint32_t(k)), r.below(uint32_t(k)) };
        auto n = r.below(r.chance(1, 40) ? 500 : 12);
        for (uint32_t i = 0; i < n; ++i)
            s += rep(a[r.below(4)]);
        one(s);
    });
    ref::stretched_sequences(r, k, rep, [&](u32 const& s) { one(s); }, h::tier(2, 1));
    h::shard_loop(h::tier(40000, 1500000), [&](uint64_t) { one(ref::gen_any_text(r, 16)); });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_any_text(r, 12)));
    return 0;
}
