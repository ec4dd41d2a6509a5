// P07: grapheme cluster boundaries are those of UAX #29, through the segmenter and the stateful API alike.
#include "ref.hpp"
#include <libunicode/capi.h>
#include <libunicode/grapheme_segmenter.h>

using namespace unicode;
using ref::u32;
namespace
{
using Bounds = std::vector<size_t>;
// The complete partition of the code space by the properties the rules look at.
std::vector<std::vector<char32_t>> classes;
void partition()
{
    std::map<std::tuple<int, int, bool, bool>, std::vector<char32_t>> m;
    for (char32_t c = 0; c < ref::N; ++c)
        m[{ int(ref::GCB(c)), int(ref::INCB(c)), ref::extpict(c), c < 0x80 }].push_back(c);
    for (auto& [k, v]: m)
        classes.push_back(std::move(v));
}

void judge(char const* who, u32 const& s, Bounds const& got, Bounds const& want)
{
    h::count("segmentations compared");
    if (got != want)
        h::violation(who, h::hex(s), "boundaries " + h::list(got) + " want " + h::list(want));
}

void one(u32 const& s, Bounds const* suite = nullptr)
{
    h::mark("grapheme", s);
    h::exact<char32_t> e(s);
    auto want = ref::grapheme_bounds(s);
    if (suite)
    {
        h::count("conformance lines");
        if (want != *suite)
            h::violation("oracle-vs-conformance-suite", h::hex(s), "model " + h::list(want) + " suite " + h::list(*suite));
    }
    auto v = e.view();
    { // the segmenter class
        Bounds b { 0 };
        size_t pos = 0;
        grapheme_segmenter seg(v);
        for (;;)
        {
            auto c = *seg;
            if (c.empty())
                break;
            if (c.data() != v.data() + pos || b.size() > v.size())
            {
                h::violation("segmenter/tiling", h::hex(s), "cluster does not start where the last one ended, at " + std::to_string(pos));
                return;
            }
            pos += c.size();
            b.push_back(pos);
            if (bool(seg) != (pos != v.size()) || seg.codepointsAvailable() != (pos != v.size()))
                h::violation("segmenter/available", h::hex(s), "at " + std::to_string(pos));
            ++seg;
        }
        if (v.empty())
            b.clear();
        judge("segmenter", s, b, want);
    }
    if (v.empty())
        return;
    { // the stateful API, driven through the whole text
        Bounds b { 0 };
        h::fresh<grapheme_segmenter_state> stFresh;
        auto& st = *stFresh;
        grapheme_process_init(v[0], st);
        for (size_t i = 1; i < v.size(); ++i)
            if (grapheme_process_breakable(v[i], st))
                b.push_back(i);
        b.push_back(v.size());
        judge("stateful/continuous", s, b, want);
    }
    { // the stateful API, re-initialised at each boundary, on a reused state, with a copy taken mid-way
        Bounds b { 0 };
        static grapheme_segmenter_state st;
        grapheme_process_init(v[0], st);
        for (size_t i = 1; i < v.size(); ++i)
        {
            auto copy = st;
            st = grapheme_segmenter_state {};
            if (grapheme_process_breakable(v[i], copy))
            {
                b.push_back(i);
                grapheme_process_init(v[i], copy);
            }
            st = copy;
        }
        b.push_back(v.size());
        judge("stateful/reinitialised", s, b, want);
    }
    if (v.size() <= 12)
    { // copies keep their place, and compare equal exactly if they are at the same cluster (or both have nothing left)
        std::vector<grapheme_segmenter> at;
        grapheme_segmenter seg(v);
        for (size_t i = 0; i + 1 < want.size(); ++i, ++seg)
            at.push_back(seg);
        for (size_t i = 0; i < at.size(); ++i)
        {
            auto const c = *at[i];
            if (c.data() != v.data() + want[i] || c.size() != want[i + 1] - want[i])
                h::violation("segmenter/copy", h::hex(s), "copy " + std::to_string(i) + " has moved");
            auto other = grapheme_segmenter(v.data() + want[i], v.data() + v.size());
            if (*other != c || !(other == at[i]))
                h::violation("segmenter/resumed", h::hex(s), "from " + std::to_string(want[i]));
            for (size_t j = 0; j < at.size(); ++j)
                if ((at[i] == at[j]) != (i == j))
                    h::violation("segmenter/equality", h::hex(s), std::to_string(i) + " and " + std::to_string(j));
            for (size_t k = want[i] + 1; k < want[i + 1]; ++k)
                if (auto inside = grapheme_segmenter(v.data() + k, v.data() + v.size()); inside == at[i] && at[i].codepointsAvailable())
                    h::violation("segmenter/equality", h::hex(s), "from " + std::to_string(k) + " and " + std::to_string(want[i]));
        }
        h::count("segmenter copies compared", at.size());
    }
    if (v.size() > 1)
    {
        h::g.nontrivial++;
        h::seen("distinct strings", h::hash_str(s));
        h::seen("distinct boundary patterns", h::hash_bytes(want.data(), want.size() * sizeof(size_t)));
    }
}
void pair(char32_t a, char32_t b)
{
    char32_t s[2] = { a, b };
    bool want = !ref::grapheme_break({ s, 2 }, 1);
    bool got = u32_grapheme_unbreakable(a, b) != 0;
    h::count("pairs compared");
    if (got != want)
        h::violation("u32_grapheme_unbreakable", h::cphex(a) + " " + h::cphex(b), got ? "joined" : "broken");
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    partition();
    auto const k = classes.size();
    h::count("property classes", h::g.shard == 0 ? k : 0);
    h::Rng r(h::g.seed, 7, uint64_t(h::g.shard));
    auto rep = [&](size_t i) { return ref::from(r, classes[i]); };
    h::shard_loop(ref::graphemeTests.size(), [&](uint64_t i) { one(ref::graphemeTests[i].text, &ref::graphemeTests[i].bounds); });
    one({});
    // every code point next to a member of every class
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            h::mark("pair", &c, 4, 4);
            for (size_t i = 0; i < k; ++i)
            {
                auto x = rep(i);
                pair(c, x);
                pair(x, c);
            }
        }
    });
    // every code point in the contexts that carry state across it
    static std::vector<std::pair<u32, u32>> const contexts = {
        { U"a", U"\u200D\U0001F600" }, { U"\u00E9", U"\u200D\U0001F600" }, { U"\U0001F600", U"\u200D\u00A9" }, { U"\u00AE", U"\u200D\U0001F600" },
        { U"\U0001F600\u200D", U"\u200D\U0001F600" }, { U"", U"\u094D\u0915" }, { U"\u0915", U"\u094D\u0915" }, { U"\u0915\u094D", U"\u0915" },
        { U"\u0915\u094D\u0301", U"\u0915\u094D\u0915" }, { U"\U0001F1E6", U"\U0001F1E6\U0001F1E6\U0001F1E6" }, { U"\u1100", U"\u1161\u11A8" },
        { U"\u0600", U"\u0301\u0903" }, { U"\r", U"\n" }
    };
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            auto const inert = ref::GCB(c) == ref::gcb::Other_ && !ref::extpict(c) && int(ref::INCB(c)) == int(ref::INCB(0x41)) && c >= 0x3000;
            if (inert && !h::g.thorough && c % 16 != b % 16)
                continue;
            for (auto& [x, y]: contexts)
                one(x + c + y);
            h::count("code points in context");
        }
    });
    // every sequence of classes up to a length
    int const maxlen = h::g.thorough ? 5 : 4;
    for (int len = 1; len <= maxlen; ++len)
    {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i)
            n *= k;
        h::shard_loop(n, [&](uint64_t i) {
            u32 s;
            for (int j = 0; j < len; ++j, i /= k)
                s += rep(i % k);
            one(s);
            h::count("class sequences");
        });
    }
    // long runs of few classes: counters and look-behind states must survive them
    h::shard_loop(h::tier(30000, 1500000), [&](uint64_t) {
        u32 s;
        size_t a[3] = { r.below(uint32_t(k)), r.below(uint32_t(k)), r.below(uint32_t(k)) };
        auto n = r.below(r.chance(1, 40) ? 700 : 14);
        for (uint32_t i = 0; i < n; ++i)
            s += rep(a[r.below(3)]);
        one(s);
    });
    ref::stretched_sequences(r, k, rep, [&](u32 const& s) { one(s); });
    h::shard_loop(h::tier(40000, 1500000), [&](uint64_t) { one(ref::gen_any_text(r, 16)); });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_any_text(r, 12)));
    return 0;
}
